"""Seams: every source of nondeterminism the code under test can reach goes through here.

Imported before anything of /repo (and before rx / thespian), so that names those modules
capture at import time are already the seamed ones.  With no simulation active (CUR is None)
every seam falls through to the real thing.
"""
import sys

sys.dont_write_bytecode = True

import _thread
import builtins
import io
import os
import pathlib
import random
import threading
import time
import uuid
import warnings
import logging
import logging.config
import logging.handlers
import multiprocessing
import concurrent.futures
import types

warnings.simplefilter("ignore")

REPO = os.environ.get("EVOGIL_SIM_REPO", "/repo")


class SimStop(BaseException):
    """Base of everything the simulator throws through the code under test."""


class SimCrash(SimStop):
    """The simulated process has just been killed."""


class SimKill(SimStop):
    """Run is over; the thread has to go away."""


class SimDeadlock(SimStop):
    """Nothing can run any more while somebody still waits."""


class SimLimit(SimStop):
    """Step budget of the run exhausted: no progress."""


class SimEscape(SimStop):
    """Code under test tried to change something outside its scratch directory."""


CUR = None


def cur():
    return CUR


def set_current(sim):
    global CUR
    CUR = sim


class _Real:
    pass


R = _Real()
R.open = builtins.open
R.time = time.time
R.monotonic = time.monotonic
R.sleep = time.sleep
R.urandom = os.urandom
R.getpid = os.getpid
R.lock = _thread.allocate_lock
R.start_new_thread = _thread.start_new_thread
R.get_ident = _thread.get_ident
for _n in (
    "listdir scandir mkdir rmdir remove unlink rename replace link symlink truncate open "
    "fsync stat chmod utime nice close write read fork kill fdatasync chown lchown "
    "makedirs removedirs"
).split():
    setattr(R, _n, getattr(os, _n, None))
R.os_open = os.open
R.open = builtins.open


# ------------------------------------------------------------------ clock
def _install_time():
    def wrap(name, fn):
        real = getattr(time, name)

        def seam(*a, **k):
            s = CUR
            if s is None:
                return real(*a, **k)
            return fn(s, *a, **k)

        seam.__name__ = name
        setattr(R, "t_" + name, real)
        setattr(time, name, seam)

    wrap("time", lambda s: s.clock.wall())
    wrap("time_ns", lambda s: int(s.clock.wall() * 1e9))
    wrap("monotonic", lambda s: s.clock.mono())
    wrap("monotonic_ns", lambda s: int(s.clock.mono() * 1e9))
    wrap("perf_counter", lambda s: s.clock.perf())
    wrap("perf_counter_ns", lambda s: int(s.clock.perf() * 1e9))
    wrap("process_time", lambda s: s.clock.cpu())
    wrap("process_time_ns", lambda s: int(s.clock.cpu() * 1e9))
    if hasattr(time, "thread_time"):
        wrap("thread_time", lambda s: s.clock.cpu())
    wrap("sleep", lambda s, d: s.sleep(d))
    for name in ("localtime", "gmtime", "ctime"):
        real = getattr(time, name)

        def mk(real):
            def seam(secs=None):
                s = CUR
                if secs is None and s is not None:
                    secs = s.clock.wall()
                return real(secs) if secs is not None else real()

            return seam

        setattr(time, name, mk(real))
    real_strftime = time.strftime

    def strftime(fmt, t=None):
        if t is None:
            t = time.localtime()
        return real_strftime(fmt, t)

    time.strftime = strftime


# ------------------------------------------------------------------ entropy
def _install_entropy():
    def urandom(n):
        s = CUR
        return R.urandom(n) if s is None else s.entropy(n)

    os.urandom = urandom
    random._urandom = urandom
    uuid._generate_time_safe = None
    real_seed = random.Random.seed

    def seed(self, a=None, version=2):
        if a is None and CUR is not None:
            a = int.from_bytes(CUR.entropy(32), "big")
        return real_seed(self, a, version)

    random.Random.seed = seed
    random.seed = random._inst.seed

    def getpid():
        s = CUR
        return R.getpid() if s is None else s.getpid()

    os.getpid = getpid
    if hasattr(os, "nice"):
        os.nice = lambda inc: R.nice(inc) if CUR is None else CUR.note_nice(inc)


# ------------------------------------------------------------------ threads
class SimLock:
    """Replacement of _thread.lock; blocking is a decision of the scheduler."""

    __slots__ = ("_locked", "_waiters", "__weakref__")

    def __init__(self):
        self._locked = False
        self._waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = CUR
        sched = s.sched if s is not None else None
        if sched is not None and sched.multi():
            sched.maybe_switch("lock")
        if not self._locked:
            self._locked = True
            return True
        if not blocking:
            return False
        if sched is None:
            if s is not None:
                raise RuntimeError("simulated lock would block without a scheduler")
            # outside a run (module imports that start real threads): wait for real
            t_end = R.monotonic() + (timeout if timeout is not None and timeout > 0 else 30.0)
            while self._locked:
                if R.monotonic() > t_end:
                    if timeout is not None and timeout > 0:
                        return False
                    raise RuntimeError("simulated lock never released outside a simulation")
                R.sleep(0.0005)
            self._locked = True
            return True
        return sched.wait_lock(self, timeout)

    def release(self):
        if not self._locked:
            s = CUR
            if s is not None and s.sched is not None:
                p = s.sched.current_proc()
                if p is not None and p.dead:
                    return  # a killed process unwinds; nobody can see its locks
            raise RuntimeError("release unlocked lock")
        self._locked = False
        s = CUR
        if s is not None and s.sched is not None:
            s.sched.lock_released(self)

    def locked(self):
        return self._locked

    __enter__ = acquire
    acquire_lock = acquire
    release_lock = release
    locked_lock = locked

    def __exit__(self, *a):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


def _install_threads():
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading._CRLock = None
    threading._set_sentinel = SimLock
    threading._active_limbo_lock = SimLock()

    real_hook = threading.excepthook

    def excepthook(args):
        # Thread swallows whatever ends it; the simulation has to hear about it
        s = CUR
        if s is None:
            return real_hook(args)
        e = args.exc_value
        s.log("thread", "dies", type(e).__name__, str(e)[:200])
        s.thread_errors.append(e)
        if isinstance(e, (SimDeadlock, SimLimit)) and s.stuck is None:
            s.stuck = e

    threading.excepthook = excepthook

    def start_new_thread(fn, args=(), kwargs=None):
        s = CUR
        if s is None or s.sched is None:
            return R.start_new_thread(fn, args, kwargs or {})
        return s.sched.spawn_thread(fn, args, kwargs or {})

    threading._start_new_thread = start_new_thread
    # logging took its module lock before the seam
    logging._lock = threading.RLock()


# ------------------------------------------------------------------ files
WRITE_CHARS = set("wax+")


def _path(p):
    try:
        p = os.fspath(p)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    return os.path.abspath(p)


def _install_fs():
    def seam_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None,
                  closefd=True, opener=None):
        s = CUR
        if s is not None and s.fs is not None and isinstance(file, int) and any(c in mode for c in "wax+"):
            try:
                path = os.readlink("/proc/self/fd/%d" % file)
            except OSError:
                path = "?"
            if s.fs.inside(path):
                return s.fs.wrap(s.fs.raw(path, mode, file, closefd), mode, buffering, encoding, errors, newline)
        if s is None or s.fs is None or isinstance(file, int):
            return R.open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        return s.fs.open(file, mode, buffering, encoding, errors, newline)

    builtins.open = seam_open
    io.open = seam_open

    def wrap1(name, handler, n=1):
        real = getattr(os, name, None)
        if real is None:
            return

        def seam(*a, **k):
            s = CUR
            if s is None or s.fs is None:
                return real(*a, **k)
            return getattr(s.fs, handler)(real, *a, **k)

        seam.__name__ = name
        setattr(os, name, seam)
        for cand in (name, {"link": "link_to"}.get(name)):
            if cand and cand in pathlib._NormalAccessor.__dict__:
                setattr(pathlib._NormalAccessor, cand, staticmethod(seam))

    R.stat = os.stat
    wrap1("stat", "stat")
    wrap1("listdir", "listdir")
    wrap1("scandir", "scandir")
    wrap1("mkdir", "mkdir")
    wrap1("rmdir", "rmdir")
    wrap1("remove", "unlink")
    wrap1("unlink", "unlink")
    wrap1("rename", "rename")
    wrap1("replace", "rename")
    wrap1("link", "link")
    wrap1("symlink", "link")
    wrap1("truncate", "generic_mut")
    wrap1("chmod", "generic_mut")
    wrap1("utime", "generic_mut")
    wrap1("chown", "generic_mut")
    wrap1("open", "os_open")
    wrap1("write", "os_write")
    wrap1("fsync", "os_fsync")
    wrap1("fdatasync", "os_fsync")
    wrap1("kill", "forbidden")
    wrap1("killpg", "forbidden")
    wrap1("system", "forbidden")
    wrap1("chroot", "forbidden")
    wrap1("setuid", "forbidden")
    pathlib._NormalAccessor.open = staticmethod(os.open)


def _install_misc():
    # log set-up of the code under test must not open files or touch our stderr
    real_dc = logging.config.dictConfig

    def dictConfig(cfg):
        s = CUR
        if s is None:
            return real_dc(cfg)
        s.on_logging_config(cfg)

    logging.config.dictConfig = dictConfig
    logging.raiseExceptions = False
    # multiprocessing: in-simulation processes
    import sim.simmp as simmp

    simmp.install()


_installed = False


class SimSocket:
    """all the network a program under test may use: finding a free port"""

    def __init__(self, *a, **k):
        self.port = 0

    def bind(self, addr):
        if addr[1]:
            self.port = addr[1]
        else:
            cur().ports += 1
            self.port = cur().ports

    def getsockname(self):
        return ("0.0.0.0", self.port)

    def setsockopt(self, *a):
        pass

    def close(self):
        pass

    listen = setsockopt

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def _install_socket():
    import socket

    class Socket(socket.socket):
        def __new__(cls, *a, **k):
            return SimSocket() if cur() is not None else super().__new__(cls, *a, **k)

    socket.socket = Socket


def install():
    global _installed
    if _installed:
        return
    _installed = True
    os.environ["TZ"] = "UTC"
    time.tzset()
    _install_time()
    _install_entropy()
    _install_threads()
    _install_fs()
    _install_misc()
    _install_socket()
    import sim.actors as actors

    actors.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)


def stable_identity_hashes():
    """Instances of algorithm classes end up in sets; their address based hash would make the
    iteration order depend on the memory layout of the process.  Give them a serial number
    (identity semantics unchanged)."""
    counter = [0]

    def __hash__(self):
        d = self.__dict__
        h = d.get("_sim_hash")
        if h is None or h[0] != id(self):
            counter[0] += 1
            d["_sim_hash"] = h = (id(self), counter[0])
        return h[1]

    done = 0
    for name, mod in list(sys.modules.items()):
        if not (name.startswith("algorithms.") and getattr(mod, "__file__", None)):
            continue
        for cls in list(vars(mod).values()):
            if isinstance(cls, type) and cls.__module__ == name:
                done += _stabilise(cls, __hash__)
    return done


def _stabilise(cls, fn):
    n = 0
    if cls.__hash__ is object.__hash__ and cls.__eq__ is object.__eq__ and not hasattr(cls, "__slots__"):
        try:
            cls.__hash__ = fn
            n += 1
        except TypeError:
            pass
    for sub in list(vars(cls).values()):
        if isinstance(sub, type) and sub.__module__ == cls.__module__ and sub is not cls and sub.__qualname__.startswith(cls.__qualname__ + "."):
            n += _stabilise(sub, fn)
    return n

"""Scheduler: simulated threads are real threads parked on private locks; exactly one runs,
and which one is a recorded decision.  Blocking primitives, sleeps and file operations are the
switch points."""
import _thread

from sim import seams
from sim.seams import R, SimCrash, SimKill, SimDeadlock, SimLimit


class Proc:
    """A simulated OS process: threads that die together."""

    def __init__(self, name, pid):
        self.name = name
        self.pid = pid
        self.dead = False
        self.rstate = None
        self.actors = None  # its actor system
        self.slow = 0.0  # simulated seconds each of its file operations takes longer
        self.hold = None  # (n, seconds[, word]): stopped once, for so long, before its n-th file operation [on a path with the word]
        self.ops = 0

    def __repr__(self):
        return "P(%s)" % self.name


class Task:
    __slots__ = ("name", "proc", "go", "state", "deadline", "waiting", "kill", "result", "error",
                 "woken", "ident", "timed_out")

    def __init__(self, name, proc):
        self.name = name
        self.proc = proc
        self.go = R.lock()
        self.go.acquire()
        self.state = "ready"  # ready running blocked done
        self.deadline = None
        self.waiting = None
        self.kill = None
        self.result = None
        self.error = None
        self.ident = None
        self.timed_out = False

    def __repr__(self):
        return "T(%s)" % self.name


class Scheduler:
    def __init__(self, sim, switch_p=0.2):
        self.sim = sim
        self.stall_p = sim.cfg.get("stall_p", 0)
        self.switch_p = switch_p  # probability of pre-empting at a non-blocking switch point
        self.tasks = []
        self.running = None
        self.back = R.lock()
        self.back.acquire()
        self.by_ident = {}
        self.seq = 0
        self.switches = 0
        self.per_proc_random = False
        self.main_proc = Proc("main", sim.pid)
        self._pl = []

    # ---- queries
    def active(self):
        return self.running is not None

    def multi(self):
        return self.running is not None and len(self.tasks) > 1

    def current_proc(self):
        t = self.by_ident.get(R.get_ident())
        return t.proc if t is not None else None

    # ---- creating
    def spawn(self, name, fn, proc=None):
        if proc is None:
            proc = self.current_proc() or self.main_proc
        t = Task(name, proc)
        self.tasks.append(t)

        def boot():
            t.ident = R.get_ident()
            self.by_ident[t.ident] = t
            t.go.acquire()
            try:
                if t.kill is not None:
                    raise t.kill
                t.result = fn()
            except SimKill:
                pass
            except BaseException as e:  # noqa
                t.error = e
                self.sim.log("thread", t.name, "ended by", type(e).__name__, str(e)[:200])
                if isinstance(e, (SimDeadlock, SimLimit)) and self.sim.stuck is None:
                    self.sim.stuck = e  # the reason; what waits for this thread is the consequence
            t.state = "done"
            self.by_ident.pop(t.ident, None)
            self.tasks.remove(t)
            self.back.release()

        R.start_new_thread(boot, ())
        return t

    def spawn_thread(self, fn, args, kwargs):
        self.seq += 1
        th = getattr(fn, "__self__", None)

        def body():
            try:
                fn(*args, **kwargs)
            finally:
                lock = getattr(th, "_tstate_lock", None)
                if lock is not None and lock.locked():
                    lock.release()

        t = self.spawn("thread-%d" % self.seq, body)
        self.sim.log("spawn", t.name)
        self.maybe_switch("spawn")
        return self.seq

    # ---- the loop (runs in the controlling thread)
    def run(self, fn, name="main"):
        main = self.spawn(name, fn, self.main_proc)
        self._loop(lambda: main.state == "done")
        if main.error is not None:
            raise main.error
        return main.result

    def run_all(self, tasks):
        self._loop(lambda: all(t.state == "done" for t in tasks))

    def _loop(self, finished):
        while not finished():
            if self._pl:
                self.poke()
            self._due()
            ready = [t for t in self.tasks if t.state == "ready"]
            if not ready:
                timed = [t for t in self.tasks if t.state == "blocked" and t.deadline is not None]
                if timed:
                    t = min(timed, key=lambda x: x.deadline)
                    clk = self.sim.clock
                    if t.deadline > clk.t:
                        clk.t = t.deadline
                    t.state = "ready"
                    t.timed_out = True
                    continue
                raise SimDeadlock(
                    "all threads are blocked: %s"
                    % ", ".join("%s@%s%s" % (t.name, t.waiting, where(t)) for t in self.tasks)
                )
            self.sim.tick()
            t = ready[self.sim.choose(len(ready), 0.3)] if len(ready) > 1 else ready[0]
            self._switch_to(t)

    def _due(self):
        """time may have passed those by who wait for it"""
        now = self.sim.clock.t
        for t in self.tasks:
            if t.state == "blocked" and t.deadline is not None and t.deadline <= now:
                t.state = "ready"
                t.timed_out = True

    def _switch_to(self, t):
        self.switches += 1
        t.state = "running"
        prev_proc = self._random_owner
        if self.per_proc_random and t.proc is not prev_proc:
            import random

            from sim import actors

            if prev_proc is not None:
                prev_proc.rstate = random.getstate()
                prev_proc.actors = actors.get_global()
            actors.set_global(t.proc.actors)
            if t.proc.rstate is not None:
                random.setstate(t.proc.rstate)
            self._random_owner = t.proc
        self.running = t
        t.go.release()
        self.back.acquire()
        self.running = None

    _random_owner = None

    # ---- called from tasks
    def _park(self, t):
        self.back.release()
        t.go.acquire()
        if t.kill is not None:
            raise t.kill
        if t.proc.dead:
            raise SimCrash()

    def here(self):
        """called from a simulated thread?"""
        return R.get_ident() in self.by_ident

    def maybe_switch(self, why):
        t = self.by_ident.get(R.get_ident())
        if t is None:
            return
        if t.proc.dead:
            raise SimCrash()
        others = False
        now = self.sim.clock.t
        for x in self.tasks:
            if x is not t and (x.state == "ready" or (x.state == "blocked" and x.deadline is not None and x.deadline <= now)):
                others = True
                break
        if not others:
            return
        if self.stall_p and self.sim.choose(2, 1 - self.stall_p):
            # the process gets no CPU for a while: what runs next may finish before it goes on
            self.sim.fired("stalled_process")
            t.state = "blocked"
            t.deadline = self.sim.clock.t + (0.01, 1.0, 1000.0)[self.sim.choose(3)]
            t.waiting = "stall"
            self._park(t)
            t.deadline = None
            return
        if not self.sim.choose(2, 1 - self.switch_p):
            return
        t.state = "ready"
        self._park(t)

    def wait_lock(self, lock, timeout):
        t = self.by_ident.get(R.get_ident())
        if t is None:
            raise SimDeadlock("blocking wait outside a simulated thread")
        sim = self.sim
        deadline = None
        if timeout is not None and timeout >= 0:
            deadline = sim.clock.t + timeout
        while lock._locked:
            if deadline is not None and sim.clock.t >= deadline:
                return False
            t.state = "blocked"
            t.deadline = deadline
            t.waiting = "lock"
            t.timed_out = False
            lock._waiters.append(t)
            try:
                self._park(t)
            finally:
                if t in lock._waiters:
                    lock._waiters.remove(t)
                t.deadline = None
                t.waiting = None
        lock._locked = True
        return True

    def lock_released(self, lock):
        if lock._waiters:
            for t in lock._waiters:
                if t.state == "blocked":
                    t.state = "ready"

    def sleep(self, d):
        t = self.by_ident.get(R.get_ident())
        if t is None:
            self.sim.clock.advance(d)
            return
        if not self.multi():
            self.sim.clock.advance(d)
            return
        t.state = "blocked"
        t.deadline = self.sim.clock.t + d
        t.waiting = "sleep"
        self._park(t)
        t.deadline = None

    def wait_until(self, pred, why):
        """block the current task until pred() (polled whenever something ran)"""
        t = self.by_ident.get(R.get_ident())
        while not pred():
            if t is None:
                raise SimDeadlock("waiting for %s outside a simulated thread" % why)
            t.state = "blocked"
            t.waiting = why
            self._pl.append((t, pred))
            self._park(t)

    def poke(self):
        """re-evaluate pollers (called after a state change they may wait for)"""
        keep = []
        for t, pred in self._pl:
            if t.state == "blocked":
                if pred():
                    t.state = "ready"
                else:
                    keep.append((t, pred))
        self._pl = keep

    def abandon(self):
        """give up on everything that still waits"""
        for t in list(self.tasks):
            t.proc.dead = True
        self._drain(lambda t: True)

    def reap(self, proc):
        """the process ended: its remaining (daemon) threads vanish"""
        proc.dead = True
        self._drain(lambda t: t.proc is proc)

    def _drain(self, which):
        for _ in range(20):
            left = [t for t in self.tasks if which(t) and t.state != "done"]
            if not left:
                return
            for t in left:
                if t.state in ("blocked", "ready"):
                    t.kill = SimKill()
                    t.deadline = None
                    self._switch_to(t)

    def crash_proc(self, proc):
        """process is gone: its other threads never run again"""
        proc.dead = True
        for t in list(self.tasks):
            if t.proc is proc and t.state in ("blocked", "ready"):
                t.kill = SimCrash()
                t.state = "ready"


def where(t):
    """the innermost frames of a parked thread that are not the simulator's"""
    import sys

    f = sys._current_frames().get(t.ident)
    out = []
    while f is not None and len(out) < 3:
        fn = f.f_code.co_filename
        if "/sim/" not in fn and not fn.endswith("threading.py"):
            out.append("%s:%s" % (fn.rsplit("/", 1)[-1], f.f_code.co_name))
        f = f.f_back
    return "[%s]" % " < ".join(out)

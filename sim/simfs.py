"""Simulated file system: the scratch directory of the run, reached through seams that count
every operation, may be short, fail (disk full, I/O error) or kill the process there, and shuffle
directory listings.  Nothing outside the scratch directory can be changed from inside a run.

Fault model: process kill and I/O errors.  What a write() system call has taken survives the
kill (page cache); user-space buffers do not.  Power loss is not modelled (see DESIGN.md)."""
import errno
import io
import os
import stat as statmod

from sim.seams import R, SimCrash

MUT = "mut"


def strip(p):
    return p


def _exists(p):
    try:
        R.stat(p)
    except OSError:
        return False
    return True


class SimRaw(io.RawIOBase):
    """System-call level of a file opened for writing."""

    def __init__(self, fs, path, mode, fd=None, closefd=True):
        self.fs = fs
        self.path = path
        self.name = path
        self.mode = mode
        self._proc = fs._proc()
        self._real = io.FileIO.__new__(io.FileIO)
        if fd is None:
            io.FileIO.__init__(self._real, path, mode)
        else:
            io.FileIO.__init__(self._real, fd, mode, closefd)
        self._readable = self._real.readable()

    def readable(self):
        return self._readable

    def writable(self):
        return True

    def seekable(self):
        return True

    def fileno(self):
        return self._real.fileno()

    def readinto(self, b):
        return self._real.readinto(b)

    def seek(self, off, whence=0):
        return self._real.seek(off, whence)

    def tell(self):
        return self._real.tell()

    def truncate(self, size=None):
        self.fs.gate("truncate", self.path, ("crash", "eio"), self._proc)
        return self._real.truncate(size)

    def write(self, b):
        data = bytes(b)
        fs = self.fs
        f = fs.gate("write", self.path, ("crash", "enospc", "eio", "short"), self._proc, raise_=False)
        if f is None:
            n = len(data)
            cs = fs.chunk
            if cs and n > cs:
                n = cs  # legal short write: the buffered layer has to come back for the rest
                fs.sim.fired("short_write")
            k = self._real.write(data[:n])
            fs.changed(self.path)
            return k
        part = int(len(data) * f.get("arg", 0.5))
        kind = f["kind"]
        if kind == "short":
            part = max(1, part)
            k = self._real.write(data[:part])
            fs.changed(self.path)
            return k
        if part:
            self._real.write(data[:part])
            fs.changed(self.path)
        if kind == "crash":
            fs.crash(self._proc)
        raise OSError(errno.ENOSPC if kind == "enospc" else errno.EIO, "simulated " + kind, self.path)

    def close(self):
        if not self.closed:
            try:
                super().close()
            finally:
                self._real.close()


class SimFS:
    def __init__(self, sim, root):
        self.sim = sim
        self.root = os.path.realpath(root)
        cfg = sim.cfg
        self.order = cfg.get("dir_order", "sorted")
        self.chunk = cfg.get("write_chunk", 0)
        self.bufsize = cfg.get("bufsize", 8192)
        self.op_time = cfg.get("io_time", 0.0)
        self.slow_p = cfg.get("slow_io", 0.0)
        self.ops = 0
        self.mut_ops = 0
        self.on_change = None  # callback(path) after a change became visible
        self.dead = False
        self.proc_faults = True
        self.trace_paths = False

    # ---------------------------------------------------------------- helpers
    def _abs(self, p):
        try:
            p = os.fspath(p)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        return os.path.abspath(p)

    def inside(self, p):
        p = self._abs(p)
        if p is None:
            return False
        d, b = os.path.split(p)
        rp = os.path.join(os.path.realpath(d), b)
        return rp == self.root or rp.startswith(self.root + "/")

    def rel(self, p):
        p = self._abs(p) or "?"
        if p.startswith(self.root + "/"):
            return p[len(self.root) + 1:]
        return p

    def _proc(self):
        s = self.sim.sched
        return s.current_proc() if s is not None else None

    def _dead(self, proc):
        return proc.dead if proc is not None else self.dead

    def crash(self, proc):
        self.sim.fired("crash")
        self.sim.log("fs", "CRASH", proc)
        if proc is not None:
            self.sim.sched.crash_proc(proc)
        else:
            self.dead = True
        raise SimCrash()

    def revive(self):
        self.dead = False

    def changed(self, path):
        if self.on_change is not None:
            self.on_change(self._abs(path))

    def escape(self, op, path):
        self.sim.escapes.append((op, str(path)))
        self.sim.log("fs", "ESCAPE", op, str(path))
        raise PermissionError(errno.EPERM, "simulator: %s outside the scratch directory" % op, str(path))

    def gate(self, op, path, kinds, proc=None, raise_=True):
        """every operation of the code under test on the scratch directory passes here"""
        sim = self.sim
        if proc is None:
            proc = self._proc()
        if self._dead(proc):
            raise SimCrash()
        sim.tick()
        self.ops += 1
        if proc is not None:
            if proc.hold and (len(proc.hold) == 2 or proc.hold[2] in str(path)):
                proc.ops += 1
            if proc.hold and proc.ops >= proc.hold[0]:
                d, proc.hold = proc.hold[1], None
                sim.fired("held_process")
                sim.sched.sleep(d)
        if self.op_time or (proc is not None and proc.slow):
            d = self.op_time + (proc.slow if proc is not None else 0)
            if self.slow_p and sim.rng.random() < self.slow_p:
                d *= 500
                sim.fired("slow_io")
            if sim.sched is None:
                sim.clock.advance(d)
            else:
                sim.sched.sleep(d)  # others run meanwhile
        if sim.sched is not None and sim.sched.multi():
            sim.sched.maybe_switch("fs")
            if self._dead(proc):
                raise SimCrash()
        dom = "fs" if proc is None else "fs:" + proc.name
        f = sim.faults.site(dom, kinds) if kinds and self.proc_faults else None
        sim.log("fs", op, self.rel(path), f["kind"] if f else "")
        if f is None:
            return None
        if f["kind"] != "crash":
            sim.fired(f["kind"] if f["kind"] != "short" else "short_write")
        if not raise_:
            return f
        if f["kind"] == "crash":
            self.crash(proc)
        if f["kind"] == "crash_after":
            return f
        raise OSError(
            {"enospc": errno.ENOSPC, "eio": errno.EIO, "read_eio": errno.EIO, "emfile": errno.EMFILE}[f["kind"]],
            "simulated " + f["kind"], str(path),
        )

    # ---------------------------------------------------------------- open
    def open(self, file, mode, buffering, encoding, errors, newline):
        writing = any(c in mode for c in "wax+")
        if not writing:
            if self.inside(file):
                if _exists(file):
                    self.gate("open_r", file, ("read_eio", "emfile"))
                else:
                    self.gate("open_r", file, ())
            return R.open(file, mode, buffering, encoding, errors, newline)
        if not self.inside(file):
            self.escape("open(%s)" % mode, file)
        path = self._abs(file)
        rawmode = mode.replace("b", "").replace("t", "")
        f = self.gate("open_w", path, ("crash", "enospc", "eio", "emfile", "crash_after"))
        raw = SimRaw(self, path, rawmode)
        self.changed(path)
        if f is not None:  # crash right after the file was created / truncated
            self.crash(raw._proc)
        return self.wrap(raw, mode, buffering, encoding, errors, newline)

    def raw(self, path, mode, fd, closefd):
        return SimRaw(self, path, mode.replace("b", "").replace("t", ""), fd, closefd)

    def wrap(self, raw, mode, buffering, encoding, errors, newline):
        if buffering == 0:
            return raw
        size = self.bufsize
        if "+" in mode:
            buf = io.BufferedRandom(raw, size)
        else:
            buf = io.BufferedWriter(raw, size)
        if "b" in mode:
            return buf
        t = io.TextIOWrapper(buf, encoding, errors, newline, buffering == 1)
        t.mode = mode
        return t

    def os_open(self, real, path, flags, mode=0o777, *, dir_fd=None):
        writing = flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC | os.O_APPEND)
        if not writing:
            return real(path, flags, mode, dir_fd=dir_fd)
        if not self.inside(path):
            self.escape("os.open", path)
        self.gate("open_w", path, ("crash", "enospc", "eio"))
        fd = real(path, flags, mode, dir_fd=dir_fd)
        self.changed(path)
        return fd

    def os_write(self, real, fd, data):
        try:
            path = os.readlink("/proc/self/fd/%d" % fd)
        except OSError:
            path = "?"
        if not self.inside(path):
            return real(fd, data)
        f = self.gate("write", path, ("crash", "enospc", "eio", "short"), raise_=False)
        if f is None:
            n = real(fd, data)
            self.changed(path)
            return n
        part = data[: int(len(data) * f.get("arg", 0.5))]
        if f["kind"] == "short":
            return real(fd, data[: max(1, len(part))])
        if part:
            real(fd, part)
        if f["kind"] == "crash":
            self.crash(self._proc())
        raise OSError(errno.ENOSPC if f["kind"] == "enospc" else errno.EIO, "simulated", path)

    def os_fsync(self, real, fd):
        proc = self._proc()
        if self._dead(proc):
            raise SimCrash()
        f = self.gate("fsync", "fd", ("crash", "eio"))
        return None

    # ---------------------------------------------------------------- directory reads
    def _permute(self, names):
        names.sort()
        if self.order == "reversed":
            names.reverse()
        elif self.order == "random":
            n = len(names)
            for i in range(n - 1, 0, -1):
                j = self.sim.choose(i + 1, 0.1)
                # 0 = leave in place
                j = i - j
                names[i], names[j] = names[j], names[i]
        return names

    def stat(self, real, path, *a, **k):
        """looking is an operation too: what was seen may be outdated when it is acted upon"""
        if not a and not k and self.sim.sched is not None and self.sim.sched.here() and self.inside(path):
            try:
                return real(path)
            finally:
                self.gate("stat", path, ())
        return real(path, *a, **k)

    def listdir(self, real, path="."):
        if not self.inside(path):
            return real(path)
        self.gate("listdir", path, ("read_eio", "emfile"))
        return self._permute(real(path))

    def scandir(self, real, path="."):
        if not self.inside(path):
            return real(path)
        self.gate("scandir", path, ("read_eio", "emfile"))
        with real(path) as it:
            entries = {e.name: e for e in it}
        return _Scan([entries[n] for n in self._permute(list(entries))])

    # ---------------------------------------------------------------- changes
    def _mut(self, op, path, kinds, do):
        if not self.inside(path):
            self.escape(op, path)
        f = self.gate(op, path, kinds)
        r = do()
        self.changed(path)
        if f is not None:
            self.crash(self._proc())
        return r

    def mkdir(self, real, path, mode=0o777, *, dir_fd=None):
        if not self.inside(path) and _exists(self._abs(path) or ""):
            return real(path, mode)
        return self._mut("mkdir", path, ("crash", "crash_after", "enospc", "eio"), lambda: real(path, mode))

    def rmdir(self, real, path, *, dir_fd=None):
        return self._mut("rmdir", path, ("crash", "crash_after", "eio"), lambda: real(path))

    def unlink(self, real, path, *, dir_fd=None):
        return self._mut("unlink", path, ("crash", "crash_after", "eio"), lambda: real(path))

    def rename(self, real, src, dst, *, src_dir_fd=None, dst_dir_fd=None):
        if not self.inside(src):
            self.escape("rename", src)
        return self._mut("rename", dst, ("crash", "crash_after", "enospc", "eio"), lambda: real(src, dst))

    def link(self, real, src, dst, *a, **k):
        return self._mut("link", dst, ("crash", "eio"), lambda: real(src, dst, *a, **k))

    def generic_mut(self, real, path, *a, **k):
        return self._mut(real.__name__, path, ("crash", "eio"), lambda: real(path, *a, **k))

    def forbidden(self, real, *a, **k):
        self.escape(real.__name__, a)


class _Scan:
    def __init__(self, entries):
        self._it = iter(entries)

    def __iter__(self):
        return self._it

    def __next__(self):
        return next(self._it)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass

    def close(self):
        pass


def tree(root):
    """{relative path: bytes | None for directories} read behind the seams"""
    out = {}

    def walk(d, rel):
        for name in sorted(R.listdir(d)):
            p = os.path.join(d, name)
            r = rel + "/" + name if rel else name
            if statmod.S_ISDIR(R.stat(p).st_mode):
                out[r] = None
                walk(p, r)
            else:
                with R.open(p, "rb") as fh:
                    out[r] = fh.read()

    walk(root, "")
    return out

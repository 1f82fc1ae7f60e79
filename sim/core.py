"""The simulation: one PRNG, one clock, one log of events, one trace of decisions and faults."""
import hashlib
import logging
import math
import random
import re
import zlib

from sim import seams
from sim.seams import SimCrash, SimLimit, SimStop

T0 = 1_500_000_000.0


class Decisions:
    """Every scheduling decision is `choose(n)`.  Generating: drawn from the run's PRNG and
    recorded.  Replaying: taken from the recorded list, 0 (the default: no delay, program
    order) once the list is used up."""

    def __init__(self, rng=None, recorded=None):
        self.rng = rng
        self.recorded = recorded
        self.pos = 0
        self.trace = []

    def choose(self, n, p0=None):
        """index in [0,n); 0 is the unperturbed behaviour, taken with probability p0"""
        if n <= 1:
            return 0
        if self.recorded is not None:
            v = self.recorded[self.pos] % n if self.pos < len(self.recorded) else 0
            self.pos += 1
        elif p0 is not None and self.rng.random() < p0:
            v = 0
        else:
            v = self.rng.randrange(n)
        self.trace.append(v)
        return v


class Faults:
    """Fault plan.  Generating: at fault site number k a fault fires with probability `rate`
    (at most `limit` of them, only of the enabled kinds).  Replaying: the list decides."""

    def __init__(self, rng=None, rate=0.0, kinds=(), limit=0, recorded=None):
        self.rng = rng
        self.rate = rate
        self.kinds = set(kinds)
        self.limit = limit
        self.recorded = None if recorded is None else {
            (f["dom"], f["at"]): f for f in recorded
        }
        self.sites = {}
        self.trace = []
        self.enabled = True

    def site(self, dom, kinds):
        """kinds: list of fault kinds possible here.  -> fault dict or None"""
        n = self.sites.get(dom, 0) + 1
        self.sites[dom] = n
        if self.recorded is not None:
            f = self.recorded.get((dom, n))
            if f is not None and f["kind"] in kinds and self.enabled:
                self.trace.append(f)
                return f
            return None
        if not self.enabled or len(self.trace) >= self.limit:
            return None
        ks = [k for k in kinds if k in self.kinds]
        if not ks or self.rng.random() >= self.rate:
            return None
        f = {"dom": dom, "at": n, "kind": self.rng.choice(ks), "arg": round(self.rng.random(), 3)}
        self.trace.append(f)
        return f


class Clock:
    """Discrete-event time.  Steps, sleeps and I/O advance it; reading the wall clock, the performance
    counter or the CPU time takes a microsecond (two readings never agree on a real machine either).
    The wall clock may be coarse ('wall_gran') and may jump."""

    def __init__(self, sim):
        self.sim = sim
        self.t = 0.0  # seconds of simulated time
        self.offset = 0.0  # wall clock error
        self.cpu_scale = 0.5
        self.jumps = 0
        self.base = T0

    def wall(self):
        self.t += 1e-6
        w = self.base + self.t + self.offset
        g = self.sim.cfg.get("wall_gran")
        return math.floor(w / g) * g if g else w

    def perf(self):
        self.t += 1e-6
        return 1000.0 + self.t

    def mono(self):
        return 1000.0 + self.t

    def cpu(self):
        self.t += 1e-6
        return 1.0 + self.t * self.cpu_scale

    def advance(self, d):
        if d > 0:
            self.t += d

    def jump(self, d):
        self.offset += d
        self.jumps += 1
        self.sim.fired("clock_jump_back" if d < 0 else "clock_jump_forward")
        self.sim.log("clock", "jump", d)


class LogCapture(logging.Handler):
    def __init__(self, sim):
        super().__init__(0)
        self.sim = sim
        self.records = []

    def emit(self, record):
        if record.levelno >= logging.INFO:
            try:
                text = record.getMessage()
            except Exception as e:  # a formatting error is the caller's business
                text = "<unformattable %r %s>" % (record.msg, e)
            e = record.exc_info[1] if record.exc_info and record.exc_info[1] else None
            if e is not None:
                text += " | %s: %s" % (type(e).__name__, str(e)[:200])
            self.records.append((record.levelno, record.name, text))
            if len(self.records) > 20000:
                del self.records[:10000]


class Sim:
    def __init__(self, key, plan, decisions=None, faults=None, step_limit=200000):
        self.key = key
        self.plan = plan
        self.rng = random.Random("run:%s" % key)
        cfg = plan.get("sim", {})
        self.dec = Decisions(random.Random("dec:%s" % key), decisions)
        self.faults = Faults(
            random.Random("flt:%s" % key),
            cfg.get("fault_rate", 0.0),
            cfg.get("fault_kinds", ()),
            cfg.get("fault_limit", 0),
            faults,
        )
        self.ent = random.Random("ent:%s" % key)
        self.ent_key = None
        self.ent_streams = {}
        self.ent_broken = False
        self.clock = Clock(self)
        self.sched = None
        self.fs = None
        self.net = None
        self.cfg = cfg
        self.fault_counts = {}
        self.events = []
        self.lines = []
        self.nevents = 0
        self.steps = 0
        self.admins = {}  # port -> actor system bases
        self.ports = 40000
        self.step_limit = step_limit
        self.logcap = LogCapture(self)
        self.probes = {}
        self.cov = set()
        self.hooks = []  # called as hook(kind, detail) on every event
        self.pid = 4242
        self.systems = []  # actor systems of the run
        self.msg_hooks = []
        self.actor_errors = []
        self.child_errors = []
        self.nprocs = 0
        self.notes = {}
        self.keep_events = True
        self.escapes = []
        self.violation = None
        self.stuck = None
        self.thread_errors = []

    # -- bookkeeping
    def log(self, *what):
        text = " ".join(_short(w) for w in what)
        self.nevents += 1
        self.lines.append(text)  # hashed at the end: hashlib takes (simulated) locks
        if self.keep_events:
            self.events.append("%06d t=%.3f %s" % (self.nevents, self.clock.t, text))
            if len(self.events) > 6000:
                del self.events[1000:3000]

    def digest(self):
        return hashlib.sha1("\n".join(self.lines).encode("utf-8", "replace")).hexdigest()

    def fired(self, kind, n=1):
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def cover(self, *what):
        self.cov.add(hash_str(repr(what)))

    def tick(self, n=1):
        self.steps += n
        if self.steps > self.step_limit:
            raise SimLimit("more than %d simulated steps without finishing" % self.step_limit)

    # -- seams
    def entropy(self, n):
        if self.ent_broken:
            raise NotImplementedError("no entropy source")
        if self.ent_key is not None:
            r = self.ent_streams.get(self.ent_key)
            if r is None:
                r = self.ent_streams[self.ent_key] = random.Random("ent:%s" % (self.ent_key,))
        else:
            r = self.ent
        self.probe("entropy_reads")
        return r.getrandbits(8 * n).to_bytes(n, "big") if n else b""

    def getpid(self):
        if self.sched is not None:
            p = self.sched.current_proc()
            if p is not None:
                return p.pid
        return self.pid

    def note_nice(self, inc):
        self.log("nice", inc)
        return inc

    def sleep(self, d):
        d = max(0.0, float(d))
        if self.sched is not None and self.sched.active():
            self.sched.sleep(d)
        else:
            self.clock.advance(d)

    def on_logging_config(self, cfg):
        install_logcap(self)

    def choose(self, n, p0=None):
        if self.cfg.get("steady"):
            return 0  # the schedule is not part of the question
        return self.dec.choose(n, p0)

    # -- running code under test
    def process(self, fn, name="main", faults=True):
        """One life of a simulated OS process running fn.  -> Outcome"""
        from sim.sched import Proc

        if self.sched is None:
            raise RuntimeError("no scheduler")
        from sim import actors

        self.nprocs += 1
        actors.fresh()
        proc = Proc(name, self.pid + 10 * self.nprocs)
        self.log("process", name, "starts")
        t = self.sched.spawn(name, fn, proc)
        try:
            self.sched.run_all([t])
        except SimStop as e:
            self.sched.abandon()
            out = Outcome("stuck", error=self.stuck or e)
            self.stuck = None
        else:
            out = self._outcome(t)
        self.sched.reap(proc)
        self.log("process", name, out.kind, type(out.error).__name__ if out.error else "")
        return out


    def processes(self, items):
        """Several simulated OS processes at once.  items: [(name, fn)] -> [Outcome]"""
        from sim.sched import Proc

        from sim import actors

        procs, tasks = [], []
        actors.fresh()
        for name, fn in items:
            self.nprocs += 1
            proc = Proc(name, self.pid + 10 * self.nprocs)
            proc.rstate = random.Random("proc:%s:%s:%d" % (self.key, name, self.nprocs)).getstate()
            self.log("process", name, "starts")
            procs.append(proc)
            tasks.append(self.sched.spawn(name, fn, proc))
        before = self.sched.per_proc_random
        self.sched.per_proc_random = True
        outs = []
        try:
            self.sched.run_all(tasks)
        except SimStop as e:
            waits = [t.state != "done" for t in tasks]  # these never ended
            self.sched.abandon()
            e = self.stuck or e
            self.stuck = None
            outs = [Outcome("stuck", error=e) if w else self._outcome(t) for t, w in zip(tasks, waits)]
        else:
            outs = [self._outcome(t) for t in tasks]
        for p in procs:
            self.sched.reap(p)
        self.sched.per_proc_random = before
        for (name, _), o in zip(items, outs):
            self.log("process", name, o.kind, type(o.error).__name__ if o.error else "")
        return outs

    def _outcome(self, t):
        if t.error is None:
            return Outcome("ok", t.result)
        if type(t.error).__name__ == "Violation":
            raise t.error
        if self.violation is not None:
            raise self.violation
        if isinstance(t.error, SimCrash):
            return Outcome("crash", error=t.error)
        if isinstance(t.error, SimStop):
            return Outcome("stuck", error=t.error)
        return Outcome("error", error=t.error)


class Outcome:
    def __init__(self, kind, value=None, error=None):
        self.kind, self.value, self.error = kind, value, error

    @property
    def ok(self):
        return self.kind == "ok"

    def describe(self):
        if self.error is None:
            return self.kind
        return "%s (%s: %s)" % (self.kind, type(self.error).__name__, str(self.error)[:200])


def install_logcap(sim):
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(sim.logcap)
    root.setLevel(logging.INFO)


def hash_str(s):
    b = s.encode("utf-8", "replace")
    return "%08x%08x" % (zlib.crc32(b), zlib.crc32(b[::-1], 77))


_addr = re.compile(r"0x[0-9a-f]{6,}")


def _short(w):
    if isinstance(w, str):
        s = w
    else:
        s = repr(w)
    if "0x" in s:
        s = _addr.sub("0x?", s)
    return s if len(s) < 300 else s[:300] + "…"

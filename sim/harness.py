"""Runs many seeded simulations, each in its own forked child; minimises and replays failures."""
import errno
import gc
import json
import os
import random
import select
import shutil
import signal
import sys
import tempfile
import time
import traceback
import zlib

from sim import seams
from sim.seams import R, REPO, SimStop, SimDeadlock, SimLimit
from sim.core import Sim, install_logcap
from sim.sched import Scheduler
from sim.simfs import SimFS

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(SimStop):
    """passes through `except Exception` of the code under test; the first one counts even if
    the simulated thread it was raised in is never looked at again"""

    def __init__(self, cls, msg):
        super().__init__("%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg
        s = seams.cur()
        if s is not None and s.violation is None:
            s.violation = self


class Null:
    encoding = "utf-8"
    errors = "strict"

    def write(self, s):
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("no descriptor")


# ---------------------------------------------------------------- one run, in the child
def execute(scn, key, plan, root, decisions=None, faults=None, keep_events=True):
    sim = Sim(key, plan, decisions, faults, step_limit=plan.get("step_limit", 150000))
    sim.keep_events = keep_events
    os.makedirs(os.path.join(root, "work"), exist_ok=True)
    R_chdir = os.chdir
    R_chdir(os.path.join(root, "work"))
    sim.root = root
    sim.sched = Scheduler(sim, plan.get("sim", {}).get("switch_p", 0.2))
    sim.fs = SimFS(sim, root)
    install_logcap(sim)
    random.seed("global:%s" % key)
    np = sys.modules.get("numpy")
    if np is not None:
        np.random.seed(zlib.crc32(key.encode()) & 0x7FFFFFFF)
    res = {"verdict": "ok", "cls": None, "msg": None}
    t0 = R.monotonic()
    out, err = sys.stdout, sys.stderr
    if not os.environ.get("EVOSIM_STDOUT"):
        sys.stdout = sys.stderr = Null()
    tempfile._name_sequence = None  # its random numbers belong to the run
    seams.set_current(sim)
    try:
        try:
            info = scn.run(sim, plan)
            res["info"] = info or {}
        except BaseException:
            if sim.violation is not None:
                raise sim.violation
            raise
        finally:
            seams.set_current(None)
            sys.stdout, sys.stderr = out, err
        if sim.violation is not None:
            raise sim.violation
        if sim.escapes:
            raise Violation("containment", "changed something outside its directories: %s" % (sim.escapes[:3],))
    except Violation as v:
        res.update(verdict="violation", cls=v.cls, msg=v.msg)
    except SimDeadlock as e:
        res.update(verdict="violation", cls="hang", msg=str(e))
    except SimLimit as e:
        res.update(verdict="violation", cls="no-progress", msg=str(e))
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = [f for f in tb if f.filename.startswith(REPO + "/")]
        text = "".join(traceback.format_exception(type(e), e, e.__traceback__))
        if in_repo and not isinstance(e, SimStop):
            res.update(verdict="violation", cls="exception:" + type(e).__name__,
                       msg="%s at %s:%s" % (str(e)[:300], os.path.relpath(in_repo[-1].filename, REPO), in_repo[-1].name))
        else:
            res.update(verdict="error", cls="harness", msg=text[-3000:])
        res["trace"] = text[-3000:]
    res.update(
        digest=sim.digest(), events_n=sim.nevents, steps=sim.steps,
        simtime=sim.clock.t, faults=sim.fault_counts, probes=sim.probes,
        cov=sorted(sim.cov)[:300], ndec=len(sim.dec.trace), nontriv=sum(1 for d in sim.dec.trace if d),
        switches=sim.sched.switches, wall=R.monotonic() - t0,
    )
    if os.environ.get("EVOSIM_SHOW"):
        res["events"] = sim.events[-4000:]
    if res["verdict"] != "ok":
        res["decisions"] = sim.dec.trace
        res["fault_trace"] = sim.faults.trace
        res["events"] = sim.events[-400:]
        res["log"] = [list(r) for r in sim.logcap.records[-30:]]
    return res


# ---------------------------------------------------------------- forking
class Runner:
    def __init__(self, jobs=8, wall=60.0):
        self.jobs = jobs
        self.wall = wall
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.base = tempfile.mkdtemp(prefix="evosim-", dir=base)
        self.n = 0
        self.owner = R.getpid()

    def close(self):
        if R.getpid() == self.owner:
            shutil.rmtree(self.base, ignore_errors=True)

    def _start(self, job):
        """job: dict(scn, key, plan, decisions, faults)"""
        self.n += 1
        # same path for every run: nothing of it may reach the run
        root = os.path.join(self.base, "r%06d" % self.n)
        os.mkdir(root)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                os.close(r)
                for s in (signal.SIGINT, signal.SIGTERM):
                    signal.signal(s, signal.SIG_DFL)
                res = execute(job["scn"], job["key"], job["plan"], root, job.get("decisions"), job.get("faults"))
                data = json.dumps(res, default=repr).encode()
                off = 0
                while off < len(data):
                    off += R.write(w, data[off:off + 65536])
            except BaseException:
                try:
                    R.write(w, json.dumps({"verdict": "error", "cls": "harness", "msg": traceback.format_exc()[-2000:]}).encode())
                except BaseException:
                    pass
                code = 3
            finally:
                os._exit(code)
        os.close(w)
        return {"pid": pid, "fd": r, "buf": [], "job": job, "t0": R.monotonic(), "root": root}

    def _finish(self, c, killed=False):
        os.close(c["fd"])
        try:
            _, st = os.waitpid(c["pid"], 0)
        except ChildProcessError:
            st = 0
        shutil.rmtree(c["root"], ignore_errors=True)
        data = b"".join(c["buf"])
        if killed:
            return {"verdict": "timeout", "cls": "wall-timeout", "msg": "no answer within %.0f s of real time" % self.wall}
        try:
            return json.loads(data.decode())
        except ValueError:
            return {"verdict": "error", "cls": "harness", "msg": "child ended with status %r and no result" % (st,)}

    def run_many(self, jobs_iter, on_result, stop=lambda: False):
        """on_result(job, result) is called in completion order"""
        live = {}
        it = iter(jobs_iter)
        more = True
        while True:
            while more and len(live) < self.jobs and not stop():
                try:
                    job = next(it)
                except StopIteration:
                    more = False
                    break
                c = self._start(job)
                live[c["fd"]] = c
            if stop():
                more = False
            if not live:
                return
            ready, _, _ = select.select(list(live), [], [], 0.5)
            for fd in ready:
                c = live[fd]
                try:
                    d = os.read(fd, 1 << 16)
                except OSError as e:
                    if e.errno == errno.EINTR:
                        continue
                    d = b""
                if d:
                    c["buf"].append(d)
                else:
                    del live[fd]
                    on_result(c["job"], self._finish(c))
            now = R.monotonic()
            for fd, c in list(live.items()):
                if now - c["t0"] > self.wall:
                    try:
                        R.kill(c["pid"], signal.SIGKILL)
                    except OSError:
                        pass
                    del live[fd]
                    on_result(c["job"], self._finish(c, True))

    def one(self, **job):
        out = []
        self.run_many([job], lambda j, r: out.append(r))
        return out[0]


# ---------------------------------------------------------------- minimising
def same(res, cls):
    return res["verdict"] in ("violation", "timeout") and res["cls"] == cls


class Minimiser:
    def __init__(self, runner, scn, key, plan, res, budget=40.0):
        self.rn = runner
        self.scn = scn
        self.key = key
        self.cls = res["cls"]
        self.best = {"plan": plan, "decisions": res.get("decisions"), "faults": res.get("fault_trace"), "res": res}
        self.t_end = R.monotonic() + budget
        self.tries = 0

    def left(self):
        return R.monotonic() < self.t_end

    def attempt(self, cands):
        """first candidate (in order) that still fails the same way becomes the best"""
        cands = list(cands)
        for i in range(0, len(cands), self.rn.jobs):
            if not self.left():
                return False
            chunk = cands[i:i + self.rn.jobs]
            got = {}
            self.rn.run_many(
                [dict(scn=self.scn, key=self.key, plan=c["plan"], decisions=c["decisions"], faults=c["faults"], n=n)
                 for n, c in enumerate(chunk)],
                lambda j, r: got.__setitem__(j["n"], r),
            )
            self.tries += len(chunk)
            for n, c in enumerate(chunk):
                if same(got[n], self.cls):
                    self.best = {"plan": c["plan"], "decisions": got[n].get("decisions", c["decisions"]),
                                 "faults": got[n].get("fault_trace", c["faults"]), "res": got[n]}
                    return True
        return False

    def cand(self, **kw):
        b = {k: self.best[k] for k in ("plan", "decisions", "faults")}
        b.update(kw)
        return b

    def run(self):
        progress = True
        rounds = 0
        while progress and self.left() and rounds < 12:
            rounds += 1
            progress = False
            # plan
            for field in getattr(self.scn, "shrink_lists", ("ops",)):
                n = 2
                while self.left():
                    items = _get(self.best["plan"], field)
                    if not items:
                        break
                    size = max(1, len(items) // n)
                    cs = []
                    for s in range(0, len(items), size):
                        p = json.loads(json.dumps(self.best["plan"]))
                        _set(p, field, items[:s] + items[s + size:])
                        if getattr(self.scn, "valid", lambda p: True)(p):
                            cs.append(self.cand(plan=p))
                    if cs and self.attempt(cs):
                        progress = True
                        continue
                    if size == 1:
                        break
                    n *= 2
            sh = getattr(self.scn, "shrink", None)
            if sh is not None:
                while self.left():
                    cs = [self.cand(plan=p) for p in sh(self.best["plan"])]
                    if not (cs and self.attempt(cs)):
                        break
                    progress = True
            # faults
            while self.left() and self.best["faults"]:
                fs = self.best["faults"]
                cs = [self.cand(faults=fs[:i] + fs[i + 1:]) for i in range(len(fs))]
                if not self.attempt(cs):
                    break
                progress = True
            # scheduling decisions
            if self.best["decisions"]:
                d = list(self.best["decisions"])
                while d and d[-1] == 0:
                    d.pop()
                lens = sorted({0, len(d) // 8, len(d) // 4, len(d) // 2, 3 * len(d) // 4})
                cs = [self.cand(decisions=d[:k]) for k in lens if k < len(d)]
                if cs and self.attempt(cs):
                    progress = True
                d = list(self.best["decisions"] or [])
                size = max(1, len(d) // 2)
                while size >= 1 and self.left() and any(d):
                    cs = []
                    for s in range(0, len(d), size):
                        if any(d[s:s + size]):
                            cs.append(self.cand(decisions=d[:s] + [0] * len(d[s:s + size]) + d[s + size:]))
                    if cs and self.attempt(cs[:64]):
                        progress = True
                        d = list(self.best["decisions"] or [])
                        size = min(size, max(1, len(d) // 2))
                        continue
                    size //= 2
        return self.best


def _get(p, field):
    for f in field.split("."):
        p = p.get(f) if isinstance(p, dict) else None
        if p is None:
            return None
    return p


def _set(p, field, v):
    fs = field.split(".")
    for f in fs[:-1]:
        p = p[f]
    p[fs[-1]] = v

"""What was asked for on the command line is what runs (C20); streams merged from several processes (C21)."""
import random
import re
import sys

from sim import storekit as K
from sim.harness import Violation
from sim.registry import scenario
from sim.scn_store import gap, sim_cfg
from sim.seams import R  # noqa: F401

ALGOS = ["SIMA", "SIMB", "IMGA+SIMA", "SPEA2", "NSGAII", "NSGAIII", "IBEA", "OMOPSO", "JGBL", "DHGS+SIMA"]
PROBS = ["SIMP", "SIMQ", "ZDT1", "ZDT2", "ZDT4", "UF1", "UF2"]


def stand_in(**config):
    """the scripted algorithm under the name of a real one"""
    from algorithms.SIMA.SIMA import SIMA

    return SIMA(**{k: v for k, v in config.items() if k in ("population", "dims", "fitnesses", "mutation_eta")})


def mixed(rng, name):
    return "".join(rng.choice([c.lower(), c.upper()]) for c in name) if rng.random() < 0.4 else name


@scenario
class Requests:
    """C20: a command line names algorithms, problems, repetitions and budgets or times: these run, nothing else"""

    name = "requests"

    def gen(self, rng, tier):
        algos = rng.sample(ALGOS[:-1], rng.choice([2, 3, 4]))
        if rng.random() < 0.15:
            algos.append("DHGS+SIMA")
        if rng.random() < 0.4:
            algos = list(dict.fromkeys(algos + ["NSGAII", "NSGAIII"]))
        probs = rng.sample(PROBS, rng.choice([2, 3, 4]))
        cmds = []
        for i in range(rng.choice([1, 1, 2, 3])):
            c = {"n": rng.choice([None, 1, 2, 3, 5]), "dir": rng.choice([None, None, "d%d" % i, "same"]), "j": rng.choice([None, 1, 3]),
                 "form": rng.choice(["short", "long", "eq"]), "renice": rng.choice([None, None, 3]),
                 "algos": None if rng.random() < 0.15 else rng.sample(algos, rng.randint(1, min(3, len(algos)))),
                 "probs": None if rng.random() < 0.25 else rng.sample(probs, rng.randint(1, min(3, len(probs))))}
            if c["algos"] and rng.random() < 0.15:
                c["algos"].append(rng.choice(["NOSUCH", "SIM", "NSGA", "HGS", c["algos"][0]]))
            if c["algos"] and rng.random() < 0.06:
                c["algos"] = ["NOSUCH"]
            if c["probs"] and rng.random() < 0.15:
                c["probs"].append(rng.choice(["NOSUCH", "UF", "ZDT", c["probs"][0]]))
            if rng.random() < 0.75:
                c["budgets"] = rng.sample([1, 2, 3, 5, 8, 9, 10, 11, 20, 100], rng.choice([1, 2, 3]))
                if rng.random() < 0.2:
                    c["budgets"].append(c["budgets"][0])
            else:
                c["step"] = rng.choice([1, 2])
                c["timeout"] = c["step"] * rng.choice([1, 2, 3])
            c["case"] = rng.randrange(1 << 30)
            cells = len(c["algos"] or algos) * len(c["probs"] or probs)
            while cells * (c["n"] or 1) > 24:
                c["n"] = (c["n"] or 1) - 1 or None
                if not c["n"]:
                    break
            if cells * (c["n"] or 1) > 8 and "budgets" in c:
                c["budgets"] = [min(b, 20) for b in c["budgets"]]
            cmds.append(c)
        cfg = sim_cfg(rng)
        sima = K.gen_sima(rng, slow=True)
        return {"sim": cfg, "algos": algos, "probs": probs, "ops": cmds, "sima": sima, "pop": 3, "sima_seed": str(rng.random()), "strict": True, "step_limit": 600000}

    def argv(self, c):
        rng = random.Random(c["case"])
        opts = []

        def opt(short, long, val):
            if c["form"] == "long" and long:
                opts.extend([long, val])
            elif c["form"] == "eq" and long:
                opts.append("%s=%s" % (long, val))
            else:
                opts.extend([short, val])

        if c["algos"]:
            opt("-a", "--algo", ",".join(mixed(rng, a) for a in c["algos"]))
        if c["probs"]:
            opt("-p", "--problem", ",".join(mixed(rng, a) for a in c["probs"]))
        if c["n"]:
            opts.extend(["-N", str(c["n"])])
        if c["j"]:
            opts.extend(["-j", str(c["j"])])
        if c["dir"]:
            opt("-d", "--dir", c["dir"])
        if c["renice"]:
            opts.extend(["--renice", str(c["renice"])])
        if "budgets" in c:
            cmd = ["run", "budget", ",".join(map(str, c["budgets"]))]
        else:
            cmd = ["run", "time", "-t", str(c["timeout"]), "-s", str(c["step"])]
        return cmd + opts

    def run(self, sim, plan):
        import evogil
        from simulation import run_config

        run_config.algorithms[:] = [a for a in plan["algos"]]
        run_config.problems[:] = [p for p in plan["probs"]]
        for a in ALGOS:
            if "+" not in a and not a.startswith("SIM"):
                run_config.custom_paths[a] = (__name__, "stand_in")
        K.small_world(plan["pop"], plan["algos"])
        stores = {}
        done = 0
        for i, c in enumerate(plan["ops"]):
            gap(sim, "req%d" % i)
            key = c["dir"] or "default"
            st = stores.get(key)
            if st is None:
                st = stores[key] = K.Store(sim, dict(plan, dir=c["dir"]))
            sim.fs.on_change = lambda p: [s.changed(p) for s in stores.values()]
            before = {k: set(s.acked) for k, s in stores.items()}
            sys.argv = ["evogil.py"] + self.argv(c)
            text = " ".join(sys.argv[1:])
            out = sim.process(evogil.main_worker, "request%d" % i)
            nothing = (c["algos"] and not set(map(str.lower, c["algos"])) & set(map(str.lower, plan["algos"]))
                       or c["probs"] and not set(map(str.lower, c["probs"])) & set(map(str.lower, plan["probs"])))
            if not out.ok and not (nothing and out.kind == "error"):  # a request for nothing known may be refused
                raise Violation("request-failed", "'%s' fails: %s" % (text, out.describe()))
            names = {a.lower() for a in c["algos"]} if c["algos"] else None
            algos = [a for a in plan["algos"] if names is None or a.lower() in names]
            names = {a.lower() for a in c["probs"]} if c["probs"] else None
            probs = [p for p in plan["probs"] if names is None or p.lower() in names]
            n = c["n"] or 1
            want = {(p, a): n for p in probs for a in algos}
            done += len(want) * n
            for k, s in stores.items():
                new = set(s.acked) - before.get(k, set())
                if k != key and new:
                    raise Violation("request-elsewhere", "'%s' stored results in the directory of another request" % text)
            dirs = {}
            for rel in set(st.acked) - before.get(key, set()):
                p, a, run, name = rel.split("/")
                dirs.setdefault((p, a), {}).setdefault(run, set()).add(name)
            got = {cell: len(runs) for cell, runs in dirs.items()}
            if got != want:
                extra = sorted(set(got) - set(want))
                less = sorted(set(want) - set(got))
                wrong = sorted(x for x in want if x in got and got[x] != want[x])
                raise Violation("request-cases", "'%s' (available %s; %s): runs of %s missing, of %s not asked for, wrong number of runs %s" % (
                    text, ",".join(plan["algos"]), ",".join(plan["probs"]), less[:3], extra[:3], [(x, got[x], "instead of", want[x]) for x in wrong[:2]]))
            if "budgets" in c:
                files = {"%d.pickle" % b for b in c["budgets"]}
            else:
                files = None
            for cell, runs in sorted(dirs.items()):
                for run, names_ in sorted(runs.items()):
                    if files is not None and names_ != files:
                        raise Violation("request-budgets", "'%s': a run of %s/%s stored %s" % (text, cell[0], cell[1], sorted(names_)))
                    if files is None and (not names_ or any(not re.fullmatch(r"\d+\.pickle", x) for x in names_)):
                        raise Violation("request-times", "'%s': a run of %s/%s stored %s" % (text, cell[0], cell[1], sorted(names_)))
            sim.probe("requests_compared")
            sim.cover(len(want), n, "budgets" in c, c["algos"] is None, c["probs"] is None)
        return {"nontrivial": done > 1}


class Odd:
    """a value that cannot be passed to another process"""

    def __init__(self, tag):
        self.tag = tag

    def __reduce__(self):
        raise TypeError("cannot pickle this")


class SourceError(Exception):
    pass


VALUES = ["end", None, 0, "", ("end", None), ("next", 1), ("error", 2), [1, 2], "x" * 5000, True, 1.5, {"a": 1}]


@scenario
class Merged:
    """C21: values of observables that run in processes of their own arrive exactly once, errors and ends too"""

    name = "merged"

    def gen(self, rng, tier):
        def source(fault):
            n = rng.choice([0, 1, 2, 3, 5, 9])
            s = {"values": [rng.choice([None, None, rng.randrange(len(VALUES))]) for _ in range(n)],
                 "pause": rng.choice([0, 0, 0.01, 0.3, [0, 0, 2.5], [7.0, 0]]), "start": rng.choice([0, 0, 0.2, 4.0])}
            if fault:
                s[rng.choice(["error", "raise", "kill", "odd", "early", "badvalue", "badpull"])] = rng.randint(0, n)
            return s

        k = rng.choice([0, 1, 1, 2, 3, 4])
        if rng.random() < 0.35:
            # a stream of jobs, a limited number of them at once
            jobs = [{"pause": rng.choice([0, 0.1, 1.0, 5.0]), "fail": rng.random() < 0.06, "odd": rng.random() < 0.03} for _ in range(rng.randint(0, 7))]
            return {"sim": {"switch_p": rng.choice([0.05, 0.2, 0.5])}, "kind": "jobs", "ops": jobs, "workers": rng.choice([1, 2, 4]),
                    "at_once": rng.choice([1, 2, 3]), "unordered": True}
        bad = rng.random() < 0.5
        return {"sim": {"switch_p": rng.choice([0.05, 0.2, 0.5]), "stall": rng.choice([0, 0, 0.6, 1.7])}, "kind": "streams",
                "ops": [source(bad and rng.random() < 0.5) for _ in range(k)], "repeat": rng.choice([1, 1, 2]), "slow": rng.choice([0, 0, 0.5])}

    def run(self, sim, plan):
        for r in range(plan.get("repeat", 1)):
            out = sim.process(lambda: getattr(self, plan["kind"])(sim, plan), "reader%d" % r)
            if out.kind == "stuck":
                raise Violation("hang", "the reader waits forever: %s" % out.describe())
            if not out.ok:
                raise Violation("reader-failed", "the reader fails: %s" % out.describe())
        return {"nontrivial": len(plan["ops"]) > 1}

    def streams(self, sim, plan):
        import rx

        from evotools import rxtools

        emitted = {i: [] for i in range(len(plan["ops"]))}

        def provider(i, s):
            def values():
                if s["start"]:
                    sim.sleep(s["start"])
                if s.get("raise") == 0:
                    sim.fired("source_error")
                for j in range(len(s["values"]) + 1):
                    d = s["pause"]
                    d = d[j % len(d)] if isinstance(d, list) else d
                    if d:
                        sim.sleep(d)
                    sim.sched.maybe_switch("emit")
                    if s.get("kill") == j:
                        sim.fired("process_kill")
                        sim.sched.crash_proc(sim.sched.current_proc())
                        sim.sched.maybe_switch("killed")
                    if s.get("badpull") == j:
                        sim.fired("source_error")
                        raise SourceError("source %d, pull %d" % (i, j))
                    if s.get("odd") == j:
                        sim.fired("unpicklable")
                        emitted[i].append("odd")
                        yield Odd(i)
                    if j < len(s["values"]):
                        v = s["values"][j]
                        v = (i, j) if v is None else VALUES[v]
                        emitted[i].append(v)
                        yield v

            def make():
                if "early" in s:
                    sim.fired("source_error")
                    raise SourceError("source %d cannot be made" % i)
                obs = rx.from_iterable(values())
                if "error" in s:
                    sim.fired("source_error")
                    obs = rx.concat(obs, rx.throw(SourceError("source %d ends with an error" % i)))
                if "badvalue" in s:
                    sim.fired("unpicklable")
                    e = SourceError("source %d ends with an odd error" % i)
                    e.extra = Odd(i)
                    obs = rx.concat(obs, rx.throw(e))
                if "raise" in s:
                    def check(observer, scheduler=None):
                        raise SourceError("source %d cannot be read" % i)

                    sim.fired("source_error")
                    obs = rx.concat(obs, rx.create(check))
                return obs

            return make

        got, ends = [], []

        def on_next(v):
            if ends:
                raise Violation("after-end", "a value %r arrives after the end of the merged stream" % (v,))
            got.append(v)
            if plan.get("slow"):
                sim.sleep(plan["slow"])

        rxtools.multiprocess_observable([provider(i, s) for i, s in enumerate(plan["ops"])]).subscribe(
            on_next=on_next, on_error=lambda e: ends.append(("error", e)), on_completed=lambda: ends.append(("completed", None)))
        sim.sched.wait_until(lambda: bool(ends), "end of the merged stream")
        sim.probe("streams_merged")
        sim.cover(len(plan["ops"]), len(got), ends[0][0])
        faulty = [i for i, s in enumerate(plan["ops"]) if set(s) & {"error", "raise", "kill", "odd", "early", "badvalue", "badpull"}]
        if len(ends) > 1:
            raise Violation("ended-twice", "the merged stream ended %d times" % len(ends))
        if ends[0][0] == "completed" and faulty:
            raise Violation("error-lost", "source %d failed (%s) but the merged stream completed" % (faulty[0], sorted(set(plan["ops"][faulty[0]]) - {"values", "pause", "start"})))
        if ends[0][0] == "error" and not faulty:
            raise Violation("false-error", "no source failed, the merged stream ended with %r" % (ends[0][1],))
        rest = [repr(v) for v in got]
        for i, s in enumerate(plan["ops"]):
            mine = [repr(v) for v in emitted[i] if v != "odd"]
            for v in mine if not faulty else ():
                if v not in rest:
                    raise Violation("value-lost", "value %s of source %d never arrived" % (v[:60], i))
                rest.remove(v)
            tagged = [v for v in got if isinstance(v, tuple) and len(v) == 2 and v[0] == i and v[0] is not True]
            sent = [v for v in emitted[i] if isinstance(v, tuple) and len(v) == 2 and v[0] == i and v[0] is not True]
            if tagged != sent[:len(tagged)]:
                raise Violation("value-order", "values of source %d arrive as %s, sent as %s" % (i, tagged[:6], sent[:6]))
        if not faulty and rest:
            raise Violation("value-extra", "values %s arrive that no source sent (so often)" % rest[:3])
        if faulty:
            allsent = [repr(v) for vs in emitted.values() for v in vs]
            for v in [repr(v) for v in got]:
                if v not in allsent:
                    raise Violation("value-extra", "value %s arrives that no source sent (so often)" % v[:60])
                allsent.remove(v)

    def jobs(self, sim, plan):
        import rx
        from rx import operators as ops

        from evotools import rxtools

        running = [0, 0]
        ran = []

        rxtools.configure_default_executor(plan["workers"])
        got, ends = [], []
        sim.notes["jobs"] = (plan["ops"], ran, running)
        rx.from_iterable(range(len(plan["ops"]))).pipe(
            ops.map(lambda i: rxtools.from_process(job_body, i)),
            ops.merge(max_concurrent=plan["at_once"]),
        ).subscribe(on_next=got.append, on_error=lambda e: ends.append(("error", e)), on_completed=lambda: ends.append(("completed", None)))
        sim.sched.wait_until(lambda: bool(ends), "end of the jobs")
        sim.probe("job_streams")
        bad = [i for i, j in enumerate(plan["ops"]) if j["fail"] or j["odd"]]
        kind = ends[0][0]
        if len(ends) > 1:
            raise Violation("ended-twice", "the stream of jobs ended %d times" % len(ends))
        if bad and kind == "completed":
            raise Violation("error-lost", "job %d failed but the stream completed" % bad[0])
        if not bad and kind == "error":
            raise Violation("false-error", "no job failed, the stream ended with %r" % (ends[0][1],))
        if len(set(ran)) != len(ran):
            raise Violation("job-twice", "jobs %s ran more than once" % sorted(i for i in set(ran) if ran.count(i) > 1))
        vals = sorted(got)
        if len(set(vals)) != len(vals) or any(v % 10 or v // 10 not in ran for v in vals):
            raise Violation("value-extra", "results %s of jobs %s" % (vals, ran))
        if not bad and vals != [10 * i for i in range(len(plan["ops"]))]:
            raise Violation("value-lost", "results %s of %d jobs" % (vals, len(plan["ops"])))
        if running[1] > min(plan["workers"], plan["at_once"]):
            raise Violation("job-limit", "%d jobs at once, %d allowed" % (running[1], min(plan["workers"], plan["at_once"])))
        rxtools.shutdown_default_executor()


def job_body(i):
    from sim import seams

    sim = seams.cur()
    jobs, ran, running = sim.notes["jobs"]
    ran.append(i)
    running[0] += 1
    running[1] = max(running)
    if jobs[i]["pause"]:
        sim.sleep(jobs[i]["pause"])
    sim.sched.maybe_switch("job")
    running[0] -= 1
    if jobs[i]["fail"]:
        sim.fired("source_error")
        raise SourceError("job %d" % i)
    if jobs[i]["odd"]:
        sim.fired("unpicklable")
        return Odd(i)
    return 10 * i

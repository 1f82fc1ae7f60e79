"""More of the result store: placement and foreign files, naming, extraction, reports, isolation of
cases in a batch, several programs on one store."""
import contextlib
import io
import os
import random
import re

from sim import storekit as K
from sim.harness import Violation
from sim.registry import scenario
from sim.scn_store import FS_KINDS, History, final_analysis, gap, gen_batch, sim_cfg
from sim.seams import R


def copy_tree(src, dst):
    R.makedirs(dst, exist_ok=True)
    for name in sorted(R.listdir(src)):
        a, b = os.path.join(src, name), os.path.join(dst, name)
        if os.path.isdir(a):
            copy_tree(a, b)
        else:
            with R.open(a, "rb") as fh:
                data = fh.read()
            with R.open(b, "wb") as fh:
                fh.write(data)


@scenario
class Placement(History):
    """C04: neither the order of directory listings, nor where the store lies, nor foreign files matter"""

    name = "placement"

    def gen(self, rng, tier):
        ops = []
        for _ in range(rng.randint(2, 6)):
            x = rng.random()
            if not ops or x < 0.45:
                op = gen_batch(rng, True, ("budget",), composites=rng.random() < 0.3)
                op["budgets"] = rng.sample([2, 4, 6, 10], rng.choice([1, 2]))
                op["n"] = rng.choice([1, 2, 3])
            elif x < 0.65:
                op = {"op": "analyse", "via": rng.choice(["walk", "walk", "statistics"])}
            else:
                op = {"op": "stray", "seed": rng.random(), "prefix": rng.random() < 0.6, "top": rng.random() < 0.4}
            ops.append(op)
        where = ["SIMP_runs/res", "my_SIMQ_x/SIMP_/r", "a/b/c", "res.d/SIMP", "x"]
        return {"sim": sim_cfg(rng), "ops": ops, "dir": rng.choice([None, "out", "SIMP_results", "SIMP/SIMQ_"]),
                "views": [{"order": rng.choice(["sorted", "reversed", "random"]), "move": rng.choice([None] + where), "absolute": rng.random() < 0.5}
                          for _ in range(rng.choice([2, 3]))],
                "sima": K.gen_sima(rng), "pop": rng.choice([4, 6]), "sima_seed": str(rng.random())}

    def apply(self, sim, plan, st, i, op):
        before = self.beside(st)
        super().apply(sim, plan, st, i, op)
        more = sorted(self.beside(st) - before)
        if more:
            raise Violation("misplaced", "step %d (%s) leaves %s outside of the results directory %s" % (i + 1, op["op"], more[:2], st.dir))

    def beside(self, st):
        """results and caches that lie outside of the chosen directory"""
        found = set()

        def walk(d):
            for name in R.listdir(d):
                p = os.path.join(d, name)
                if p != st.abs and os.path.isdir(p):
                    walk(p)
                elif p.endswith((".pickle", "_nondominated")):
                    found.add(os.path.relpath(p, st.sim.root))

        walk(st.sim.root)
        return found

    def finish(self, sim, plan, st):
        st.check_strays("before the final analysis")
        files = st.results()
        if not files:
            return
        expected = K.expected_values(st, files, K.ALL_METRICS)
        first = None
        for i, v in enumerate(plan["views"]):
            gap(sim, "view%d" % i)
            sim.cfg["dir_order"] = v["order"]
            d, view = st.dir, st
            if v.get("move"):
                d = "moved%d/%s" % (i, v["move"])
                copy_tree(st.abs, os.path.abspath(d))
                view = K.View(d)
            if v.get("absolute"):
                d = os.path.abspath(d)
            out = sim.process(lambda: K.extract(d, "budget", "all"), "view%d" % i)
            where = "(listing %s, store %s)" % (v["order"], "moved to %s" % v["move"] if v.get("move") else "in place")
            if not out.ok:
                raise Violation("analysis-failed", "analysis fails %s: %s" % (where, out.describe()))
            found, order, values = out.value
            K.check_extract(view, found, order, files, " " + where)
            K.check_values(values, expected, where)
            if first is not None and first[0] != found:
                raise Violation("extract-content", "extraction %s differs from extraction %s" % (where, first[1]))
            first = first or (found, where)
            sim.probe("views_compared")
            sim.cover(v["order"], v.get("move"), len(found))
        st.check_strays("after the analyses")
        st.check_durable("after the analyses")


@scenario
class Naming(History):
    """C05: every case has a place of its own whatever the clock does"""

    name = "naming"

    def gen(self, rng, tier):
        ops = []
        quick = rng.random() < 0.5  # batches that take less than a second
        fine = quick and rng.random() < 0.5  # on a clock which is never set
        for _ in range(rng.choice([1, 2, 2, 3] if not fine else [2, 3])):
            op = gen_batch(rng, modes=("budget",) if quick else ("budget", "time"), composites=False)
            op["n"] = rng.choice([1, 2, 5, 9, 12])
            op["problems"] = rng.choice([["SIMP"], ["SIMP", "SIMQ"]])
            op["pause"] = 0.0 if ops and ops[-1].get("again") else rng.choice([0.0, 0.002, 0.01, 0.3, 0.3, 1.5, 3600.0])
            if fine:
                if ops:
                    op.update(problems=ops[0]["problems"], algos=ops[0]["algos"])
                op["n"] = rng.choice([2, 3, 5, 9])
                op["pause"] = rng.choice([0.0005, 0.002, 0.01, 0.1, 0.3])
                ops.append(op)
                continue
            ops.append(op)
            if rng.random() < 0.15:
                op["again"] = True  # the clock is set back to where the batch began: the same instant once more
            elif rng.random() < 0.5:
                ops.append({"op": "clock", "by": rng.choice([-3600.0, -86400.5, 3600.0, 7200.25, -5.5])})
        cfg = sim_cfg(rng)
        cfg["wall_gran"] = rng.choice([None, 0.016, 1.0, 10.0, 1000.0])
        sima = K.gen_sima(rng, slow=not quick)
        if quick:
            cfg.update(wall_gran=None, slow_io=0, io_time=rng.choice([0, 0.0001]))
        for s in [sima["default"]] + sima.get("cycle", []):
            if rng.random() < 0.4 and not fine:
                s["jump"] = {str(rng.randint(0, 4)): rng.choice([-1000.0, -3.0, 5.0, 4000.0])}
        return {"sim": cfg, "ops": ops, "strict": True, "dir": rng.choice([None, "r"]),
                "sima": sima, "pop": rng.choice([2, 4]), "sima_seed": str(rng.random())}

    def apply(self, sim, plan, st, i, op):
        # nothing that is named after the clock can be taken: it is fine, was never set back and went on since the last batch
        fine = not sim.cfg.get("wall_gran") and not any(s.get("jump") for s in [plan["sima"]["default"]] + plan["sima"].get("cycle", []))
        fine = fine and not any(o["op"] == "clock" or o.get("again") for o in plan["ops"]) and sim.clock.wall() > sim.notes.get("naming_end", -1e9) + 1e-5
        before = set(st.acked)
        dirs0 = {r.rsplit("/", 1)[0] for r in before}
        began = sim.clock.wall()
        super().apply(sim, plan, st, i, op)
        if op["op"] != "batch":
            return
        if op.get("again"):
            sim.clock.jump(began - sim.clock.wall())
        sim.notes["naming_end"] = sim.clock.wall()
        new = set(st.acked) - before
        by_dir = {}
        for rel in new:
            by_dir.setdefault(rel.rsplit("/", 1)[0], set()).add(rel.rsplit("/", 1)[1])
        if set(by_dir) & dirs0:
            raise Violation("case-shared", "a new batch stored into the run directory of an earlier one: %s" % K.norm(sorted(set(by_dir) & dirs0)[0]))
        cells = {}
        for d in by_dir:
            cells.setdefault(d.rsplit("/", 1)[0], []).append(d)
        if op["mode"] == "budget":
            want = {"%d.pickle" % b for b in op["budgets"]}
            for problem in op["problems"]:
                for algo in op["algos"]:
                    got = cells.get("%s/%s" % (problem, algo), [])
                    if len(got) != op["n"]:
                        raise Violation("case-shared", "%d cases of %s/%s stored into %d run directories" % (op["n"], problem, algo, len(got)))
                    numbers = sorted(int(d.rsplit("__", 1)[-1]) for d in got)
                    if fine and not set(range(1, op["n"])) <= set(numbers):  # (the first one has a number drawn at random)
                        raise Violation("identity", "%d cases of %s/%s are stored as numbers %s although no other run started in the same instant" % (op["n"], problem, algo, numbers))
                    sim.probe("run_numbers_checked", len(numbers) if fine else 0)
                    for d in got:
                        if by_dir[d] != want:
                            raise Violation("result-missing", "run %s holds %s instead of %s" % (K.norm(d), sorted(by_dir[d]), sorted(want)))
        # all results of a run directory come from one driver
        for d in by_dir:
            owners = None
            for name in by_dir[d]:
                pop, fit, cost = st.acked[d + "/" + name]
                who = {u for u, c, p in st.finals3 if c == cost and p == pop}
                owners = who if owners is None else owners & who
            if not owners:
                raise Violation("case-mixed", "run directory %s holds results of different runs" % K.norm(d))
        sim.probe("run_directories_checked", len(by_dir))

    def finish(self, sim, plan, st):
        kinds = {op.get("mode", "budget") for op in plan["ops"] if op["op"] == "batch"}
        if kinds == {"budget"}:
            final_analysis(self, sim, st, metrics=["cost"])


CELL = re.compile(r"^(\S+)\s+(\S+)\s+(\d+)\s+(\d+)\s*$")


@scenario
class Extraction:
    """C06: extraction, summary and statistics report every stored result exactly once, in order"""

    name = "extraction"

    def gen(self, rng, tier):
        runs = []
        numbers = rng.sample([0, 1, 2, 5, 9, 10, 20, 50, 90, 100, 200, 500, 1000, 2500], rng.randint(1, 5))
        for _ in range(rng.randint(1, 9)):
            runs.append({
                "problem": rng.choice(["SIMP", "SIMP", "SIMQ"]), "algo": rng.choice(["NSGAII", "IMGA+SIMA", "SIMA", "SIMA"]),
                "date": "%04d-%02d-%02d.%02d%02d%02d.%06d" % (rng.choice([2016, 2017, 2017]), rng.choice([1, 9, 10, 11]), rng.choice([2, 10, 30]),
                                                             rng.choice([0, 9, 23]), 5, rng.choice([0, 59]), rng.choice([0, 7, 999999])),
                "run": rng.choice([1, 2, 3, 10, 11, 100, 1234567, 9999999]),
                "numbers": rng.sample(numbers, rng.randint(0, len(numbers))) if rng.random() < 0.5 else numbers,
                "seed": rng.random(),
            })
        seen, out = set(), []
        for r in runs:
            k = (r["problem"], r["algo"], r["date"], r["run"])
            if k not in seen:
                seen.add(k)
                out.append(r)
        return {"sim": sim_cfg(rng), "ops": out, "dir": None, "kind": rng.choice(["budget", "time"]),
                "stray": rng.random() < 0.6, "delete": rng.choice([0, 0, 1, 2]), "seed": rng.random(), "pop": 4}

    def run(self, sim, plan):
        from simulation.model import SimulationCase, get_simulation_id
        from simulation.serializer import Result, Serializer

        K.small_world(4)
        st = K.Store(sim, plan)

        def fill():
            for r in plan["ops"]:
                rng = random.Random("fill:%s" % r["seed"])
                dims = 2 if r["problem"] == "SIMP" else 3
                case = SimulationCase(r["problem"], r["algo"], str(r["run"]), None, st.dir, get_simulation_id(str(r["run"]), r["date"]))
                ser = Serializer(case)
                for n in r["numbers"]:
                    pop = [[rng.randrange(0, 64 * 4) / 4.0 for _ in range(dims)] for _ in range(rng.randint(1, 5))]
                    fit = [[rng.choice([x[0], 1.0, 30.0]), x[1]] for x in pop]
                    ser.store(Result(pop, fit, cost=rng.choice([n, n + 1, 0])), str(n))

        out = sim.process(fill, "store")
        if not out.ok:
            raise Violation("store-failed", "storing results fails: %s" % out.describe())
        want = sum(len(r["numbers"]) for r in plan["ops"])
        if len(st.results()) != want:
            raise Violation("result-missing", "%d of %d results are in the store" % (len(st.results()), want))
        for k in range(plan["delete"]):
            st.delete({"seed": "%s:%d" % (plan["seed"], k), "whole": k % 2 == 0})
        if plan["stray"]:
            st.strays({"seed": plan["seed"], "prefix": True, "top": True})
        files = st.results()
        gap(sim, "x")
        out = sim.process(lambda: K.extract(st.dir, plan["kind"], ["cost"]), "extract")
        if not out.ok:
            raise Violation("analysis-failed", "extraction fails: %s" % out.describe())
        found, order, values = out.value
        exp = K.check_extract(st, found, order, files)
        K.check_values(values, K.expected_values(st, files, ["cost"]), "")
        from statistic import stats, summary

        def report(fn):
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                fn()
            return buf.getvalue()

        out = sim.process(lambda: report(lambda: summary.analyse_results({})), "summary")
        if not out.ok:
            raise Violation("analysis-failed", "summary fails: %s" % out.describe())
        got = sorted((m.group(1), m.group(2), int(m.group(3)), int(m.group(4))) for m in map(CELL.match, out.value.splitlines()) if m)
        should = sorted((p, a, n, len(v)) for (p, a, n), v in exp.items())
        if got != should:
            raise Violation("summary", "summary lists %s for %s" % (
                sorted(set(got) - set(should))[:3] or "twice", sorted(set(should) - set(got))[:3]))
        out = sim.process(lambda: report(lambda: stats.statistics({"--bootstrap": "5", "-j": "3", "--dir": st.dir, "-o": None})), "statistics")
        if not out.ok:
            raise Violation("analysis-failed", "statistics fails: %s" % out.describe())
        rows = []
        for line in out.value.splitlines():
            c = [x.strip() for x in line.split(" :: ")]
            if len(c) > 7 and c[2].isdigit() and c[3].isdigit():
                mid = [float(x) for x in c[6].split("≤")]
                rows.append((c[0], c[1], int(c[3]), c[4], int(c[2]), mid[1]))
        vals = K.expected_values(st, files, K.ALL_METRICS)
        should = sorted((p, a, n, m, len(v)) for (p, a, n, m), v in vals.items())
        got = sorted(r[:5] for r in rows)
        if got != should:
            raise Violation("statistics", "statistics lists %s instead of %s" % (
                sorted(set(got) - set(should))[:3] or "rows twice", sorted(set(should) - set(got))[:3]))
        for p, a, n, m, k, mean in rows:
            v = [float(x) for x in vals[(p, a, n, m)]]
            w = sum(v) / len(v)
            if not (abs(mean - w) <= 0.0006 + 1e-9 * abs(w)):
                raise Violation("statistics", "statistics shows mean %s=%s for %s, stored results give %s" % (m, mean, (p, a, n), round(w, 4)))
        st.check_strays("after the reports")
        sim.cover(len(exp), len(files), plan["kind"])
        return {"results": len(files), "nontrivial": len(files) > 1}


ERRLINE = re.compile(r"^\s*(\S+)\s*::\s*(\S+)\s*::\s*runID=(\d+)\s*$")


@scenario
class Isolation(History):
    """C09: failing cases harm only themselves and are reported"""

    name = "isolation"

    def gen(self, rng, tier):
        op = gen_batch(rng, modes=("budget", "budget", "budget", "time"), composites=rng.random() < 0.6)
        op["algos"] = list(dict.fromkeys(op["algos"] + ["SIMA"]))
        op["n"] = rng.choice([1, 2, 3, 4])
        op["faults"] = rng.random() < 0.5
        if op["mode"] == "time" and rng.random() < 0.25:
            op["step"] = op["timeout"] + 2  # not one slot: nothing to store, and nothing wrong about it
        if rng.random() < 0.25:
            op["algos"].append(rng.choice(["IMGA+BOGUS", "BOGUS", "DHGS+BOGUS", "IMGA+SIMB", "HGS+SIMB", "DHGS+SIMB"]))
        cfg = sim_cfg(rng, op["faults"], ["enospc", "eio", "short", "emfile"])
        cfg["wall_gran"] = rng.choice([None, None, 0.016])
        sima = K.gen_sima(rng, slow=op["mode"] == "time", fail=0.8)
        for f in sima.get("by_uid", {}).values():
            if rng.random() < 0.2:
                f["fail_shutdown"] = True
        return {"sim": cfg, "ops": [op], "strict": True, "dir": rng.choice([None, "r"]), "sima": sima, "pop": 9, "sima_seed": str(rng.random())}

    def apply(self, sim, plan, st, i, op):
        from simulation import run_config

        for a in op["algos"]:
            if a not in run_config.algorithms:
                run_config.algorithms.append(a)
        made, down = [], {}
        seen = st.driver_event

        def watch(kind, drv, data):
            seen(kind, drv, data)
            if kind == "new":
                made.append(drv.uid)
            elif kind == "shutdown":
                down[drv.uid] = down.get(drv.uid, 0) + 1

        sim.notes["on_driver"] = watch
        n0, f0 = len(sim.logcap.records), len(sim.faults.trace)
        out = sim.process(lambda: st.batch(op), "batch")
        if out.kind == "stuck":
            raise Violation("hang", "the batch never ends: %s" % out.describe())
        if not out.ok:
            raise Violation("batch-aborted", "a failure inside one case ends the whole batch: %s" % out.describe())
        reported = {}
        for lvl, name, text in sim.logcap.records[n0:]:
            m = ERRLINE.match(text)
            if m and lvl >= 40:
                k = (m.group(1), m.group(2), int(m.group(3)))
                reported[k] = reported.get(k, 0) + 1
        have = {}
        for rel in st.acked:
            m = K.RESULT.match(rel)
            rid = int(m.group("run").split("__")[1])
            k = (m.group("problem"), m.group("algo"), 0 if rid >= 1000000 else rid)
            have.setdefault(k, set()).add(int(m.group("name")))
        want = set(op["budgets"]) if op["mode"] == "budget" else None
        failed_uids = {d.uid for k, d, x in st.events if k == "fail"}
        for problem in op["problems"]:
            for algo in op["algos"]:
                for r in range(op["n"]):
                    k = (problem, algo, r)
                    got = have.get(k, set())
                    if want is not None and got != want and not reported.get(k):
                        raise Violation("silent-failure", "case %s stored %s of %s and is not reported as failed" % (k, sorted(got), sorted(want)))
                    if want is not None and got == want and reported.get(k) and not self.excused(plan, op):
                        raise Violation("false-failure", "case %s stored all its results and is reported as failed" % (k,))
        for k, n in reported.items():
            if k[0] not in op["problems"] or k[1] not in op["algos"] or k[2] >= op["n"] or n > 1:
                raise Violation("false-failure", "the error summary lists %s %d times" % (k, n))
        if not any("+" in a or "BOGUS" in a for a in op["algos"]):
            if len(sim.faults.trace) == f0 and len(reported) != len(failed_uids):
                raise Violation("silent-failure" if len(reported) < len(failed_uids) else "false-failure",
                                "%d cases failed, %d are reported as failed" % (len(failed_uids), len(reported)))
            # a driver per case: all of them were shut down
            for u in made:
                if not down.get(u) and not plan["sima"].get("by_uid", {}).get(str(u), {}).get("fail_new"):
                    raise Violation("no-shutdown", "driver %d was never shut down" % u)
            nfail = len(reported)
            hurt = len([u for u in made if self.hurts(plan, u)]) + len(sim.faults.trace)
            if nfail > hurt:
                raise Violation("spread-failure", "%d cases failed although only %d were interfered with" % (nfail, hurt))
        sim.cover(len(reported), len(have), out.kind)
        sim.probe("failed_cases", len(reported))

    def hurts(self, plan, uid):
        return any(k.startswith("fail") for k in plan["sima"].get("by_uid", {}).get(str(uid), {}))

    def excused(self, plan, op):
        # a case may be reported for a failure after its last result was stored
        return any("fail_shutdown" in f for f in plan["sima"].get("by_uid", {}).values())

    def finish(self, sim, plan, st):
        st.check_durable("at the end")


@scenario
class Concurrent(History):
    """C22: analyses while batches run, several of each at once"""

    name = "concurrent"

    def gen(self, rng, tier):
        rounds = []
        for _ in range(rng.choice([1, 2, 3])):
            acts = []
            pattern = rng.choice(["BAA", "BAAA", "BA", "BBAA", "AA", "BB"]) if rounds else rng.choice(["B", "B", "BB", "BA"])
            for k in pattern:
                if k == "B":
                    op = gen_batch(rng, True, ("budget",), composites=False)
                    op["problems"] = ["SIMP"]
                    op["budgets"] = rng.sample([2, 4, 6], rng.choice([1, 2]))
                    op["n"] = rng.choice([1, 2])
                    acts.append(op)
                else:
                    acts.append({"op": "analyse"})
            rng.shuffle(acts)
            wait = 0
            for op in acts:
                wait += rng.choice([0, 1e-5, 1e-5, 0.001, 0.1, 5])
                op["wait"] = round(wait, 5)
            rounds.append({"op": "round", "acts": acts})
        cfg = sim_cfg(rng)
        cfg["switch_p"] = rng.choice([0.1, 0.3, 0.5, 0.8])
        cfg["wall_gran"] = rng.choice([None, None, 0.016, 1.0, 10.0])  # several starts may read the same time
        cfg["stall_p"] = rng.choice([0, 0.02, 0.05, 0.15])
        if rng.random() < 0.3:
            cfg.update(fault_rate=rng.choice([0.003, 0.01]), fault_limit=rng.choice([1, 2]), fault_kinds=["crash", "crash_after"])
        return {"sim": cfg, "ops": rounds, "strict": True, "dir": rng.choice([None, "r"]),
                "sima": K.gen_sima(rng), "pop": 4, "sima_seed": str(rng.random())}

    def run(self, sim, plan):
        K.small_world(plan.get("pop", 4))
        st = K.Store(sim, plan)
        for i, rd in enumerate(plan["ops"]):
            gap(sim, "r%d" % i)
            before = dict(st.acked)
            items = []
            for j, op in enumerate(rd["acts"]):
                delay = op.get("wait", 0.001 * (j + 1))

                def act(op=op, d=delay):
                    sim.sleep(d)
                    proc = sim.sched.current_proc()
                    proc.slow = op.get("slow", 0)
                    proc.ops, proc.hold = 0, op.get("hold")
                    return st.batch(op) if op["op"] == "batch" else K.extract(st.dir, "budget", "all")

                items.append(("%s%d.%d" % ("batch" if op["op"] == "batch" else "analysis", i, j), act))
            n0 = len(sim.faults.trace)
            sim.faults.enabled = True
            outs = sim.processes(items)
            sim.faults.enabled = False
            faulted = len(sim.faults.trace) > n0
            for (name, _), op, out in zip(items, rd["acts"], outs):
                if out.kind == "stuck":
                    raise Violation("hang", "%s never ends: %s" % (name, out.describe()))
                if out.kind == "crash":
                    continue
                if not out.ok:
                    raise Violation(op["op"] + "-failed", "%s fails when run next to %s: %s" % (
                        op["op"], " + ".join(sorted(o["op"] for o in rd["acts"])), out.describe()))
                if op["op"] == "analyse":
                    self.check_view(st, out.value, before)
            st.check_durable("after round %d" % (i + 1))
            want = sum(len(op["algos"]) * len(op["problems"]) * op["n"] * len(op["budgets"]) for op in rd["acts"] if op["op"] == "batch")
            if not faulted and len(set(st.acked) - set(before)) != want:
                raise Violation("result-missing", "the batches of round %d stored %d of %d results" % (i + 1, len(set(st.acked) - set(before)), want))
            sim.cover(tuple(o.kind for o in outs), len(st.acked))
            sim.probe("concurrent_rounds")
        final_analysis(self, sim, st)
        return {"nontrivial": True}

    def check_view(self, st, value, before):
        """what an analysis saw next to running batches: complete results only, and all that were there before"""
        found, order, values = value
        seen = set()
        for key, runs in found.items():
            for no, cid, rid, pop, fit, cost, pn, an in runs:
                rel = "%s/%s/%s/%d.pickle" % (key[0], key[1], cid, key[2])
                if rel not in st.acked:
                    raise Violation("extract-set", "analysis reports %s which was never stored" % K.norm(rel))
                if st.acked[rel] != (pop, fit, cost):
                    raise Violation("extract-content", "analysis returns other data than stored for %s" % K.norm(rel))
                if rel in seen:
                    raise Violation("extract-twice", "analysis reports %s twice" % K.norm(rel))
                seen.add(rel)
        lost = sorted(set(before) - seen)
        if lost:
            raise Violation("extract-set", "analysis misses %s which was stored before it began" % K.norm(lost[0]))


@scenario
class ActorBatches(Concurrent):
    """C22: batches next to each other of which some compute on actors"""

    name = "actorbatches"

    def gen(self, rng, tier):
        acts = []
        for i in range(rng.choice([2, 2, 3])):
            algos = [["DHGS+SIMA"], ["SIMA"], ["DHGS+SIMA", "SIMA"]][i if i < 2 else rng.randrange(3)]
            acts.append({"op": "batch", "algos": algos, "problems": ["SIMP"], "n": rng.choice([1, 1, 2]), "mode": "budget", "j": 1,
                         "budgets": rng.sample([2, 10, 40], rng.choice([1, 2]))})
        rng.shuffle(acts)
        wait = 0
        for op in acts:
            wait += rng.choice([0, 1e-5, 0.01, 0.1, 1])
            op["wait"] = wait
        cfg = sim_cfg(rng)
        cfg.update(switch_p=rng.choice([0.1, 0.3, 0.5]), write_chunk=0, deliver=rng.choice(["fifo", "random"]), stall_p=rng.choice([0, 0.02]))
        return {"sim": cfg, "ops": [{"op": "round", "acts": acts}], "strict": True, "dir": rng.choice([None, "r"]),
                "sima": {"default": {"cost": 1, "time": rng.choice([0, 0.05])}}, "pop": rng.choice([2, 4]), "sima_seed": str(rng.random())}


@scenario
class SlowReaders(Concurrent):
    """C22: an analysis so slow that results are stored and analysed by others while it works"""

    name = "slowreaders"

    def gen(self, rng, tier):
        def batch(budgets):
            op = gen_batch(rng, True, ("budget",), composites=False)
            op.update(problems=["SIMP"], budgets=budgets, n=rng.choice([1, 1, 2]), j=1, algos=rng.choice([["SIMA"], ["SIMB"], ["SIMA", "SIMB"]]))
            return op

        def hold(secs):
            if rng.random() < 0.5:
                return [rng.randint(1, 100), secs]
            return [rng.randint(1, 9), secs, rng.choice(["nondominated", "dominance", "dominance", "generational", "hypervolume"])]

        budgets = [rng.choice([2, 4])]
        rounds = [{"op": "round", "acts": [dict(batch(budgets), wait=0)]}]
        for _ in range(rng.choice([1, 1, 2])):
            # the others work while it is held somewhere
            acts = [{"op": "analyse", "wait": 0, "hold": hold(1000)}]
            if rng.random() < 0.3:
                acts.append({"op": "analyse", "wait": rng.choice([0, 100, 210]), "hold": hold(rng.choice([100, 500, 1000]))})
            acts.append(dict(batch(budgets), wait=rng.choice([100, 100, 200]), slow=rng.choice([0, 0, 0.02])))
            for _ in range(rng.choice([1, 1, 2])):
                acts.append({"op": "analyse", "wait": rng.choice([99, 100, 200, 300, 300, 300, 1100])})
            rounds.append({"op": "round", "acts": acts})
        cfg = sim_cfg(rng)
        cfg.update(switch_p=rng.choice([0.1, 0.5]), io_time=0, slow_io=0, write_chunk=0, stall_p=0)
        return {"sim": cfg, "ops": rounds, "strict": True, "dir": rng.choice([None, "r"]),
                "sima": K.gen_sima(rng), "pop": 4, "sima_seed": str(rng.random())}


@scenario
class FirstStores(Concurrent):
    """C22: several programs put the first results of all into the store, all at the same moment"""

    name = "firststores"

    def gen(self, rng, tier):
        op = gen_batch(rng, True, ("budget",), composites=False)
        op.update(algos=rng.choice([["SIMA"], ["SIMA", "SIMB"]]), problems=["SIMP"], budgets=[rng.choice([1, 2])], n=rng.choice([1, 1, 2]))
        acts = [dict(op, wait=1e-5 * (i + 1)) for i in range(rng.choice([2, 2, 3]))]
        if rng.random() < 0.3:
            acts.append({"op": "analyse", "wait": 1e-5})
        cfg = sim_cfg(rng)
        cfg.update(switch_p=rng.choice([0.3, 0.5, 0.8]), io_time=rng.choice([0, 0.001]), slow_io=0, write_chunk=0, stall_p=rng.choice([0, 0.02]),
                   wall_gran=rng.choice([None, None, 0.016, 1.0]))
        return {"sim": cfg, "ops": [{"op": "round", "acts": acts}], "strict": True, "dir": rng.choice([None, "r", "a/b"]),
                "sima": {"default": {"cost": 1}}, "pop": 2, "sima_seed": str(rng.random())}


@scenario
class Repeatable:
    """C10: the result of a case depends on its own entropy only, and every case has its own.
    IMGA (islands step on threads of their own, all drawing from one generator) and DHGS (actors)
    are not repeatable even in the original and are left out."""

    name = "repeatable"

    REAL = ["NSGAII", "SPEA2", "IBEA", "OMOPSO", "SMSEMOA", "NSGAIII", "JGBL", "NSLS", "HGS+SPEA2", "HGS+NSGAII", "HGS+IBEA"]

    def gen(self, rng, tier):
        cases = []
        kinds = []
        tree = rng.random() < 0.4  # one process, trees which stop and revive: what a run leaves in its configuration
        for _ in range(rng.choice([1, 2, 3] if not tree else [1])):
            x = rng.random() if not tree else 0
            a = rng.choice(["SIMA", "HGS+SIMA", "HGS+SIMA"]) if x < 0.5 else rng.choice(self.REAL)
            a = "HGS+SIMA" if tree else a
            kinds.append((a, "ZDT1" if "SIMA" not in a and rng.random() < 0.5 else rng.choice(["SIMP", "SIMQ"])))
        for _ in range(rng.randint(3, 7)):
            a, p = rng.choice(kinds)
            # in a process of its own, or in that of the case before it
            cases.append({"algo": a, "problem": p, "ent": rng.choice([1, 1, 2]), "own": rng.random() < (0.15 if tree else 0.4)})
        return {"sim": {"switch_p": 0.0, "dir_order": "sorted"}, "ops": cases, "dir": "r", "pop": 9,
                "budgets": rng.choice([[30], [15, 60], [80], [40, 200]] if not tree else [[80], [40, 200], [300]]),
                "progress": rng.choice([None] * (not tree) + [[0.0, 0.01, 0.1], [0.05, 0.2, 0.8], [0.5, 1.0, 2.0], [2.0, 4.0, 4.0]]),
                "sima": {"default": dict(K.gen_sima(rng)["default"], use_random=True, time=0.01, grow=0, cost=rng.choice([5, 9]))
                         if not tree else {"gain": rng.choice([0.25, 0.5, [1, 0], [1, 0.5, 0.25], [0, 0, 2], [2, 1, 0, 0, 0]]), "cost": rng.choice([3, 5])}}, "sima_seed": "x"}

    def run(self, sim, plan):
        from simulation import factory, worker
        from simulation.model import SimulationCase

        rc = K.small_world(plan["pop"], mantissa_bits=(16, 32, 64))
        for k in ("HGS", "DHGS"):
            rc.algo_base[k]["metaepoch_len"] = [1, 1, 1]
            if plan.get("progress"):
                rc.algo_base[k]["min_progress_ratio"] = list(plan["progress"])
        st = K.Store(sim, plan)
        first = {}
        inits = {}

        def one(i, c):
            sim.notes["drivers"] = 0  # scripts go by the number of the driver within its case
            sim.notes["delegates"] = 0
            case = SimulationCase(c["problem"], c["algo"], i + 1, None, st.dir, **{factory.BUDGETS_PARAM: list(plan["budgets"])})
            st.events.clear()
            return case.id, worker.BudgetWorker(case, i).run()

        groups = []
        for i, c in enumerate(plan["ops"]):
            if not groups or c["own"]:
                groups.append([])
            groups[-1].append((i, c))

        def several(group):
            for i, c in group:
                sim.clock.advance(10)
                sim.ent_key = "%s:%s:%s:%s" % (sim.key, c["algo"], c["problem"], c["ent"])
                sim.ent_streams.pop(sim.ent_key, None)
                results[i] = one(i, c)

        results = {}
        for n, g in enumerate(groups):
            out = sim.process(lambda: several(g), "cases%d" % n)
            sim.ent_key = None
            if not out.ok:
                raise Violation("case-failed", "cases %s fail: %s" % (g, out.describe()))
        for i, c in enumerate(plan["ops"]):
            value = results.get(i)
            if value is None or value[1] is None:
                why = [t for l, n, t in sim.logcap.records if l >= 40][-1:]
                raise Violation("case-failed", "case %s fails: %s" % (c, why))
            files = {rel.rsplit("/", 1)[1]: v for rel, v in st.acked.items() if "/%s/" % value[0] in rel}
            if len(files) != len(plan["budgets"]):
                raise Violation("result-missing", "case %s stored %d of %d results" % (c, len(files), len(plan["budgets"])))
            k = (c["algo"], c["problem"], c["ent"])
            if k in first:
                j, old = first[k]
                if old != files:
                    d = sorted(n for n in files if files[n] != old.get(n))
                    raise Violation("case-leak", "case %d (%s) gives another result than the identical case %d with the same entropy (%s)" % (i + 1, c["algo"], j + 1, d))
                sim.probe("repeated_cases")
            else:
                first[k] = (i, files)
            for (a, p, e), (j, old) in first.items():
                if (a, p) == k[:2] and e != k[2] and old == files:
                    raise Violation("case-same", "cases with different entropy give identical results (%s)" % (c["algo"],))
            sim.cover(c["algo"], i)
        return {"nontrivial": len(plan["ops"]) > 1}


@scenario
class FreshSeeds(History):
    """C10: no two cases of a batch start from the same random state"""

    name = "freshseeds"

    def gen(self, rng, tier):
        op = gen_batch(rng, modes=("budget",), composites=False)
        op["n"] = rng.choice([2, 3, 6, 10])
        op["algos"] = ["SIMA"]
        cfg = sim_cfg(rng)
        cfg["wall_gran"] = rng.choice([None, 1.0])
        broken = rng.random() < 0.25
        if broken:
            cfg["wall_gran"] = None
        return {"sim": cfg, "ops": [op] * rng.choice([1, 2]), "dir": "r", "pop": 3, "broken": broken,
                "sima": {"default": {"cost": 1, "time": 0.02, "use_random": True}}, "sima_seed": "x"}

    def apply(self, sim, plan, st, i, op):
        sim.ent_broken = plan["broken"]
        st.starts = getattr(st, "starts", {})
        seen = st.driver_event

        def watch(kind, drv, data):
            seen(kind, drv, data)
            if kind == "new":
                k = repr(data)
                if k in st.starts:
                    raise Violation("case-same", "drivers %d and %d start from the same initial population" % (st.starts[k], drv.uid))
                st.starts[k] = drv.uid

        sim.notes["on_driver"] = watch
        super().apply(sim, plan, st, i, op)
        sim.ent_broken = False

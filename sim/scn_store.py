"""Histories of the result store: batches killed or failing anywhere, analyses, deletions, strays."""
import os
import random

from sim import storekit as K
from sim.harness import Violation
from sim.registry import scenario
from sim.seams import R

FS_KINDS = ["crash", "crash_after", "enospc", "eio", "short", "emfile", "read_eio"]


def gen_batch(rng, small=False, modes=("budget", "budget", "time"), composites=True):
    algos = rng.choice([["SIMA"], ["SIMB"], ["SIMA", "SIMB"]])
    if composites and rng.random() < 0.5:
        algos = rng.sample(["SIMA", "IMGA+SIMA", "DHGS+SIMA"], rng.choice([1, 2]))
        if rng.random() < 0.7:
            algos = [a for a in algos if a != "DHGS+SIMA"] or ["SIMA"]
    op = {
        "op": "batch", "algos": algos, "problems": rng.choice([["SIMP"], ["SIMP"], ["SIMQ"], ["SIMP", "SIMQ"]]),
        "n": rng.choice([1, 1, 2, 3] if small else [1, 2, 3, 4]), "mode": rng.choice(modes), "j": rng.choice([1, 2]),
    }
    if op["mode"] == "time":
        op["step"] = rng.choice([1, 2, 3])
        op["timeout"] = op["step"] * rng.choice([1, 2, 3]) + rng.choice([0, 0, 1])
    else:
        op["budgets"] = rng.sample([1, 2, 3, 5, 8, 10, 13, 20], rng.choice([1, 2, 3]))
    return op


def sim_cfg(rng, faults=False, kinds=FS_KINDS):
    c = {
        "dir_order": rng.choice(["sorted", "reversed", "random", "random"]),
        "write_chunk": rng.choice([0, 0, 7, 64, 400]),
        "bufsize": rng.choice([16, 128, 1024, 8192]),
        "io_time": rng.choice([0, 0, 0.001, 0.01]),
        "slow_io": rng.choice([0, 0, 0.05]),
        "switch_p": rng.choice([0.05, 0.2, 0.5]),
    }
    if faults:
        c.update(fault_rate=rng.choice([0.004, 0.015, 0.04, 0.1]), fault_limit=rng.choice([1, 1, 2, 3, 5]),
                 fault_kinds=rng.sample(kinds, rng.randint(1, len(kinds))))
    return c


def gap(sim, rng_seed):
    """time passes between two uses of the tool"""
    sim.clock.advance(1 + random.Random(rng_seed).random() * 5000)


class History:
    """plan['ops'] executed one process life after the other"""

    must_work_without_faults = True

    def run(self, sim, plan):
        K.small_world(plan.get("pop", 5), [a for op in plan["ops"] for a in op.get("algos", ())])
        st = K.Store(sim, plan)
        info = {"lives": 0}
        for i, op in enumerate(plan["ops"]):
            if "pause" in op:
                sim.clock.advance(op["pause"])
            else:
                gap(sim, "%s:%d" % (plan.get("sima_seed", ""), i))
            sim.faults.enabled = bool(op.get("faults"))
            n0 = len(sim.faults.trace)
            self.apply(sim, plan, st, i, op)
            faulted = len(sim.faults.trace) > n0
            sim.faults.enabled = False
            if st.strict:
                st.check_durable("after step %d (%s)" % (i + 1, op["op"]))
            info["lives"] += 1
        self.finish(sim, plan, st)
        info["results"] = len(st.acked)
        info["nontrivial"] = len(plan["ops"]) > 1
        return info

    def apply(self, sim, plan, st, i, op):
        kind = op["op"]
        n0 = len(sim.faults.trace)
        if kind == "batch":
            out = sim.process(lambda: st.batch(op), "batch%d" % i)
            self.outcome(sim, st, op, out, len(sim.faults.trace) > n0)
            if out.ok and len(sim.faults.trace) == n0 and not plan.get("sima", {}).get("by_uid"):
                self.check_complete(st, op)
        elif kind == "analyse":
            out = sim.process(lambda: self.analyse(sim, st, op, len(sim.faults.trace) > n0), "analysis%d" % i)
            self.outcome(sim, st, op, out, len(sim.faults.trace) > n0)
            if out.ok and out.value is not None:
                found, order, values = out.value
                files = st.results()
                K.check_extract(st, found, order, files)
                K.check_values(values, K.expected_values(st, files, op.get("metrics") or K.ALL_METRICS), "in step %d" % (i + 1), op.get("only", False))
        elif kind == "delete":
            st.delete(op)
        elif kind == "stray":
            st.strays(op)
        elif kind == "clock":
            sim.clock.jump(op["by"])

    def check_complete(self, st, op):
        pass

    def analyse(self, sim, st, op, faulted):
        via = op.get("via", "walk")
        if via == "statistics":
            from statistic import stats

            stats.statistics({"--bootstrap": "20", "-j": str(op.get("j", 2)), "--dir": st.dir, "-o": None})
            return None
        if via == "summary":
            from statistic import summary

            summary.analyse_results({})
            return None
        return K.extract(st.dir, op.get("kind", "budget"), op.get("metrics") or "all")

    def outcome(self, sim, st, op, out, faulted):
        """a life without an injected fault has to end well; one with a fault may fail but must end"""
        if out.kind == "stuck":
            raise Violation("hang", "%s never ends: %s" % (op["op"], out.describe()))
        if not out.ok and not faulted:
            raise Violation(op["op"] + "-failed", "%s fails although nothing was injected into it: %s" % (op["op"], out.describe()))
        if out.kind == "crash":
            sim.cover("crash", sim.fs.mut_ops, len(st.acked))

    def finish(self, sim, plan, st):
        pass


def final_analysis(self, sim, st, metrics="all", kind="budget", where="at the end"):
    """an analysis with nothing injected must report exactly what is stored"""
    gap(sim, "final")
    sim.faults.enabled = False
    out = sim.process(lambda: K.extract(st.dir, kind, metrics), "final-analysis")
    if not out.ok:
        raise Violation("analysis-failed", "analysis %s fails: %s" % (where, out.describe()))
    found, order, values = out.value
    files = st.results()
    K.check_extract(st, found, order, files, " " + where)
    acked = {rel for rel in st.acked if rel not in st.known_deleted}
    if set(files) != acked:
        raise Violation("extract-set", "%s the store holds %s that no batch stored / lacks %s" % (
            where, sorted(map(K.norm, set(files) - acked))[:2], sorted(map(K.norm, acked - set(files)))[:2]))
    K.check_values(values, K.expected_values(st, files, K.ALL_METRICS if metrics == "all" else metrics), where)
    sim.probe("analyses_compared")
    return found, values


@scenario
class CrashBatch(History):
    """C01: batches killed or failing at any point; what is visible is complete, what was stored stays"""

    name = "crashbatch"

    def gen(self, rng, tier):
        ops = []
        for _ in range(rng.randint(1, 3)):
            op = gen_batch(rng, True)
            op["faults"] = rng.random() < 0.85
            ops.append(op)
        return {"sim": sim_cfg(rng, True), "ops": ops, "strict": True, "dir": rng.choice([None, "res", "deep/er/res"]),
                "sima": K.gen_sima(rng, slow=True), "pop": rng.choice([1, 4, 6]), "sima_seed": str(rng.random())}

    def finish(self, sim, plan, st):
        # the batch whose last life was cut short can be repeated and completes
        op = dict(plan["ops"][-1]) if plan["ops"] else None
        if op is None:
            return
        gap(sim, "again")
        sim.faults.enabled = False
        n0 = set(st.acked)
        out = sim.process(lambda: st.batch(op), "batch-again")
        if not out.ok:
            raise Violation("batch-failed", "repeating the batch after the faults fails: %s" % out.describe())
        st.check_durable("after the repeated batch")
        if op["mode"] == "budget":
            want = len(op["algos"]) * len(op["problems"]) * op["n"] * len(op["budgets"])
            if len(set(st.acked) - n0) != want:
                raise Violation("result-missing", "repeated batch stored %d of %d results" % (len(set(st.acked) - n0), want))


@scenario
class CrashAnalysis(History):
    """C02: leftovers of any crash, also of crashed analyses, never spoil a later analysis"""

    name = "crashanalysis"

    def gen(self, rng, tier):
        ops = []
        for _ in range(rng.randint(2, 5)):
            if not ops or rng.random() < 0.5:
                op = gen_batch(rng, True, ("budget",), composites=rng.random() < 0.3)
                op["n"] = rng.choice([1, 2])
                op["budgets"] = rng.sample([1, 2, 4, 6], rng.choice([1, 2]))
            else:
                op = {"op": "analyse"}
            op["faults"] = rng.random() < 0.8
            ops.append(op)
        return {"sim": sim_cfg(rng, True), "ops": ops, "dir": rng.choice([None, "res"]),
                "sima": K.gen_sima(rng), "pop": rng.choice([4, 6]), "sima_seed": str(rng.random())}

    def finish(self, sim, plan, st):
        final_analysis(self, sim, st)
        # once more: now everything comes from the caches the first one left
        final_analysis(self, sim, st, where="repeated at the end")


@scenario
class Caches(History):
    """C03: any history of batches, analyses, deletions: values are those of the result files alone"""

    name = "caches"

    def gen(self, rng, tier):
        ops = []
        for _ in range(rng.randint(3, 7)):
            x = rng.random()
            if not ops or x < 0.4:
                op = gen_batch(rng, True, ("budget",), composites=rng.random() < 0.3)
                op["budgets"] = rng.sample([2, 4, 6], rng.choice([1, 2]))
                op["n"] = rng.choice([1, 2])
            elif x < 0.8:
                op = {"op": "analyse", "via": rng.choice(["walk", "walk", "walk", "statistics", "summary"])}
                if rng.random() < 0.5:
                    op["metrics"] = rng.sample(K.ALL_METRICS, rng.choice([1, 3, 5]))
                    if rng.random() < 0.5 and "pdi" not in op["metrics"]:
                        op["metrics"].append("pdi")
                op["j"] = rng.choice([1, 2, 4])
            else:
                op = {"op": "delete", "whole": rng.random() < 0.6, "seed": rng.random()}
            ops.append(op)
        return {"sim": sim_cfg(rng), "ops": ops, "dir": None,
                "sima": K.gen_sima(rng), "pop": rng.choice([4, 6]), "sima_seed": str(rng.random())}

    def finish(self, sim, plan, st):
        found, values = final_analysis(self, sim, st)
        K.strip_caches(st)
        found2, values2 = final_analysis(self, sim, st, where="with all caches removed")
        if found != found2:
            raise Violation("analysis-value", "extraction differs once the caches are gone")

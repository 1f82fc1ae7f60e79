"""Budget runs and timed runs: what is stored is the state of the algorithm at the right step."""
import math

from sim import storekit as K
from sim.harness import Violation
from sim.registry import scenario
from sim.scn_store import sim_cfg
from sim.seams import R

SIMPLE = ["SIMA", "SIMB"]
REAL = ["NSGAII", "SPEA2", "IBEA", "OMOPSO", "SMSEMOA", "NSGAIII", "JGBL", "NSLS"]
COMPOSITE = ["IMGA+SIMA", "HGS+SIMA", "DHGS+SIMA"]
DUE = 1e-6


class Track:
    """one driver the worker created: the boundaries of its steps and what was known there"""

    def __init__(self, drv, shadow):
        self.drv = drv
        self.cost = [drv.cost]  # cost at boundary 0, 1, 2, ...
        self.costs = [{drv.cost}]  # finalising may cost evaluations (IBEA)
        self.spent = [0.0]  # time spent in steps until then
        self.seen = {}  # boundary -> populations handed out there
        self.shadow = shadow
        self.broken = None  # boundary in which a step failed
        self.stored = []
        self.messages = []
        self.look(0)

    def look(self, i):
        if self.shadow:
            self.seen.setdefault(i, []).append(K.plain(type(self.drv).finalized_population(self.drv)))


class Watch:
    """instruments every driver that factory.prepare makes"""

    def __init__(self, sim, st):
        from simulation import factory

        self.sim, self.st = sim, st
        self.tracks = []
        self.attributed = set()
        self.prepare = factory.prepare
        factory.prepare = self.wrapped

    def close(self):
        from simulation import factory

        factory.prepare = self.prepare
        self.attribute()

    def attribute(self):
        """results that became visible since the last call belong to the latest driver"""
        for rel in self.st.acked:
            if rel not in self.attributed:
                self.attributed.add(rel)
                if self.tracks:
                    self.tracks[-1].stored.append(rel)
                else:
                    raise Violation("result-unexpected", "a result was stored before any algorithm was created")

    def wrapped(self, algo, problem):
        make, mod = self.prepare(algo, problem)
        self.attribute()
        sim = self.sim

        def build(*a, **k):
            drv = make(*a, **k)
            shadow = algo in SIMPLE
            quiet = sim.notes.get("on_driver")
            sim.notes["on_driver"] = None
            try:
                tr = Track(drv, shadow)
            finally:
                sim.notes["on_driver"] = quiet
            tr.algo, tr.problem = algo, problem
            self.tracks.append(tr)
            step, final = drv.next_step, drv.finalized_population

            def next_step():
                t = sim.clock.t
                try:
                    r = step()
                except BaseException:
                    tr.broken = len(tr.cost)
                    raise
                tr.cost.append(drv.cost)
                tr.costs.append({drv.cost})
                tr.spent.append(tr.spent[-1] + (sim.clock.t - t))
                quiet = sim.notes.get("on_driver")
                sim.notes["on_driver"] = None
                try:
                    tr.look(len(tr.cost) - 1)
                finally:
                    sim.notes["on_driver"] = quiet
                tr.messages.append((r.step_no, r.cost))
                return r

            def finalized_population():
                p = final()
                tr.costs[-1].add(drv.cost)
                tr.seen.setdefault(len(tr.cost) - 1, []).append(K.plain(p))
                return p

            drv.next_step = next_step
            drv.finalized_population = finalized_population
            return drv

        return build, mod


def true_fit(sim, problem, pop):
    import importlib

    mod = importlib.import_module("problems.%s.problem" % problem)
    ff, sim.notes["fit_fail"] = sim.notes.get("fit_fail"), None
    try:
        return [[float(f(x)) for f in mod.fitnesses] for x in pop]
    finally:
        sim.notes["fit_fail"] = ff


def same_fit(a, b):
    return len(a) == len(b) and all(len(x) == len(y) and all(K.close(p, q) for p, q in zip(x, y)) for x, y in zip(a, b))


class Runs:
    def algorithms(self, rng):
        x = rng.random()
        if x < 0.45:
            return [rng.choice(SIMPLE)]
        if x < 0.7:
            return [rng.choice(COMPOSITE)]
        if x < 0.9:
            return [rng.choice(REAL)]
        return ["SIMA", rng.choice(COMPOSITE)]

    def base(self, rng, faults):
        cfg = sim_cfg(rng, faults, ["enospc", "eio", "short", "emfile", "crash", "crash_after"])
        cfg["fit_time"] = rng.choice([1e-5, 1e-5, 0.003, 0.2])
        sima = K.gen_sima(rng, slow=True, fail=0.25)
        return {"sim": cfg, "strict": True, "dir": rng.choice([None, "r"]), "sima": sima, "sima_seed": str(rng.random()),
                "pop": rng.choice([3, 6, 9]), "blur": rng.choice([None, [0.0, 0.3, 0.5], [0.4, 0.2, 0.0]]),
                "fit_fail": rng.choice([None, None, None, None, rng.randint(1, 200)])}

    def run(self, sim, plan):
        op = plan["ops"][0] if plan["ops"] else None
        if op is None:
            return {}
        hgs = {}
        if plan.get("blur"):
            hgs["fitness_errors"] = tuple(plan["blur"])
        rc = K.small_world(plan["pop"], op["algos"], mantissa_bits=(16, 32, 64), **hgs)
        for k in ("HGS", "DHGS"):
            rc.algo_base[k]["metaepoch_len"] = plan.get("epoch") or [2, 1, 2]
        st = K.Store(sim, plan)
        if plan.get("fit_fail"):
            sim.notes["fit_fail"] = lambda n, v: n == plan["fit_fail"]
        watch = Watch(sim, st)
        n0 = len(sim.faults.trace)
        out = sim.process(lambda: st.batch(op), "batch")
        watch.close()
        sim.notes["fit_fail"] = None
        disturbed = len(sim.faults.trace) > n0
        if out.kind == "stuck":
            raise Violation("hang", "the batch never ends: %s" % out.describe())
        if not out.ok and not disturbed:
            raise Violation("batch-failed", "the batch fails: %s" % out.describe())
        hurt = disturbed or bool(sim.fault_counts.get("algorithm_error")) or bool(sim.fault_counts.get("fitness_error"))
        # a store or an evaluation that failed may cost results, a step that failed or a crash may not
        self.kept = not sim.fault_counts.get("fitness_error") and all(f["kind"].startswith("crash") for f in sim.faults.trace[n0:])
        ncases = len(op["algos"]) * len(op["problems"]) * op["n"]
        if not hurt and len(watch.tracks) != ncases:
            raise Violation("case-missing", "%d of %d cases were run" % (len(watch.tracks), ncases))
        for tr in watch.tracks:
            self.check(sim, plan, st, op, tr, hurt)
            sim.cover(tr.algo, len(tr.stored), min(len(tr.cost), 40))
        sim.probe("runs_checked", len(watch.tracks))
        sim.probe("results_checked", sum(len(t.stored) for t in watch.tracks))
        return {"nontrivial": any(len(t.cost) > 2 for t in watch.tracks)}

    def keep(self, tr, reached, got):
        """what was reached before a later step was begun is stored, whatever became of that step and the process"""
        begun = len(tr.cost) - 1 + (tr.broken is not None)
        for number, i in reached.items():
            if self.kept and i is not None and i < begun and number not in got:
                raise Violation("result-missing", "%s went on after step %d without storing the result for %s" % (tr.algo, i, number))

    def snapshot(self, sim, tr, number, val, indices):
        """the stored triple has to be the state at one of the boundaries"""
        pop, fit, cost = val
        what = "%s, sampling point %s" % (tr.algo, number)
        good = [i for i in indices if i < len(tr.cost) and cost in tr.costs[i] and pop in tr.seen.get(i, [])]
        if not good:
            near = [i for i in range(len(tr.cost)) if cost in tr.costs[i] and pop in tr.seen.get(i, [])]
            raise Violation("wrong-state", "%s: the stored state is that after step %s, it should be that after step %s (cost stored %s, cost at that step %s)" % (
                what, near or "none", "/".join(map(str, indices)), cost, [tr.cost[i] for i in indices if i < len(tr.cost)]))
        want = true_fit(sim, tr.problem, pop)
        if not same_fit(fit, want):
            raise Violation("wrong-fitness", "%s: the stored fitness values are not those of the stored population" % what)


@scenario
class BudgetRuns(Runs):
    """C07"""

    name = "budgetruns"

    def gen(self, rng, tier):
        p = self.base(rng, rng.random() < 0.3)
        algos = self.algorithms(rng)
        top = rng.choice([6, 20, 60])
        budgets = [rng.randint(1, top) for _ in range(rng.choice([1, 2, 3, 5]))]
        if rng.random() < 0.15:
            budgets.append(0)
        # finalising IBEA costs evaluations: the second result for one budget differs from the first
        if rng.random() < 0.2 and not any(a in REAL for a in algos):
            budgets.append(budgets[0])
        if any(a in REAL for a in algos):
            budgets = [b * 4 for b in dict.fromkeys(budgets)]
        p["ops"] = [{"op": "batch", "algos": algos, "problems": [rng.choice(["SIMP", "SIMQ"])], "n": rng.choice([1, 1, 2]), "mode": "budget",
                     "j": 1, "budgets": budgets}]
        for s in [p["sima"]["default"]] + p["sima"].get("cycle", []):
            if rng.random() < 0.3:
                s["cost"] = rng.choice([[7, 1], [30], [1, 1, 1, 25], [0, 3], [0.5], [2.5, 1]])
        return p

    def check(self, sim, plan, st, op, tr, hurt):
        budgets = sorted(set(op["budgets"]))
        got = {}
        for rel in tr.stored:
            m = K.RESULT.match(rel)
            if (m.group("problem"), m.group("algo")) != (tr.problem, tr.algo):
                raise Violation("wrong-place", "a result of %s on %s is stored as %s" % (tr.algo, tr.problem, K.norm(rel)))
            got[int(m.group("name"))] = rel
        if set(got) - set(budgets):
            raise Violation("result-unexpected", "%s stored results for %s, the budgets are %s" % (tr.algo, sorted(got), budgets))
        if not hurt and set(got) != set(budgets):
            raise Violation("result-missing", "%s stored results for %s, the budgets are %s" % (tr.algo, sorted(got), budgets))
        due = {b: next((i for i, c in enumerate(tr.costs) if max(c) >= b), None) for b in budgets}
        self.keep(tr, due, got)
        for b, rel in got.items():
            if due[b] is None:
                raise Violation("too-early", "%s: a result is stored for budget %s although only %s was spent" % (tr.algo, b, tr.cost[-1]))
            self.snapshot(sim, tr, b, st.acked[rel], [due[b]])
        last = due[budgets[-1]]
        if last is not None and len(tr.cost) - 1 > last:
            raise Violation("overrun", "%s made %d more steps after the cost %s had reached the last budget %s" % (tr.algo, len(tr.cost) - 1 - last, tr.cost[last], budgets[-1]))
        # a budget counts as soon as the earlier ones are stored: results come in order
        order = [int(K.RESULT.match(rel).group("name")) for rel in tr.stored]
        if order != sorted(order):
            raise Violation("order", "%s stored its budgets in the order %s" % (tr.algo, order))
        if not hurt and order != budgets[:len(order)]:
            raise Violation("order", "%s stored %s but not the smaller budgets of %s" % (tr.algo, order, budgets))


@scenario
class TimeRuns(Runs):
    """C08"""

    name = "timeruns"

    def gen(self, rng, tier):
        p = self.base(rng, rng.random() < 0.3)
        step = rng.choice([1, 1, 2, 3, 5])
        timeout = step * rng.choice([1, 2, 3, 4, 6]) + rng.choice([0, 0, 1, 2])
        p["ops"] = [{"op": "batch", "algos": rng.choice([["SIMA"], ["SIMA"], ["SIMB"], ["HGS+SIMA"], ["IMGA+SIMA"], ["DHGS+SIMA"]]),
                     "problems": [rng.choice(["SIMP", "SIMQ"])], "n": rng.choice([1, 1, 2]), "mode": "time", "j": 1, "step": step, "timeout": timeout}]
        if rng.random() < 0.1:
            p["ops"][0]["step"] = timeout + 1  # no slot at all
        for s in [p["sima"]["default"]] + p["sima"].get("cycle", []):
            if rng.random() < 0.5:
                s["time"] = [round(rng.choice([0.11, 0.37, 0.73, 1.03, 1.57, 2.29, 4.61, 9.7]) * step, 3) for _ in range(rng.choice([1, 2, 3, 5]))]
            elif "time" not in s:
                s["time"] = 0.4
            if rng.random() < 0.5:
                s["jump"] = {str(rng.randint(0, 6)): rng.choice([-3600.0, -2.0, -0.5, 0.7, 3.0, 86400.0]) for _ in range(rng.choice([1, 2]))}
        p["sim"]["wall_gran"] = rng.choice([None, None, 0.016, 1.0])
        if "+" in p["ops"][0]["algos"][0]:
            p["epoch"] = [1, 1, 1]
        return p

    def check(self, sim, plan, st, op, tr, hurt):
        step, timeout = op["step"], op["timeout"]
        slots = [k * step for k in range(1, timeout // step + 1)]
        got = {}
        for rel in tr.stored:
            m = K.RESULT.match(rel)
            if (m.group("problem"), m.group("algo")) != (tr.problem, tr.algo):
                raise Violation("wrong-place", "a result of %s on %s is stored as %s" % (tr.algo, tr.problem, K.norm(rel)))
            got[int(m.group("name"))] = rel
        if set(got) - set(slots):
            raise Violation("result-unexpected", "%s stored results for %s, the slots are %s" % (tr.algo, sorted(got), slots))
        n = len(tr.cost) - 1
        over = next((i for i, e in enumerate(tr.spent) if e >= timeout + DUE), None)
        if over is not None and n > over:
            raise Violation("overrun", "%s made %d more steps after the time was up" % (tr.algo, n - over))
        if not hurt and tr.spent[-1] < timeout - DUE:
            raise Violation("too-short", "%s stopped after %.3f of %s seconds" % (tr.algo, tr.spent[-1], timeout))
        self.keep(tr, {s: next((i for i, e in enumerate(tr.spent) if e >= s + DUE), None) for s in slots}, got)
        for s in slots:
            lo = next((i for i, e in enumerate(tr.spent) if e >= s - DUE), None)
            hi = next((i for i, e in enumerate(tr.spent) if e >= s + DUE), None)
            if s not in got:
                if hi is not None and not hurt:
                    raise Violation("result-missing", "%s stored nothing for the slot %s, reached after step %d" % (tr.algo, s, hi))
                continue
            if lo is None:
                raise Violation("too-early", "%s: a result is stored for slot %s although only %.3f seconds were spent" % (tr.algo, s, tr.spent[-1]))
            self.snapshot(sim, tr, s, st.acked[got[s]], list(range(lo, (hi if hi is not None else n) + 1)))
        order = [int(K.RESULT.match(rel).group("name")) for rel in tr.stored]
        if order != sorted(order):
            raise Violation("order", "%s stored its slots in the order %s" % (tr.algo, order))
        if not hurt and order != slots[:len(order)]:
            raise Violation("order", "%s stored %s but not the earlier slots of %s" % (tr.algo, order, slots))
        sim.probe("slots_checked", len(order))
        if sim.fault_counts.get("clock_jump_back") or sim.fault_counts.get("clock_jump_forward"):
            sim.probe("runs_with_clock_jumps")

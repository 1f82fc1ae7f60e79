"""The real algorithms, alone and composed, on the real benchmark problems, under controlled random numbers."""
import math
import random
import sys
import zlib

from sim import seams
from sim import storekit as K
from sim.harness import Violation
from sim.registry import scenario

PLAIN = ["SPEA2", "IBEA", "NSGAII", "OMOPSO", "NSGAIII", "JGBL", "SMSEMOA", "NSLS"]
# algorithms whose steps take long
HEAVY = ("IBEA", "SMSEMOA", "NSLS")
# algorithms that evaluate every individual once and pay one for it
EXACT = {"SPEA2", "NSGAII", "OMOPSO", "NSGAIII", "JGBL", "SMSEMOA", "NSLS"}
FIXED = {"SPEA2", "IBEA", "NSGAII", "NSGAIII", "JGBL", "SMSEMOA", "NSLS"}
PROBLEMS = ["ZDT1", "ZDT2", "ZDT3", "ZDT4", "ZDT6", "UF1", "UF2", "UF3", "UF4", "UF5", "UF6", "UF7", "UF8", "UF9", "ackley", "SIMP", "SIMQ"]
EDGE = [0.0, 2.0 ** -53, 2.0 ** -30, 0.5, 1.0 - 2.0 ** -53, 1.0 - 2.0 ** -30, 0.9, 0.1]


class Dice(random.Random):
    """Mersenne twister whose numbers are sometimes pulled to the ends and to repetition"""

    def __new__(cls, *a, **k):
        return random.Random.__new__(cls)

    def __init__(self, key, cfg):
        self.cfg = None
        super().__init__("dice:%s" % key)
        self.cfg = cfg
        self.coin = random.Random("coin:%s" % key)
        self.last = 0.5
        self.pulled = 0

    def random(self):
        x = super().random()
        if self.cfg:
            p = self.coin.random()
            if p < self.cfg["edge"]:
                x = EDGE[int(self.coin.random() * len(EDGE))]
                self.pulled += 1
            elif p < self.cfg["edge"] + self.cfg["same"]:
                x = self.last
                self.pulled += 1
            self.last = x
        return x

    def getrandbits(self, k):
        x = super().getrandbits(k)
        if self.cfg and self.coin.random() < self.cfg["edge"]:
            self.pulled += 1
            return [0, 1, x >> 1][int(self.coin.random() * 3)]
        return x


NAMES = ["random", "uniform", "triangular", "randint", "choice", "randrange", "sample", "shuffle", "choices", "normalvariate",
         "lognormvariate", "expovariate", "vonmisesvariate", "gammavariate", "gauss", "betavariate", "paretovariate",
         "weibullvariate", "getrandbits", "seed", "getstate", "setstate"]


class dice:
    """puts the generator behind the module functions for a while"""

    def __init__(self, sim, cfg):
        self.d = Dice(sim.key, cfg)

    def __enter__(self):
        self.old = {n: getattr(random, n) for n in NAMES if hasattr(random, n)}
        for n in self.old:
            setattr(random, n, getattr(self.d, n))
        return self.d

    def __exit__(self, *a):
        for n, f in self.old.items():
            setattr(random, n, f)


def gen_algo(rng, metas=("", "", "", "IMGA", "HGS", "DHGS"), algos=PLAIN):
    meta, a = rng.choice(metas), rng.choice(algos)
    name = meta + "+" + a if meta else a
    pop = rng.choice([8, 9, 10, 12, 15])
    problem = rng.choice(PROBLEMS)
    if meta == "IMGA":
        pop = rng.choice([24, 25, 30])
        if a in HEAVY:  # these compare all pairs again and again
            pop = rng.choice([16, 17, 20])
    if a == "IBEA" and problem in ("UF8", "UF9", "UF5", "UF6"):
        problem = rng.choice(["ZDT4", "ZDT6", "SIMQ", "UF1"])
    return dict(algo=name, meta=meta, plain=a, problem=problem, pop=pop, start=rng.choice(["random", "random", "random", "equal", "corner", "twin"]))


def start_population(rng, kind, n, dims):
    pop = [[rng.uniform(a, b) for a, b in dims] for _ in range(n)]
    if kind == "equal":
        pop = [list(pop[0]) for _ in pop]
    elif kind == "corner":
        pop = [[rng.choice([a, b]) for a, b in dims] for _ in pop]
    elif kind == "twin":
        pop = [list(pop[i // 2]) for i in range(n)]
    return pop


class Fit:
    """fitness function i of a problem, reporting its evaluations; it travels between actors as a name"""

    def __init__(self, problem, i):
        self.problem, self.i = problem, i
        self.f = sys.modules["problems.%s.problem" % problem].fitnesses[i]

    def __call__(self, v):
        s = seams.cur()
        w = s and s.notes.get("watch")
        if w:
            w(self.i, v)
        return self.f(v)

    def __reduce__(self):
        return Fit, (self.problem, self.i)

    def __eq__(self, o):
        return isinstance(o, Fit) and (o.problem, o.i) == (self.problem, self.i)

    def __hash__(self):
        return zlib.crc32(self.problem.encode()) + self.i


def build(sim, plan, watch):
    from simulation import factory, run_config

    run_config.DEFAULT_POPULATION_SIZE = plan["pop"]
    run_config.algo_base["IMGA"].update(plan.get("imga", {}))
    for k in ("HGS", "DHGS"):
        run_config.algo_base[k].update(population_sizes=(plan["pop"], max(6, plan["pop"] - 3), 6))
        run_config.algo_base[k].update(plan.get("hgs", {}))
    maker, mod = factory.prepare(plan["algo"], plan["problem"])
    kw = maker.keywords
    kw["population"] = start_population(random.Random("start:%s" % sim.key), plan["start"], plan["pop"], mod.dims)
    sim.notes["watch"] = watch
    fits = [Fit(plan["problem"], i) for i in range(len(mod.fitnesses))]
    while kw is not None:
        kw["fitnesses"] = fits
        d = kw.get("driver")
        kw = d.keywords if d is not None else None
    return maker, mod


class Algos:
    def config(self, rng, plan, tier):
        if plan["meta"] == "IMGA":
            plan["imga"] = {"islands_number": rng.choice([2, 3, 3]), "epoch_length": rng.choice([1, 2, 3]), "migrants_number": rng.choice([1, 2])}
        if "HGS" in plan["meta"]:
            plan["hgs"] = {"metaepoch_len": [rng.choice([1, 1, 2, 3]) for _ in range(3)],
                           "min_progress_ratio": rng.choice([[0.0, 0.00001, 0.0001], [0.05, 0.05, 0.05], [1e9, 0.01, 0.1], [1e9, 1e9, 1e9], [0.0, 1e9, 0.2]]),
                           "max_sprouts_no": rng.choice([2, 4, 16]), "sproutiveness": rng.choice([1, 2, 3]),
                           "fitness_errors": rng.choice([(0.0, 0.0, 0.0), (0.1, 0.01, 0.0)])}


def inside(v, dims):
    return len(v) == len(dims) and all(math.isfinite(c) and a <= c <= b for c, (a, b) in zip(v, dims))


@scenario
class AlgoRuns(Algos):
    """C23"""

    name = "algoruns"

    def gen(self, rng, tier):
        p = gen_algo(rng)
        self.config(rng, p, tier)
        p["dice"] = rng.choice([None, {"edge": 0.002, "same": 0.0}, {"edge": 0.02, "same": 0.02}, {"edge": 0.0, "same": 0.1}])
        heavy = p["meta"] or p["plain"] in HEAVY
        p["ops"] = [{"op": "step"} for _ in range(rng.choice([2, 4, 6]) if heavy else rng.choice([3, 8, 15]))]
        for _ in range(rng.choice([0, 1, 2])):
            p["ops"].insert(rng.randint(0, len(p["ops"])), {"op": "pop"})
        p["ops"].append({"op": "pop"})
        p["sim"] = {"switch_p": 0.2, "deliver": rng.choice(["fifo", "random"])}
        return p

    def run(self, sim, plan):
        bad, calls, distinct = [], [0], set()
        dims = []

        def watch(i, v):
            if i == 0:
                calls[0] += 1
                distinct.add(tuple(v))
                sim.clock.advance(1e-4)
            if dims and not inside(v, dims) and not bad:
                bad.append([float(c) for c in v])

        what = "%s on %s" % (plan["algo"], plan["problem"])

        def body():
            with dice(sim, plan["dice"]) as d:
                maker, mod = build(sim, plan, watch)
                dims[:] = [tuple(x) for x in mod.dims]
                drv = maker()
                try:
                    self.play(sim, plan, what, drv, dims, bad, calls, distinct)
                finally:
                    drv.shutdown()
                if d.pulled:
                    sim.fired("extreme_random_number", d.pulled)

        out = sim.process(body, "algo")
        if not out.ok:
            raise Violation("hang" if out.kind == "stuck" else "failure", "%s fails although nothing went wrong: %s" % (what, out.describe()))
        return {"nontrivial": True}

    def play(self, sim, plan, what, drv, dims, bad, calls, distinct):
        cost, steps, hist = drv.cost, 0, []
        for op in plan["ops"]:
            if op["op"] == "step":
                m = drv.next_step()
                hist.append((cost, len(distinct)))
                if plan["meta"] == "HGS":
                    # what a node finds in the archive of its level is free; a new sprout pays for its start with its first epoch
                    if drv.cost < cost or (len(hist) > 2 and hist[-2][1] > hist[-3][1] and drv.cost <= hist[-3][0]):
                        raise Violation("cost", "%s: step %d: new individuals were evaluated, the cost went from %s to %s" % (what, steps, hist[-3][0] if len(hist) > 2 else cost, drv.cost))
                elif not (drv.cost > cost):
                    raise Violation("cost", "%s: step %d does not raise the cost %s (now %s); a budget run never ends" % (what, steps, cost, drv.cost))
                cost = drv.cost
                sim.log("step", steps, cost, calls[0])
                if m.step_no != steps or m.cost != cost:
                    raise Violation("numbering", "%s: step %d is reported with number %s and cost %s, the cost is %s" % (what, steps, m.step_no, m.cost, cost))
                steps += 1
                if not plan["meta"] and plan["plain"] in EXACT and cost != calls[0]:
                    raise Violation("cost", "%s: the cost after step %d is %s, %d individuals were evaluated" % (what, steps, cost, calls[0]))
                if plan["plain"] == "IBEA" and not plan["meta"] and not len(distinct) <= cost <= calls[0]:
                    raise Violation("cost", "%s: the cost after step %d is %s, %d different individuals were evaluated" % (what, steps, cost, len(distinct)))
            else:
                pop = drv.finalized_population()
                pop = [[float(c) for c in v] for v in pop]
                if not pop and steps:
                    raise Violation("population", "%s: the population is empty after %d steps" % (what, steps))
                for v in pop:
                    if not inside(v, dims):
                        raise Violation("domain", "%s: after %d steps the population has an individual outside the domain: %s" % (what, steps, _short(v, dims)))
                if plan["meta"] in ("", "IMGA") and plan["plain"] in FIXED and len(pop) != plan["pop"] and steps:
                    raise Violation("population", "%s: the population has %d individuals after %d steps, it is configured with %d" % (what, len(pop), steps, plan["pop"]))
                    sim.log("population", len(pop), zlib.crc32(repr(pop).encode()))
                sim.probe("populations_checked")
            if bad:
                raise Violation("domain", "%s: an individual outside the domain is evaluated: %s" % (what, _short(bad[0], dims)))
        sim.cover("algo", plan["algo"], plan["problem"])


def _short(v, dims):
    if len(v) != len(dims):
        return "%d coordinates instead of %d" % (len(v), len(dims))
    return ["x%d=%r not in [%s, %s]" % (i, c, a, b) for i, (c, (a, b)) in enumerate(zip(v, dims)) if not (math.isfinite(c) and a <= c <= b)][:3]


@scenario
class Watching(Algos):
    """C16: looking at a run does not change its course"""

    name = "watching"

    def gen(self, rng, tier):
        p = gen_algo(rng)
        self.config(rng, p, tier)
        n = rng.choice([2, 3, 4]) if p["meta"] or p["plain"] in HEAVY else rng.choice([4, 8])
        p["ops"] = [{"op": "look", "at": rng.randint(0, n - 1), "times": rng.choice([1, 1, 2, 3])} for _ in range(rng.choice([1, 2, 3]))]
        p["n"] = n
        # the schedule is not part of the question: it is the same in both runs
        p["sim"] = {"switch_p": 0.0, "deliver": "fifo", "steady": True}
        return p

    def life(self, sim, plan, looks):
        res = {"costs": [], "pop": None, "looked": []}

        def body():
            random.seed("watching:%s" % sim.key)
            maker, mod = build(sim, plan, lambda i, v: None)
            drv = maker()
            try:
                for i in range(plan["n"]):
                    drv.next_step()
                    res["costs"].append(drv.cost)
                    sim.log("step", i, drv.cost)
                    for times in looks.get(i, []):
                        seen = [K.plain(drv.finalized_population()) for _ in range(times)]
                        res["looked"].append((i, seen, drv.cost))
                res["pop"] = K.plain(drv.finalized_population())
            finally:
                drv.shutdown()

        out = sim.process(body, "life")
        if not out.ok:
            raise Violation("failure", "%s on %s fails although nothing went wrong: %s" % (plan["algo"], plan["problem"], out.describe()))
        return res

    def run(self, sim, plan):
        looks = {}
        for op in plan["ops"]:
            looks.setdefault(op["at"], []).append(op["times"])
        what = "%s on %s" % (plan["algo"], plan["problem"])
        a = self.life(sim, plan, {})
        b = self.life(sim, plan, looks)
        for i, seen, cost in b["looked"]:
            if any(sorted(s) != sorted(seen[0]) for s in seen):
                raise Violation("watched", "%s: after step %d the population is another one when it is asked for again" % (what, i + 1))
            if cost != b["costs"][i]:
                raise Violation("watched", "%s: asking for the population after step %d raises the cost from %s to %s" % (what, i + 1, b["costs"][i], cost))
        for i, (x, y) in enumerate(zip(a["costs"], b["costs"])):
            if x != y:
                raise Violation("watched", "%s: the cost after step %d is %s, and %s when the population was asked for before (after steps %s)" % (what, i + 1, x, y, sorted(k + 1 for k in looks)))
        if sorted(a["pop"]) != sorted(b["pop"]):
            raise Violation("watched-result", "%s: the result after %d steps is another one when the population was asked for on the way (after steps %s)" % (what, plan["n"], sorted(k + 1 for k in looks)))
        sim.probe("courses_compared")
        sim.cover("watch", plan["algo"], plan["problem"])
        return {"nontrivial": True}


@scenario
class Slots(Algos):
    """C16: the result of a run at one budget (time) is the same whatever the others are which it stores on the way"""

    name = "slots"

    def gen(self, rng, tier):
        p = gen_algo(rng, metas=("", "", "", "IMGA", "HGS", "DHGS"))
        self.config(rng, p, tier)
        if not p["meta"] and rng.random() < 0.3:
            p["algo"] = p["plain"] = "SIMA"
            p["sima"] = {"default": {"cost": rng.choice([1, 2, [1, 4]]), rng.choice(["use_budget", "use_budget", "use_random"]): True}}
            p["sima_seed"] = "x"
        p["problem"] = rng.choice(["SIMP", "SIMQ", "SIMP", "SIMQ", "ZDT1", "ZDT4", "UF2"])
        p["dir"] = "r"
        if rng.random() < 0.3:
            # time passes with every evaluation
            p["problem"] = rng.choice(["SIMP", "SIMQ"])
            p["fit_time"] = rng.uniform(0.003, 0.02)
            if "sima" in p:  # (which evaluates nothing)
                p["sima"]["default"]["time"] = p["fit_time"] * p["pop"]
            p["ops"] = rng.choice([[[2, 2], [1, 2]], [[4, 4], [2, 4], [1, 4]], [[3, 3], [1, 3]], [[2, 4], [1, 4]]])
        else:
            top = p["pop"] * rng.choice([3, 5, 8] if p["plain"] not in HEAVY else [2, 3])
            if p["meta"]:
                top = p["pop"] * rng.choice([4, 8])
            p["ops"] = [[top]]
            for _ in range(rng.choice([1, 2])):
                p["ops"].append(sorted(rng.sample(range(1, top), rng.choice([1, 1, 2, 3]))) + [top])
        p["sim"] = {"switch_p": 0.0, "deliver": "fifo", "steady": True, "dir_order": "sorted"}
        if p.get("fit_time"):
            p["sim"]["fit_time"] = p["fit_time"]
        return p

    def run(self, sim, plan):
        from simulation import factory, run_config, worker
        from simulation.model import SimulationCase

        run_config.DEFAULT_POPULATION_SIZE = plan["pop"]
        run_config.algo_base["IMGA"].update(plan.get("imga", {}))
        for k in ("HGS", "DHGS"):
            run_config.algo_base[k].update(population_sizes=(plan["pop"], max(6, plan["pop"] - 3), 6))
            run_config.algo_base[k].update(plan.get("hgs", {}))
        st = K.Store(sim, plan)
        what = "%s on %s" % (plan["algo"], plan["problem"])
        lives = []

        def one(i, slots):
            if plan.get("fit_time"):
                params = {factory.SAMPLING_INTERVAL_PARAM: slots[0], factory.TIMEOUT_PARAM: slots[1]}
                make = worker.TimeWorker
            else:
                params = {factory.BUDGETS_PARAM: list(slots)}
                make = worker.BudgetWorker
            case = SimulationCase(plan["problem"], plan["algo"], i + 1, None, st.dir, **params)
            ids.append(case.id)
            return make(case, i).run()

        for i, slots in enumerate(plan["ops"]):
            sim.clock.advance(10)
            sim.ent_key = "slots:%s" % sim.key
            sim.ent_streams.pop(sim.ent_key, None)
            ids = []
            sim.notes["drivers"] = sim.notes["delegates"] = 0
            out = sim.process(lambda: one(i, slots), "run%d" % i)
            sim.ent_key = None
            if not out.ok:
                raise Violation("hang" if out.kind == "stuck" else "failure", "%s fails although nothing went wrong: %s" % (what, out.describe()))
            if out.value is None:
                why = [t for l, n, t in sim.logcap.records if l >= 40][-1:]
                raise Violation("failure", "%s fails although nothing went wrong: %s" % (what, why))
            got = {}
            for rel, (pop, fit, cost) in st.acked.items():
                if "/%s/" % ids[0] in rel:
                    got[rel.rsplit("/", 1)[1]] = (cost, sorted(K.plain(pop)))
            want = slots if not plan.get("fit_time") else range(slots[0], slots[1] + 1, slots[0])
            if len(got) != len(want):
                raise Violation("failure", "%s stores %d results instead of %d (%s)" % (what, len(got), len(want), slots))
            for j, (s, other) in enumerate(lives):
                for name in sorted(set(got) & set(other)):
                    if got[name] != other[name]:
                        d = "costs %s and %s" % (other[name][0], got[name][0]) if other[name][0] != got[name][0] else "cost %s, other individuals" % got[name][0]
                        raise Violation("watched-result", "%s: the result %s of a run with the slots %s is not that of the same run with the slots %s (%s)" % (what, name, slots, s, d))
                    sim.probe("slots_compared")
            lives.append((slots, got))
        sim.cover("slots", plan["algo"], bool(plan.get("fit_time")))
        return {"nontrivial": True}

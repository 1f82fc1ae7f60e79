"""Hierarchic genetic strategy, classic and distributed: the whole algorithm runs over scripted
drivers that report what is done with them; a reference model of the tree of nodes is checked
against that history after the run."""
import copy
import math

from sim import fakes, seams
from sim import storekit as K
from sim.harness import Violation
from sim.registry import scenario
from sim.seams import SimStop

EPS = 2.220446049250313e-16
TOL = 1e-9
REF = 50.0


def hv2(points):
    pts = sorted((p for p in points if p[0] <= REF and p[1] <= REF), key=lambda p: (p[0], p[1]))
    area, low = 0.0, REF
    for x, y in pts:
        if y < low:
            area += (REF - x) * (low - y)
            low = y
    return area


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


def mean(pop):
    n = len(pop)
    return [sum(v[i] for v in pop) / n for i in range(len(pop[0]))]


def fitness(problem, v):
    if problem == "SIMP":
        return (v[0], v[1])
    return (40.0 - v[0] / 2 + v[2] / 64, v[1])


class MNode:
    def __init__(self, uid, level, pop):
        self.uid, self.level, self.start = uid, level, pop
        self.pop = []
        self.delegates = []
        self.ripe = False
        self.ran = False
        self.parent = None
        self.children = []
        self.rel = None
        self.old = self.hv = float("-inf")

    def __repr__(self):
        return "node %d (level %d)" % (self.uid, self.level)

    def finish_epoch(self, problem, pop, delegates):
        self.still = pop == self.pop
        self.first = pop if self.rel is None else self.first
        exact = all(c * 65536 % 1 == 0 for p in (self.first, self.pop) for v in p for c in v)
        self.same = exact or self.pop == self.first  # the difference between the epoch before and the first one is exact
        self.pop, self.delegates, self.ran = pop, delegates, True
        self.center = mean(pop) if pop else None
        h = hv2([fitness(problem, v) for v in pop])
        self.old = self.hv
        if self.rel is None:
            self.rel = h
        else:
            self.hv = h - self.rel


class Undecided(Exception):
    """a comparison of two floats is too close to call: what follows is not judged"""


class Recorder:
    def __init__(self, sim):
        self.sim = sim
        self.cases = []
        self.home = {}
        self.delegates = {}
        sim.notes["on_driver"] = self.event

    def new_case(self, drv, population):
        c = {"population": population, "steps": [], "pops": [], "events": []}
        self.cases.append(c)
        return c

    def event(self, kind, drv, data):
        if not self.cases:
            return
        d = data
        if isinstance(data, list):
            d = [list(v) if isinstance(v, (list, tuple)) else v for v in data]
        uid = drv.uid
        if kind == "new":
            # a message of an earlier tree may still be under way when the next one runs
            self.home[uid] = self.delegates.get(tuple(d[0]) if d else None, len(self.cases) - 1)
        case = self.cases[self.home[uid]]
        if kind == "delegates":
            for v in d:
                self.delegates[tuple(v)] = self.home[uid]
        case["events"].append((kind, uid, drv.level, d))


LEVELS = {10.0: 0, 12.0: 1, 15.0: 2}


class Reported:
    """builds a real algorithm that reports what is done with it, as the scripted one does"""

    def __init__(self, make):
        self.make = make
        self.keywords = make.keywords

    def __reduce__(self):
        return Reported, (self.make,)

    def __call__(self, *a, **kw):
        drv = self.make(*a, **kw)
        s = seams.cur()
        drv.uid = s.notes["drivers"] = s.notes.get("drivers", 0) + 1
        drv.level = LEVELS.get(kw.get("mutation_eta"), -1)
        s.log("real", "new", drv.uid, drv.level)
        fakes._event(s, "new", drv, K.plain(kw["population"]))
        step, final, adapter = drv.step, drv.finalized_population, drv.message_adapter
        last = []

        def r_step():
            fakes._event(s, "enter", drv, None)
            s.clock.advance(0.01)
            s.sched.maybe_switch("step")
            step()
            s.log("real", "step", drv.uid, drv.cost)
            fakes._event(s, "step", drv, drv.cost)

        def r_final():
            pop = list(final())
            last[:] = K.plain(pop)
            fakes._event(s, "final", drv, K.plain(pop))
            return pop

        drv.step, drv.finalized_population = r_step, r_final
        if hasattr(adapter, "nominate_delegates"):
            nominate = adapter.nominate_delegates

            def r_nominate():
                d = list(nominate())
                own = K.plain(drv.population) + last
                out = [v for v in K.plain(d) if v not in own]
                if out and type(drv).__name__ in ("SPEA2", "IBEA", "OMOPSO", "SMSEMOA"):  # (the fronts of the others have what the last selection left out)
                    s.notes.setdefault("delegate_faults", []).append("%s nominates %d delegates that are not of its population" % (type(drv).__name__, len(out)))
                fakes._event(s, "delegates", drv, K.plain(d))
                return d

            adapter.nominate_delegates = r_nominate
        return drv


class Hgs:
    real = 0.25  # share of runs with a real algorithm in the nodes
    kinds = ()  # violations this property reports
    drivers = ("HGS", "DHGS", "DHGS")
    bias = "tree"
    faults = False

    # ------------------------------------------------------------ generation
    def gen(self, rng, tier):
        kind = rng.choice(self.drivers)
        sim = {"deliver": rng.choice(["fifo", "random", "random", "random", "lifo", "starve"]), "reorder_p": rng.choice([0.2, 0.5, 0.9]),
               "net_delay": rng.choice([0, 0, 0.01, 1.0]), "victim": rng.randrange(80), "switch_p": rng.choice([0.02, 0.2]),
               "deliver_time": 0.001}
        big = rng.random() < (0.06 if tier == "quick" else 0.12)
        hgs = {
            "population_sizes": [rng.choice([3, 4, 6]), rng.choice([1, 2, 4]), rng.choice([1, 2, 3])],
            "metaepoch_len": [rng.randint(1, 4) for _ in range(3)],
            "comparison_multipliers": [1.0, rng.choice([0.0, 0.003, 0.03, 0.08, 0.25]), rng.choice([0.0, 0.003, 0.02, 0.08, 0.25])],
            "max_sprouts_no": rng.choice([1, 2, 3, 5, 16]),
            "sproutiveness": rng.choice([1, 1, 2, 3, 5]),
            "min_progress_ratio": [rng.choice([-0.5, 0.0, 0.001, 0.03, 0.3, 2.0, 2.0]), rng.choice([-0.5, 0.00001, 0.01, 0.3, 2.0, 5.0]), rng.choice([-0.5, 0.0001, 0.01, 0.3, 2.0, 5.0])],
            "cost_modifiers": rng.choice([[1.0, 1.0, 1.0], [1.0, 0.5, 0.25], [0.1, 0.4, 1.0], [0.1, 2.0, 3.0]]),
            "fitness_errors": rng.choice([[0.0, 0.0, 0.0], [0.3, 0.2, 0.1]]),
            "max_level": rng.choice([2, 2, 2, 2, 1, 0]),
        }
        if self.bias == "sprouts":
            hgs["min_progress_ratio"][0] = rng.choice([0.03, 0.3, 2.0, 2.0])
            hgs["sproutiveness"] = rng.choice([1, 2, 3, 4, 6])
        if big:
            hgs.update(comparison_multipliers=[1.0, 0.003, 0.003])
            hgs.update(rng.choice([dict(max_sprouts_no=80, sproutiveness=40, max_level=1), dict(max_sprouts_no=8, sproutiveness=8)]))
            hgs["min_progress_ratio"][0] = 2.0
        dele = [1, 2, 4, [0, 3], [5, 1], 8]

        def script():
            n = rng.randint(1, 9)
            g = [rng.choice([0, 0.25, 1, 2, 4, 8]) for _ in range(n)]
            if rng.random() < 0.7:
                g = [rng.choice([2, 4, 8, 16]) for _ in range(rng.randint(2, 8))] + [0] * rng.randint(4, 30)
            s = {"gain": g, "cost": [rng.choice([1, 1, 2, 3, 5, 9, 0]) for _ in range(rng.randint(1, 4))],
                 "delegates": rng.choice([70, 45] if big else dele), "spread": rng.choice([1, 4, 16, 40])}
            if rng.random() < 0.3 and not big:
                s["grow"] = rng.choice([[1, 0], [0, 0, 3], [0, 0, 0, 0, 2]])
            return s

        sima = {"default": script()}
        if rng.random() < 0.7:
            sima["cycle"] = [script() for _ in range(rng.choice([2, 3, 4]))]
        if rng.random() < 0.6:
            sima["by_level"] = {str(i): script() for i in rng.sample(range(3), rng.randint(1, 3))}
        n = rng.choice([4, 8, 12, 18] if not big else [5, 8])
        ops = [{"op": "step"} for _ in range(n)]
        for _ in range(rng.choice([0, 1, 3])):
            ops.insert(rng.randint(0, len(ops)), {"op": "pop"})
        if rng.random() < 0.35:
            ops += [{"op": "pop"}]
        if rng.random() < 0.25:
            ops += [{"op": "new"}] + [{"op": "step"} for _ in range(rng.choice([2, 5, 9]))] + [{"op": "pop"}]
        p = {"sim": sim, "kind": kind, "problem": rng.choice(["SIMP", "SIMP", "SIMQ"]), "hgs": hgs, "sima": sima,
             "sima_seed": str(rng.random()), "ops": ops, "enough": 110 if big else 50}
        if not big and rng.random() < self.real:
            p["plain"] = rng.choice(["SPEA2", "IBEA", "NSGAII", "OMOPSO", "NSGAIII", "JGBL", "SMSEMOA", "NSLS"])
            hgs["population_sizes"] = [rng.choice([8, 10]), rng.choice([6, 8]), rng.choice([5, 6])]
            hgs["metaepoch_len"] = [rng.randint(1, 2) for _ in range(3)]
            hgs["sproutiveness"] = rng.choice([1, 2, 3])
            hgs["max_sprouts_no"] = rng.choice([1, 2, 3, 5])
            p["ops"] = [op for op in ops if op["op"] != "new"][:10]
            p["enough"] = 14
        return p

    # ------------------------------------------------------------ running
    def make(self, sim, plan):
        from simulation import factory, run_config

        d = {k: copy.deepcopy(v) for k, v in plan["hgs"].items()}
        run_config.DEFAULT_POPULATION_SIZE = max(plan["hgs"]["population_sizes"][0], 6)
        run_config.algo_base[plan["kind"]].update(d)
        maker, mod = factory.prepare(plan["kind"] + "+" + plan.get("plain", "SIMA"), plan["problem"])
        if plan.get("plain"):
            maker.keywords["driver"] = Reported(maker.keywords["driver"])
        # short binary fractions: hypervolumes are exact whatever the order of the additions
        p = maker.keywords["population"]
        p[:] = [[round(c * 64) / 64 for c in v] for v in p]
        return maker

    def run(self, sim, plan):
        rec = Recorder(sim)
        self.foreign = []
        state = {"drv": None}

        def body():
            maker = self.make(sim, plan)
            self.start(sim, plan, rec, state, maker)
            for op in plan["ops"]:
                if op["op"] == "new":
                    self.stop(sim, state, rec)
                    self.start(sim, plan, rec, state, maker)
                elif op["op"] == "step":
                    if sim.notes.get("drivers", 0) > plan.get("enough", 60):
                        continue
                    msg = state["drv"].next_step()
                    c = rec.cases[-1]
                    c["steps"].append({"end": len(c["events"]), "cost": state["drv"].cost, "msg": (msg.step_no, msg.cost)})
                else:
                    pop = K.plain(state["drv"].finalized_population())
                    c = rec.cases[-1]
                    c["pops"].append((len(c["steps"]), pop))
            self.stop(sim, state, rec)

        out = sim.process(body, "hgs")
        if out.kind == "stuck":
            self.report("hang", "an operation of %s never ends: %s" % (plan["kind"], out.describe()))
        elif not out.ok:
            self.report("failure", "%s fails although nothing went wrong: %s" % (plan["kind"], out.describe()))
        for msg in sim.notes.get("delegate_faults", [])[:1]:
            self.report("sprout-origin", msg)
        try:
            left = [a for s in sim.systems for a in self.left_over(s)] if out.ok and "left-over" in self.kinds else []
            if left:
                self.report("left-over", "%d actors are alive after the shutdown, e.g. %s" % (len(left), left[0]))
            nodes = 0
            for c in rec.cases:
                m = Model(self, sim, plan, c)
                m.check(out.ok)
                nodes += len(m.nodes)
        except Undecided:
            sim.probe("undecided")
        except Exception:
            if not self.foreign:
                raise
        if self.foreign:
            sim.probe("judged_by_another_property")
        return {"nontrivial": sum(len(c["steps"]) for c in rec.cases) > 2}

    def left_over(self, system):
        system.drain()
        return system.alive_actors()

    def start(self, sim, plan, rec, state, maker):
        c = rec.new_case(None, K.plain(maker.keywords["population"]))
        state["drv"] = maker()
        c["start"] = len(c["events"])

    def stop(self, sim, state, rec):
        drv, state["drv"] = state["drv"], None
        drv.shutdown()

    def report(self, cls, msg):
        if cls in self.kinds:
            raise Violation(cls, msg)
        self.foreign.append(cls)  # judged by another property; what follows may still break this one


class Model:
    """What the rules of the strategy say about the recorded history of one case"""

    def __init__(self, prop, sim, plan, case):
        self.report = prop.report
        self.sim, self.plan, self.case = sim, plan, case
        self.h = plan["hgs"]
        self.problem = plan["problem"]
        self.distributed = plan["kind"] == "DHGS"
        ndim = 2 if self.problem == "SIMP" else 3
        corner = math.sqrt(ndim) * 64.0
        self.md = [m * corner for m in self.h["comparison_multipliers"]]
        self.ratio = list(self.h["min_progress_ratio"])
        self.nodes = {}
        self.cost = 0
        self.prev = None  # what the last step leaves open until the next one shows who is alive
        self.origin = {}  # delegate -> node that nominated it
        self.dims = ndim

    # ------------------------------------------------------------ one case
    def check(self, complete):
        ev, steps = self.case["events"], self.case["steps"]
        pops = list(self.case["pops"])
        pos = 0
        bounds = [s["end"] for s in steps]
        for k, s in enumerate(steps):
            self.check_pops(pops, k, ev, pos)
            part = ev[pos:s["end"]]
            pos = s["end"]
            self.step(k, part, s)
        self.check_pops(pops, len(steps), ev, pos)
        self.last()
        self.sim.cover(self.plan["kind"], len(self.nodes), sum(n.ripe for n in self.nodes.values()))
        self.sim.probe("hgs_steps", len(steps))
        self.sim.probe("hgs_nodes", len(self.nodes))
        if len(self.nodes) > 64:
            self.sim.probe("more_than_64_nodes")
        if any(n.level == 2 for n in self.nodes.values()):
            self.sim.probe("three_levels")

    def check_pops(self, pops, k, ev, pos):
        """the population is everything the nodes had at the end of their last metaepochs"""
        while pops and pops[0][0] == k:
            got = sorted(pops.pop(0)[1])
            want = sorted(v for n in self.nodes.values() for v in n.pop)
            if got != want:
                extra = sum(1 for v in got if v not in want)
                self.report("population", "after step %d the population has %d individuals (%d of them foreign), the %d nodes hold %d" % (
                    k, len(got), extra, len(self.nodes), len(want)))
            self.sim.probe("populations_checked")

    def add(self, uid, level, pop):
        n = MNode(uid, level, pop)
        if uid in self.nodes:
            self.report("population", "%r is created twice" % n)
        self.nodes[uid] = n
        return n

    # ------------------------------------------------------------ one step
    def step(self, k, part, s):
        h = self.h
        # whoever is created before the last epoch of this step ended was released in the step before
        cut = max([i for i, e in enumerate(part) if e[0] in ("step", "final", "delegates")], default=-1)
        early = [e for i, e in enumerate(part) if e[0] == "new" and i < cut]
        late = [e for i, e in enumerate(part) if e[0] == "new" and i >= cut]
        if k == 0:
            for e in self.case["events"][:self.case.get("start", 0)]:
                if e[0] == "new" and e not in early:
                    early.insert(0, e)
            self.root(early)
        else:
            self.prev["new"] += early
        # what every node did
        done = {}
        for kind, uid, level, data in part:
            if kind in ("step", "final", "delegates"):
                done.setdefault(uid, []).append((kind, data))
        known = set(self.nodes) | ({e[1] for e in self.prev["new"]} if k else set())
        for uid in done:
            if uid not in known:
                self.report("wrong-run", "step %d runs a node that does not belong to the tree" % (k + 1))
        ran = set(done)
        if k:
            self.settle(k, ran)
        elif ran != set(self.nodes):
            self.report("wrong-run", "the first step does not run the root alone")
        shares = []
        for uid, acts in done.items():
            n = self.nodes[uid]
            costs = [d for kind, d in acts if kind == "step"]
            if len(costs) != h["metaepoch_len"][n.level]:
                self.report("wrong-run", "step %d: %r made %d steps, a metaepoch of its level has %d" % (k + 1, n, len(costs), h["metaepoch_len"][n.level]))
            before = getattr(n, "cost", 0)
            n.cost = costs[-1] if costs else before
            shares.append(h["cost_modifiers"][n.level] * (n.cost - before))
        inc = max(shares) if self.distributed else sum(shares)
        self.cost += inc
        if not K.close(self.cost, s["cost"]):
            self.report("cost", "step %d: the cost is %s; the epochs of the %d nodes that ran make it %s" % (k + 1, s["cost"], len(shares), self.cost))
        if s["msg"] != (k, s["cost"]):
            self.report("cost", "step %d reports number and cost %s" % (k + 1, s["msg"]))
        for uid, acts in done.items():
            n = self.nodes[uid]
            finals = [d for kind, d in acts if kind == "final"]
            deleg = [d for kind, d in acts if kind == "delegates"]
            if not finals or not deleg:
                self.report("population", "step %d: nobody asked %r for its population and delegates" % (k + 1, n))
            n.finish_epoch(self.problem, finals[-1], deleg[-1])
            for d in deleg[-1]:
                self.origin.setdefault(tuple(d), {})[n.uid] = n
        # who stops
        dying = set()
        for uid in ran:
            n = self.nodes[uid]
            if abs(n.old) < 1e-7 and not n.same:
                self.sim.probe("undecided_zero")
                raise Undecided()  # the two ways of adding up a hypervolume may differ in the last digits
            if n.old > 0.0:
                x = (n.hv / (n.old + EPS)) - 1.0
                t = self.ratio[n.level] / 2 ** n.level
                tol = TOL + TOL * (1 + abs(x)) / n.old
                if n.still and (n.old > 4 or n.same and 0 < n.old < 1.9):
                    tol = 0.0
                if n.still and n.old > 4:
                    x, tol = 0.0, 0.0  # the same population twice
                if abs(x - t) < tol:
                    self.sim.probe("undecided_ratio")
                    raise Undecided()
                if x < t:
                    dying.add(uid)
        self.prev = {"ran": ran, "dying": dying, "new": late, "k": k, "was_ripe": {u for u, n in self.nodes.items() if n.ripe}}

    def root(self, news):
        if len(news) != 1:
            self.report("population", "a new tree has %d nodes" % len(news))
        kind, uid, level, pop = news[0]
        n = self.add(uid, level, pop)
        if level != 0 or len(pop) != self.h["population_sizes"][0]:
            self.report("sprout-size", "the root starts on level %s with %d individuals" % (level, len(pop)))
        rest = [list(v) for v in self.case["population"]]
        for v in pop:
            if v not in rest:
                self.report("population", "the root starts with an individual that is not in the initial population (or twice)")
            rest.remove(v)

    def settle(self, k, ran):
        """step k is over and step k+1 shows who was alive after it: judge step k"""
        p, h = self.prev, self.h
        ripe = p["was_ripe"] | p["dying"]
        created = [self.add(e[1], e[2], e[3]) for e in p["new"]]
        for n in created:
            self.sprout(k, n, ripe, p)
        rest = p["ran"] - p["dying"]
        new = {n.uid for n in created}
        stray = ran - rest - new - ripe
        if stray:
            self.report("wrong-run", "step %d runs %r, a node removed as redundant" % (k + 1, self.nodes[min(stray)]))
        survivors = rest & ran
        revived = False
        if ran & ripe:
            if new or survivors:
                self.report("revival", "step %d runs %r, which had stopped, although %d other nodes are alive" % (k + 1, self.nodes[min(ran & ripe)], len(new | survivors)))
            revived = True
        elif new - ran:
            self.report("wrong-run", "step %d does not run %r, released in the step before" % (k + 1, self.nodes[min(new - ran)]))
        elif not survivors and not new and ripe:
            self.report("revival", "nobody is alive after step %d and nobody is revived" % k)
        if revived and ran != ripe:
            self.report("revival", "%d of %d ripe nodes are revived after step %d" % (len(ran), len(ripe), k))
        self.redundancy(k, rest, survivors, ripe)
        self.limits(k, created, survivors, ripe)
        for u in p["dying"]:
            self.nodes[u].ripe = True
            self.sim.probe("stopped")
        self.sim.probe("redundant", len(rest - survivors))
        self.sim.probe("sprouts", len(created))
        if revived:
            self.sim.probe("revivals")
            for u in ran:
                self.nodes[u].ripe = False
            self.ratio = [x / 2 for x in self.ratio]

    def sprout(self, k, n, ripe, p):
        h = self.h
        parents = [o for o in self.origin.get(tuple(n.start[0]), {}).values() if o.level == n.level - 1] if n.start else []
        now = [o for o in parents if any(list(d) == n.start[0] for d in o.delegates)]
        if len([o for o in now if o.uid in ripe] or now) > 1:
            raise Undecided()  # real algorithms: several nodes nominate the very same individual
        parent = next((o for o in now if o.uid in ripe), now[0] if now else None)
        if parent is None:
            parents = list(self.origin.get(tuple(n.start[0]), {}).values()) if n.start else []
            parent = next((o for o in parents if any(list(d) == n.start[0] for d in o.delegates)), None)
        if parent is None:
            self.report("sprout-origin", "step %d: %r does not start at a delegate its parent has now" % (k, n))
        if n.level != parent.level + 1 or n.level > h["max_level"]:
            self.report("sprout-origin", "step %d: %r is a sprout of %r, the lowest level is %d" % (k, n, parent, h["max_level"]))
        n.parent = parent
        parent.children.append(n)
        if parent.uid not in ripe:
            self.report("sprout-early", "step %d: %r released %r although it is not ripe" % (k, parent, n))
        if len(n.start) != h["population_sizes"][n.level]:
            self.report("sprout-size", "step %d: %r starts with %d individuals, the size of its level is %d" % (k, n, len(n.start), h["population_sizes"][n.level]))
        for v in n.start:
            if len(v) != self.dims or not all(0.0 <= c <= 64.0 for c in v):
                self.report("sprout-size", "step %d: %r starts with an individual outside the domain" % (k, n))
        for o in self.nodes.values():
            if o is not n and o.level == n.level and o.ran and o.pop and dist(n.start[0], o.center) < self.md[n.level] - TOL:
                self.report("sprout-close", "step %d: %r starts %.4g from the centre of %r, the smallest distance is %.4g" % (
                    k, n, dist(n.start[0], o.center), o, self.md[n.level]))

    def limits(self, k, created, survivors, ripe):
        h = self.h
        by = {}
        for n in created:
            by.setdefault(n.parent.uid, []).append(n)
        if self.distributed:
            for a in created:
                for b in created:
                    if a.uid < b.uid and a.level == b.level:
                        m = self.md[a.level] - TOL
                        if dist(a.start[0], mean(b.start)) < m and dist(b.start[0], mean(a.start)) < m:
                            self.report("sprout-close", "step %d: %r and %r are released closer than %.4g" % (k, a, b, self.md[a.level]))
        for uid in ripe:
            n = self.nodes[uid]
            mine = by.get(uid, [])
            if len(mine) > h["sproutiveness"]:
                self.report("sprout-many", "step %d: %r releases %d sprouts, at most %d are allowed" % (k, n, len(mine), h["sproutiveness"]))
            alive = len([c for c in n.children if c.uid in survivors]) + len(mine)
            if mine and alive > h["max_sprouts_no"]:
                self.report("sprout-many", "step %d: %r has %d living sprouts, at most %d are allowed" % (k, n, alive, h["max_sprouts_no"]))
            # nothing is left out either
            if n.level >= h["max_level"] or len(mine) >= h["sproutiveness"] or alive >= h["max_sprouts_no"]:
                continue
            if not self.distributed:
                q = n
                while q.parent is not None and q.parent.uid in ripe:
                    q = q.parent
                if q.parent is not None:
                    continue  # the classic strategy visits the ripe top of the tree only
            used = {tuple(c.start[0]) for c in mine}
            fresh = {c.uid for c in created}
            for d in n.delegates:
                if tuple(d) in used:
                    continue
                near = False
                for o in self.nodes.values():
                    if o.level != n.level + 1:
                        continue
                    if o.uid in fresh:
                        if self.distributed and dist(d, mean(o.start)) < self.md[o.level] + TOL:
                            near = True
                    elif o.pop and dist(d, o.center) < self.md[o.level] + TOL:
                        near = True
                if not near:
                    self.report("sprout-missing", "step %d: %r is ripe, may have more sprouts and does not use a delegate far from every node of the next level" % (k, n))

    def redundancy(self, k, rest, survivors, ripe):
        for level in range(3):
            m = self.md[level]
            group = [self.nodes[u] for u in sorted(rest) if self.nodes[u].level == level]
            if not group:
                continue
            stopped = [self.nodes[u] for u in ripe if self.nodes[u].level == level]
            close, blocked = {n.uid: [] for n in group}, set()
            for i, a in enumerate(group):
                for b in group[:i]:
                    d = dist(a.center, b.center)
                    if abs(d - m) < TOL:
                        raise Undecided()
                    if d < m:
                        close[a.uid].append(b.uid)
                        close[b.uid].append(a.uid)
                for o in stopped:
                    d = dist(a.center, o.center)
                    if abs(d - m) < TOL:
                        raise Undecided()
                    if d < m:
                        blocked.add(a.uid)
            for n in group:
                if n.uid in survivors:
                    if n.uid in blocked:
                        self.report("redundant-kept", "step %d: %r goes on although it is closer than %.4g to a node that stopped" % (k, n, m))
                    for u in close[n.uid]:
                        if u in survivors:
                            self.report("redundant-kept", "step %d: %r and %r go on although they are closer than %.4g" % (k, n, self.nodes[u], m))
            # whoever was removed was close to somebody who stays, was blocked, or was removed after such a one
            ok = {n.uid for n in group if n.uid in survivors or n.uid in blocked}
            todo = list(ok)
            while todo:
                for u in close[todo.pop()]:
                    if u not in ok:
                        ok.add(u)
                        todo.append(u)
            for n in group:
                if n.uid not in ok:
                    self.report("removed", "step %d: %r stopped although it makes progress and is not close to any node" % (k, n))

    def last(self):
        """the last step: what can be said without seeing who runs next"""
        p = self.prev
        if not p:
            return
        for e in p["new"]:
            self.sprout(p["k"] + 1, self.add(e[1], e[2], e[3]), p["was_ripe"] | p["dying"], p)


@scenario
class HgsCompletes(Hgs):
    """C11"""

    name = "hgscompletes"
    drivers = ("DHGS",)
    kinds = ("hang", "failure", "left-over")


@scenario
class HgsPopulation(Hgs):
    """C12"""

    name = "hgspopulation"
    kinds = ("population", "hang", "failure")

    def gen(self, rng, tier):
        p = super().gen(rng, tier)
        ops = []
        for op in p["ops"]:
            ops.append(op)
            if op["op"] == "step" and rng.random() < 0.5:
                ops.append({"op": "pop"})
        p["ops"] = ops
        return p


@scenario
class HgsCost(Hgs):
    """C13"""

    name = "hgscost"
    kinds = ("cost", "wrong-run", "hang", "failure")


@scenario
class HgsSprouts(Hgs):
    """C14"""

    name = "hgssprouts"
    bias = "sprouts"
    kinds = ("sprout-size", "sprout-origin", "sprout-early", "sprout-close", "sprout-many", "sprout-missing", "hang", "failure")


@scenario
class HgsTrimming(Hgs):
    """C15"""

    name = "hgstrimming"
    kinds = ("removed", "redundant-kept", "revival", "wrong-run", "sprout-early", "sprout-missing", "hang", "failure")

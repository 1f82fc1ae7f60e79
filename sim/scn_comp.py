"""Island model, and failures inside the composed algorithms."""
import copy
import random

from sim import seams
from sim import storekit as K
from sim.harness import Violation
from sim.registry import scenario
from sim.scn_hgs import Hgs, Model, Recorder, Undecided


def neighbours(n):
    from algorithms.IMGA.topology import TorusTopology

    return [set(x) for x in TorusTopology(4).create(n)]


def msub(a, b):
    """multiset a without b -> (rest, what of b was not in a)"""
    rest, missing = [list(v) for v in a], []
    for v in b:
        if v in rest:
            rest.remove(v)
        else:
            missing.append(v)
    return rest, missing


class Imga:
    kinds = ()

    def script(self, rng):
        s = {"gain": rng.choice([0, 1, [1, 0], [4, 0, 0.25]]), "cost": [rng.choice([1, 2, 3, 7, 0]) for _ in range(rng.randint(1, 4))]}
        if rng.random() < 0.35:
            s["grow"] = rng.choice([1, [1, 0], [0, 0, 2]])
        if rng.random() < 0.4:
            s["use_random"] = True
        if rng.random() < 0.3:
            s["time"] = rng.choice([0.1, [0.5, 0.01], [2.0, 0.0, 0.0]])
        return s

    def gen(self, rng, tier):
        n = rng.choice([1, 2, 3, 3, 4, 5, 6, 8, 9, 10, 12])
        mig = rng.choice([0, 1, 1, 2, 3])
        need = max([len(x) for x in neighbours(n)] + [1]) * mig + rng.choice([1, 2, 4])
        pop = max(need, 2) * n + rng.randrange(n + 1)
        sima = {"default": self.script(rng)}
        if rng.random() < 0.7:
            sima["cycle"] = [self.script(rng) for _ in range(rng.choice([2, 3, 4]))]
        ops = [{"op": "step"} for _ in range(rng.choice([1, 2, 4, 7]))]
        for _ in range(rng.choice([1, 2])):
            ops.insert(rng.randint(0, len(ops)), {"op": "pop"})
        ops.append({"op": "pop"})
        return {"sim": {"switch_p": rng.choice([0.05, 0.3, 0.6, 0.9])}, "kind": "IMGA", "problem": rng.choice(["SIMP", "SIMQ"]),
                "imga": {"islands_number": n, "epoch_length": rng.randint(1, 5), "migrants_number": mig}, "popsize": pop,
                "same": rng.random() < 0.2, "max_budget": rng.choice([None, None, 1, 10, 40, 150, 600]), "sima": sima, "sima_seed": str(rng.random()), "ops": ops}

    def maker(self, plan):
        from simulation import factory, run_config

        run_config.DEFAULT_POPULATION_SIZE = plan["popsize"]
        run_config.algo_base["IMGA"].update(plan["imga"])
        maker, mod = factory.prepare("IMGA+SIMA", plan["problem"])
        if plan.get("same"):
            # individuals with equal values are still as many
            p = maker.keywords["population"]
            p[:] = [list(p[i // 3]) for i in range(len(p))]
        return maker

    def own(self, island):
        """what an island contributes to the population of all"""
        return island.population

    def report(self, cls, msg):
        if cls in self.kinds:
            raise Violation(cls, msg)
        self.foreign.append(cls)  # judged by another property; what follows may still break this one

    def run(self, sim, plan):
        log, drvs, busy = [], {}, {}
        self.foreign = []
        overlap = []

        def event(kind, drv, data):
            drvs.setdefault(drv.uid, drv)
            if kind == "enter":
                if busy.get(drv.uid):
                    overlap.append(drv.uid)
                busy[drv.uid] = True
            elif kind == "step":
                busy[drv.uid] = False
            d = [list(v) for v in data] if isinstance(data, list) else data
            log.append((kind, drv.uid, d, K.plain(drv.population) if kind in ("step", "new") else None))

        sim.notes["on_driver"] = event
        ops = []

        def body():
            maker = self.maker(plan)
            start = K.plain(maker.keywords["population"])
            drv = maker()
            if plan.get("max_budget"):
                drv.max_budget = plan["max_budget"]  # as the worker does
            ops.append(("new", start, len(log), None))
            for op in plan["ops"]:
                if op["op"] == "step":
                    m = drv.next_step()
                    ops.append(("step", (drv.cost, m.step_no, m.cost), len(log), {u: K.plain(d.population) for u, d in drvs.items()}))
                else:
                    got = K.plain(drv.finalized_population())
                    ops.append(("pop", got, len(log), {u: K.plain(self.own(d)) for u, d in drvs.items()}))
            drv.shutdown()

        out = sim.process(body, "imga")
        try:
            if out.kind == "stuck":
                self.report("hang", "a step of the island model never ends: %s" % out.describe())
            elif not out.ok:
                self.report("failure", "the island model fails although nothing went wrong: %s" % out.describe())
            if overlap:
                self.report("wrong-run", "two steps of one island run at the same time")
            self.judge(sim, plan, log, ops)
        except Exception:
            if not self.foreign:
                raise
        if self.foreign:
            sim.probe("judged_by_another_property")
        return {"nontrivial": len(ops) > 2}

    def judge(self, sim, plan, log, ops):
        im = plan["imga"]
        n, topo = im["islands_number"], neighbours(im["islands_number"])
        pos, uids, pops, cost, steps = 0, [], {}, {}, 0
        for kind, data, end, after in ops:
            part, pos = log[pos:end], end
            if kind == "new":
                news = [e for e in part if e[0] == "new"]
                uids = [e[1] for e in news]
                if len(uids) != n:
                    self.report("islands", "%d islands are created instead of %d" % (len(uids), n))
                pops = {e[1]: e[3] for e in news}
                cost = {u: 0 for u in uids}
                got = sorted(v for p in pops.values() for v in p)
                if got != sorted(data):
                    self.report("islands", "the islands start with %d individuals, the initial population has %d, %d of them are on no island" % (
                        len(got), len(data), len(msub(data, got)[0])))
                sizes = [len(p) for p in pops.values()]
                if max(sizes) - min(sizes) > 1:
                    self.report("islands", "the islands start with %s individuals" % sizes)
                continue
            if kind == "pop":
                got = sorted(data)
                want = sorted(v for p in after.values() for v in p)
                if got != want:
                    extra, missing = msub(got, want)
                    self.report("population", "the population has %d individuals, the islands hold %d (%d foreign or repeated, %d lost)" % (len(got), len(want), len(extra), len(missing)))
                sim.probe("populations_checked")
                continue
            steps += 1
            idx = {u: i for i, u in enumerate(uids)}
            own = [e for e in part if e[0] == "step"]
            count = {u: 0 for u in uids}
            before = dict(pops)
            for e in own:
                if e[1] not in count:
                    self.report("wrong-run", "a step of an unknown island")
                count[e[1]] += 1
                cost[e[1]] = e[2]
                before[e[1]] = e[3]
            for u in uids:
                if count[u] != im["epoch_length"]:
                    self.report("wrong-run", "epoch %d: island %d makes %d steps, an epoch has %d" % (steps, idx[u], count[u], im["epoch_length"]))
            last = max(i for i, e in enumerate(part) if e[0] in ("step", "enter"))
            first = min([i for i, e in enumerate(part) if e[0] in ("emigrate", "immigrate")], default=None)
            if first is not None and first < last:
                self.report("wrong-run", "epoch %d: individuals migrate while islands are still running" % steps)
            total = sum(cost.values())
            if not K.close(data[0], total) or not K.close(data[2], total):
                self.report("cost", "epoch %d: the cost is %s (reported %s), the islands spent %s" % (steps, data[0], data[2], total))
            if data[1] != steps - 1:
                self.report("cost", "epoch %d is reported with number %s" % (steps, data[1]))
            # migration
            left = {u: [] for u in uids}
            came = {u: [] for u in uids}
            for e in part:
                if e[0] == "emigrate":
                    left[e[1]] += e[2]
                elif e[0] == "immigrate":
                    came[e[1]] += e[2]
            allb = [v for u in uids for v in before[u]]
            alla = [v for u in uids for v in after[u]]
            extra, missing = msub(alla, allb)
            if extra or missing:
                self.report("migration", "epoch %d: migration turns %d individuals into %d (%d appeared, %d lost)" % (steps, len(allb), len(alla), len(extra), len(missing)))
            for u in uids:
                i = idx[u]
                want = im["migrants_number"] * len(topo[i])
                if len(left[u]) != want or len(came[u]) != want:
                    self.report("migrants", "epoch %d: %d individuals leave island %d and %d arrive; it has %d neighbours and %d migrants go to each" % (
                        steps, len(left[u]), i, len(came[u]), len(topo[i]), im["migrants_number"]))
                rest, bad = msub(before[u], left[u])
                if bad:
                    self.report("migrants", "epoch %d: an individual leaves island %d that was not there" % (steps, i))
                if sorted(rest + came[u]) != sorted(after[u]):
                    self.report("migrants", "epoch %d: island %d is left by %d and joined by %d individuals but changes otherwise" % (steps, i, len(left[u]), len(came[u])))
                pool = [v for j in topo[i] for v in left[uids[j]]]
                if msub(pool, came[u])[1]:
                    self.report("migrants", "epoch %d: an individual joins island %d from an island that is not its neighbour" % (steps, i))
            sim.probe("migrations", sum(len(v) for v in left.values()))
            pops = {u: after[u] for u in uids}
            sim.cover("imga", n, tuple(idx[e[1]] for e in own)[:12])


@scenario
class ImgaMigration(Imga):
    """C17"""

    name = "imgamigration"
    kinds = ("islands", "population", "migration", "migrants", "hang", "failure")


@scenario
class ImgaEpochs(Imga):
    """C18"""

    name = "imgaepochs"
    kinds = ("wrong-run", "cost", "hang", "failure")


class ImgaReal(Imga):
    """the same with real algorithms on the islands, which are watched through their own methods"""

    def gen(self, rng, tier):
        from sim.scn_algos import HEAVY, PLAIN

        algo = rng.choice([a for a in PLAIN if a not in HEAVY] * 2 + [a for a in PLAIN if a in HEAVY])
        n = rng.choice([1, 2, 3, 3, 4, 5, 6] if algo not in HEAVY else [2, 3, 4])
        mig = rng.choice([0, 1, 1, 2])
        need = max([len(x) for x in neighbours(n)] + [1]) * mig + rng.choice([3, 4, 6])
        pop = max(need, 6) * n + rng.randrange(n + 1)
        ops = [{"op": "step"} for _ in range(rng.choice([1, 2, 3]))]
        ops.insert(rng.randint(0, len(ops)), {"op": "pop"})
        ops.append({"op": "pop"})
        return {"sim": {"switch_p": rng.choice([0.05, 0.3, 0.9])}, "kind": "IMGA", "algo": algo, "problem": rng.choice(["SIMP", "SIMQ", "ZDT1", "ZDT4", "UF2"]),
                "imga": {"islands_number": n, "epoch_length": rng.choice([1, 2, 3] if algo not in HEAVY else [1]), "migrants_number": mig}, "popsize": pop,
                "same": rng.random() < 0.2, "ops": ops}

    def own(self, island):
        return island.finalized_population()

    def maker(self, plan):
        from simulation import factory, run_config

        run_config.DEFAULT_POPULATION_SIZE = plan["popsize"]
        run_config.algo_base["IMGA"].update(plan["imga"])
        random.seed("imgareal:%s" % seams.cur().key)
        maker, mod = factory.prepare("IMGA+" + plan["algo"], plan["problem"])
        kw = maker.keywords
        if plan.get("same"):
            p = kw["population"]
            p[:] = [list(p[i // 3]) for i in range(len(p))]
        make = kw["driver"]

        def island(*a, **k):
            d = make(*a, **k)
            sim = seams.cur()
            d.uid = sim.notes["drivers"] = sim.notes.get("drivers", 0) + 1
            on = sim.notes["on_driver"]
            on("new", d, None)
            self.tell(sim, d, "step", lambda out: d.cost, on, enter=True)
            for kind in ("emigrate", "immigrate"):
                self.tell(sim, d.message_adapter, kind, None, on, driver=d)
            return d

        kw["driver"] = island
        return maker

    def tell(self, sim, obj, name, value, on, enter=False, driver=None):
        f = getattr(obj, name)
        drv = driver or obj

        def wrapped(*a):
            if enter:
                on("enter", drv, None)
                if sim.sched is not None:
                    sim.sched.maybe_switch("step")
            before = [list(value_of(x)) for x in a[0]] if name == "immigrate" else None
            out = f(*a)
            sim.log("island", name, drv.uid, drv.cost)
            on(name, drv, value(out) if value else [list(value_of(x)) for x in out] if name == "emigrate" else before)
            return out

        setattr(obj, name, wrapped)


def value_of(x):
    """the point an individual of any of the algorithms stands for"""
    if isinstance(x, dict):
        return x["value"]
    return x.v if hasattr(x, "v") else x.value


@scenario
class RealMigration(ImgaReal):
    """C17"""

    name = "realmigration"
    kinds = ImgaMigration.kinds


@scenario
class RealEpochs(ImgaReal):
    """C18"""

    name = "realepochs"
    kinds = ImgaEpochs.kinds


@scenario
class Failures:
    """C19: a failure inside a composed algorithm ends the operation with an error, and leaves the next
    algorithm in the same process undisturbed"""

    name = "compfail"

    def gen(self, rng, tier):
        kind = rng.choice(["DHGS", "DHGS", "DHGS", "HGS", "IMGA"])
        if kind == "IMGA":
            p = Imga().gen(rng, tier)
        else:
            h = type("H", (Hgs,), {"drivers": (kind,)})()
            p = h.gen(rng, tier)
            p["ops"] = [op for op in p["ops"] if op["op"] != "new"]
            p["enough"] = 40
        ops = p["ops"]
        x = rng.random()
        p["fit_from"] = None
        if x < 0.45:
            p["sima"]["by_uid"] = {str(rng.choice([1, 1, 2, 3, 4, 6])): rng.choice([{"fail_from": rng.randint(1, 9)}, {"fail_from": rng.randint(1, 4)}])}
        elif x < 0.6:
            p["fit_from"] = rng.choice([1, 5, 30, 100])
        elif x < 0.75:
            p["sima"].setdefault("by_level", {}).setdefault(str(rng.choice([-1, 0, 1, 2]) if kind != "IMGA" else -1), {})[rng.choice(["fail_new", "fail_final"])] = 1
        if kind == "DHGS" and (x > 0.6 or rng.random() < 0.3):
            p["sim"].update(fault_rate=rng.choice([0.0005, 0.003, 0.01]), fault_limit=rng.choice([1, 1, 2, 4]), fault_kinds=["actor_kill"])
        p["lives"] = [ops, [dict(o) for o in ops[: rng.randint(2, 6)]] + [{"op": "pop"}]]
        if rng.random() < 0.3:
            p["lives"].append([dict(o) for o in ops[:3]])
        p["one_process"] = rng.random() < 0.75
        p["clean_last"] = rng.random() < 0.6
        p["ops"] = [{"op": "life", "n": i} for i in range(len(p["lives"]))]
        return p

    def run(self, sim, plan):
        rec = Recorder(sim)
        notes = {"injected": 0, "killed": 0}
        members = {}
        h = Hgs()
        base = sim.notes["on_driver"]

        def event(kind, drv, data):
            base(kind, drv, data)
            if kind == "new":
                members[sim.notes.get("actor")] = rec.home.get(drv.uid)
            elif kind == "fail" and rec.home.get(drv.uid) == len(rec.cases) - 1:
                notes["injected"] += 1

        def fit(n, v):
            if n >= plan["fit_from"] and notes["fit"]:
                now = len(rec.cases) - 1
                if plan["kind"] != "DHGS" or members.get(sim.notes.get("actor"), now) == now:
                    notes["injected"] += 1
                return True
            return False

        def killed(dst):
            if dst in members:
                if members[dst] == len(rec.cases) - 1:  # not of a tree that was shut down
                    notes["killed"] += 1
            else:
                notes["idle"] = notes.get("idle", 0) + 1

        sim.notes["on_driver"] = event
        sim.notes["on_kill"] = killed
        notes["fit"] = True
        if plan.get("fit_from"):
            sim.notes["fit_fail"] = fit
        maker_of = (lambda: Imga().maker(plan)) if plan["kind"] == "IMGA" else (lambda: h.make(sim, plan))
        lives = [plan["lives"][o["n"]] for o in plan["ops"]]
        results = []

        def live(i, ops):
            if plan.get("clean_last") and i == len(lives) - 1 and i > 0:
                # whatever failed before is repaired now
                notes["fit"] = False
                sim.faults.enabled = False
                for part in ("by_uid", "by_level"):
                    for s in plan["sima"].get(part, {}).values():
                        for k in ("fail_from", "fail_new", "fail_final"):
                            s.pop(k, None)
            r = {"i": i, "start": dict(notes), "done": [], "error": None, "case": None}
            results.append(r)
            try:
                self.life(sim, plan, rec, notes, maker_of, ops, r)
            except Exception as e:
                r["error"] = e
            r["end"] = dict(notes)

        plan["sima"] = copy.deepcopy(plan["sima"])
        if plan.get("one_process"):
            out = sim.process(lambda: [live(i, ops) for i, ops in enumerate(lives)], "lives")
            self.hang(plan, out)
        else:
            for i, ops in enumerate(lives):
                out = sim.process(lambda: live(i, ops), "life%d" % i)
                self.hang(plan, out)
        for r in results:
            self.judge(sim, plan, r)
        return {"nontrivial": notes["injected"] + notes["killed"] > 0}

    def hang(self, plan, out):
        if out.kind == "stuck":
            raise Violation("hang", "%s never ends after a failure inside it: %s" % (plan["kind"], out.describe()))
        if not out.ok:
            raise Violation("failure-without-cause", "%s: %s" % (plan["kind"], out.describe()))

    def life(self, sim, plan, rec, notes, maker_of, ops, r):
        drv = None
        maker = maker_of()
        c = r["case"] = rec.new_case(None, K.plain(maker.keywords["population"]))
        try:
            drv = maker()
            c["start"] = len(c["events"])
            for op in ops:
                if op["op"] == "step" and sim.notes.get("drivers", 0) > plan.get("enough", 200):
                    continue
                before = (notes["injected"], notes["killed"])
                if op["op"] == "step":
                    m = drv.next_step()
                    c["steps"].append({"end": len(c["events"]), "cost": drv.cost, "msg": (m.step_no, m.cost)})
                else:
                    c["pops"].append((len(c["steps"]), K.plain(drv.finalized_population())))
                r["done"].append((op["op"], before, (notes["injected"], notes["killed"])))
        finally:
            if drv is not None:
                drv.shutdown()

    def judge(self, sim, plan, r):
        what = plan["kind"]
        dirty = any(r["end"].get(k, 0) > r["start"].get(k, 0) for k in ("injected", "killed", "idle"))
        sim.probe("lives")
        if r["error"] is not None and not dirty:
            raise Violation("failure-without-cause", "%s fails in life %d although nothing failed in it: %s: %s" % (what, r["i"] + 1, type(r["error"]).__name__, str(r["error"])[:300]))
        start = (r["start"]["injected"], r["start"]["killed"])
        for j, (op, b, a) in enumerate(r["done"]):
            if what == "DHGS":
                bad = b[0] > start[0] or b[1] > start[1]  # an earlier operation met the failure already
            else:
                bad = a != b
            if bad:
                raise Violation("silent-failure", "%s: a failure inside is not reported, the %s (operation %d) ends as if nothing had happened" % (what, op, j + 1))
        if r["error"] is not None:
            sim.probe("failures_reported")
        if not dirty and what != "IMGA":
            try:
                Model(_After(), sim, plan, r["case"]).check(True)
                sim.probe("clean_lives_checked")
            except Undecided:
                sim.probe("undecided")


class _After:
    def report(self, cls, msg):
        raise Violation("after-failure", "after a failure of another run in the same process: " + msg)

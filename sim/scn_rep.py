"""The reports: summary, statistics and ranking state what the stored results determine (C24)."""
import collections
import re
import sys

from sim import storekit as K
from sim.harness import Violation
from sim.registry import scenario
from sim.scn_store import gap, gen_batch, sim_cfg
from sim.seams import R  # noqa: F401

RANKED = {"hypervolume": max, "igd": min, "ahd": min, "spacing": min, "gd": min, "pdi": max}
NEAR = {"hypervolume": 0.005, "igd": 0.05, "ahd": 0.05, "spacing": 0.05, "gd": 0.05, "pdi": 0.005}
NUM = r"(-?[0-9.]+(?:e[-+]?\d+)?|-?inf|nan)"
CELL = re.compile(r"^ (\S+) *:: (\S+) *:: +(\d+) :: +(\d+) :: +(\S+) +:: .{3,9} :: *" + NUM + " ≤ +" + NUM + " ≤ *" + NUM + " :: +" + NUM + " :: ")
OUTLIERS = re.compile(r"^ *(\S+) mild +(\S+) extr\. *$")
SUMMARY = re.compile(r"^(\S+) +(\S+) +(\d+) +(\d+)$")
WINNER = re.compile(r"^(\S+), (\S+) : (\S+)$")
POINTS = re.compile(r"^(\S+) : (.*)$")


class Tee:
    """what every simulated process prints, apart"""

    def __init__(self, sim):
        self.sim = sim
        self.text = collections.defaultdict(list)

    def write(self, s):
        p = self.sim.sched.current_proc() if self.sim.sched is not None else None
        self.text[p.name if p is not None else ""].append(s)
        return len(s)

    def flush(self):
        pass


class Argv(list):
    """sys.argv of the simulated process that looks"""

    def __init__(self, sim):
        super().__init__(["evogil.py"])
        self.sim = sim
        self.by_proc = {}

    def mine(self):
        p = self.sim.sched.current_proc() if self.sim.sched is not None else None
        return self.by_proc.get(p.name if p is not None else None, ["evogil.py"])

    def __getitem__(self, i):
        return self.mine()[i]

    def __iter__(self):
        return iter(self.mine())

    def __len__(self):
        return len(self.mine())


def mean(xs):
    return sum(xs) * 1.0 / len(xs)


class Expected:
    """what the result files say"""

    def __init__(self, st):
        files = st.results()
        self.values = K.expected_values(st, files, K.ALL_METRICS)
        self.dir = st.dir
        self.counts = collections.Counter()
        for key in K.expected_extract(files).items():
            self.counts[key[0]] = len(key[1])
        self.algos = collections.defaultdict(set)
        for p, a, b in self.counts:
            self.algos[p, a].add(b)

    def algos_at(self, p, b):
        return [a for (q, a, c) in self.counts if (q, c) == (p, b)]

    def chosen(self, p, a):
        """the largest budget whose results cost no more than 500 above the last one"""
        budgets = sorted(self.algos[p, a])
        good = []
        for b in budgets:
            c = mean(self.values[p, a, b, "cost"])
            if abs(c - (budgets[-1] + 500)) < 1e-9 * c:
                return None
            if c <= budgets[-1] + 500:
                good.append(b)
        return good[-1] if good else False


def check_summary(exp, lines):
    got = collections.Counter()
    for m in filter(None, map(SUMMARY.match, lines)):
        k = (m.group(1), m.group(2), int(m.group(3)))
        if k in got:
            raise Violation("report-summary", "summary lists %s twice" % (k,))
        got[k] = int(m.group(4))
    if got != exp.counts:
        raise Violation("report-summary", "summary reports %s, stored is %s" % (sorted((got - exp.counts).items())[:2] or "less", sorted((exp.counts - got).items())[:2] or "less"))


def same(text, value):
    try:
        x = float(text)
    except ValueError:
        return False
    if value != value or x != x:
        return value != value and x != x
    return x == value or abs(x - value) <= 0.00051


def quartile(vals, q):
    s = sorted(vals)
    x = q * (len(s) - 1)
    i = int(x)
    return s[i] if i + 1 >= len(s) else s[i] + (s[i + 1] - s[i]) * (x - i)


def check_outliers(k, vals, cols):
    """values beyond one and a half (mild) and three (extreme) times the distance of the quartiles from them"""
    q1, q3 = quartile(vals, 0.25), quartile(vals, 0.75)
    fences = [q1 - 3 * (q3 - q1), q1 - 1.5 * (q3 - q1), q3 + 1.5 * (q3 - q1), q3 + 3 * (q3 - q1)]
    if any(0 < abs(x - f) <= 1e-9 * (abs(f) + 1) for x in vals for f in fences):
        return  # too close to call
    extreme = sum(x < fences[0] or x > fences[3] for x in vals)
    mild = sum(x < fences[1] or x > fences[2] for x in vals) - extreme
    inner = [x for x in vals if fences[1] <= x <= fences[2]]
    m = OUTLIERS.match(cols[0])
    if not m:
        raise Violation("report-statistics", "statistics of %s do not tell outliers: %s" % (k, cols))
    for what, n, text in (("mild", mild, m.group(1)), ("extreme", extreme, m.group(2))):
        if text != ("%.2f%%" % (100.0 * n / len(vals)) if n else "--"):
            raise Violation("report-statistics", "statistics report %s %s outliers of %s, the values are %s" % (text, what, k, vals))
    mu = mean(inner)
    dev = mean([(x - mu) ** 2 for x in inner]) ** 0.5
    for what, x, text in (("mean", mu, cols[1]), ("deviation", dev, cols[2])):
        if not same(text.split("(")[0].strip(), x):
            raise Violation("report-statistics", "statistics report a %s of %s without outliers for %s, the values are %s" % (what, text.split("(")[0].strip(), k, vals))


def check_statistics(exp, lines):
    seen = set()
    for m in filter(None, map(CELL.match, lines)):
        p, a, n, b, metric = m.group(1), m.group(2), int(m.group(3)), int(m.group(4)), m.group(5)
        k = (p, a, b, metric)
        if k in seen:
            raise Violation("report-statistics", "statistics list %s twice" % (k,))
        seen.add(k)
        vals = exp.values.get(k)
        if vals is None:
            raise Violation("report-statistics", "statistics report %s of which nothing is stored" % (k,))
        if n != len(vals):
            raise Violation("report-statistics", "statistics count %d results of %s, stored are %d" % (n, k, len(vals)))
        if not same(m.group(7), mean(vals)):
            raise Violation("report-statistics", "statistics report %s on average for %s, the results say %.4f" % (m.group(7), k, mean(vals)))
        mu = mean(vals)
        if not same(m.group(9), mean([(x - mu) ** 2 for x in vals]) ** 0.5):
            raise Violation("report-statistics", "statistics report a deviation of %s for %s, values are %s" % (m.group(9), k, vals))
        lo, hi = float(m.group(6)), float(m.group(8))
        # bootstrapped from samples of these values (of none at all when there is only one)
        if len(vals) > 1 and not (min(vals) - 0.001 <= lo <= hi + 0.001 <= max(vals) + 0.002):
            raise Violation("report-statistics", "statistics report the interval %s to %s for %s, values are %s" % (lo, hi, k, vals))
        check_outliers(k, vals, m.string[m.end():].split("::"))
    missing = set(exp.values) - seen
    if missing:
        raise Violation("report-statistics", "statistics miss %s" % (sorted(missing)[:2],))


def check_rank(exp, lines):
    points = {}
    cut = next((i for i, x in enumerate(lines) if x.startswith("Global ranking")), None)
    if cut is None:
        raise Violation("report-rank", "the ranking ends without its global part")
    won = {}
    for m in filter(None, map(WINNER.match, lines[:cut])):
        k = (m.group(1), m.group(2))
        if k in won:
            raise Violation("report-rank", "the ranking names two winners for %s" % (k,))
        won[k] = m.group(3)
    scores = collections.defaultdict(dict)
    unsure = set()
    for p, a in exp.algos:
        b = exp.chosen(p, a)
        for metric in RANKED:
            if b is None:
                unsure.add((p, metric))
            if b:
                scores[p, metric][a] = mean(exp.values[p, a, b, metric])
    want_points = collections.defaultdict(collections.Counter)
    for k, sc in scores.items():
        if k in unsure or any(v != v for v in sc.values()):
            unsure.add(k)
            continue
        best = RANKED[k[1]](sc.values())
        if k not in won:
            raise Violation("report-rank", "the ranking names no winner for %s" % (k,))
        if won[k] not in sc or abs(sc[won[k]] - best) > 1e-9 * max(1, abs(best)):
            raise Violation("report-rank", "the ranking says %s wins %s, the results say %s" % (won[k], k, sc))
        eps = sys.float_info.epsilon
        near = []
        for a, v in sc.items():
            if a == won[k]:
                continue
            q = (min(v, best) + eps) / (max(v, best) + eps)
            if abs(q - (1 - NEAR[k[1]])) < 1e-9:
                unsure.add(k)
            if q >= 1 - NEAR[k[1]]:
                near.append(a)
        want_points[k[1]].update([won[k]] + near if near else [won[k]] * 2)
    extra = set(won) - set(scores) - unsure
    if extra:
        raise Violation("report-rank", "the ranking names winners for %s of which nothing is stored" % (sorted(extra)[:2],))
    for m in filter(None, map(POINTS.match, lines[cut:])):
        points[m.group(1)] = {x: int(n) for x, n in re.findall(r"(\S+) \((\d+)\)", m.group(2))}
    if not unsure and points != {k: dict(v) for k, v in want_points.items()}:
        raise Violation("report-rank", "the global ranking is %s, the results say %s" % (points, {k: dict(v) for k, v in want_points.items()}))


def verdict(sc, metric):
    """(winner, those near it) or None when the numbers leave it open; sc: algorithm -> mean"""
    if any(v != v for v in sc.values()):
        return None
    best = RANKED[metric](sc.values())
    if sum(1 for v in sc.values() if abs(v - best) <= 1e-9 * max(1, abs(best))) > 1:
        return None
    win = next(a for a, v in sc.items() if v == best)
    eps = sys.float_info.epsilon
    near = set()
    for a, v in sc.items():
        if a != win:
            q = (min(v, best) + eps) / (max(v, best) + eps)
            if abs(q - (1 - NEAR[metric])) < 1e-9:
                return None
            if q >= 1 - NEAR[metric]:
                near.add(a)
    return win, near


def scores_of(exp, wanted):
    """(problem, budget, metric) -> algorithm -> mean, of the cells that count"""
    out = collections.defaultdict(dict)
    for p, a, b in exp.counts:
        if wanted(b, mean(exp.values[p, a, b, "cost"])):
            for metric in RANKED:
                out[p, b, metric][a] = mean(exp.values[p, a, b, metric])
    return out


def sections(lines):
    """result set -> its lines"""
    out, cur = {}, None
    for x in lines:
        m = re.match(r"^\*\*\*([^*]+)\*\*\*$", x)
        if m:
            cur = out.setdefault(m.group(1), [])
        elif cur is not None:
            cur.append(x)
    return out


def check_details(exp, lines):
    parts = sections(lines)
    for d, part in parts.items():
        got = {}
        for m in filter(None, (re.match(r"^(\d+) (\S+) : (.*)$", x) for x in part)):
            k = (int(m.group(1)), m.group(2))
            if k in got:
                raise Violation("report-rank", "the detailed ranking lists %s twice" % (k,))
            got[k] = {x: int(n) for x, n in re.findall(r"(\S+) \((\d+)\)", m.group(3))}
        if d != exp.dir:
            if got:
                raise Violation("report-rank", "the detailed ranking finds %s in %s, where nothing is stored" % (sorted(got)[:2], d))
            continue
        want, unsure = collections.defaultdict(collections.Counter), set()
        for (p, b, metric), sc in scores_of(exp, lambda b, c: c <= b + 500).items():
            v = verdict(sc, metric)
            if v is None or any(abs(mean(exp.values[p, a, b, "cost"]) - b - 500) < 1e-6 for a in exp.algos_at(p, b)):
                unsure.add((b, metric))
            else:
                want[b, metric][v[0]] += 1
        for k in set(want) | set(got):
            if k not in unsure and got.get(k) != (dict(want[k]) if k in want else None):
                raise Violation("report-rank", "the detailed ranking says %s for %s, the results say %s" % (got.get(k), k, dict(want[k])))
    if exp.dir not in parts:
        raise Violation("report-rank", "the detailed ranking does not look at %s" % exp.dir)


def check_table(exp, lines):
    parts = sections(lines)
    if exp.dir not in parts:
        raise Violation("report-rank", "the table does not look at %s" % exp.dir)
    want = {(p, metric): sc for (p, b, metric), sc in scores_of(exp, lambda b, c: b == 40).items()}
    points, unsure = collections.defaultdict(collections.Counter), set()
    for d, part in parts.items():
        problem, metric, got = None, None, {}
        for x in part:
            m = re.match(r"^\*{4}(\w+)\*{4}$", x)
            if m:
                problem = m.group(1)
            m = re.match(r"^\*{5}(\d+) (\w+)$", x)
            if m:
                metric = m.group(2)
                if m.group(1) != "40":
                    raise Violation("report-rank", "the table rates budget %s" % m.group(1))
            m = re.match(r"^\*{5}(Strong winner|Winner): (\S+) :", x)
            if m:
                if (problem, metric) in got:
                    raise Violation("report-rank", "the table names two winners for %s" % ((problem, metric),))
                got[problem, metric] = [m.group(2), set()]
            m = re.match(r"^\*{5}Weak winners: (.*)$", x)
            if m:
                got[problem, metric][1] = set(re.findall(r"\('([^']+)'", m.group(1)))
        if d != exp.dir and got or set(got) - set(want):
            raise Violation("report-rank", "the table names winners for %s in %s, where nothing is stored" % (sorted(got)[:2], d))
        if d == exp.dir:
            for k, sc in want.items():
                v = verdict(sc, k[1])
                if v is None:
                    unsure.add(k[1])
                    continue
                if k not in got or (got[k][0], got[k][1]) != v:
                    raise Violation("report-rank", "the table says %s for %s, the results say %s of %s" % (got.get(k), k, v, sc))
                points[k[1]].update([v[0]] + sorted(v[1]) if v[1] else [v[0]] * 2)
    rows = {}
    for m in filter(None, (re.match(r"^(?:40 )?& (\w+) (&.*)\\\\$", x) for x in lines)):
        if m.group(1) in rows:
            raise Violation("report-rank", "the table has two rows for %s" % m.group(1))
        rows[m.group(1)] = m.group(2)
    for metric in set(points) - unsure:
        if metric not in rows:
            raise Violation("report-rank", "the table has no row for %s" % metric)
        shown = [(a, int(n)) for a, n in re.findall(r"([^\s&,]+) \((\d+)\)", rows[metric])]
        top = [n for _, n in points[metric].most_common(2)]
        if [n for _, n in shown] != top or any(points[metric][a] != n for a, n in shown) or len(dict(shown)) != len(shown):
            raise Violation("report-rank", "the table shows %s for %s, the points are %s" % (shown, metric, dict(points[metric])))


CHECKS = {"rank_details": check_details, "table": check_table, "summary": check_summary, "statistics": check_statistics, "stats": check_statistics, "rank": check_rank}


@scenario
class Reports:
    """C24: reports at any moment of the life of a store, several at once, some of them killed"""

    name = "reports"

    def gen(self, rng, tier):
        ops = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            op = gen_batch(rng, True, ("budget",), composites=rng.random() < 0.2)
            op["budgets"] = rng.sample([1, 2, 10, 13, 400, 1000], rng.choice([1, 2, 3]))
            op["faults"] = rng.random() < 0.35
            if rng.random() < 0.3:
                op.update(n=rng.choice([5, 6, 8, 13]), budgets=op["budgets"][:2])  # enough for outliers
                op["algos"], op["problems"] = op["algos"][:2], op["problems"][:1]
            ops.append(op)
            if rng.random() < 0.25:
                ops.append({"op": "delete", "pick": rng.random(), "what": rng.choice(["file", "file", "run"])})
            if rng.random() < 0.25:
                ops.append({"op": "stray", "pick": rng.random()})
            acts = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                acts.append({"cmd": rng.choice(["summary", "stats", "statistics", "rank", "rank"]), "j": rng.choice([None, 1, 2, 3]),
                             "wait": rng.choice([0, 0, 1e-5, 0.01])})
            ops.append({"op": "reports", "acts": acts, "faults": rng.random() < 0.25})
        details = rng.choice(["./results_k0", "./results_k1", "../results_omopso_lpr/results_k2"]) if rng.random() < 0.25 else None
        if details:
            for op in ops:
                for act in op.get("acts", ()):
                    act["cmd"] = rng.choice(["rank_details", "table"])
        cfg = sim_cfg(rng, True, ["crash", "crash_after"])
        cfg["switch_p"] = rng.choice([0.02, 0.1, 0.3])
        big = rng.random() < 0.5
        sima = {"default": {"gain": rng.choice([0.25, 1, [1, 0]]), "cost": rng.choice([1, 2, 3]), "use_random": True}}
        sima["cycle"] = [dict(sima["default"], cost=rng.choice([1, 3, 150, 600, 900] if big else [1, 2, 5]), gain=rng.choice([0, 0.25, 1]),
                              use_random=rng.random() < 0.5) for _ in range(rng.choice([2, 3]))]
        if not big:
            for op in ops:
                if op["op"] == "batch":
                    op["budgets"] = sorted(set(min(b, 20) for b in op["budgets"]))
        elif rng.random() < 0.6:
            # runs whose costs lie far apart: the last budgets are not acceptable, smaller ones are
            for op in ops:
                if op["op"] == "batch":
                    op["budgets"] = rng.sample([100, 1000, 2000, 3000, 4000, 5000], rng.choice([3, 3, 4]))
                    op["n"] = rng.choice([1, 2, 2, 3])
            for c in sima["cycle"]:
                c["cost"] = rng.choice([9000, 12000, [1500, 1000, 4000], [2500, 4000], [1100, 1900, 2500], [600, 700], 3700])
        plan = {"sim": cfg, "ops": ops, "sima": sima, "pop": rng.choice([1, 3, 4]), "sima_seed": str(rng.random()), "strict": True, "step_limit": 600000}
        if not details and rng.random() < 0.2:
            # a directory of its own for what the statistics read, next to the usual one with other results
            plan["dir"] = rng.choice(["elsewhere", "../other/results", "results"])
            plan["decoy"] = gen_batch(rng, True, ("budget",))
            plan["decoy"].update(budgets=[1, 2], n=1)
            for op in ops:
                for act in op.get("acts", ()):
                    act["cmd"] = rng.choice(["stats", "statistics"])
                    act["opt"] = rng.choice(["-d", "--dir"])
        if details:
            plan["dir"] = details
            for op in ops:
                if op["op"] == "batch" and rng.random() < 0.8:
                    op["budgets"] = sorted(set(op["budgets"][:2]) | {40})
                    op["n"] = min(op.get("n", 1), 2)
        return plan

    def run(self, sim, plan):
        import evogil

        if "[default: 10000]" in evogil.__doc__:
            evogil.__doc__ = evogil.__doc__.replace("[default: 10000]", "[default: 20]")  # bootstraps: only their number is changed
        K.small_world(plan["pop"], [a for op in plan["ops"] for a in op.get("algos", ())])
        st = K.Store(sim, plan)
        tee = Tee(sim)
        compared = 0
        if plan.get("decoy"):
            from simulation import run_parallel

            sim.faults.enabled = False
            out = sim.process(lambda: run_parallel.run_parallel(K.batch_args(plan["decoy"])), "decoy")
            if not out.ok:
                raise Violation("batch-failed", "batch fails although nothing was injected into it: %s" % out.describe())
        for i, op in enumerate(plan["ops"]):
            gap(sim, "rep%d" % i)
            n0 = len(sim.faults.trace)
            sim.faults.enabled = bool(op.get("faults"))
            if op["op"] == "batch":
                out = sim.process(lambda: st.batch(op), "batch%d" % i)
                if out.kind == "stuck" or not out.ok and len(sim.faults.trace) == n0:
                    raise Violation("batch-failed", "batch fails although nothing was injected into it: %s" % out.describe())
            elif op["op"] == "delete":
                st.delete(op)
            elif op["op"] == "stray":
                st.strays(op)
            else:
                compared += self.reports(sim, st, tee, i, op)
            sim.faults.enabled = False
            st.check_durable("after step %d (%s)" % (i + 1, op["op"]))
        return {"nontrivial": compared > 0}

    def reports(self, sim, st, tee, i, op):
        exp = Expected(st)
        tee.text.clear()
        old = sys.stdout, sys.argv
        sys.stdout = tee
        sys.argv = argvs = Argv(sim)
        items = []
        for j, act in enumerate(op["acts"]):
            def go(act=act):
                import evogil

                sim.sleep(act["wait"])
                evogil.main_worker()

            argvs.by_proc["report%d.%d" % (i, j)] = ["evogil.py", act["cmd"]] + (
                ["-j", str(act["j"])] if act["j"] and act["cmd"].startswith("stat") else []) + ([act["opt"], st.dir] if act.get("opt") else [])
            items.append(("report%d.%d" % (i, j), go))
        n0 = len(sim.faults.trace)
        try:
            outs = sim.processes(items)
        finally:
            sys.stdout, sys.argv = old
        done = 0
        faulted = len(sim.faults.trace) > n0
        for (name, _), act, out in zip(items, op["acts"], outs):
            if out.kind == "stuck":
                if faulted:
                    continue
                raise Violation("hang", "%s never ends: %s" % (act["cmd"], out.describe()))
            if out.kind == "crash":
                continue
            if not out.ok:
                raise Violation("report-failed", "%s fails next to %s: %s" % (act["cmd"], [a["cmd"] for a in op["acts"]], out.describe()))
            CHECKS[act["cmd"]](exp, "".join(tee.text[name]).split("\n"))
            done += 1
            sim.probe("reports_compared")
            sim.cover(act["cmd"], len(exp.counts), faulted)
        return done

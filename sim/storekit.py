"""Workload and oracles for everything that touches the result store: batches, their result files,
extraction, metric caches."""
import io
import math
import os
import pickle
import random
import re
import statistics as pystat

from sim.harness import Violation
from sim.seams import R
from sim.simfs import tree

RESULT = re.compile(r"^(?P<problem>[^/]+)/(?P<algo>[^/]+)/(?P<run>[^/]+)/(?P<name>[0-9]+)\.pickle$")
RUNDIR = re.compile(r"\d{4}-\d{2}-\d{2}\.\d{6}\.\d{6}__\d{7}")
METRICS = {
    "gd": ("generational_distance", True),
    "igd": ("inverse_generational_distance", True),
    "ahd": ("average_hausdorff_distance", True),
    "epsilon": ("epsilon", True),
    "extent": ("extent", True),
    "spacing": ("spacing", True),
    "ndr": ("non_domination_ratio", True),
    "hypervolume": ("hypervolume", True),
}
DEFAULT_DIR = "../results_temp/results_k2"


def batch_args(op, results_dir=None):
    time_mode = op.get("mode") == "time"
    return {
        "run": True, "budget": not time_mode, "time": time_mode,
        "<budget>": ",".join(str(b) for b in op.get("budgets", [3])),
        "<timeout>": str(op.get("timeout", 6)), "<step>": str(op.get("step", 2)),
        "--algo": ",".join(op["algos"]), "--problem": ",".join(op["problems"]),
        "-N": str(op.get("n", 1)), "-j": str(op.get("j", 1)), "--renice": op.get("renice"),
        "--dir": results_dir, "-o": None, "--bootstrap": "20", "--selected": "",
    }


def small_world(pop=6, algos=(), **hgs):
    """meta-algorithm sizes that keep one simulated step cheap; the shipped defaults otherwise"""
    from simulation import run_config

    if any(a.startswith("IMGA") for a in algos):
        pop = max(pop, 9)  # three islands with two neighbours each give away two individuals an epoch
    run_config.DEFAULT_POPULATION_SIZE = pop
    run_config.algo_base["IMGA"]["migrants_number"] = 1
    for k in ("HGS", "DHGS"):
        run_config.algo_base[k].update(population_sizes=(pop, max(3, pop - 2), 3), **hgs)
    return run_config


def gen_sima(rng, algos=(), slow=False, fail=0.0, randomize=True):
    """script of the scripted algorithm for a whole batch; uid 1, 2, ... in order of creation"""
    def script():
        s = {
            "gain": rng.choice([0, 0.25, 1, [1, 0], [0, 0, 2]]),
            "cost": rng.choice([1, 2, 3, [1, 4], [2, 1, 1], [1, 1, 5]]),
        }
        if rng.random() < 0.4:
            s["grow"] = rng.choice([1, [1, 0], [0, 0, 3], [2, 0, 0]])
        if slow:
            s["time"] = rng.choice([0.3, 0.5, 0.9, 1.0, 1.7, 2.5, [0.2, 3.1], [0.4, 0.4, 5.2], [2.5, 0.1], [0.7]])
        if randomize and rng.random() < 0.5:
            s["use_random"] = True
        return s

    p = {"default": script()}
    if rng.random() < 0.6:
        p["cycle"] = [script() for _ in range(rng.choice([2, 3]))]
    if rng.random() < fail:
        f = {}
        for _ in range(rng.randint(1, 2)):
            f[str(rng.randint(1, 6))] = rng.choice([{"fail_step": rng.randint(1, 4)}, {"fail_new": True}, {"fail_final": rng.randint(1, 3)}])
        p["by_uid"] = f
    return p


def load_result(data):
    """bytes -> Result, or None when it is not a complete result"""
    try:
        buf = io.BytesIO(data)
        r = pickle.load(buf)
        if buf.read(1):
            return None
        len(r.population), len(r.fitnesses), r.additional_data["cost"]
        return r
    except Exception:
        return None


def plain(pop):
    return [[float(c) for c in v] for v in pop]


class View:
    """reading a result directory through the back door"""

    def __init__(self, d):
        self.dir = d
        self.abs = os.path.abspath(d)

    def tree(self):
        return tree(self.abs) if os.path.isdir(self.abs) else {}

    def results(self):
        out = {}
        for rel, data in self.tree().items():
            m = RESULT.match(rel)
            if m and data is not None and RUNDIR.fullmatch(m.group("run")):
                out[rel] = data
        return out


class Store(View):
    """The result directory of a run and what is known to have been put there."""

    def __init__(self, sim, plan):
        self.sim = sim
        self.stray_files = {}
        self.plan = plan
        self.dir = plan.get("dir") or DEFAULT_DIR
        self.abs = os.path.abspath(self.dir)
        self.acked = {}  # rel path -> (population, fitnesses, cost): became visible complete
        self.finals3 = []  # (driver, cost, population)
        self.finals = []  # (cost, population) of every finalisation the algorithms did, newest last
        self.watch = True
        self.strict = bool(plan.get("strict"))
        self.known_deleted = set()
        self.cells = set()  # problem/algorithm of all that was asked for
        self.seen = 0
        sim.fs.on_change = self.changed
        sim.notes["on_driver"] = self.driver_event
        self.events = []

    # ---- observation
    def driver_event(self, kind, drv, data):
        self.events.append((kind, drv, data))
        if kind == "final":
            self.finals.append((drv.cost, plain(data)))
            self.finals3.append((drv.uid, drv.cost, plain(data)))

    def rel(self, p):
        if p.startswith(self.abs + "/"):
            return p[len(self.abs) + 1:]
        return None

    def changed(self, path):
        """called after every change that became visible to other processes"""
        if not self.watch:
            return
        rel = self.rel(path)
        m = rel and RESULT.match(rel)
        if not m or not RUNDIR.fullmatch(m.group("run")):
            return
        self.seen += 1
        try:
            with R.open(path, "rb") as fh:
                data = fh.read()
        except FileNotFoundError:
            if rel in self.acked and rel not in self.known_deleted and self.strict:
                raise Violation("result-lost", "stored result %s was removed" % norm(rel))
            return
        except IsADirectoryError:
            return
        r = load_result(data)
        if r is None:
            if self.strict:
                raise Violation("torn-result", "result file %s is visible while incomplete (%d bytes)" % (norm(rel), len(data)))
            return
        if self.cells and (m.group("problem"), m.group("algo")) not in self.cells:
            raise Violation("wrong-place", "a result is stored as %s, which no batch asked for" % norm(rel))
        val = (plain(r.population), plain(r.fitnesses), r.additional_data["cost"])
        old = self.acked.get(rel)
        if old is not None and old != val and self.strict:
            raise Violation("result-overwritten", "stored result %s was replaced by a different one" % norm(rel))
        self.acked[rel] = val
        self.sim.probe("results_stored")
        self.sim.cover("stored", len(self.acked), m.group("name"))

    def check_durable(self, when):
        for rel, val in self.acked.items():
            if rel in self.known_deleted:
                continue
            p = os.path.join(self.abs, rel)
            try:
                with R.open(p, "rb") as fh:
                    r = load_result(fh.read())
            except FileNotFoundError:
                raise Violation("result-lost", "result %s stored earlier is gone %s" % (norm(rel), when))
            if r is None:
                raise Violation("torn-result", "result %s stored earlier is unreadable %s" % (norm(rel), when))
            if (plain(r.population), plain(r.fitnesses), r.additional_data["cost"]) != val:
                raise Violation("result-overwritten", "result %s stored earlier has changed %s" % (norm(rel), when))

    # ---- operations of a history
    def batch(self, op):
        from simulation import run_parallel

        self.cells |= {(p, a) for p in op["problems"] for a in op["algos"]}
        return run_parallel.run_parallel(batch_args(op, self.dir if self.plan.get("dir") else None))

    def delete(self, op):
        """the user removes a run directory or one result file"""
        t = self.results()
        if not t:
            return
        rng = random.Random("del:%s" % op.get("seed", 0))
        rel = rng.choice(sorted(t))
        d = os.path.join(self.abs, os.path.dirname(rel))
        if op.get("whole"):
            for name in sorted(R.listdir(d)):
                self.known_deleted.add(os.path.dirname(rel) + "/" + name)
                self.stray_files.pop(os.path.join(d, name), None)
                if os.path.isdir(os.path.join(d, name)):
                    R.rmdir(os.path.join(d, name))
                else:
                    R.unlink(os.path.join(d, name))
            R.rmdir(d)
        else:
            self.known_deleted.add(rel)
            R.unlink(os.path.join(self.abs, rel))
        self.sim.log("user", "delete", norm(rel), bool(op.get("whole")))

    def strays(self, op):
        """things users and tools leave around"""
        if not os.path.isdir(self.abs):
            return
        rng = random.Random("stray:%s" % op.get("seed", 0))
        if op.get("top"):
            self._touch(self.abs, rng.choice(["notes.txt", ".DS_Store", "results.zip"]))
        for problem in sorted(R.listdir(self.abs)):
            pd = os.path.join(self.abs, problem)
            if not os.path.isdir(pd):
                continue
            self._touch(pd, rng.choice(["notes.txt", ".DS_Store", "README", "%s.png" % problem, "nondominated", "%s_nondominated.txt" % problem,
                                         "my_nondominated", "pareto_dominance_indicator.csv", ".notes.tmp"]))
            if op.get("prefix"):
                self._touch(pd, rng.choice(["zz_%s_plot.txt", "%s_plot.txt", "old_%s_"]) % problem)
            for algo in sorted(R.listdir(pd)):
                ad = os.path.join(pd, algo)
                if not os.path.isdir(ad):
                    continue
                if op.get("prefix"):
                    self._touch(ad, "%s_notes.txt" % problem)
                for name in rng.sample(["old", "000-backup", "notes.txt", ".stfolder", "2019-01-01.bak", "10.pickle"], 2):
                    if "." in name and not name.startswith("."):
                        self._touch(ad, name)
                    else:
                        p = os.path.join(ad, name)
                        if not os.path.exists(p):
                            R.mkdir(p)
                        if rng.random() < 0.5:
                            self._touch(p, "10.pickle")
                for run in sorted(R.listdir(ad)):
                    rd = os.path.join(ad, run)
                    if os.path.isdir(rd) and RUNDIR.fullmatch(run):
                        self._touch(rd, rng.choice([
                            "plot.png", "x.tmp", "10.pickle.bak", "result.pickle", "a.10.pickle", "10.pareto_dominance_indicator.pickle.bak",
                            "pareto_dominance_indicator.txt", "notes on the pareto_dominance_indicator", "10.tmp", ".10.pickle.swp", "10_nondominated"]))
        self.sim.log("user", "strays")

    def _touch(self, d, name):
        p = os.path.join(d, name)
        if not os.path.exists(p):
            with R.open(p, "wb") as fh:
                fh.write(b"not a result")
            self.stray_files[p] = b"not a result"

    def check_strays(self, when):
        for p, data in self.stray_files.items():
            try:
                with R.open(p, "rb") as fh:
                    ok = fh.read() == data
            except OSError:
                ok = False
            if not ok:
                raise Violation("foreign-file", "%s: a file the program did not create was removed or changed: %s" % (
                    when, norm(p[len(self.abs) + 1:])))


def norm(rel):
    """drop the time stamp: it differs between otherwise equal histories"""
    return re.sub(r"\d{4}-\d{2}-\d{2}\.\d{6}\.\d{6}", "<time>", rel)


# ---------------------------------------------------------------- extraction
def extract(store_dir, kind="budget", metrics=None, wrap=None):
    """walk the results as every analysis command does.
    -> {(problem, algo, number): [(run_no, case id, run_id, population, fitnesses, cost)]}, {(…, metric): values}"""
    from simulation import serialization

    ex = serialization.BudgetResultsExtractor() if kind == "budget" else serialization.TimeResultsExtractor()
    it = serialization.each_result(ex, store_dir)
    found, order, values = {}, [], {}
    for problem_name, problem_mod, algorithms in it:
        for algo_name, results in algorithms:
            for cell in results:
                number = cell[kind]
                key = (problem_name, algo_name, number)
                if key in found:
                    raise Violation("extract-twice", "extraction reports %s more than once" % (key,))
                if (cell["problem"], cell["algo"]) != (problem_name, algo_name):
                    raise Violation("extract-identity", "extraction labels %s as %s" % (key, (cell["problem"], cell["algo"])))
                order.append(key)
                found[key] = [
                    (r.run_no, r.simulation_case.id, int(r.simulation_case.run_id), plain(r.population), plain(r.fitnesses),
                     r.additional_data["cost"], r.simulation_case.problem_name, r.simulation_case.algorithm_name)
                    for r in cell["results"]
                ]
                if metrics is not None:
                    for name, long_name, parts in cell["analysis"]:
                        if metrics == "all" or name in metrics:
                            values[key + (name,)] = [p() for p in parts]
    return found, order, values


def expected_extract(files):
    """independent reading of the same tree: files {rel: bytes}"""
    runs, cells = {}, {}
    for rel in files:
        m = RESULT.match(rel)
        runs.setdefault((m.group("problem"), m.group("algo")), set()).add(m.group("run"))
    for rel, data in files.items():
        m = RESULT.match(rel)
        r = load_result(data)
        if r is None:
            raise Violation("torn-result", "result file %s is incomplete" % norm(rel))
        cells.setdefault((m.group("problem"), m.group("algo"), int(m.group("name"))), []).append(
            (m.group("run"), plain(r.population), plain(r.fitnesses), r.additional_data["cost"]))
    for v in cells.values():
        v.sort(key=lambda x: x[0])
    return cells


def all_rundirs(store):
    """(problem, algo) -> sorted run directories (also those without any result)"""
    out = {}
    for rel, data in store.tree().items():
        parts = rel.split("/")
        if len(parts) == 3 and data is None and RUNDIR.fullmatch(parts[2]):
            out.setdefault((parts[0], parts[1]), []).append(parts[2])
    return {k: sorted(v) for k, v in out.items()}


def check_extract(store, found, order, files, where=""):
    exp = expected_extract(files)
    if set(found) != set(exp):
        missing = sorted(set(exp) - set(found))[:3]
        extra = sorted(set(found) - set(exp))[:3]
        raise Violation("extract-set", "extraction%s: missing %s, unexpected %s" % (where, missing, extra))
    per_algo = {}
    for key in order:
        per_algo.setdefault(key[:2], []).append(key[2])
    for k, numbers in per_algo.items():
        if numbers != sorted(numbers):
            raise Violation("extract-order", "extraction%s: sampling points of %s in order %s" % (where, k, numbers))
    dirs = all_rundirs(store)
    for key, got in found.items():
        want = exp[key]
        ids = [g[1] for g in got]
        if ids != [w[0] for w in want]:
            if sorted(ids) == sorted(w[0] for w in want):
                raise Violation("extract-order", "extraction%s: runs of %s not in order of their start" % (where, key))
            raise Violation("extract-runs", "extraction%s: %s lists %d run(s), %d stored" % (where, key, len(ids), len(want)))
        for g, w in zip(got, want):
            if (g[3], g[4], g[5]) != (w[1], w[2], w[3]):
                raise Violation("extract-content", "extraction%s: %s returns other data than stored" % (where, key))
            if g[2] != int(w[0].split("__")[1]) or (g[6], g[7]) != key[:2]:
                raise Violation("extract-identity", "extraction%s: run of %s described as run %s of %s" % (where, key, g[2], g[6:8]))
            if g[0] != dirs[key[:2]].index(w[0]):
                raise Violation("extract-runno", "extraction%s: run number %s for the %d. run of %s" % (where, g[0], dirs[key[:2]].index(w[0]), key))
    return exp


# ---------------------------------------------------------------- metrics
def expected_values(store, files, keys):
    """values of the metrics computed from the result files alone"""
    import importlib
    from metrics import metrics as M

    exp = expected_extract(files)
    dirs = all_rundirs(store)
    out = {}
    fronts = {}
    for key in exp:
        for run, pop, fit, cost in exp[key]:
            no = dirs[key[:2]].index(run)
            fronts.setdefault((key[0], key[2], no), []).extend(tuple(y) for y in fit)
    fronts = {k: set(M.filter_not_dominated(v)) for k, v in fronts.items()}
    for key in exp:
        pm = importlib.import_module("problems.%s.problem" % key[0])
        for run, pop, fit, cost in exp[key]:
            no = dirs[key[:2]].index(run)
            nd = M.filter_not_dominated(fit)
            for name in keys:
                k = key + (name,)
                if name == "cost":
                    v = float(cost)
                elif name == "pdi":
                    v = M.pareto_dominance_indicator(fit, nd, all_solutions=fronts[(key[0], key[2], no)])
                else:
                    fn, _ = METRICS[name]
                    v = getattr(M, fn)(fit, nd, pareto=pm.pareto_front)
                out.setdefault(k, []).append(v)
    return out


ALL_METRICS = ["cost", "gd", "igd", "ahd", "epsilon", "extent", "spacing", "ndr", "hypervolume", "pdi"]


def close(a, b):
    if a is None or b is None:
        return a is b
    a, b = float(a), float(b)
    return a == b or (math.isnan(a) and math.isnan(b)) or abs(a - b) <= 1e-12 * max(1.0, abs(a), abs(b))


def check_values(values, expected, where, only_present=False):
    if not only_present:
        keys = set(expected)
        if set(values) != keys:
            raise Violation("analysis-missing", "analysis %s: missing %s, unexpected %s" % (
                where, sorted(keys - set(values))[:3], sorted(set(values) - keys)[:3]))
    for k in values:
        got, want = values[k], expected.get(k)
        if want is None:
            raise Violation("analysis-missing", "analysis %s reports %s which is not stored" % (where, k))
        if len(got) != len(want) or not all(close(a, b) for a, b in zip(got, want)):
            raise Violation("analysis-value", "analysis %s: %s of %s is %s, computed from the result files it is %s" % (
                where, k[-1], k[:-1], _r(got), _r(want)))


def _r(v):
    return [None if x is None else round(float(x), 6) for x in v]


def strip_caches(store):
    """remove everything but result files (through the back door)"""
    n = 0
    for rel, data in store.tree().items():
        if data is not None and not RESULT.match(rel):
            R.unlink(os.path.join(store.abs, rel))
            n += 1
    return n

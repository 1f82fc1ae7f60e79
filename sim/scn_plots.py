"""The plots: every figure shows what the stored results determine (C27).

matplotlib's pyplot is replaced by a recorder which writes, where the real one would write a figure, what was drawn; the
files are read back like a user would look at the figures."""
import json
import math
import os
import sys
import types

from sim import storekit as K
from sim.harness import Violation
from sim.registry import scenario
from sim.scn_rep import RANKED, Argv, Expected, Tee, mean
from sim.scn_store import gap, gen_batch, sim_cfg
from sim.seams import R

COMMANDS = ["pictures", "pictures", "pictures_summary", "pictures_summary", "best_fronts", "violin"]


# ---------------------------------------------------------------- the recorder
def jsonable(x):
    if isinstance(x, Thing):
        return None
    if isinstance(x, (str, bool)) or x is None:
        return x
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    try:
        return float(x)
    except (TypeError, ValueError):
        pass
    try:
        return [jsonable(v) for v in x]
    except TypeError:
        return repr(type(x))


class Thing:
    """a figure, axes or artist: everything asked of it is noted in its figure"""

    def __init__(self, fig=None, label=None):
        self._calls = fig._calls if fig is not None else []
        self._label = label

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)

        def call(*args, **kw):
            return self._do(name, args, kw)

        call.xaxis = None
        return call

    def __getitem__(self, i):
        if isinstance(i, int) and i > 2:
            raise IndexError(i)
        return self

    def __iter__(self):
        return iter([self])

    def _do(self, name, args, kw):
        if name == "savefig":
            with open(args[0] if args else kw["fname"], "w") as fh:
                fh.write(json.dumps(self._calls))
            return None
        self._calls.append([name, jsonable(args), jsonable(kw)])
        if name == "get_legend_handles_labels":
            labels = [c[2]["label"] for c in self._calls if c[0] in ("plot", "scatter") and c[2].get("label")]
            return [Thing(self, x) for x in labels], labels
        if name == "get_label":
            return self._label
        return Thing(self, kw.get("label"))

    @property
    def axes(self):
        return self


class Plotting:
    """pyplot: a current figure per simulated process"""

    def __init__(self, sim):
        self.sim = sim
        self.current = {}

    def who(self):
        p = self.sim.sched.current_proc() if self.sim.sched is not None else None
        return p.name if p is not None else ""

    def fig(self):
        return self.current.setdefault(self.who(), Thing())

    def function(self, name):
        def call(*args, **kw):
            if name == "figure":
                self.current[self.who()] = Thing()
                return self.fig()
            if name == "subplots":
                self.current[self.who()] = Thing()
                return self.fig(), self.fig()
            if name in ("subplot", "gca", "gcf", "axes"):
                return self.fig()
            if name in ("close", "clf"):
                self.current.pop(self.who(), None)
                return None
            return self.fig()._do(name, args, kw)

        return call

    def install(self):
        import importlib

        import matplotlib.pyplot as plt
        import mpl_toolkits.mplot3d as m3

        for name in dir(plt):
            v = getattr(plt, name)
            if not name.startswith("_") and isinstance(v, types.FunctionType) and v.__module__ == plt.__name__:
                setattr(plt, name, self.function(name))

        def axes3d(fig=None, *args, **kw):
            return fig if fig is not None else self.fig()

        m3.Axes3D = axes3d
        for n in ("plots.pictures", "plots.best_fronts", "plots.violin"):
            m = importlib.import_module(n)
            if hasattr(m, "Axes3D"):
                m.Axes3D = axes3d


# ---------------------------------------------------------------- what the figures must show
def near(a, b):
    return a == b or abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def same(xs, ys):
    return len(xs) == len(ys) and all(near(a, b) for a, b in zip(xs, ys))


def load(base, where, names):
    """the figures of a command: name -> calls; both formats must show the same"""
    d = os.path.join(base, where)
    out = {}
    got = {}
    if os.path.isdir(d):
        for f in R.listdir(d):
            with R.open(os.path.join(d, f)) as fh:
                try:
                    got[f] = json.loads(fh.read())
                except ValueError:
                    raise Violation("plot-file", "figure %s is incomplete" % f)
    for n in names:
        both = [got.pop("%s.%s" % (n, ext), None) for ext in ("pdf", "eps")]
        if both[0] is None or both[1] is None:
            raise Violation("plot-missing", "there is no figure %s" % n)
        if both[0] != both[1]:
            raise Violation("plot-file", "the two files of figure %s differ" % n)
        out[n] = both[0]
    got = {k for k in got if "legend" not in k}
    if got:
        raise Violation("plot-extra", "figure %s, of which nothing is stored" % sorted(got)[0])
    return out


def series(calls, kind, name, parts=False):
    """label -> coordinates of all that was drawn that way"""
    out = {}
    for c in calls:
        if c[0] == kind and c[2].get("label"):
            lab = c[2]["label"]
            if lab in out and parts:
                out[lab] = [a + b for a, b in zip(out[lab], c[1])]
                continue
            if lab in out:
                raise Violation("plot-twice", "%s is drawn twice in figure %s" % (lab, name))
            out[lab] = c[1]
    return out


def check_pictures(exp, place, base, sel):
    want = {}
    for p, a, t in exp.counts:
        if a in place["order"]:
            for m in RANKED:
                want.setdefault("figures_metrics_%s_%s" % (p, m), {}).setdefault(a, []).append((t, mean(exp.values[p, a, t, m])))
    figs = load(base, "metrics", want)
    for n, curves in want.items():
        got = series(figs[n], "plot", n)
        if set(got) != set(curves):
            raise Violation("plot-series", "figure %s shows %s, stored are results of %s" % (n, sorted(got), sorted(curves)))
        for a, pts in curves.items():
            pts.sort()
            if not same(got[a][0], [x for x, _ in pts]) or not same(got[a][1], [y for _, y in pts]):
                raise Violation("plot-value", "figure %s shows %s of %s, the results say %s" % (n, got[a][:2], a, pts))


def check_summary(exp, place, base, sel):
    chosen = {(p, a): exp.chosen(p, a) for p, a in exp.algos}
    unsure = {p for (p, a), b in chosen.items() if b is None}
    score, labels = {}, None
    for (p, a), b in chosen.items():
        if b:
            for m in RANKED:
                score.setdefault(m, {})[p, a] = math.log(abs(mean(exp.values[p, a, b, m])) + 1)
    figs = load(base, "plots_summary", ["figures_summary_" + m for m in score]) if not unsure else {}
    problems = {p for p, _ in exp.algos} | (exp.problems if hasattr(exp, "problems") else set())
    for m, sc in score.items():
        n = "figures_summary_" + m
        if n not in figs:
            continue
        ticks = [c[1] for c in figs[n] if c[0] == "xticks"]
        if len(ticks) != 1 or set(ticks[0][1]) < problems or len(ticks[0][0]) != len(ticks[0][1]):
            raise Violation("plot-series", "figure %s has the problems %s" % (n, ticks))
        labels = dict(zip(ticks[0][0], ticks[0][1]))
        got = series(figs[n], "scatter", n)
        lines = series(figs[n], "plot", n)
        for a in set(a for _, a in sc) | set(got) | set(lines):
            want = {p: v for (p, b), v in sc.items() if b == a and a in place["order"]}
            if m != "pdi":
                want = {p: v / (max(x for (q, _), x in sc.items() if q == p) + 0.0001) for p, v in want.items()}
            for what, drawn in (("points", got), ("line", lines)):
                if what == "line" and (a not in sel or a not in place["order"]):
                    if a in drawn and drawn[a][0]:
                        raise Violation("plot-series", "figure %s has a line for %s, which was not selected" % (n, a))
                    continue
                xs, ys = drawn.get(a, [[], []])[:2]
                shown = {labels[x]: y for x, y in zip(xs, ys)}
                if len(shown) != len(xs) or len(xs) != len(ys) or set(shown) != set(want) or not all(near(shown[p], want[p]) for p in want):
                    raise Violation("plot-value", "figure %s shows %s as %s of %s, the results say %s" % (n, shown, what, a, want))


def check_fronts(exp, place, base, sel):
    import importlib

    figs = load(base, "fronts", ["figures_metrics_" + importlib.import_module("problems.%s.problem" % p).name for p in exp.problems])
    for p in exp.problems:
        pm = importlib.import_module("problems.%s.problem" % p)
        n = "figures_metrics_" + pm.name
        got = series(figs[n], "scatter", n, True)
        front = [c[1] for c in figs[n] if c[0] == "plot" and not c[2].get("label")]
        if len(front) != 1 or not same(front[0][0], [x[0] for x in pm.pareto_front]) or not same(front[0][1], [x[1] for x in pm.pareto_front]):
            raise Violation("plot-front", "figure %s does not show the front of the problem" % n)
        want = {}
        for q, a in exp.algos:
            if q == p and a in place["known"]:
                b = exp.chosen(q, a)
                if b is None:
                    got.pop(a, None)
                elif b:
                    want[a] = exp.cells[p, a, b][0][2]
        if set(got) != set(want):
            raise Violation("plot-series", "figure %s shows fronts of %s, stored are those of %s" % (n, sorted(got), sorted(want)))
        for a, fit in want.items():
            cols = list(zip(*fit))
            if len(got[a]) < len(cols) or not all(same(g, w) for g, w in zip(got[a], cols)):
                raise Violation("plot-value", "figure %s does not show the first result of %s: %s, stored %s" % (n, a, got[a], fit))


def check_violin(exp, place, base, sel):
    want, unsure = {}, set()
    for p, a in exp.algos:
        b = exp.chosen(p, a)
        for m in RANKED:
            n = "figures_violin_%s_%s" % (p, m)
            if b is None:
                unsure.add(p)
            elif b and a in place["order"]:
                vals = exp.values[p, a, b, m]
                if any(vals):
                    want.setdefault(n, {})[a] = [v if v else sys.float_info.epsilon for v in vals]
    if unsure:
        return
    figs = load(base, "plots_violin", want)
    for n, algos in want.items():
        data = [c[1][0] for c in figs[n] if c[0] == "violinplot"]
        ticks = [c[1] for c in figs[n] if c[0] == "xticks"]
        if len(data) != 1 or len(ticks) != 1 or len(ticks[0][1]) != len(data[0]):
            raise Violation("plot-series", "figure %s has %s violins and labels %s" % (n, [len(d) for d in data], ticks))
        got = dict(zip(ticks[0][1], data[0]))
        if set(got) != set(algos) or len(got) != len(data[0]):
            raise Violation("plot-series", "figure %s shows %s, stored are %s" % (n, ticks[0][1], sorted(algos)))
        for a, vals in algos.items():
            if not same(got[a], vals):
                raise Violation("plot-value", "figure %s shows %s for %s, the results say %s" % (n, got[a], a, vals))


CHECKS = {"pictures": check_pictures, "pictures_summary": check_summary, "best_fronts": check_fronts, "violin": check_violin}

SIMT = dict(dims=[(0.0, 64.0)] * 3, pareto_front=[[0.0, 8.0, 4.0], [1.0, 4.0, 4.0], [4.0, 2.0, 1.0], [8.0, 0.0, 2.0]])


def fit_w(v):
    return v[2] / 2 + 1


@scenario
class Plots:
    """C27: plots at any moment of the life of a store, several at once, some of them killed"""

    name = "plots"

    def gen(self, rng, tier):
        ops = []
        for k in range(rng.choice([1, 2, 2, 3])):
            if k or rng.random() < 0.93:
                op = gen_batch(rng, True, ("budget",), composites=rng.random() < 0.3)
                if rng.random() < 0.3:
                    op["problems"] = sorted(set(op["problems"][:1] + ["SIMT"]))
                op["budgets"] = rng.sample([1, 2, 10, 13, 100, 400, 1000], rng.choice([1, 2, 3]))
                op["faults"] = rng.random() < 0.35
                ops.append(op)
                if rng.random() < 0.25:
                    ops.append({"op": "delete", "pick": rng.random(), "seed": rng.randint(0, 99), "whole": rng.random() < 0.4})
                if rng.random() < 0.2:
                    ops.append({"op": "stray", "seed": rng.randint(0, 99)})
            acts = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                acts.append({"cmd": rng.choice(COMMANDS), "wait": rng.choice([0, 0, 1e-5, 0.01]), "out": rng.random() < 0.7,
                             "sel": rng.choice([None, "sima", "SIMA,SIMB", "hgs+sima,SIMB", "imga+SIMA"])})
            ops.append({"op": "plots", "acts": acts, "faults": rng.random() < 0.25})
        cfg = sim_cfg(rng, True, ["crash", "crash_after"])
        cfg["switch_p"] = rng.choice([0.02, 0.1, 0.3])
        big = rng.random() < 0.6
        sima = {"default": {"gain": rng.choice([0.25, 1, [1, 0]]), "cost": rng.choice([1, 2, 3]), "use_random": True}}
        sima["cycle"] = [dict(sima["default"], cost=rng.choice([1, 3, 150, 600, 900] if big else [1, 2, 5]), gain=rng.choice([0, 0.25, 1]),
                              use_random=rng.random() < 0.5) for _ in range(rng.choice([2, 3]))]
        for op in ops:
            if op["op"] == "batch":
                if not big:
                    op["budgets"] = sorted(set(min(b, 20) for b in op["budgets"]))
                else:
                    op["algos"] = [a for a in op["algos"] if "+" not in a] or ["SIMA"]
        if big and rng.random() < 0.6:
            for op in ops:
                if op["op"] == "batch":
                    op["budgets"] = rng.sample([100, 1000, 2000, 3000, 4000], rng.choice([2, 3, 3]))
            for c in sima["cycle"]:
                c["cost"] = rng.choice([9000, 12000, [1500, 1000, 4000], [2500, 4000], [600, 700], 3700])
        place = rng.choice([["SIMA", "SIMB"], ["SIMB", "SIMA"], ["SIMA"], ["IMGA+SIMA", "SIMB", "SIMA", "DHGS+SIMA"]])
        return {"sim": cfg, "ops": ops, "sima": sima, "pop": rng.choice([1, 3, 4]), "sima_seed": str(rng.random()), "strict": True,
                "order": place, "known": sorted(set(place) | set(rng.sample(["SIMB", "IMGA+SIMA"], 1))),
                "dir": rng.choice([None, None, "store/results"]), "step_limit": 600000}

    def world(self, plan):
        import evogil
        from plots import pictures
        from simulation import run_config

        from sim import fakes

        if "[default: 10000]" in evogil.__doc__:
            evogil.__doc__ = evogil.__doc__.replace("[default: 10000]", "[default: 20]")
        pkg = types.ModuleType("problems.SIMT")
        m = pkg.problem = types.ModuleType("problems.SIMT.problem")
        for k, v in dict(SIMT, name="SIMT", fitnesses=[fakes.fit_x, fakes.fit_y, fit_w]).items():
            setattr(m, k, v)
        sys.modules["problems.SIMT"], sys.modules["problems.SIMT.problem"] = pkg, m
        run_config.problems.append("SIMT")
        for p in ("SIMP", "SIMQ"):
            sys.modules["problems.%s.problem" % p].name = p
        pictures.problems_order += ["SIMQ", "SIMT", "SIMP"]
        for a in plan["known"]:
            pictures.algos[a] = (a, [2, 2], "o", "0.5")
        for a in plan["order"]:
            pictures.algos_order.append(a)
            pictures.algos_groups[a] = ("",)
        return {"order": plan["order"], "known": plan["known"]}

    def run(self, sim, plan):
        place = self.world(plan)
        Plotting(sim).install()
        K.small_world(plan["pop"], [a for op in plan["ops"] for a in op.get("algos", ())])
        st = K.Store(sim, plan)
        tee = Tee(sim)
        done = 0
        for i, op in enumerate(plan["ops"]):
            gap(sim, "plot%d" % i)
            n0 = len(sim.faults.trace)
            sim.faults.enabled = bool(op.get("faults"))
            if op["op"] == "batch":
                out = sim.process(lambda: st.batch(op), "batch%d" % i)
                if out.kind == "stuck" or not out.ok and len(sim.faults.trace) == n0:
                    raise Violation("batch-failed", "batch fails although nothing was injected into it: %s" % out.describe())
            elif op["op"] == "delete":
                st.delete(op)
            elif op["op"] == "stray":
                st.strays(op)
            else:
                done += self.plots(sim, plan, st, tee, i, op, place)
            sim.faults.enabled = False
            st.check_durable("after step %d (%s)" % (i + 1, op["op"]))
            st.check_strays("after step %d (%s)" % (i + 1, op["op"]))
        return {"nontrivial": done > 0}

    def plots(self, sim, plan, st, tee, i, op, place):
        exp = Expected(st)
        exp.cells = K.expected_extract(st.results())
        exp.problems = {p for p in (R.listdir(st.abs) if os.path.isdir(st.abs) else []) if os.path.isdir(os.path.join(st.abs, p))
                        and "problems.%s.problem" % p in sys.modules}
        old = sys.stdout, sys.argv
        sys.stdout = tee
        sys.argv = argvs = Argv(sim)
        items = []
        for j, act in enumerate(op["acts"]):
            def go(act=act):
                import evogil

                sim.sleep(act["wait"])
                evogil.main_worker()

            act["to"] = "figures/%d.%d" % (i, j)
            argvs.by_proc["plots%d.%d" % (i, j)] = ["evogil.py", act["cmd"], "-o", act["to"]] + (
                ["-d", plan["dir"]] if plan["dir"] else []) + (["--selected", act["sel"]] if act["sel"] and act["cmd"] == "pictures_summary" else [])
            items.append(("plots%d.%d" % (i, j), go))
        n0 = len(sim.faults.trace)
        try:
            outs = sim.processes(items)
        finally:
            sys.stdout, sys.argv = old
        done = 0
        faulted = len(sim.faults.trace) > n0
        for (name, _), act, out in zip(items, op["acts"], outs):
            if out.kind == "stuck":
                if faulted:
                    continue
                raise Violation("hang", "%s never ends: %s" % (act["cmd"], out.describe()))
            if out.kind == "crash":
                continue
            if not out.ok:
                raise Violation("plot-failed", "%s fails next to %s: %s" % (act["cmd"], [a["cmd"] for a in op["acts"]], out.describe()))
            CHECKS[act["cmd"]](exp, place, act["to"], (act["sel"] or "hgs+x").upper().split(","))
            done += 1
            sim.probe("plots_compared")
            sim.cover(act["cmd"], len(exp.counts), faulted)
        return done

"""Scripted algorithm and problems, reached through the same registry and naming conventions as
the real ones: problems.SIMP.problem, algorithms.SIMA.SIMA, algorithms.SIMA.message.

SIMA is a legal driver (population, cost, step, adapters) whose progress, costs, durations,
delegates and failures are written in the plan of the run, and which reports every step to the
simulation, so that what the meta-algorithms and workers do with a driver is observable."""
import contextlib
import io
import random
import sys
import types

from sim import seams

SPAN = 64.0


class FakeFailure(Exception):
    """injected failure of an algorithm / fitness function"""


def _cur():
    return seams.cur()


# ---------------------------------------------------------------- problems
def fit_x(v):
    _fit_hook(v)
    return v[0]


def fit_y(v):
    return v[1]


def fit_z(v):
    _fit_hook(v)
    return 40.0 - v[0] / 2 + v[2] / 64


def _fit_hook(v):
    s = _cur()
    if s is None:
        return
    n = s.notes["fits"] = s.notes.get("fits", 0) + 1
    s.clock.advance(s.cfg.get("fit_time", 1e-5))
    ff = s.notes.get("fit_fail")
    if ff is not None and ff(n, v):
        s.fired("fitness_error")
        raise FakeFailure("fitness evaluation %d failed" % n)


def fit_const(v):
    return 1.0


PROBLEMS = {
    "SIMP": dict(dims=[(0.0, SPAN), (0.0, SPAN)], fitnesses=[fit_x, fit_y],
                 pareto_front=[[0.0, 8.0], [1.0, 4.0], [2.0, 2.0], [4.0, 1.0], [8.0, 0.0]]),
    "SIMQ": dict(dims=[(0.0, SPAN), (0.0, SPAN), (0.0, SPAN)], fitnesses=[fit_z, fit_y],
                 pareto_front=[[8.0, 0.0], [16.0, 0.5], [32.0, 0.25]]),
}


# ---------------------------------------------------------------- algorithm
class Ind:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


def script_of(sim, uid, level):
    """script of driver number uid: plan['sima'] = {default: {...}, by_uid: {"3": {...}}, by_level: {...}}"""
    p = sim.plan.get("sima", {})
    sc = dict(p.get("default", {}))
    sc.update(p.get("by_level", {}).get(str(level), {}))
    ids = p.get("cycle")
    if ids:
        sc.update(ids[uid % len(ids)])
    sc.update(p.get("by_uid", {}).get(str(uid), {}))
    return sc


def _make_driver_module():
    from algorithms.base.driver import Driver
    from algorithms.base.model import ProgressMessageAdapter, PopulationMessageAdapter
    from algorithms.IMGA.message import DefaultIMGAMessageAdapter
    from algorithms.HGS.distributed.message import HGSMessageAdapter

    levels = {10.0: 0, 12.0: 1, 15.0: 2}

    class SIMA(Driver):
        def __init__(self, population, dims, fitnesses, mutation_eta=None, mutation_rate=None,
                     crossover_eta=None, crossover_rate=None, fitness_archive=None,
                     trim_function=None, *args, **kwargs):
            super().__init__(*args, **kwargs)
            s = _cur()
            self.uid = s.notes["drivers"] = s.notes.get("drivers", 0) + 1
            self.level = levels.get(mutation_eta, -1)
            self.dims = dims
            self.fitnesses = fitnesses
            self.individuals = [Ind(list(v)) for v in population]
            self.n = 0
            self.script = script_of(s, self.uid, self.level)
            self.rng = random.Random("sima:%s:%d" % (s.plan.get("sima_seed", s.key), self.uid))
            s.log("sima", "new", self.uid, self.level, len(population))
            _event(s, "new", self, [list(v) for v in population])
            if self.script.get("fail_new"):
                s.fired("algorithm_error")
                _event(s, "fail", self, None)
                raise FakeFailure("driver %d cannot start" % self.uid)

        @property
        def population(self):
            return [x.v for x in self.individuals]

        def step(self):
            s = _cur()
            s.tick()
            sc = self.script
            i = self.n
            self.n += 1
            _event(s, "enter", self, None)
            dur = _cyc(sc.get("time"), i, 0.0)
            if dur:
                s.clock.advance(dur)
            j = sc.get("jump", {}).get(str(i))
            if j:
                s.clock.jump(j)
            if s.sched is not None:
                s.sched.maybe_switch("step")
            fail_at = sc.get("fail_step")
            fail_from = sc.get("fail_from")
            if fail_at is not None and i + 1 == fail_at or fail_from is not None and i + 1 >= fail_from:
                s.fired("algorithm_error")
                _event(s, "fail", self, None)
                raise FakeFailure("driver %d failed in step %d" % (self.uid, i + 1))
            if sc.get("use_budget") and self.max_budget:
                # anneals: goes by the part of its budget that is spent, as OMOPSO does
                self.move(1.0 - min(1.0, self.cost / self.max_budget))
            elif sc.get("use_random"):
                # moves by the process-wide generator, as the real algorithms do
                for x in self.individuals:
                    x.v = [min(hi, max(lo, c + (random.random() - 0.5) * (hi - lo) / 32)) for c, (lo, hi) in zip(x.v, self.dims)]
            else:
                self.move(_cyc(sc.get("gain"), i, 0.0))
            grow = _cyc(sc.get("grow"), i, 0)
            for _ in range(grow):
                self.individuals.append(Ind([self.rng.randrange(int(lo) * 16, int(hi) * 16 + 1) / 16.0 for lo, hi in self.dims]))
            self.cost += _cyc(sc.get("cost"), i, 1)
            s.log("sima", "step", self.uid, self.n, self.cost)
            _event(s, "step", self, self.cost)

        def move(self, gain):
            if not gain or not self.individuals:
                return
            lead = self.individuals[0]
            lead.v = [max(lo, c - gain) for c, (lo, hi) in zip(lead.v, self.dims)]

        def finalized_population(self):
            pop = [list(x.v) for x in self.individuals]
            s = _cur()
            if self.script.get("fail_final") and self.n >= self.script["fail_final"]:
                s.fired("algorithm_error")
                _event(s, "fail", self, None)
                raise FakeFailure("driver %d cannot finalise" % self.uid)
            s.log("sima", "final", self.uid, len(pop))
            _event(s, "final", self, pop)
            return pop

        def nominate(self):
            s = _cur()
            k = _cyc(self.script.get("delegates"), self.n, 2)
            spread = self.script.get("spread", 16)
            lead = self.individuals[0].v if self.individuals else [0.0] * len(self.dims)
            out = []
            for _ in range(k):
                if self.rng.random() < 0.3 and self.individuals:
                    out.append(list(self.rng.choice(self.individuals).v))
                else:
                    out.append([min(hi, max(lo, round((c + self.rng.uniform(-spread, spread)) * 64) / 64.0))
                                for c, (lo, hi) in zip(lead, self.dims)])
            # no two delegates of a run are equal: it can be told which one a sprout stems from
            for v in out:
                s.notes["delegates"] = n = s.notes.get("delegates", 0) + 1
                lo, hi = self.dims[0]
                e = n * 2.0 ** -15
                c = round(v[0] * 8) / 8
                v[0] = c + e if c + e <= hi else c - 1 + e
            s.log("sima", "delegates", self.uid, len(out))
            _event(s, "delegates", self, [list(v) for v in out])
            return out

        def shutdown(self):
            s = _cur()
            if s is not None:
                s.log("sima", "shutdown", self.uid)
                _event(s, "shutdown", self, None)
                if self.script.get("fail_shutdown"):
                    s.fired("algorithm_error")
                    raise FakeFailure("driver %d cannot shut down" % self.uid)

    SIMA.__module__ = "algorithms.SIMA.SIMA"
    SIMA.__qualname__ = "SIMA"

    class SIMAIMGAMessageAdapter(DefaultIMGAMessageAdapter):
        def immigrate(self, migrants):
            s = _cur()
            _event(s, "immigrate", self.driver, [list(m.v) for m in migrants])
            super().immigrate(migrants)

        def emigrate(self, migrants):
            s = _cur()
            out = super().emigrate(migrants)
            _event(s, "emigrate", self.driver, [list(m.v) for m in out])
            return out

    class SIMAHGSMessageAdapter(HGSMessageAdapter):
        def get_population(self):
            return [x.v for x in self.driver.individuals]

        def nominate_delegates(self):
            return self.driver.nominate()

    for c in (SIMAIMGAMessageAdapter, SIMAHGSMessageAdapter):
        c.__module__ = "algorithms.SIMA.message"
        c.__qualname__ = c.__name__
    return SIMA, SIMAIMGAMessageAdapter, SIMAHGSMessageAdapter


def _cyc(seq, i, default):
    if seq is None:
        return default
    if isinstance(seq, (int, float)):
        return seq
    if not seq:
        return default
    return seq[i % len(seq)]


def _event(s, kind, drv, data):
    h = s.notes.get("on_driver")
    if h is not None:
        h(kind, drv, data)


def install():
    import problems  # noqa: F401
    import algorithms  # noqa: F401
    from simulation import run_config

    for name, d in PROBLEMS.items():
        pkg = types.ModuleType("problems." + name)
        pkg.__path__ = []
        m = types.ModuleType("problems.%s.problem" % name)
        m.name = name
        for k, v in d.items():
            setattr(m, k, v)
        pkg.problem = m
        sys.modules["problems." + name] = pkg
        sys.modules["problems.%s.problem" % name] = m
    SIMA, IMGAAd, HGSAd = _make_driver_module()
    pkg = types.ModuleType("algorithms.SIMA")
    pkg.__path__ = []
    m = types.ModuleType("algorithms.SIMA.SIMA")
    m.SIMA = SIMA
    msg = types.ModuleType("algorithms.SIMA.message")
    msg.SIMAIMGAMessageAdapter = IMGAAd
    msg.SIMAHGSMessageAdapter = HGSAd
    msg.SIMADHGSMessageAdapter = HGSAd
    pkg.SIMA, pkg.message = m, msg
    sys.modules["algorithms.SIMA"] = pkg
    sys.modules["algorithms.SIMA.SIMA"] = m
    sys.modules["algorithms.SIMA.message"] = msg
    # the same thing under a second name: another algorithm for everything that stores and compares
    pkg = types.ModuleType("algorithms.SIMB")
    pkg.__path__ = []
    m = types.ModuleType("algorithms.SIMB.SIMB")
    m.SIMB = type("SIMB", (SIMA,), {"__module__": "algorithms.SIMB.SIMB"})
    pkg.SIMB = m
    sys.modules["algorithms.SIMB"] = pkg
    sys.modules["algorithms.SIMB.SIMB"] = m
    for p in PROBLEMS:
        if p not in run_config.problems:
            run_config.problems.append(p)
    for a in ("IMGA+SIMA", "HGS+SIMA", "DHGS+SIMA", "SIMA", "SIMB"):
        if a not in run_config.algorithms:
            run_config.algorithms.append(a)
    import importlib

    _stand_ins()
    names = ["simulation.run_parallel", "simulation.serialization", "simulation.worker",
             "simulation.metrics_processor", "statistic.stats", "statistic.ranking",
             "statistic.summary", "metrics.metrics", "algorithms.HGS.HGS", "algorithms.IMGA.IMGA",
             "algorithms.HGS.classic.ClassicHGS", "algorithms.HGS.distributed.DistributedHGS",
             "algorithms.HGS.distributed.actors", "matplotlib.font_manager", "evotools.rxtools", "evogil"]
    for a in ("NSGAII", "SPEA2", "IBEA", "OMOPSO", "SMSEMOA", "NSGAIII", "JGBL", "NSLS"):
        names += ["algorithms.%s.%s" % (a, a), "algorithms.%s.message" % a]
    names += ["problems.%s.problem" % p for p in run_config.problems]
    for n in names:
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                importlib.import_module(n)
        except Exception as e:  # the scenario that needs it will report what is missing
            IMPORT_ERRORS[n] = repr(e)


IMPORT_ERRORS = {}


def _stand_ins():
    """what NSLS needs of scipy, where scipy is not installed"""
    try:
        import scipy.spatial.distance  # noqa: F401
    except ImportError:
        import math

        for n in ("scipy", "scipy.spatial", "scipy.spatial.distance"):
            sys.modules[n] = types.ModuleType(n)
        sys.modules["scipy"].__path__ = []
        sys.modules["scipy.spatial"].__path__ = []
        sys.modules["scipy"].spatial = sys.modules["scipy.spatial"]
        d = sys.modules["scipy.spatial"].distance = sys.modules["scipy.spatial.distance"]
        d.euclidean = lambda u, v: math.sqrt(sum((a - b) ** 2 for a, b in zip(u, v)))

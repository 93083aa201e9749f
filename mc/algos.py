"""Small closed instances of every optimisation algorithm, through the constructors the
simulation factory uses (keyword arguments), with instrumented objective functions."""
import functools
import importlib
import math

from mc import env  # noqa: F401
from mc.core import Chooser
from simulation import run_config

SINGLE = ["NSGAII", "IBEA", "SPEA2", "OMOPSO", "SMSEMOA", "JGBL", "NSLS", "NSGAIII", "BOGO"]
INNER = [a for a in SINGLE if a != "BOGO"]


def algo_class(name):
    path = run_config.custom_paths.get(name)
    mod, cls = path if path else ("algorithms.%s.%s" % (name, name), name)
    return getattr(importlib.import_module(mod), cls)


def adapter(inner, outer):
    return getattr(importlib.import_module("algorithms.%s.message" % inner),
                   "%s%sMessageAdapter" % (inner, outer))


# ---------------------------------------------------------------- problems


class Problem:
    def __init__(self, name, dims, fs, ref):
        self.name, self.dims, self.fs, self.ref = name, dims, fs, ref


def _conv(dims):
    return [lambda x: sum(v * v for v in x), lambda x: sum((v - 1.0) ** 2 for v in x)]


def _plateau(dims):
    # few objective values: ties and duplicates everywhere
    return [lambda x: math.floor(2 * abs(x[0])) + 0.0,
            lambda x: math.floor(3 * abs(1.0 - x[0])) + sum(math.floor(2 * abs(v)) for v in x[1:])]


def _zdt(dims):
    def f0(x):
        return abs(x[0])

    def f1(x):
        g = 1.0 + 3.0 * sum(abs(v) for v in x[1:])
        return g * (1.0 - math.sqrt(min(1.0, abs(x[0]) / g)))
    return [f0, f1]


def _three(dims):
    return [lambda x: abs(x[0]), lambda x: abs(x[-1] - 0.5),
            lambda x: (1.0 - abs(x[0])) ** 2 + abs(x[-1])]


def _front(dims):
    # most candidates do not dominate each other
    return [lambda x: abs(x[0]) + 0.1 * abs(x[-1]), lambda x: (1.0 - abs(x[0])) ** 2 + 0.1 * abs(x[-1]) ** 2]


def _same(dims):
    return [functools.partial(_coordinate, k) for k in range(len(dims))]


def _coordinate(k, x):
    return float(x[k])


def _needle(dims):
    # only points of a coarse grid are good: every small move is strictly worse
    def f(x):
        return 0.0 if all((v * 8).is_integer() if isinstance(v, float) else float(v * 8).is_integer()
                          for v in x) else 1.0
    return [f, lambda x: 2.0 * f(x)]


def problem(name):
    kind, _, box = name.partition("/")
    dims = {"unit2": [(0.0, 1.0), (0.0, 1.0)], "sym2": [(-1.0, 1.0), (-2.0, 2.0)],
            "mixed3": [(0.0, 1.0), (-1.0, 1.0), (-5.0, 2.0)], "unit1": [(0.0, 1.0)],
            "int2": [(0, 1), (-2, 3)], "narrow2": [(0.0, 1e-3), (-1000.0, 1000.0)],
            "unit4": [(0.0, 1.0)] * 4, "pos2": [(0.3, 0.9), (0.25, 8.0)]}[box]
    fs = {"conv": _conv, "plateau": _plateau, "zdt": _zdt, "three": _three, "needle": _needle, "front": _front, "same": _same}[kind](dims)
    return Problem(name, dims, fs, tuple([50.0] * len(fs)))


def population(prob, n, variant):
    """deterministic initial populations"""
    s = Chooser(base="lcg2")
    pop = []
    for i in range(n):
        v = []
        for lo, hi in prob.dims:
            u = s._u()
            if variant == "corner":
                v.append([lo, hi, 0.5 * (lo + hi)][(i + len(v)) % 3] * 1.0)
            else:
                v.append(lo + u * (hi - lo))
        pop.append(v)
    if variant == "grid":
        pop = [[lo + (hi - lo) * (2 + (i + k) % 5) / 8.0 for k, (lo, hi) in enumerate(prob.dims)]
               for i in range(n)]
    if variant == "dup":
        pop = [list(pop[i % 2]) for i in range(n)]
    if variant == "same":
        pop = [list(pop[0]) for i in range(n)]
    return pop


# ---------------------------------------------------------------- sessions


class Log:
    """every candidate handed to the first objective, in order"""

    def __init__(self, prob):
        self.prob = prob
        self.calls = []         # vectors given to objective 0
        self.bad = None
        self.n = [0] * len(prob.fs)
        self.current = None     # driver whose construction / step is running
        self.by = {}            # driver token -> calls of objective 0

    def fitnesses(self):
        out = []
        for k, f in enumerate(self.prob.fs):
            out.append(functools.partial(self._call, k, f))
        return out

    def _call(self, k, f, x):
        self.n[k] += 1
        if k == 0:
            self.calls.append(tuple(x))
            self.by[self.current] = self.by.get(self.current, 0) + 1
        if self.bad is None:
            w = outside(x, self.prob.dims)
            if w:
                self.bad = "objective %d evaluated at %r: %s" % (k, list(x), w)
        return f(x)


def outside(x, dims):
    if len(x) != len(dims):
        return "%d coordinates, the problem has %d" % (len(x), len(dims))
    for v, (lo, hi) in zip(x, dims):
        if not (lo <= v <= hi):        # NaN fails too
            return "%r is not in [%r, %r]" % (v, lo, hi)
    return None


def base_kwargs(name, prob, dims=None):
    kw = dict(mutation_eta=20.0, crossover_eta=30.0, mutation_rate=1.0 / len(prob.dims),
              crossover_rate=0.9)
    if name in ("NSGAII", "IBEA", "JGBL"):
        kw["mating_population_size"] = 0.5
    if name == "IBEA":
        kw["kappa"] = 0.05
    if name == "JGBL":
        kw.update(jumping_rate=0.6, jumping_percentage=0.5)
    if name == "SMSEMOA":
        kw["reference_point"] = prob.ref
    if name == "BOGO":
        kw = dict(mutation_variance=[0.1] * len(prob.dims), crossover_variance=[0.1] * len(prob.dims))
    return kw


def make(name, prob, pop, fitnesses, **over):
    kw = base_kwargs(name, prob)
    kw.update(over)
    return algo_class(name)(population=pop, dims=prob.dims, fitnesses=fitnesses, **kw)


class _Mark:
    def __init__(self, log, token):
        self.log, self.token = log, token

    def __enter__(self):
        self.saved, self.log.current = self.log.current, self.token

    def __exit__(self, *a):
        self.log.current = self.saved


def inner_factory(name, prob, created=None, log=None, **over):
    """what the simulation factory hands to a meta-algorithm as its sub-driver"""
    kw = base_kwargs(name, prob)
    kw.update(over)
    for k in ("mutation_eta", "crossover_eta", "mutation_rate", "crossover_rate"):
        kw.pop(k, None)
    cls = algo_class(name)

    def build(**k):
        token = len(created) if created is not None else None
        if log is None:
            d = cls(**dict(kw, **k))
        else:
            with _Mark(log, token):
                d = cls(**dict(kw, **k))
            step = d.next_step

            def next_step():
                with _Mark(log, token):
                    return step()
            d.next_step = next_step
        if created is not None:
            created.append((d, k))
        return d

    return build


def make_imga(inner, prob, pop, fitnesses, islands, migrants, epoch, created=None, log=None, **over):
    return algo_class("IMGA")(
        population=pop, dims=prob.dims, fitnesses=fitnesses, islands_number=islands,
        migrants_number=migrants, epoch_length=epoch, driver=inner_factory(inner, prob, created, log),
        mutation_eta=20.0, crossover_eta=30.0, mutation_rate=1.0 / len(prob.dims),
        crossover_rate=0.9, driver_message_adapter_factory=adapter(inner, "IMGA"), **over)


def hgs_kwargs(prob, **over):
    kw = dict(fitness_errors=(0.0, 0.0, 0.0), cost_modifiers=(1.0, 1.0, 1.0),
              mutation_etas=(10.0, 12.0, 15.0), crossover_etas=(15.0, 20.0, 25.0),
              mutation_rates=[1.0 / len(prob.dims)] * 3, crossover_rates=[0.9] * 3,
              reference_point=prob.ref, mantissa_bits=(4, 16, 64),
              min_progress_ratio=[10.0, 10.0, 10.0], metaepoch_len=[1, 1, 1], max_sprouts_no=3,
              sproutiveness=2, comparison_multipliers=(1.0, 0.02, 0.005),
              population_sizes=(6, 4, 3))
    kw.update(over)
    return kw


def make_hgs(inner, prob, pop, fitnesses, created=None, hgs_type="classic", log=None, **over):
    kw = hgs_kwargs(prob, **over)
    return algo_class("HGS")(
        population=pop, dims=prob.dims, fitnesses=fitnesses,
        driver=inner_factory(inner, prob, created, log), hgs_type=hgs_type,
        driver_message_adapter_factory=adapter(inner, "HGS"), **kw)

"""One closed run of an algorithm, described by a JSON-able spec:

  {"alg": "NSGAII" | "IMGA+NSGAII" | "HGS+NSGAII", "prob": "conv/unit2", "n": 4,
   "variant": "rand", "steps": 2, "over": {...}, ...}
"""
import copy

from algorithms.base import drivertools
from mc import algos, sched
from mc.core import deviations

sched.install()


NATIVE_EPS = getattr(drivertools, "EPSILON", None)


def set_eps(native):
    """drivertools.EPSILON is a numpy scalar, which turns every varied coordinate into one and
    is an order of magnitude slower on this interpreter; a plain float of the same value gives
    the same coordinates.  Specs with "native" keep the numpy scalar."""
    if NATIVE_EPS is not None:
        drivertools.EPSILON = NATIVE_EPS if native else float(NATIVE_EPS)


class Session:
    def __init__(self, spec):
        if sched.CTRL.pick is None:
            sched.CTRL.reset()
        set_eps(spec.get("native"))
        self.spec = spec
        self.prob = algos.problem(spec["prob"])
        self.log = algos.Log(self.prob)
        self.fitnesses = self.log.fitnesses()
        self.pop = algos.population(self.prob, spec["n"], spec["variant"])
        self.inner = []            # (driver, kwargs) created by a meta-algorithm
        over = dict(spec.get("over") or {})
        outer, _, inn = spec["alg"].partition("+")
        self.outer, self.inner_name = (outer, inn) if inn else (None, outer)
        if outer == "IMGA" and inn:
            self.driver = algos.make_imga(inn, self.prob, self.pop, self.fitnesses,
                                          created=self.inner, log=self.log, **over)
        elif outer == "HGS" and inn:
            self.driver = algos.make_hgs(inn, self.prob, self.pop, self.fitnesses,
                                         created=self.inner, log=self.log, **over)
        else:
            self.driver = algos.make(outer, self.prob, self.pop, self.fitnesses, **over)

    def leaf_drivers(self):
        return [d for d, _ in self.inner] if self.outer else [self.driver]

    def populations(self):
        return [list(d.population) for d in self.leaf_drivers() if hasattr(d, "population")]

    def objectives(self, x):
        """uncharged, unlogged, unblurred"""
        return [f(x) for f in self.prob.fs]


def explore(spec, body, rec, key_outcome=None):
    """body(chooser) under every deviation of the spec's bound"""
    gen, st = deviations(body, spec.get("bound", 1), base=spec.get("base", "lcg1"),
                         budget=spec.get("budget"), unit_alts=spec.get("alts"))
    for prefix, res in gen:
        rec.count("evaluations")
        rec.outcome(repr(res))
        if rec.violations:
            rec.sample({"spec": spec, "deviations": list(prefix.items())})
            break
    rec.count("choice_points", st["points"])
    rec.sample({"spec": spec, "executions": st["runs"], "bound": st["max_bound"]}, 1)
    if st["diverged"]:
        rec.cap("%s: the code is not a function of its random draws" % spec["alg"])
    if st["capped"]:
        rec.cap("execution budget reached")


def imga_spec(inner, prob="conv/unit2", n=8, islands=2, migrants=1, epoch=1, **kw):
    d = {"alg": "IMGA+" + inner, "prob": prob, "n": n, "variant": "rand", "steps": 2,
         "over": {"islands": islands, "migrants": migrants, "epoch": epoch}}
    d.update(kw)
    return d


def hgs_spec(inner, prob="conv/unit2", n=8, **kw):
    d = {"alg": "HGS+" + inner, "prob": prob, "n": n, "variant": "rand", "steps": 3, "over": {}}
    over = kw.pop("over", None)
    d.update(kw)
    if over:
        d["over"] = copy.deepcopy(over)
    return d


def single_spec(alg, prob="conv/unit2", n=4, **kw):
    d = {"alg": alg, "prob": prob, "n": n, "variant": "rand", "steps": 2, "over": {}}
    d.update(kw)
    return d


def long_specs(extra=False):
    """(alg, spec): one undisturbed execution each, but many generations or many individuals;
    what a threshold in the code under test would hide from the small exhaustive instances"""
    out = []
    for a in algos.SINGLE:
        out.append(single_spec(a, "zdt/mixed3", n=8, bound=0, steps=30, base="lcg2"))
        out.append(single_spec(a, "front/sym2", n=26 if a == "NSGAIII" else 48, bound=0, steps=4, base="lcg1"))
        if a != "NSGAIII":
            out.append(single_spec(a, "three/unit4", n=104, bound=0, steps=2, base="lcg3"))
    for a in algos.INNER:
        if a == "NSGAIII" and not extra:
            continue
        out.append(imga_spec(a, "conv/sym2", n=30, islands=3, migrants=5, epoch=2, bound=0, steps=8, base="lcg2"))
        out.append(hgs_spec(a, "zdt/mixed3", n=20, bound=0, steps=12, base="lcg2",
                            over={"population_sizes": (20, 8, 5), "cost_modifiers": (1.0, 0.5, 0.25),
                                  "max_sprouts_no": 4, "metaepoch_len": [2, 2, 2],
                                  "min_progress_ratio": [0.0, 1e-5, 1e-4]}))
    return out

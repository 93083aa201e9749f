"""C18 Precision and noise per level of the hierarchical search; the shared evaluation archive."""
import fractions
import itertools
import math

from mc import actors, algos, env
from mc import sessions as S  # noqa: F401
from mc.core import Chooser, deviations, under
from algorithms.base.driver import Driver
from algorithms.base.model import PopulationMessageAdapter

PROPERTY = "C18"
LEVEL = "exploration"
RULE = ("every mantissa prefix of 9-12 binary digits with both tails x exponents x signs x mantissa lengths through the functions the real search hands to its nodes; "
        "objective values x errors x all pairs of draws; sessions of every algorithm with reduced precision over random outcomes up to the deviation bound; "
        "distinct = distinct values / histories")
ASSUMPTIONS = ["coordinates are normal floating-point numbers or zero", "boxes contain zero (rounding is towards zero)"]

LEVELS = 3
ETAS = (10.0, 12.0, 15.0)
DRAWS = (0.0, 2.0 ** -40, 0.1, 0.25, 0.4, 0.5, 0.6, 0.75, 0.9, 1 - 2.0 ** -40, env.TOP)
VALUES = (0.0, -0.0, 1.0, -1.0, 3.5, -0.773, 1e-300, -1e-300, 1e12, -1e12, 5e-324, -123.456, 0.1)
ARCHIVING = ("NSGAII", "NSLS", "JGBL", "NSGAIII")    # these store what they evaluate


def cases(tier):
    q = tier == "quick"
    out = []
    for kind in ("classic", "distributed"):
        for bits in ([1, 2, 3], [4, 5, 8], [10, 16, 23], [30, 40, 51], [52, 53, 64], [64, 4, 1]) if q else [[b, b + 1, b + 2] for b in range(0, 54, 3)] + [[64, 16, 4]]:
            out.append({"part": "trim", "kind": kind, "bits": bits, "digits": 9 if q else 13})
        for errors in ((0.0, 0.0, 0.0), (0.5, 0.1, 0.01), (0.0, 1.0, 2.0), (2.0, 0.2, 0.0)):
            out.append({"part": "noise", "kind": kind, "errors": errors})
    out.append({"part": "archive", "kind": "classic"})
    for inner in algos.INNER:
        for prob in ("conv/sym2", "plateau/unit2", "zdt/mixed3"):
            for errors in ((0.0, 0.0, 0.0), (0.3, 0.1, 0.05)):
                out.append({"part": "session", "inner": inner, "prob": prob, "errors": errors, "bits": (3, 7, 12), "base": "lcg1", "steps": 5 if q else 8,
                            "bound": 1, "budget": 6 if q else 300})
                if not q:
                    out.append({"part": "session", "inner": inner, "prob": prob, "errors": errors, "bits": (2, 20, 64), "base": "lcg3", "steps": 8,
                                "bound": 1, "budget": 300})
    return out


def bounds(tier):
    return {"mantissa lengths": "1-64", "digits enumerated": "9 (13)", "errors": "0-2", "draws": len(DRAWS) ** 2, "archive": "all vectors of 1-3 coordinates from 10 values", "metaepochs": "5 (8)", "deviations": 1}


# ---------------------------------------------------------------- what the nodes are given


class Adapter(PopulationMessageAdapter):
    def get_population(self):
        return self.driver.finalized_population()

    def nominate_delegates(self):
        return [list(x) for x in self.driver.finalized_population()][:2]


class Holder(Driver):
    """keeps its population; its hypervolume first grows, then stalls"""

    def __init__(self, nodes, kw):
        super().__init__(message_adapter_factory=kw["message_adapter_factory"])
        self.kw, self.nodes = kw, nodes
        self.pop = [list(x) for x in kw["population"]]
        nodes.append(self)

    @property
    def population(self):
        return self.pop

    def step(self):
        self.cost += 1
        if self.step_no == 1:
            self.pop = [[x[0], x[1] - 1.0] for x in self.pop]

    def finalized_population(self):
        return self.pop


def handed_out(kind, bits, errors, fs):
    """level -> keyword arguments of a node of that level"""
    nodes = []
    prob = algos.Problem("holder", [(-100.0, 100.0), (-100.0, 100.0)], fs, (1e15, 1e15))
    kw = algos.hgs_kwargs(prob, mantissa_bits=tuple(bits), fitness_errors=tuple(errors), population_sizes=(4, 3, 2), min_progress_ratio=[0.1] * 3, sproutiveness=2,
                          comparison_multipliers=(0.001, 0.001, 0.001))
    pop = [[float(i), 5.0] for i in range(6)]
    system = actors.System(actors.fifo)
    with actors.running(system), under(Chooser()):
        hgs = algos.algo_class("HGS")(population=pop, dims=prob.dims, fitnesses=fs, driver=lambda **k: Holder(nodes, k), hgs_type=kind, driver_message_adapter_factory=Adapter, **kw)
        for _ in range(8):
            hgs.next_step()
        system.drain()
    out = {}
    for n in nodes:
        out.setdefault(ETAS.index(n.kw["mutation_eta"]), []).append(n.kw)
    return out


def plain(x):
    return 10.0 + x[0] * 0.0 + x[1]


def first(x):
    return x[0]


def second(x):
    return x[1]


# ---------------------------------------------------------------- precision


def trimmed(x, bits):
    """x with `bits` binary digits after the leading one, towards zero; exactly"""
    if x == 0:
        return fractions.Fraction(0)
    m, e = math.frexp(abs(x))
    f = fractions.Fraction(m) * 2                       # 1 <= f < 2
    k = int(f * 2 ** bits)
    return fractions.Fraction(k, 2 ** bits) * fractions.Fraction(2) ** (e - 1) * (1 if x > 0 else -1)


def precise(x, bits):
    return fractions.Fraction(float(x)) == trimmed(float(x), bits)


def trim_part(item, rec):
    given = handed_out(item["kind"], item["bits"], (0.0, 0.0, 0.0), [plain, plain])
    rec.ok(sorted(given) == [0, 1, 2], "levels", lambda: "%s: nodes on levels %r only" % (item["kind"], sorted(given)))
    digits = item["digits"]
    for level in sorted(given):
        bits = item["bits"][level]
        for kw in given[level][-2:]:
            trim = kw["trim_function"]
            for prefix in range(2 ** digits):
                vec = []
                for tail in (0, 2 ** (52 - digits) - 1):
                    m = 1.0 + (prefix * 2 ** (52 - digits) + tail) / 2.0 ** 52
                    for e in ((-1022, -4, 0, 40) if prefix % 8 else (-1022, -1000, -60, -4, -1, 0, 1, 5, 40, 1023)):
                        vec.append(math.ldexp(m, e))
                vec += [-v for v in vec] + [0.0]
                keep = list(vec)
                out = list(trim(vec))
                rec.count("evaluations")
                rec.ok(vec == keep, "trim-input", "trimming changes its input")
                rec.ok(len(out) == len(vec), "trim-length", lambda: "%d coordinates out of %d" % (len(out), len(vec)))
                for v, w in zip(vec, out):
                    rec.ok(math.isfinite(w) and fractions.Fraction(w) == trimmed(v, bits), "trim", lambda: "%s, level %d, %d bits: %r becomes %r, want %r" % (
                        item["kind"], level, bits, v, w, float(trimmed(v, bits))))
                if rec.violations:
                    return
            rec.outcome((level, bits))


# ---------------------------------------------------------------- noise


class Draws(Chooser):
    def __init__(self, us):
        super().__init__()
        self.us, self.k = us, 0

    def unit(self):
        self.k += 1
        return self.us[(self.k - 1) % len(self.us)]

    def below(self, n):
        return int(self.unit() * n)


def noise_part(item, rec):
    errors = item["errors"]
    given = handed_out(item["kind"], (64, 64, 64), errors, [first, second])
    limit = math.sqrt(2 * 53 * math.log(2)) + 0.5         # the largest deviate of a double
    for level, kws in sorted(given.items()):
        e = errors[level]
        fs = kws[-1]["fitnesses"]
        rec.ok(len(fs) == 2, "objectives", lambda: "level %d gets %d objectives" % (level, len(fs)))
        for v, w in itertools.product(VALUES, (2.0, -7.0)):
            above = below = 0
            for us in itertools.product(DRAWS, repeat=2):
                with under(Draws(us)):
                    got = [f([v, w]) for f in fs]
                rec.count("evaluations")
                for true, g in zip((v, w), got):
                    if e == 0:
                        rec.ok(g == true, "exact", lambda: "%s, level %d without error: objective value %r becomes %r" % (item["kind"], level, true, g))
                    else:
                        rec.ok(abs(g - true) <= limit * e * abs(true) / 3.0 + 1e-320, "noise", lambda: "%s, level %d, error %r: %r becomes %r" % (item["kind"], level, e, true, g))
                above += got[0] > v
                below += got[0] < v
                if rec.violations:
                    return
            if e and abs(v) > 1e-310:
                rec.ok(above and below, "one-sided", lambda: "%s, level %d, error %r: noise on %r is never %s" % (item["kind"], level, e, v, "above" if not above else "below"))
            rec.outcome((level, e, v, above, below))


# ---------------------------------------------------------------- archive


def archive_part(item, rec):
    """the archives handed to nodes: one for each level, exact in every coordinate"""
    given = handed_out(item["kind"], (64, 64, 64), (0.0, 0.0, 0.0), [first, second])
    for level, kws in given.items():
        for kw in kws[1:]:
            kws[0]["fitness_archive"][[1.0, 2.0, float(len(kws))]] = [3.0]
            rec.ok([1.0, 2.0, float(len(kws))] in kw["fitness_archive"], "shared", lambda: "nodes of level %d do not share their archive" % level)
    for a, b in itertools.permutations(sorted(given), 2):
        key = [float(a), float(b), 77.0]
        given[a][0]["fitness_archive"][key] = [1.0]
        rec.ok(key not in given[b][-1]["fitness_archive"], "levels-mixed", lambda: "what level %d evaluated is found by level %d" % (a, b))
    grid = (0.0, 5e-324, 1e-12, 0.1, math.nextafter(0.1, 1) if hasattr(math, "nextafter") else 0.1 + 2.0 ** -56, 1.0, 1.0 + 2.0 ** -52, -1.0, 1e15, 1e15 + 0.125)
    vectors = [list(v) for n in (1, 2, 3) for v in itertools.product(grid, repeat=n)]
    rec.count("vectors", len(vectors))
    for parity in (0, 1, 2):
        level = sorted(given)[parity % len(given)]
        archive = given[level][0]["fitness_archive"]
        for i, v in enumerate(vectors):
            if i % 3 == parity:
                archive[v if i % 2 else tuple(v)] = [float(i)]
        for i, v in enumerate(vectors):
            rec.count("evaluations")
            if i % 3 == parity:
                for w in (list(v), tuple(v)):
                    rec.ok(w in archive and archive[w] == [float(i)], "forgotten", lambda: "the archive of level %d does not give back what was stored for %r" % (level, w))
            else:
                rec.ok(list(v) not in archive, "confused", lambda: "the archive of level %d has a value for %r, which was not evaluated" % (level, v))
        rec.outcome((level, parity))
    # nothing is forgotten when much has been evaluated
    many = [[i / 16.0, j / 7.0] for i in range(-60, 60) for j in range(100)]
    for level in sorted(given):
        archive = given[level][-1]["fitness_archive"]
        for k, v in enumerate(many):
            if k % 10 != 3:
                archive[v] = [float(k), float(-k)]
        for k, v in enumerate(many):
            rec.count("evaluations")
            if k % 10 != 3:
                rec.ok(v in archive and archive[v] == [float(k), float(-k)], "forgotten", lambda: "the archive of level %d does not give back what was stored for %r after %d more" % (level, v, len(many) - k))
            else:
                rec.ok(v not in archive, "confused", lambda: "the archive of level %d has a value for %r, which was not evaluated" % (level, v))


# ---------------------------------------------------------------- sessions


def session_part(item, rec):
    inner, bits = item["inner"], item["bits"]
    prob = algos.problem(item["prob"])
    what = "HGS+%s on %s with %r bits and errors %r" % (inner, item["prob"], bits, item["errors"])

    def body(ch):
        nodes = []
        make = algos.inner_factory(inner, prob)

        def build(**kw):
            level = ETAS.index(kw["mutation_eta"])
            seen = []
            fs = kw["fitnesses"]

            def logged(k, f):
                def call(x):
                    val = f(x)
                    seen.append((k, tuple(float(c) for c in x), val))
                    return val
                return call
            d = make(**dict(kw, fitnesses=[logged(k, f) for k, f in enumerate(fs)]))
            nodes.append((level, d, seen))
            return d

        kw = algos.hgs_kwargs(prob, mantissa_bits=bits, fitness_errors=item["errors"], min_progress_ratio=[0.5, 0.5, 0.5], sproutiveness=2,
                              comparison_multipliers=(1.0, 0.05, 0.02), population_sizes=(6, 4, 4))
        hgs = algos.algo_class("HGS")(population=algos.population(prob, 10, "rand"), dims=prob.dims, fitnesses=prob.fs, driver=build, hgs_type="classic",
                                      driver_message_adapter_factory=algos.adapter(inner, "HGS"), **kw)
        for _ in range(item["steps"]):
            hgs.next_step()
        known = [{} for _ in range(LEVELS)]
        for level, d, seen in nodes:
            for k, x, val in seen:
                for c in x:
                    rec.ok(precise(c, bits[level]), "precision", lambda: "%s: a level %d node evaluates a candidate with coordinate %r" % (what, level, c))
                if not item["errors"][level]:
                    rec.ok(val == prob.fs[k](list(x)), "exact", lambda: "%s: objective %d of %r is %r without error" % (what, k, x, val))
                if inner in ARCHIVING:
                    rec.ok(known[level].setdefault((k, x), val) == val, "reevaluated", lambda: "%s: %r has two values of objective %d on level %d: %r, %r" % (
                        what, x, k, level, known[level][(k, x)], val))
        for level, d, seen in nodes:
            for x in d.finalized_population() if d.step_no else ():
                if inner in ARCHIVING:
                    rec.ok(any((k, tuple(float(c) for c in x)) in known[level] for k in range(len(prob.fs))), "not-evaluated",
                           lambda: "%s: a level %d node returns %r, never evaluated on that level" % (what, level, x))
                for c in x:
                    rec.ok(precise(c, bits[level]), "result-precision", lambda: "%s: a level %d node returns coordinate %r" % (what, level, c))
        if len(nodes) > 1:
            rec.count("non_trivial")
        rec.count("nodes", len(nodes))
        return len(nodes), sum(len(s) for _, _, s in nodes)

    gen, stats = deviations(body, item["bound"], item["base"], item["budget"], unit_alts=(0.0, env.TOP), int_cap=2)
    for _, res in gen:
        rec.count("executions")
        rec.outcome(res)
        if rec.violations:
            break
    if stats["capped"]:
        rec.cap("%s: first %d executions" % (what, item["budget"]))
    rec.sample(item)


def run_case(item, rec):
    {"trim": trim_part, "archive": archive_part, "noise": noise_part, "session": session_part}[item["part"]](item, rec)

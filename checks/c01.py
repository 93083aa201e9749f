"""C01 Pareto dominance, layering and non-dominated filtering.

Exhaustive enumeration of every ordered list of objective vectors up to a length over
small value alphabets, against the textbook definition written with plain comparisons."""
import itertools

from mc import env  # noqa: F401
from mc import ladder
from evotools import ea_utils
from metrics import metrics, metrics_utils

PROPERTY = "C01"
LEVEL = "exploration"
RULE = ("every ordered list (repetitions allowed) of objective vectors over the alphabet "
        "up to the length bound, and five families of lists of every size up to 12 and steps of 7 up to 40-80 "
        "(thorough 120) in up to 9 (15) objectives in three orders; distinct = distinct (layer structure, filter result); "
        "a case is non-trivial when it has at least two vectors")
ASSUMPTIONS = ["objective values are not NaN", "all vectors of a list have one length"]

EPS = 2.0 ** -52
ALPHABETS = {
    "int3": [0, 1, 2], "neg": [-1.5, 0.0, 2.5], "tiny": [1.0, 1.0 + EPS, 1.0 - EPS],
    "huge": [1e300, -1e300, 0.0], "inf": [float("-inf"), 0.0, float("inf")],
    "bin": [0, 1], "zero": [-0.0, 0.0, 1e-320],
    "int5": [0, 1, 2, 3, 4],
}


def cases(tier):
    out = []
    q = tier == "quick"
    for a, d, n in ([("int3", 2, 4), ("neg", 2, 4), ("tiny", 2, 3), ("huge", 2, 3), ("inf", 2, 3),
                     ("zero", 2, 3), ("bin", 3, 4), ("bin", 4, 3), ("int3", 3, 3), ("int3", 1, 5),
                     ("int5", 2, 3)]
                    if q else
                    [("int3", 2, 5), ("neg", 2, 4), ("tiny", 2, 4), ("huge", 2, 4), ("inf", 2, 4),
                     ("zero", 2, 4), ("bin", 3, 5), ("bin", 4, 4), ("int3", 3, 4), ("int3", 1, 7),
                     ("int5", 2, 4), ("bin", 5, 3)]):
        npts = len(ALPHABETS[a]) ** d
        for first in range(npts):
            out.append({"alphabet": a, "dims": d, "len": n, "first": first})
    for fam in sorted(ladder.FAMILIES):
        for d in ((2, 3, 9) if q else (2, 3, 4, 6, 9, 15)):
            out.append({"family": fam, "dims": d, "max": (80 if d == 2 else 40) if q else 120})
    return out


def bounds(tier):
    return sorted({(c.get("alphabet") or c["family"], c["dims"], c.get("len") or c["max"]) for c in cases(tier)})


def ref_dom(x, y):
    return all(a <= b for a, b in zip(x, y)) and any(a < b for a, b in zip(x, y))


def ref_layers(vs):
    """indices, layer by layer"""
    left = list(range(len(vs)))
    out = []
    while left:
        layer = [i for i in left if not any(ref_dom(vs[j], vs[i]) for j in left)]
        out.append(layer)
        left = [i for i in left if i not in layer]
    return out


def run_ladder(item, rec):
    """families of every size up to a bound: long lists, long vectors"""
    d = item["dims"]
    sizes = [n for n in range(1, item["max"] + 1) if n <= 12 or n % 7 == 0 or n == item["max"]]
    for n in sizes:
        for vs in ladder.orders(ladder.FAMILIES[item["family"]](n, d)):
            rec.count("evaluations")
            lay = ref_layers(vs)
            inds = [(i, v) for i, v in enumerate(vs)]
            got = [sorted(x[0] for x in layer)
                   for layer in itertools.islice(ea_utils.paretofront_layers(inds, lambda x: x[1]), n + 2)]
            rec.ok(got == lay, "layers-long", lambda: "layers of %d vectors %r...: %d layers, want %d" % (
                n, vs[:3], len(got), len(lay)))
            nd = metrics.filter_not_dominated([list(v) for v in vs])
            want = sorted(vs[i] for i in lay[0])
            rec.ok(sorted(tuple(v) for v in nd) == want, "filter-long",
                   lambda: "filter of %d vectors %r... gives %d, want %d" % (n, vs[:3], len(nd), len(want)))
            rec.outcome((item["family"], n, len(lay), len(want)))
    # vectors that differ at one place only, or at two, wherever these are
    base = list(range(d))
    for i in range(d):
        up = base[:i] + [base[i] + 0.5] + base[i + 1:]
        rec.count("evaluations")
        rec.ok(ea_utils.domination_cmp(base, up) == 1 and ea_utils.domination_cmp(up, base) == -1, "cmp-long",
               lambda: "difference at objective %d of %d is not seen" % (i, d))
        for j in range(d):
            if j != i:
                w = list(up)
                w[j] -= 0.5
                rec.ok(ea_utils.domination_cmp(base, w) == 0 and not ea_utils.dominates(w, base), "cmp-long",
                       lambda: "%r and %r are not comparable" % (base, w))


def run_case(item, rec):
    if "family" in item:
        return run_ladder(item, rec)
    vals = ALPHABETS[item["alphabet"]]
    d, n = item["dims"], item["len"]
    pts = [tuple(p) for p in itertools.product(vals, repeat=d)]
    first = pts[item["first"]]

    # the order itself: pairs and triples
    for y in pts:
        rec.count("evaluations")
        c = ea_utils.domination_cmp(first, y)
        want = 1 if ref_dom(first, y) else (-1 if ref_dom(y, first) else 0)
        rec.ok(c == want, "cmp", lambda: "domination_cmp(%r, %r) = %r, want %r" % (first, y, c, want))
        rec.ok(bool(ea_utils.dominates(first, y)) == (want == 1), "dominates",
               lambda: "dominates(%r, %r) wrong" % (first, y))
        rec.ok(ea_utils.domination_cmp(list(y), list(first)) == -want, "antisymmetry",
               lambda: "cmp(%r, %r) is not the negation" % (y, first))
    if len(pts) <= 27:
        for y in pts:
            if ea_utils.dominates(first, y):
                for z in pts:
                    rec.count("evaluations")
                    if ea_utils.dominates(y, z):
                        rec.ok(ea_utils.dominates(first, z), "transitivity",
                               lambda: "%r %r %r" % (first, y, z))

    for length in range(1, n + 1):
        for rest in itertools.product(pts, repeat=length - 1):
            vs = [first] + list(rest)
            rec.count("evaluations")
            lay = ref_layers(vs)
            # identity of the individuals, not only their values
            inds = [(i, v) for i, v in enumerate(vs)]
            got = [sorted(x[0] for x in layer)
                   for layer in itertools.islice(ea_utils.paretofront_layers(inds, lambda x: x[1]), len(vs) + 2)]
            rec.ok(got == lay, "layers", lambda: "layers of %r: %r, want %r" % (vs, got, lay))
            arg = [list(v) for v in vs]
            nd = metrics.filter_not_dominated(arg)
            want = sorted(tuple(vs[i]) for i in lay[0])
            rec.ok(sorted(tuple(v) for v in nd) == want, "filter",
                   lambda: "filter_not_dominated(%r) = %r, want %r" % (vs, nd, want))
            rec.ok(arg == [list(v) for v in vs], "input-mutated", "filter changed its input")
            nd2 = metrics.filter_not_dominated(tuple(v) for v in vs)   # any iterable
            rec.ok(sorted(nd2) == want, "filter-iter", lambda: "generator input: %r" % (nd2,))
            if length > 1:
                rec.outcome((tuple(map(tuple, lay)), len(want)))
            rec.sample({"vectors": repr(vs), "layers": lay})

"""C03 Quality indicators equal their definitions."""
import itertools
import math

from mc import env  # noqa: F401
from mc import ladder
from metrics import metrics

PROPERTY = "C03"
LEVEL = "exploration"
RULE = ("every multiset of up to 3-4 solution vectors x every set of up to 2-3 reference-front vectors on "
        "a grid (plus both list orders), and five families of results of up to 64 (thorough 128) vectors with fronts of up to "
        "1500 (4000); non-trivial = solution is not a single vector; distinct = distinct "
        "tuples of indicator values")
ASSUMPTIONS = ["solution and reference front are non-empty and of one dimension",
               "tolerance 1e-9 for values computed in floating point"]


def cases(tier):
    out = []
    for d, s, ns, nf in ([(2, 3, 3, 2), (3, 2, 3, 2), (1, 3, 3, 2)] if tier == "quick"
                         else [(2, 3, 4, 3), (3, 2, 4, 3), (1, 4, 4, 3), (2, 4, 3, 2), (4, 2, 2, 2)]):
        for f in range(s ** d):
            out.append({"d": d, "s": s, "ns": ns, "nf": nf, "first": f})
    for fam in sorted(ladder.FAMILIES):
        for d in ((2, 3) if tier == "quick" else (2, 3, 4, 5)):
            out.append({"family": fam, "dims": d, "max": 64 if tier == "quick" else 128,
                        "front": 1500 if tier == "quick" else 4000})
    return out


def bounds(tier):
    return sorted({(c["d"], c["s"], c["ns"], c["nf"]) for c in cases(tier) if "d" in c}) + sorted(
        {(c["family"], c["dims"], c["max"], c["front"]) for c in cases(tier) if "family" in c})


def dom(x, y):
    return all(a <= b for a, b in zip(x, y)) and any(a < b for a, b in zip(x, y))


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


def euc2(a, b):
    return sum((x - y) ** 2 for x, y in zip(a, b))


def rms(frm, to):
    return math.sqrt(sum(min(euc2(f, t) for t in to) for f in frm) / len(frm))


def spacing(nd):
    if len(nd) == 1:
        return 0.0
    ds = [min(sum(abs(a - b) for a, b in zip(p, q)) for j, q in enumerate(nd) if j != i)
          for i, p in enumerate(nd)]
    mean = sum(ds) / len(ds)
    return math.sqrt(sum((mean - x) ** 2 for x in ds) / (len(nd) - 1))


def check(sol, pareto, rec, joint=True):
    d = len(sol[0])
    nd = metrics.filter_not_dominated([list(x) for x in sol])
    want_nd = sorted(x for x in sol if not any(dom(y, x) for y in sol))
    rec.ok(sorted(tuple(x) for x in nd) == want_nd, "nd", "non-dominated part of %r is %r" % (sol, nd))
    s2 = [list(x) for x in sol]
    p2 = [list(x) for x in pareto]
    n2 = [list(x) for x in nd]
    gd = rms(want_nd, pareto)
    igd = rms(pareto, sol)
    eps = max(min(max(p[k] - s[k] for k in range(d)) for p in pareto) for s in want_nd)
    ext = math.sqrt(sum(max(x[k] for x in sol) - min(x[k] for x in sol) for k in range(d)))
    want = {
        "generational_distance": gd, "inverse_generational_distance": igd,
        "average_hausdorff_distance": max(gd, igd), "epsilon": eps, "extent": ext,
        "spacing": spacing(want_nd), "non_domination_ratio": len(want_nd) / len(sol),
    }
    got = {}
    for name in want:
        rec.count("evaluations")
        got[name] = getattr(metrics, name)(s2, n2, p2)
        rec.ok(near(got[name], want[name]), name, lambda: "%s(%r; front %r) = %r, want %r" % (
            name, sol, pareto, got[name], want[name]))
    rec.ok(s2 == [list(x) for x in sol] and p2 == [list(x) for x in pareto], "input-mutated",
           "an indicator changed its input")
    # dominance indicator: share of the joint non-dominated set found by this solution
    for other in (pareto, sol, list(sol) + list(pareto)) if joint else ():
        union = list(sol) + list(other)
        joint = {x for x in union if not any(dom(y, x) for y in union)}
        rec.count("evaluations")
        v = metrics.pareto_dominance_indicator(s2, n2, joint)
        w = len(joint & set(want_nd)) / len(joint)
        rec.ok(near(v, w) and 0 <= v <= 1, "pareto_dominance_indicator",
               lambda: "pdi(%r, joint %r) = %r, want %r" % (sol, joint, v, w))
    if len(sol) > 1:
        rec.outcome(tuple(sorted(got.items())))


def run_ladder(item, rec):
    """results and fronts of many sizes, as the real ones have"""
    d = item["dims"]
    for n in [n for n in range(1, item["max"] + 1) if n <= 6 or n % 13 == 0 or n == item["max"]]:
        for vs in ladder.orders(ladder.FAMILIES[item["family"]](n, d)):
            sol = [tuple(x / 8.0 - 1 for x in p) for p in vs]
            front = [tuple(x / 4.0 - 3 for x in p) for p in ladder.staircase(max(1, n // 2), d)]
            check(sol, front, rec)
    n = 20
    sol = [tuple(x / 8.0 for x in p) for p in ladder.FAMILIES[item["family"]](n, d)]
    big = ladder.staircase(item["front"], d)[::-1]
    front = [tuple(x * 4.0 / item["front"] for x in p) for p in big]
    check(sol, front, rec, joint=False)


def run_case(item, rec):
    if "family" in item:
        return run_ladder(item, rec)
    d, s = item["d"], item["s"]
    grid = list(itertools.product(range(s), repeat=d))
    first = grid[item["first"]]
    fronts = [f for n in range(1, item["nf"] + 1) for f in itertools.combinations(grid, n)
              if not any(dom(a, b) for a in f for b in f)]
    for n in range(1, item["ns"] + 1):
        for rest in itertools.combinations_with_replacement(grid[item["first"]:], n - 1):
            for k, pareto in enumerate(fronts):
                sol = (first,) + rest
                if k % 2:
                    sol = sol[::-1]
                check(sol, pareto, rec)
    rec.sample({"first": first, "fronts": len(fronts)})

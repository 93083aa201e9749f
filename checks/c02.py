"""C02 Hypervolume: every small point list against counting unit cells."""
import itertools

from mc import env  # noqa: F401
from mc import ladder
from algorithms.base.hv import HyperVolume
from metrics import metrics

PROPERTY = "C02"
LEVEL = "exploration"
RULE = ("every list of points (ordered for short lists, every multiset plus its reversal for longer "
        "ones, four orders of four points) on an integer grid, for several reference points inside and outside the grid, with "
        "affine re-scalings, and five families of lists of sizes up to 80 (2 objectives), 48 (3), 12 (4) in three orders, "
        "several references and scales; non-trivial = volume > 0; distinct = distinct (points, volume)")
ASSUMPTIONS = ["grid coordinates are exactly representable, so the expected volume is exact up to 1e-9 relative"]

# (dims, side, max length of ordered lists, max length of multisets, reference offsets)
QUICK = [(1, 4, 3, 0, (3, 4)), (2, 4, 3, 4, (2, 3, 4)), (3, 3, 2, 4, (2, 3)), (4, 2, 2, 4, (1, 2)),
         (4, 3, 1, 3, (2, 3)), (5, 2, 1, 4, (2,)), (6, 2, 1, 3, (2,))]
THOROUGH = [(1, 4, 4, 0, (3, 4)), (2, 4, 4, 6, (2, 3, 4)), (2, 6, 2, 4, (5, 6)), (3, 3, 3, 5, (2, 3)),
            (4, 2, 3, 6, (1, 2)), (4, 3, 2, 4, (2, 3)), (5, 2, 2, 5, (1, 2)), (6, 2, 1, 4, (2,)), (7, 2, 1, 3, (2,))]


def cases(tier):
    out = []
    for d, s, no, nm, refs in (QUICK if tier == "quick" else THOROUGH):
        for r in refs:
            for first in range(s ** d):
                out.append({"d": d, "s": s, "ordered": no, "multi": nm, "ref": r, "first": first})
    for fam in sorted(ladder.FAMILIES):
        for d, top in ((2, 80), (3, 48), (4, 12)) if tier == "quick" else ((2, 150), (3, 80), (4, 24), (5, 10)):
            out.append({"family": fam, "dims": d, "max": top})
    return out


def bounds(tier):
    return QUICK if tier == "quick" else THOROUGH


def cells(pt, ref):
    """bitmask of unit cells [i,i+1) dominated by pt inside the box below ref"""
    m = 0
    d = len(pt)
    if any(p >= ref for p in pt):
        return 0
    for idx in itertools.product(*[range(p, ref) for p in pt]):
        k = 0
        for x in idx:
            k = k * ref + x
        m |= 1 << k
    return m


def check_list(pts, masks, ref, d, rec, shared):
    rec.count("evaluations")
    m = 0
    for p in pts:
        m |= masks[p]
    want = bin(m).count("1")
    arg = [list(p) for p in pts]
    got = HyperVolume([ref] * d).compute(arg)
    rec.ok(abs(got - want) <= 1e-9 * max(1, want), "volume",
           lambda: "hypervolume of %r for reference %r is %r, want %r" % (pts, [ref] * d, got, want))
    rec.ok(arg == [list(p) for p in pts], "input-mutated", lambda: "compute changed its input %r" % (pts,))
    got2 = shared.compute([tuple(p) for p in pts])
    rec.ok(abs(got2 - want) <= 1e-9 * max(1, want), "reuse",
           lambda: "re-used instance: %r -> %r, want %r" % (pts, got2, want))
    if want:
        rec.outcome((tuple(pts), want))
    return want


def run_ladder(item, rec):
    """families of every size up to a bound, small and large coordinates, references inside and outside"""
    d = item["dims"]
    sizes = [n for n in range(1, item["max"] + 1) if n <= 12 or n % 9 == 0 or n == item["max"]]
    shared = {}
    for n in sizes:
        pts = ladder.FAMILIES[item["family"]](n, d)
        for ref in {n + 2, n, max(2, n // 2), max(pts)[0]}:
            want = ladder.volume(pts, [ref] * d)
            for vs in ladder.orders(pts):
                for scale, off in ((1, 0), (2.0 ** 24, -2.0 ** 25), (2.0 ** -20, 0.25)):
                    if scale != 1 and n > 30:
                        continue
                    rec.count("evaluations")
                    r = [ref * scale + off] * d
                    arg = [[x * scale + off for x in p] for p in vs]
                    hv = shared.setdefault(tuple(r), HyperVolume(r))
                    got = hv.compute(arg)
                    w = want * scale ** d
                    rec.ok(abs(got - w) <= 1e-7 * max(scale ** d, w), "volume-long",
                           lambda: "hypervolume of %d points %r... for %r is %r, want %r" % (n, arg[:3], r[0], got, w))
            rec.outcome((item["family"], n, ref, want))


def run_case(item, rec):
    if "family" in item:
        return run_ladder(item, rec)
    d, s, ref = item["d"], item["s"], item["ref"]
    grid = list(itertools.product(range(s), repeat=d))
    masks = {p: cells(p, ref) for p in grid}
    first = grid[item["first"]]
    shared = HyperVolume(tuple([ref] * d))
    for n in range(1, item["ordered"] + 1):
        for rest in itertools.product(grid, repeat=n - 1):
            check_list([first] + list(rest), masks, ref, d, rec, shared)
    tail = grid[item["first"]:]
    for n in range(item["ordered"] + 1, item["multi"] + 1):
        for rest in itertools.combinations_with_replacement(tail, n - 1):
            pts = [first] + list(rest)
            check_list(pts, masks, ref, d, rec, shared)
            check_list(pts[::-1], masks, ref, d, rec, shared)
            if n == 4:
                # ties are ordered by the order given: two orders that mix first and last
                check_list([pts[1], pts[3], pts[0], pts[2]], masks, ref, d, rec, shared)
                check_list([pts[0], pts[2], pts[1], pts[3]], masks, ref, d, rec, shared)
    # affine images: negative and fractional coordinates, a non-uniform reference point
    scale = [0.5 + i for i in range(d)]
    off = [-3.25 + 2 * i for i in range(d)]
    for p2 in grid:
        for p3 in grid[:: max(1, len(grid) // 6)]:
            pts = [first, p2, p3]
            m = 0
            for p in pts:
                m |= masks[p]
            want = bin(m).count("1")
            for x in scale:
                want *= x
            r = [ref * a + b for a, b in zip(scale, off)]
            arg = [[x * a + b for x, a, b in zip(p, scale, off)] for p in pts]
            got = HyperVolume(r).compute(arg)
            rec.count("evaluations")
            rec.ok(abs(got - want) <= 1e-9 * max(1, want), "affine",
                   lambda: "hypervolume of %r for %r is %r, want %r" % (arg, r, got, want))
    # the metric uses reference point 50 per objective
    if ref == s:
        for p2 in grid:
            pts = [first, p2]
            # shift so that the grid's reference coincides with 50
            arg = [[x + 50 - ref for x in p] for p in pts]
            m = masks[first] | masks[p2]
            got = metrics.hypervolume(arg, arg, [[0.0] * d])
            rec.count("evaluations")
            rec.ok(abs(got - bin(m).count("1")) <= 1e-9, "metric50",
                   lambda: "hypervolume metric of %r is %r" % (arg, got))
    rec.sample({"first": first, "ref": ref})

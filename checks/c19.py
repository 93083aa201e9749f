"""C19 Benchmark problems: objective functions, boxes and reference fronts."""
import importlib
import itertools
import math
import os

from mc import env

PROPERTY = "C19"
LEVEL = "exploration"
RULE = ("per problem: every value of the leading variables x base vectors (corners, centre, published optimal set) with up to two other variables set to grid values, against "
        "an independent implementation of the published formulas; every member of the reference front; distinct = distinct objective vectors, rounded")
ASSUMPTIONS = ["UF11 and UF12 are not covered (DESIGN.md)"]
PI = math.pi

# ---------------------------------------------------------------- published definitions


def zdt(g, h, f1=lambda x: x):
    def fs(x):
        y = g(x)
        return [f1(x[0]), y * h(f1(x[0]), y)]
    return fs


def g_lin(x):
    return 1 + 9.0 * math.fsum(x[1:]) / (len(x) - 1)


def g_ras(x):
    return 1 + 10 * (len(x) - 1) + math.fsum(v * v - 10 * math.cos(4 * PI * v) for v in x[1:])


def g_6(x):
    return 1 + 9 * (math.fsum(x[1:]) / (len(x) - 1)) ** 0.25


def f1_6(x):
    return 1 - math.exp(-4 * x) * math.sin(6 * PI * x) ** 6


def h_sqrt(f, g):
    return 1 - math.sqrt(f / g)


def h_sq(f, g):
    return 1 - (f / g) ** 2


def h_3(f, g):
    return 1 - math.sqrt(f / g) - f / g * math.sin(10 * PI * f)


def groups(x, j0, m, y):
    """the deviations y_j of group 1..m; with two groups the odd indices come first"""
    n = len(x)
    out = [[] for _ in range(m)]
    for j in range(j0, n + 1):
        out[(j + 1) % 2 if m == 2 else (j - 1) % 3].append((j, y(x, j, n)))
    return out


def y_sin(x, j, n):
    return x[j - 1] - math.sin(6 * PI * x[0] + j * PI / n)


def y_2(x, j, n):
    a = 0.3 * x[0] ** 2 * math.cos(24 * PI * x[0] + 4 * j * PI / n) + 0.6 * x[0]
    return x[j - 1] - a * (math.cos if j % 2 else math.sin)(6 * PI * x[0] + j * PI / n)


def y_3(x, j, n):
    return x[j - 1] - x[0] ** (0.5 * (1.0 + 3.0 * (j - 2) / (n - 2)))


def y_8(x, j, n):
    return x[j - 1] - 2 * x[1] * math.sin(2 * PI * x[0] + j * PI / n)


def square(ys):
    return 2.0 / len(ys) * math.fsum(y * y for _, y in ys)


def product(ys):
    p = 1.0
    for j, y in ys:
        p *= math.cos(20 * y * PI / math.sqrt(j))
    return 2.0 / len(ys) * (4 * math.fsum(y * y for _, y in ys) - 2 * p + 2)


def each(h):
    return lambda ys: 2.0 / len(ys) * math.fsum(h(y) for _, y in ys)


def uf(m, shape, y, h):
    def fs(x):
        return [a + h(g) for a, g in zip(shape(x), groups(x, m, m, y))]
    return fs


def sphere(x):
    a, b = 0.5 * PI * x[0], 0.5 * PI * x[1]
    return [math.cos(a) * math.cos(b), math.cos(a) * math.sin(b), math.sin(a)]


def plane(x):
    w = max(0.0, 1.1 * (1 - 4 * (2 * x[0] - 1) ** 2))
    return [0.5 * (w + 2 * x[0]) * x[1], 0.5 * (w - 2 * x[0] + 2) * x[1], 1 - x[1]]


def uf5(x):
    w = (1 / 20.0 + 0.1) * abs(math.sin(20 * PI * x[0]))
    return [x[0] + w, 1 - x[0] + w]


def uf6(x):
    w = max(0.0, 2 * (1 / 4.0 + 0.1) * math.sin(4 * PI * x[0]))
    return [x[0] + w, 1 - x[0] + w]


def root(x):
    return [x[0], 1 - math.sqrt(x[0])]


def rastrigin(t):
    return 4 * t * t - math.cos(8 * PI * t) + 1


def ewa(x, a, b):
    return math.sin(a * x[0]) * math.cos(b * x[1]) + 1


def ackley(x):
    v = (-20 * math.exp(-0.2 * math.sqrt(0.5 * (x[0] ** 2 + x[1] ** 2))) - math.exp(0.5 * (math.cos(2 * PI * x[0]) + math.cos(2 * PI * x[1]))) + 20 + math.e)
    return [v, v]


def kursawe(x):
    return [math.fsum(-10 * math.exp(-0.2 * math.sqrt(x[i] ** 2 + x[i + 1] ** 2)) for i in (0, 1)), math.fsum(abs(v) ** 0.8 + 5 * math.sin(v ** 3) for v in x)]


UNIT, SYM, TWO, FIVE = (0, 1), (-1, 1), (-2, 2), (-5, 5)


# ---------------------------------------------------------------- optimal solutions


def zeros(lead, n):
    return list(lead) + [0.0] * (n - len(lead))


def follow(y):
    """the vector whose deviations y_j are all zero"""
    def make(lead, n):
        x = list(lead) + [0.0] * (n - len(lead))
        for j in range(len(lead) + 1, n + 1):
            x[j - 1] = -y(x, j, n)
        return x
    return make


def lead_f1(p):
    return [p[0]]


def lead_6(p):
    lo, hi = 0.0, 0.08145                       # f1 falls from 1 to its minimum here
    for _ in range(100):
        mid = (lo + hi) / 2
        if f1_6(mid) > p[0]:
            lo = mid
        else:
            hi = mid
    return [hi]


def lead_sphere(p):
    a = math.asin(max(-1.0, min(1.0, p[2])))
    return [2 * a / PI, 2 * math.atan2(p[1], p[0]) / PI if max(p[0], p[1]) > 0 else 0.0]


def lead_plane(p):
    x2 = 1 - p[2]
    return [max(0.0, min(1.0, p[0] / x2)) if x2 > 1e-12 else 0.0, x2]


# the true front, sampled: lead variables of optimal solutions
def ticks(a, b, k):
    return [a + (b - a) * i / k for i in range(k + 1)]


def all_leads(name):
    if name == "UF5":
        return [[i / 20.0] for i in range(21)]
    if name == "UF6":
        return [[0.0]] + [[v] for a in (0.25, 0.75) for v in ticks(a, a + 0.25, 200)]
    if name == "UF9":
        return [[a, b] for a in ticks(0, 0.25, 12) + ticks(0.75, 1, 12) for b in ticks(0, 1, 24)]
    if name in ("UF8", "UF10"):
        return [[a, b] for a in ticks(0, 1, 24) for b in ticks(0, 1, 24)]
    if name == "ZDT6":
        return [[v] for v in ticks(0, 0.08145, 400)]
    if name == "UF7":
        return [[v ** 5] for v in ticks(0, 1, 400)]
    return [[v] for v in ticks(0, 1, 400)]


#     name: (formula, box, optimal set, lead from a front point, how far the samples of the front may be apart)
DEFS = {
    "ZDT1": (zdt(g_lin, h_sqrt), [UNIT] * 30, zeros, lead_f1, 0.06),
    "ZDT2": (zdt(g_lin, h_sq), [UNIT] * 30, zeros, lead_f1, 0.03),
    "ZDT3": (zdt(g_lin, h_3), [UNIT] * 30, zeros, lead_f1, 0.06),
    "ZDT4": (zdt(g_ras, h_sqrt), [UNIT] + [FIVE] * 9, zeros, lead_f1, 0.06),
    "ZDT6": (zdt(g_6, h_sq, f1_6), [UNIT] * 10, zeros, lead_6, 0.12),
    "UF1": (uf(2, root, y_sin, square), [UNIT] + [SYM] * 29, follow(y_sin), lead_f1, 0.06),
    "UF2": (uf(2, root, y_2, square), [UNIT] + [SYM] * 29, follow(y_2), lead_f1, 0.06),
    "UF3": (uf(2, root, y_3, product), [UNIT] * 30, follow(y_3), lead_f1, 0.06),
    "UF4": (uf(2, lambda x: [x[0], 1 - x[0] ** 2], y_sin, each(lambda t: abs(t) / (1 + math.exp(2 * abs(t))))), [UNIT] + [TWO] * 29, follow(y_sin), lead_f1, 0.03),
    "UF5": (uf(2, uf5, y_sin, each(lambda t: 2 * t * t - math.cos(4 * PI * t) + 1)), [UNIT] + [SYM] * 29, follow(y_sin), lead_f1, 1e-9),
    "UF6": (uf(2, uf6, y_sin, product), [UNIT] + [SYM] * 29, follow(y_sin), lead_f1, 0.02),
    "UF7": (uf(2, lambda x: [x[0] ** 0.2, 1 - x[0] ** 0.2], y_sin, square), [UNIT] + [SYM] * 29, follow(y_sin), lambda p: [p[0] ** 5], 0.02),
    "UF8": (uf(3, sphere, y_8, square), [UNIT] * 2 + [TWO] * 28, follow(y_8), lead_sphere, 0.3),
    "UF9": (uf(3, plane, y_8, square), [UNIT] * 2 + [TWO] * 28, follow(y_8), lead_plane, 0.2),
    "UF10": (uf(3, sphere, y_8, each(rastrigin)), [UNIT] * 2 + [TWO] * 28, follow(y_8), lead_sphere, 0.3),
    "kursawe": (kursawe, [FIVE] * 3, None, None, None),
    "ackley": (ackley, [(-1.5, 1.5)] * 2, None, None, None),
    "EWA1": (lambda x: [ewa(x, 50, 50), (x[0] - 0.5) ** 2 * (x[1] - 0.5) ** 2], [UNIT] * 2, None, None, None),
    "EWA2": (lambda x: [ewa(x, 50, 30), ewa(x, 30, 50)], [UNIT] * 2, None, None, None),
}
SMALL = ("kursawe", "ackley", "EWA1", "EWA2")


def cases(tier):
    q = tier == "quick"
    out = []
    for name in DEFS:
        out.append({"part": "front", "name": name, "grid": 60 if q else 120})
        if name in SMALL:
            out.append({"part": "grid", "name": name, "steps": (20 if name == "kursawe" else 100) if q else (60 if name == "kursawe" else 400)})
        else:
            for k in range(4):
                out.append({"part": "values", "name": name, "base": k, "leads": 5 if q else 17, "singles": 33 if q else 65, "pairs": True})
    return out


def bounds(tier):
    q = tier == "quick"
    return {"leading variables": "%d values for pairs, %d for single changes" % ((5, 33) if q else (17, 65)), "base vectors": 4, "changed variables": "all pairs x 3 x 3 values",
            "small problems": "grids of up to %d points a side" % (100 if q else 400)}


def load(name):
    here = os.getcwd()
    os.chdir(env.REPO)                  # kursawe reads its front relative to the repository
    try:
        return importlib.import_module("problems.%s.problem" % name)
    finally:
        os.chdir(here)


def close(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def compare(rec, name, mod, formula, x):
    keep = list(x)
    got = [f(x) for f in mod.fitnesses]
    want = formula(x)
    rec.count("evaluations")
    rec.ok(x == keep, "input:" + name, lambda: "%s changes the vector it evaluates" % name)
    rec.ok(len(got) == len(want) and all(close(g, w) for g, w in zip(got, want)), "formula:" + name, lambda: "%s of %r is %r, published %r" % (name, x, got, want))
    if rec.counts["evaluations"] % 97 == 0:
        again = [f(tuple(x)) for f in mod.fitnesses]
        rec.ok(again == got, "repeatable:" + name, lambda: "%s of %r is %r, then %r" % (name, x, got, again))
        rec.outcome((name,) + tuple(round(g, 6) for g in got))
    return got


def at(box, t):
    return [lo + (hi - lo) * t for lo, hi in box]


def leads_of(m, k):
    if m == 2:
        return [[i / float(k - 1)] for i in range(k)]
    k = max(3, int(math.sqrt(k)) + 1)
    return [[i / (k - 1.0), j / (k - 1.0)] for i in range(k) for j in range(k)]


def values_part(item, rec):
    name = item["name"]
    formula, box, optimum, _, _ = DEFS[name]
    mod = load(name)
    if not rec.ok([tuple(d) for d in mod.dims] == [tuple(d) for d in box], "box:" + name, lambda: "%s has the box %r" % (name, mod.dims)):
        return
    n, m = len(box), len(mod.fitnesses)

    def base(lead):
        if item["base"] == 3:
            return optimum(lead, n)
        x = at(box, (0.0, 1.0, 0.5)[item["base"]])
        x[:len(lead)] = lead
        return x

    for lead in leads_of(m, item["singles"]):
        x = base(lead)
        compare(rec, name, mod, formula, x)
        for i in range(len(lead), n):
            lo, hi = box[i]
            for t in (0.0, 0.1, 0.25, 0.5, 0.7, 1.0):
                y = list(x)
                y[i] = lo + (hi - lo) * t
                compare(rec, name, mod, formula, y)
        if rec.violations:
            return
    for lead in leads_of(m, item["leads"]):
        x = base(lead)
        for i, j in itertools.combinations(range(len(lead), n), 2):
            for a, b in itertools.product((0.0, 0.37, 1.0), repeat=2):
                y = list(x)
                y[i] = box[i][0] + (box[i][1] - box[i][0]) * a
                y[j] = box[j][0] + (box[j][1] - box[j][0]) * b
                compare(rec, name, mod, formula, y)
        if rec.violations:
            return
    rec.sample(item)


def grid_part(item, rec):
    name, k = item["name"], item["steps"]
    formula, box = DEFS[name][:2]
    mod = load(name)
    if not rec.ok([tuple(d) for d in mod.dims] == [tuple(d) for d in box], "box:" + name, lambda: "%s has the box %r" % (name, mod.dims)):
        return
    for x in itertools.product(*[ticks(lo, hi, k) for lo, hi in box]):
        compare(rec, name, mod, formula, list(x))
        if rec.violations:
            return


# ---------------------------------------------------------------- reference fronts


def dominated(a, b, by=1e-7):
    """b is better than a in every objective, or equal, and really better in one"""
    return all(v <= u + 1e-12 for u, v in zip(a, b)) and any(v < u - by for u, v in zip(a, b))


def front_part(item, rec):
    name = item["name"]
    formula, box, optimum, lead_of, spread = DEFS[name]
    mod = load(name)
    front = [list(map(float, p)) for p in mod.pareto_front]
    rec.ok(mod.name == name, "name:" + name, lambda: "problem %s calls itself %s" % (name, mod.name))
    rec.ok(front and all(len(p) == len(mod.fitnesses) and all(math.isfinite(c) for c in p) for p in front), "front-shape:" + name, lambda: "reference front of %s is malformed" % name)
    for a in front:
        rec.count("evaluations")
        b = next((b for b in front if dominated(a, b)), None)
        rec.ok(b is None, "front-dominated:" + name, lambda: "%s: reference point %r is dominated by %r" % (name, a, b))
        rec.outcome((name,) + tuple(a))
    if optimum is None:
        return small_front(item, rec, mod, front)
    n = len(box)
    for p in front:
        x = optimum(lead_of(p), n)
        inside = all(lo - 1e-9 <= c <= hi + 1e-9 for c, (lo, hi) in zip(x, box))
        got = [f(x) for f in mod.fitnesses] if inside else None
        rec.ok(inside and all(close(g, c) for g, c in zip(got, p)), "front-attained:" + name,
               lambda: "%s: reference point %r is not a value of the problem (nearest optimal solution gives %r)" % (name, p, got))
        rec.count("reference_points")
    true = [formula(optimum(lead, n)) for lead in all_leads(name)]
    true = [p for p in true if not any(dominated(p, q) for q in true)]
    for p in true:
        near = min(max(abs(a - b) for a, b in zip(p, q)) for q in front)
        rec.ok(near <= spread, "front-covered:" + name, lambda: "%s: nothing in the reference front is near its true member %r (%.3f)" % (name, p, near))
        for q in front:
            rec.ok(not dominated([c - 1e-3 for c in q] if name == "ZDT3" else q, p, 1e-6), "front-optimal:" + name, lambda: "%s: reference point %r is dominated by the value %r" % (name, q, p))
        rec.count("true_points")


def small_front(item, rec, mod, front):
    name = item["name"]
    formula, box = DEFS[name][:2]
    if name == "kursawe":
        # a grid refined where the optimal set lies
        k = item["grid"]
        side = [-1.6 + 1.8 * i / k for i in range(k + 1)] + [-5.0, -4.0, -3.0, -2.0, 0.0, 0.5, 1.0, 2.0, 3.0, 4.0, 5.0]
        values = set()
        for x in itertools.product(side, repeat=3):
            a, b = formula(x)
            values.add((a, b))
        rec.count("grid_values", len(values))
        # sorted by the first objective, best second objective so far
        best, low = [], float("inf")
        for a, b in sorted(values):
            if b < low:
                low = b
                best.append((a, b))
        firsts = [a for a, _ in best]
        import bisect
        for p in front:
            i = bisect.bisect_right(firsts, p[0] + 1e-9) - 1
            rec.ok(i < 0 or best[i][1] >= p[1] - 0.02, "front-optimal:" + name, lambda: "kursawe: reference point %r is dominated by the value %r" % (p, best[i]))
            near = min(max(abs(a - p[0]), abs(b - p[1])) for a, b in best)
            rec.ok(near <= 0.5, "front-attained:" + name, lambda: "kursawe: no value near reference point %r (%.3f)" % (p, near))
        for a, b in best:
            near = min(max(abs(a - p[0]), abs(b - p[1])) for p in front)
            rec.ok(near <= 0.8, "front-covered:" + name, lambda: "kursawe: nothing in the reference front near the value %r (%.3f)" % ((a, b), near))
    else:
        for x in itertools.product(*[ticks(lo, hi, 200) for lo, hi in box]):
            v = formula(x)
            rec.count("grid_values")
            for p in front:
                rec.ok(not dominated(p, v, 1e-9), "front-optimal:" + name, lambda: "%s: reference point %r is dominated by the value %r of %r" % (name, p, v, x))
            if rec.violations:
                return
        if name == "ackley":
            rec.ok(all(close(f([0.0, 0.0]), c) for f, c in zip(mod.fitnesses, front[0])), "front-attained:" + name, lambda: "ackley: the reference point is not attained")


def run_case(item, rec):
    {"values": values_part, "grid": grid_part, "front": front_part}[item["part"]](item, rec)

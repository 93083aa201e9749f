"""C24 Survivors are chosen by each algorithm's own measure."""
import itertools
import math
from collections import Counter

from mc import algos, env, sessions as S

PROPERTY = "C24"
LEVEL = "exploration"
RULE = ("an execution is one run of a closed algorithm instance with every random draw decided by the explorer (all executions with at most `bound` deviations from the base stream), or one of all small starting "
        "populations over a grid; at every selection the survivors are compared with the set of results the published rule allows for these candidates; distinct = distinct survivor sets; "
        "judged = selections in which something was discarded and the rule decided")
ASSUMPTIONS = ["values which differ by less than the rounding error of the measure count as tied; ties may be resolved either way", "crowding is judged for two objectives without equal values in a front"]

CAP = 64            # tied results followed at a time


def cases(tier):
    q = tier == "quick"
    out = []
    probs = [("conv/unit2", "rand", 4), ("front/unit2", "rand", 6), ("three/unit4", "rand", 6), ("front/unit2", "corner", 5), ("zdt/mixed3", "rand", 7), ("front/sym2", "rand", 8), ("conv/unit2", "rand", 7)]
    for a in ALGORITHMS:
        for i, (p, variant, n) in enumerate(probs):
            for base in ("lcg1", "lcg3", "lcg2"):
                if q and ("lcg1", "lcg3", "lcg2").index(base) != i % 3:
                    continue
                out.append({"spec": S.single_spec(a, p, n=n, variant=variant, base=base, bound=1, steps=4, alts=[0.0, env.TOP], over=over(a, n), budget=(80 if a == "NSGAIII" else 400) if q else 20000)})
        out.append({"spec": S.single_spec(a, "front/unit2", n=8, bound=0, steps=25, base="lcg2", over=over(a, 8))})
        out.append({"spec": S.single_spec(a, "three/unit4", n=10, bound=0, steps=15, base="lcg1", over=over(a, 10))})
        side = 4 if q else 5
        cells = list(itertools.product(range(side), repeat=2))
        for first in range(len(cells)):
            out.append({"grid": a, "side": side, "first": first, "n": 3})
        if not q:
            out += [{"grid": a, "side": 3, "first": first, "n": 4} for first in range(9)]
    return out


def over(a, n):
    return {"SMSEMOA": {"epoch_length_multiplier": 1.0 / n + 1e-9}, "NSGAIII": {"crossover_rate": 1.0, "mutation_rate": 1.0}, "OMOPSO": {"mutation_probability": 0.0}}.get(a, {})


def bounds(tier):
    cs = cases(tier)
    return {"instances": sum("spec" in c for c in cs), "starting populations": "all multisets of 3 of a %dx%d grid" % ((4, 4) if tier == "quick" else (5, 5)),
            "max deviations": 1, "steps": "3-25"}


# ---------------------------------------------------------------- the rules


def dom(a, b):
    return all(x <= y for x, y in zip(a, b)) and a != b


def fronts(items, f):
    """layers of non-dominated items"""
    rest, out = list(items), []
    while rest:
        layer = [x for x in rest if not any(dom(f[y], f[x]) for y in rest)]
        out.append(layer)
        rest = [x for x in rest if any(dom(f[y], f[x]) for y in rest)]
    return out


def smallest(pairs, tol):
    """the items whose value may be the smallest"""
    low = min(v for _, v in pairs)
    return [x for x, v in pairs if v <= low + tol]


class Undecided(Exception):
    """the rule leaves too many possibilities (ties)"""


def removals(items, size, choose):
    """all results of removing one of choose(rest) until `size` are left; items are indices"""
    states = {frozenset(items)}
    while len(next(iter(states))) > size:
        after = set()
        for s in states:
            for x in choose(sorted(s)):
                after.add(s - {x})
        if len(after) > CAP:
            raise Undecided()
        states = after
    return states


def euclid(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


def nsga2(f, n):
    """f: objectives by index; -> sets of kept indices"""
    kept = []
    for layer in fronts(range(len(f)), f):
        if len(kept) + len(layer) <= n:
            kept += layer
            continue
        want = n - len(kept)
        if want == 0:
            break
        if len(f[0]) != 2 or any(len({f[x][k] for x in layer}) < len(layer) for k in (0, 1)):
            if math.factorial(len(layer)) // math.factorial(want) // math.factorial(len(layer) - want) > CAP:
                raise Undecided()
            return {frozenset(kept + list(c)) for c in itertools.combinations(layer, want)}
        dist = {x: 0.0 for x in layer}
        for k in (0, 1):
            order = sorted(layer, key=lambda x: f[x][k])
            span = f[order[-1]][k] - f[order[0]][k]
            dist[order[0]] = dist[order[-1]] = math.inf
            for a, b, c in zip(order, order[1:], order[2:]):
                dist[b] += (f[c][k] - f[a][k]) / span
        order = sorted(layer, key=lambda x: -dist[x])
        edge = dist[order[want - 1]]
        sure = [x for x in layer if dist[x] > edge + 1e-9]
        maybe = [x for x in layer if edge - 1e-9 <= dist[x] <= edge + 1e-9 or dist[x] == edge]
        sets = list(itertools.islice(itertools.combinations(maybe, want - len(sure)), CAP + 1))
        if len(sets) > CAP:
            raise Undecided()
        return {frozenset(kept + sure + list(c)) for c in sets}
    return {frozenset(kept)}


def spea2(f, n):
    N = len(f)
    strength = [sum(dom(a, b) for b in f) for a in f]
    raw = [sum(strength[j] for j in range(N) if dom(f[j], f[i])) for i in range(N)]
    first = [i for i in range(N) if raw[i] == 0]
    if len(first) <= n:
        k = int(math.sqrt(N))
        fit = [raw[i] + 1.0 / (sorted(euclid(f[i], y) for y in f)[k] + 2.0) for i in range(N)]
        rest = sorted((i for i in range(N) if raw[i]), key=lambda i: fit[i])
        want = n - len(first)
        if want >= len(rest):
            return {frozenset(range(N))}
        if want <= 0:
            return {frozenset(first)}
        edge = fit[rest[want - 1]]
        sure = [i for i in rest if fit[i] < edge - 1e-9]
        maybe = [i for i in rest if abs(fit[i] - edge) <= 1e-9]
        sets = list(itertools.islice(itertools.combinations(maybe, want - len(sure)), CAP + 1))
        if len(sets) > CAP:
            raise Undecided()
        return {frozenset(first + sure + list(c)) for c in sets}

    def closest(rest):
        near = {x: sorted(euclid(f[x], f[y]) for y in rest if y != x) for x in rest}
        left = list(rest)
        for level in range(len(rest) - 1):
            low = min(near[x][level] for x in left)
            left = [x for x in left if near[x][level] <= low + 1e-12]
        return left
    return removals(first, n, closest)


def ibea(f, n, kappa=0.05):
    N, m = len(f), len(f[0])
    lo = [min(x[k] for x in f) for k in range(m)]
    hi = [max(x[k] for x in f) for k in range(m)]
    s = [[(x[k] - lo[k]) / (hi[k] - lo[k]) if hi[k] > lo[k] else 0.0 for k in range(m)] for x in f]
    I = [[max(a - b for a, b in zip(s[i], s[j])) for j in range(N)] for i in range(N)]
    c = max(abs(v) for row in I for v in row)
    if c == 0.0:
        raise Undecided()
    loss = [[math.exp(-I[i][j] / (c * kappa)) for j in range(N)] for i in range(N)]     # of j, caused by i
    tol = 1e-13 * N * max(v for i, row in enumerate(loss) for j, v in enumerate(row) if i != j)

    def worst(rest):
        return smallest([(x, -math.fsum(loss[y][x] for y in rest if y != x)) for x in rest], max(tol, 1e-9))
    return removals(range(N), n, worst)


def smsemoa(f, n, ref):
    last = fronts(range(len(f)), f)[-1]
    total = ref_hv([f[x] for x in last], ref)
    contribution = [(x, total - ref_hv([f[y] for y in last if y != x], ref)) for x in last]
    return {frozenset(range(len(f))) - {x} for x in smallest(contribution, 1e-9 * max(1.0, total))}


def ref_hv(points, ref):
    pts = sorted({p for p in points if all(a < r for a, r in zip(p, ref))})
    if not pts:
        return 0.0
    if len(ref) == 1:
        return ref[0] - pts[0][0]
    total, xs = 0.0, sorted({p[-1] for p in pts})
    for i, z in enumerate(xs):
        top = xs[i + 1] if i + 1 < len(xs) else ref[-1]
        total += (top - z) * ref_hv([p[:-1] for p in pts if p[-1] <= z], ref[:-1])
    return total


def theta(f, n, ideal, vectors, weight=5):
    """reference vectors: each keeps the order of its own cluster; a layer takes the next of every cluster"""
    m = len(f[0])
    top = [max(x[k] for x in f) for k in range(m)]
    span = [top[k] - ideal[k] for k in range(m)]
    if min(span) <= 0:
        raise Undecided()
    g = [[(x[k] - ideal[k]) / span[k] for k in range(m)] for x in f]
    value, cluster = [], []
    for x in g:
        best = None
        gaps = []
        for j, v in enumerate(vectors):
            l2 = sum(c * c for c in v)
            t = sum(a * b for a, b in zip(x, v)) / l2
            off = math.sqrt(sum((a - t * b) ** 2 for a, b in zip(x, v)))
            gaps.append(off)
            if best is None or off < best[0]:
                best = off, j, t * math.sqrt(l2)
        if sum(abs(o - best[0]) < 1e-9 for o in gaps) > 1:
            raise Undecided()
        cluster.append(best[1])
        value.append(best[2] + weight * best[0])
    if any(abs(value[i] - value[j]) < 1e-9 for i in range(len(f)) for j in range(i) if cluster[i] == cluster[j]):
        # equals do not hold each other back
        if any(0 < abs(value[i] - value[j]) < 1e-9 for i in range(len(f)) for j in range(i) if cluster[i] == cluster[j]):
            raise Undecided()
    rank = [len({value[j] for j in range(len(f)) if cluster[j] == cluster[i] and value[j] < value[i]}) for i in range(len(f))]
    kept = []
    for r in range(max(rank) + 1):
        layer = [i for i in range(len(f)) if rank[i] == r]
        if len(kept) + len(layer) <= n:
            kept += layer
            continue
        want = n - len(kept)
        return kept, layer, want
    return kept, [], 0


# ---------------------------------------------------------------- running the algorithms


def key(x):
    return tuple(float(c) for c in x)


def judge(rec, name, what, cands, kept, f, allowed):
    """cands: list of vectors; allowed: sets of indices of cands"""
    if len(kept) == len(cands):
        return
    rec.count("judged")
    got = Counter(f[x] for x in kept)
    rec.ok(any(Counter(f[cands[i]] for i in s) == got for s in allowed), "survivors:" + name, lambda: "%s: of the objectives %r it keeps %r, its rule leaves %r" % (
        what(), sorted(f[x] for x in cands), sorted(got.elements()), sorted(f[cands[i]] for i in next(iter(allowed)))))


def walk(rec, s, n, steps, what):
    """one run of a session; every selection judged"""
    d, name = s.driver, s.spec["alg"]
    f = {}

    def learn(vectors):
        for x in vectors:
            if x not in f:
                f[x] = key(s.objectives(x))
        return list(vectors)

    for step in range(1, steps + 1):
        seen = len(s.log.calls)
        before = [key(x) for x in d.population]
        archive = [key(x) for x in d.finalized_population()] if name == "SPEA2" and step > 1 else []
        d.next_step()
        new = [key(x) for x in s.log.calls[seen:]]
        now = lambda: "%s, step %d" % (what(), step)
        rec.count("transitions")
        if name in ("NSGAII", "IBEA", "JGBL"):
            cands = learn([key(x) for x in d.population])
        elif name == "SPEA2":
            cands = learn(archive + before)
        else:
            cands = learn(before + new)
        kept = learn([key(x) for x in d.finalized_population()])
        values = [f[x] for x in cands]
        try:
            if name == "NSGAIII":
                vectors = getattr(d, "reference_points", None)
                if vectors is None:
                    rec.count("skipped")
                    continue
                ever = [key(s.objectives(x)) for x in s.log.calls]
                sure, layer, want = theta(values, n, [min(v[k] for v in ever) for k in range(len(values[0]))], [[float(c) for c in v] for v in vectors])
                got, need, may = Counter(f[x] for x in kept), Counter(f[cands[i]] for i in sure), Counter(f[cands[i]] for i in layer)
                extra = got - need
                rec.count("judged")
                rec.ok(not need - got and not extra - may and sum(extra.values()) == want, "survivors:" + name, lambda: "%s: of the objectives %r it keeps %r, its rule keeps %r and %d of %r" % (
                    now(), sorted(values), sorted(got.elements()), sorted(need.elements()), want, sorted(may.elements())))
                continue
            if name == "SMSEMOA":
                if len(cands) != n + 1:
                    rec.count("skipped")
                    continue
                allowed = smsemoa(values, n, s.prob.ref)
            else:
                allowed = {"NSGAII": nsga2, "JGBL": nsga2, "IBEA": ibea, "SPEA2": spea2}[name](values, n)
        except Undecided:
            rec.count("undecided")
            continue
        judge(rec, name, now, cands, kept, f, allowed)
    return sorted(key(x) for x in d.finalized_population())


def swarm(rec, s, n, steps, u, what):
    """every draw is u: the positions follow from the velocities; the leader of each particle is any non-dominated one"""
    d = s.driver
    dims = s.prob.dims
    lo, hi = [float(a) for a, _ in dims], [float(b) for _, b in dims]
    pos = [key(x) for x in d.population]
    ever = [key(x) for x in s.log.calls]
    f = lambda x: key(s.objectives(x))
    speeds = [[tuple(0.0 for _ in dims)] for _ in pos]       # possible velocities
    best = list(pos)
    W, C, r = 0.1 + 0.4 * u, 1.5 + 0.5 * u, u
    for step in range(1, steps + 1):
        leaders = sorted({x for x in ever if not any(dom(f(y), f(x)) for y in ever)})
        d.next_step()
        now = [key(x) for x in d.population]
        rec.count("transitions")
        for i in range(len(pos)):
            after = []
            shown = []
            for v in speeds[i]:
                for g in leaders:
                    w = [W * v[j] + C * r * (best[i][j] - pos[i][j]) + C * r * (g[j] - pos[i][j]) for j in range(len(lo))]
                    q = [pos[i][j] + w[j] for j in range(len(lo))]
                    p = [min(hi[j], max(lo[j], q[j])) for j in range(len(lo))]
                    shown.append(p)
                    if all(abs(a - b) <= 1e-9 * max(1.0, abs(a)) for a, b in zip(p, now[i])):
                        after.append(tuple(-w[j] if p[j] != q[j] else w[j] for j in range(len(lo))))
            rec.count("judged")
            if not rec.ok(bool(after), "velocity", lambda: "%s, step %d: particle %d goes from %r to %r; by its own best %r and the leaders %r it goes to one of %r" % (
                    what(), step, i, pos[i], now[i], best[i], leaders, shown[:4])):
                return
            speeds[i] = list({tuple(round(c, 12) for c in a): a for a in after}.values())[:CAP]
            if dom(f(now[i]), f(best[i])):
                best[i] = now[i]
        ever += now
        pos = now


ALGORITHMS = ("NSGAII", "SPEA2", "IBEA", "SMSEMOA", "NSGAIII", "OMOPSO", "JGBL")


def run_case(item, rec):
    if "grid" in item:
        return grid_case(item, rec)
    spec = item["spec"]
    if spec["alg"] == "OMOPSO":
        return swarm_case(spec, rec)
    what = lambda: "%s on %s, %d individuals, stream %s" % (spec["alg"], spec["prob"], spec["n"], spec["base"])

    def body(ch):
        return walk(rec, S.Session(spec), spec["n"], spec["steps"], what)
    S.explore(spec, body, rec)


def swarm_case(spec, rec, pop=None):
    from mc.core import Chooser, under
    for u in (0.6, 0.25, 0.9, 0.0, 0.05):
        s = None
        with under(Fixed(u)):
            s = S.Session(spec) if pop is None else start(spec, pop)
            swarm(rec, s, len(s.pop), min(spec["steps"], 6), u, lambda: "OMOPSO on %s, %r, every draw %r" % (spec["prob"], s.pop, u))
        rec.count("evaluations")
        rec.outcome(repr([key(x) for x in s.driver.population]))
        if rec.violations:
            return


class Fixed:
    """every uniform draw is u"""

    points = ()
    diverged = False

    def __init__(self, u):
        self.u, self.n = u, 0

    def unit(self):
        return self.u

    def below(self, n):
        # indices differ, so that samples without replacement end
        self.n += 1
        return self.n % n


def start(spec, pop):
    """a session from a given starting population"""
    keep = algos.population
    algos.population = lambda prob, n, variant: [list(x) for x in pop]
    try:
        return S.Session(spec)
    finally:
        algos.population = keep


def grid_case(item, rec):
    """all starting populations with cells of a grid (in order, beginning with the given one)"""
    from mc.core import Chooser, tick, under
    side, name = item["side"], item["grid"]
    cells = list(itertools.product(range(side), repeat=2))
    for others in itertools.combinations_with_replacement(range(item["first"], len(cells)), item["n"] - 1):
        pop = [[cells[c][k] / (side - 1.0) for k in (0, 1)] for c in (item["first"],) + others]
        spec = S.single_spec(name, "same/unit2", n=item["n"], steps=3, over=dict(over(name, item["n"]), **({} if name == "OMOPSO" else {"mutation_eta": 1.0})))
        what = lambda: "%s from %r (objectives = coordinates)" % (name, pop)
        tick()
        if name == "OMOPSO":
            if sum(others) % 4 == 0:
                swarm_case(spec, rec, pop)
        else:
            with under(Chooser(base="lcg2")):
                rec.outcome(repr(walk(rec, start(spec, pop), item["n"], 3, what)))
            rec.count("evaluations")
        if rec.violations:
            return

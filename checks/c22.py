"""C22 Random choices have the probabilities they are meant to have.

The uniform draws of the code take every value of a grid of equal (or weighted) cells, the draws of an
index every index; all combinations are executed, and the exact distribution of the outcomes is compared with the
distribution the published operator has under the same draws."""
import collections
import importlib
import itertools

from mc import actors, algos, env, sched, sessions  # noqa: F401
from mc.core import DFS, under
from algorithms.base import drivertools
from algorithms.base.driver import Driver
from algorithms.base.model import PopulationMessageAdapter
from evotools import ea_utils, random_tools
from statistic import stats_bootstrap

PROPERTY = "C22"
LEVEL = "model_checking"
RULE = ("every assignment of the draws of an operator, a selection or a sampling over a grid of cells of the uniform distribution and all indices is executed; the distribution of results "
        "(sum of the weights of the executions) equals the reference; distinct = distinct distributions; states = executions; transitions = draws")
ASSUMPTIONS = ["random.random, randrange and what is built of them are uniform", "the grids resolve the probabilities used (all thresholds lie between two points of the grid)"]

BOXES = {"unit": (0.0, 1.0), "sym": (-2.0, 2.0), "off": (3.0, 4.5), "wide": (-1000.0, 500.0)}
PLACES = (0.0, 0.1, 0.5, 0.9, 1.0)


def even(n):
    return [((k + 0.5) / n, 1.0 / n) for k in range(n)]


COIN = [(0.425, 0.85), (0.875, 0.05), (0.925, 0.05), (0.975, 0.05)]     # resolves 0.9 (and 0.85, 0.95)
NONE = [(0.5, 1.0)]                                                      # no uniform draw matters


class Draws:
    """a chooser whose alternatives have weights"""

    def __init__(self, pick, nodes):
        self.pick, self.nodes, self.weight, self.n = pick, nodes, 1.0, 0

    def _more(self):
        self.n += 1
        if self.n > 4000:
            raise RuntimeError("an operation draws more than 4000 times")

    def unit(self):
        self._more()
        x, w = self.nodes[self.pick(len(self.nodes)) if len(self.nodes) > 1 else 0]
        self.weight *= w
        return x

    def below(self, n):
        self._more()
        if n <= 1:
            return 0
        self.weight /= n
        return self.pick(n)


def rnd(x):
    return tuple(rnd(v) for v in x) if isinstance(x, (list, tuple)) else float("%.9g" % x) + 0.0 if isinstance(x, float) else x


def distribution(run, nodes, rec):
    out = {}

    def one(pick):
        d = Draws(pick, nodes)
        with under(d):
            return run(), d
    for _, (res, d) in DFS().explore(one):
        k = rnd(res)
        out[k] = out.get(k, 0.0) + d.weight
        rec.count("states")
        rec.count("transitions", d.n)
    return out


def same(got, want, key, what, rec):
    rec.count("evaluations")
    rec.count("traces")
    want = {k: w for k, w in want.items() if w > 0}
    left = dict(got)
    bad = None
    for k, w in want.items():
        # results that are equal but for rounding
        near = [g for g in left if close(g, k)]
        p = sum(left.pop(g) for g in near)
        if abs(p - w) > 1e-7:
            bad = bad or (k, p, w)
    for k, p in left.items():
        if p > 1e-9:
            bad = bad or (k, p, 0.0)
    rec.ok(bad is None, key, lambda: "%s: result %r has probability %.6g, want %.6g" % (what, bad[0], bad[1], bad[2]))
    rec.outcome(tuple(sorted((round(w, 6) for w in want.values()))))
    if len(want) > 1:
        rec.count("non_trivial")


def close(a, b):
    if isinstance(a, tuple):
        return isinstance(b, tuple) and len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))
    return a == b


def join(*dists):
    """independent parts: distribution of the tuples"""
    out = {(): 1.0}
    for d in dists:
        out = {k + (x,): p * q for k, p in out.items() for x, q in d.items()}
    return out


def mix(*parts):
    out = {}
    for w, d in parts:
        for k, p in d.items():
            out[k] = out.get(k, 0.0) + w * p
    return out


def below(nodes, p):
    return sum(w for x, w in nodes if x < p)


# ---------------------------------------------------------------- the operators, by their publications


def mutated(y, box, eta, nodes):
    """bounded polynomial mutation (Deb)"""
    lo, hi = box
    out = {}
    for u, w in nodes:
        if u < 0.5:
            d = (2 * u + (1 - 2 * u) * (1 - (y - lo) / (hi - lo)) ** (eta + 1)) ** (1 / (eta + 1)) - 1
        else:
            d = 1 - (2 * (1 - u) + 2 * (u - 0.5) * (1 - (hi - y) / (hi - lo)) ** (eta + 1)) ** (1 / (eta + 1))
        v = rnd(min(hi, max(lo, y + d * (hi - lo))))
        out[v] = out.get(v, 0.0) + w
    return out


def mutation(vec, dims, rate, eta, nodes):
    p = below(nodes, rate)
    return join(*[mix((1 - p, {rnd(y): 1.0}), (p, mutated(y, b, eta, nodes))) for y, b in zip(vec, dims)])


def sbx_gene(x, y, box, eta, nodes):
    """values of the (low, high) children of one gene"""
    lo, hi = box
    a, b = min(x, y), max(x, y)
    out = {}
    for u, w in nodes:
        def spread(room):
            alpha = 2 - (1 + 2 * room / (b - a)) ** -(eta + 1)
            return (u * alpha) ** (1 / (eta + 1)) if u <= 1 / alpha else (1 / (2 - u * alpha)) ** (1 / (eta + 1))
        pair = (rnd(min(hi, max(lo, 0.5 * (a + b - spread(a - lo) * (b - a))))), rnd(min(hi, max(lo, 0.5 * (a + b + spread(hi - b) * (b - a))))))
        out[pair] = out.get(pair, 0.0) + w
    return out


def sbx_pair(x, y, dims, rate, eta, nodes):
    """distribution of the two children (first, second), before one is taken"""
    p, half = below(nodes, rate), below(nodes, 0.5)
    genes = []
    for a, b, box in zip(x, y, dims):
        if abs(a - b) <= 1e-15:
            genes.append({(rnd(a), rnd(b)): 1.0})
            continue
        pairs = sbx_gene(a, b, box, eta, nodes)
        swapped = {(h, l): w for (l, h), w in pairs.items()}
        genes.append(mix((1 - half, {(rnd(a), rnd(b)): 1.0}), (half, mix((half, pairs), (1 - half, swapped)))))
    crossed = {(tuple(g[0] for g in k), tuple(g[1] for g in k)): w for k, w in join(*genes).items()}
    return mix((1 - p, {(rnd(x), rnd(y)): 1.0}), (p, crossed))


def crossed(x, y, dims, rate, eta, nodes):
    out = {}
    for (a, b), w in sbx_pair(x, y, dims, rate, eta, nodes).items():
        for c in (a, b):
            out[c] = out.get(c, 0.0) + w / 2
    return out


# ---------------------------------------------------------------- cases


def cases(tier):
    q = tier == "quick"
    out = []
    n = 8 if q else 16
    for box in BOXES:
        for eta in (0.0, 1.0, 10.0, 20.0, 25.5):
            out.append({"kind": "mutate", "box": box, "eta": eta, "n": 2 * n})
        for eta in (1.0, 15.0, 30.0) if q else (0.0, 1.0, 2.5, 15.0, 20.0, 30.0):
            for i in range(len(PLACES)):
                out.append({"kind": "cross", "box": box, "eta": eta, "n": 4 if q else 8, "first": i})
    for dims in (("unit", "wide"), ("sym", "off", "unit")):
        for rate in (0.25, 0.75):
            out.append({"kind": "mutate-all", "dims": list(dims), "rate": rate, "n": 4})
            out.append({"kind": "cross-all", "dims": list(dims)[:2], "rate": rate, "n": 4})
    out.append({"kind": "weighted", "n": 60})
    out += [{"kind": "init", "box": b, "n": n} for b in BOXES]
    out.append({"kind": "bootstrap"})
    for algo in ("NSGAII", "IBEA", "SPEA2", "SMSEMOA", "NSGAIII"):
        for size in (2, 3):
            out.append({"kind": "parents", "algo": algo, "size": size})
        out.append({"kind": "variation", "algo": algo, "what": "mutation"})
        out.append({"kind": "variation", "algo": algo, "what": "crossover"})
    for layers in ((1, 1), (2, 1), (1, 2), (3,), (1, 1, 1)):
        out.append({"kind": "migrant", "layers": list(layers)})
    for t in ("classic", "distributed"):
        out.append({"kind": "root", "type": t})
    for progress in (None, 0.25, 0.5, 0.75, 0.96, 1.0):
        out.append({"kind": "turbulence", "progress": progress})
    for t in ("classic", "tools"):
        out.append({"kind": "delegate", "type": t})
    return out


def bounds(tier):
    return {"grid": "uniform draws: 2-60 equal cells, or weighted cells around 0.9", "vectors": "1-3 genes at %r of the box" % (PLACES,), "boxes": BOXES,
            "populations": "2-3 individuals in a chain of dominance", "layers": "1-3"}


def at(box, f):
    lo, hi = BOXES[box]
    return lo + f * (hi - lo)


def keep(args, f):
    """f must not change its arguments"""
    before = rnd(args)
    res = f()
    if rnd(args) != before:
        return "the arguments were changed"
    return res


def mutate_part(item, rec):
    box, nodes = item["box"], even(item["n"])
    for f in PLACES:
        for rate in (0.0, 0.25, 0.5, 1.0):
            y = [at(box, f)]
            dims = [BOXES[box]]
            same(distribution(lambda: keep(y, lambda: tuple(drivertools.mutate(y, dims, rate, item["eta"]))), nodes, rec), mutation(y, dims, rate, item["eta"], nodes),
                 "mutation", "mutation of %r in %r, rate %r, eta %r" % (y, dims, rate, item["eta"]), rec)


def cross_part(item, rec):
    box, nodes = item["box"], even(item["n"])
    for g in PLACES:
        for rate in (0.25, 1.0):
            x, y, dims = [at(box, PLACES[item["first"]])], [at(box, g)], [BOXES[box]]
            same(distribution(lambda: keep([x, y], lambda: tuple(drivertools.crossover(x, y, dims, rate, item["eta"]))), nodes, rec), crossed(x, y, dims, rate, item["eta"], nodes),
                 "crossover", "crossover of %r and %r in %r, rate %r, eta %r" % (x, y, dims, rate, item["eta"]), rec)


def all_part(item, rec):
    dims = [BOXES[b] for b in item["dims"]]
    nodes = even(item["n"])
    x = [at(b, f) for b, f in zip(item["dims"], (0.3, 0.8, 0.55))]
    y = [at(b, f) for b, f in zip(item["dims"], (0.6, 0.1, 0.7))]
    if item["kind"] == "mutate-all":
        same(distribution(lambda: keep(x, lambda: tuple(drivertools.mutate(x, dims, item["rate"], 12.0))), nodes, rec), mutation(x, dims, item["rate"], 12.0, nodes),
             "mutation", "mutation of %r in %r, rate %r" % (x, dims, item["rate"]), rec)
    else:
        same(distribution(lambda: keep([x, y], lambda: tuple(drivertools.crossover(x, y, dims, item["rate"], 12.0))), nodes, rec), crossed(x, y, dims, item["rate"], 12.0, nodes),
             "crossover", "crossover of %r and %r in %r, rate %r" % (x, y, dims, item["rate"]), rec)


def weighted_part(item, rec):
    nodes = even(item["n"])
    for n in (1, 2, 3, 4):
        for ws in itertools.product((0, 1, 2, 3, 4), repeat=n):
            total = sum(ws)
            if not total or item["n"] % total:
                continue
            for scale in (1, 0.5, 7.0):
                choices = [(i, w * scale) for i, w in enumerate(ws)]
                same(distribution(lambda: random_tools.weighted_choice(iter(choices)), nodes, rec), {i: w / total for i, w in enumerate(ws)},
                     "weighted", "weighted choice among %r" % (choices,), rec)


def init_part(item, rec):
    nodes = even(item["n"])
    box = BOXES[item["box"]]
    one = {rnd(box[0] + u * (box[1] - box[0])): w for u, w in nodes}
    same(distribution(lambda: ea_utils.gen_population(1, [box]), nodes, rec), join(join(one)), "initial", "one individual in %r" % (box,), rec)
    few = even(4)
    ones = [{rnd(b[0] + u * (b[1] - b[0])): w for u, w in few} for b in (box, (-1.0, 3.0))]
    same(distribution(lambda: ea_utils.gen_population(2, [box, (-1.0, 3.0)]), few, rec), join(join(*ones), join(*ones)), "initial", "two individuals in %r x (-1, 3)" % (box,), rec)


def bootstrap_part(item, rec):
    for n in (1, 2, 3):
        for k in (1, 2, 3):
            xs = [float(i * i) for i in range(n)]
            got = distribution(lambda: tuple(sorted(stats_bootstrap.sample_wr(xs, k))), NONE, rec)
            want = {}
            for c in itertools.product(xs, repeat=k):
                c = tuple(sorted(c))
                want[c] = want.get(c, 0.0) + n ** -k
            same(got, want, "resampling", "%d elements of %r with replacement" % (k, xs), rec)


# ---------------------------------------------------------------- the algorithms


CHAIN = [lambda x: x[0], lambda x: 2 * x[0]]       # a smaller first gene dominates


def chain_problem():
    return algos.Problem("chain", [(0.0, 1.0)], CHAIN, (10.0, 10.0))


def offspring(algo, pop, seen, **kw):
    """the vectors evaluated first after the initial population, i.e. the children of the first step"""
    prob = chain_problem()

    def f(x):
        seen.append(float(x[0]))
        return x[0]
    over = dict(mutation_eta=12.0, crossover_eta=9.0)
    if algo in ("NSGAII", "IBEA"):
        over["mating_population_size"] = 1.0 / len(pop) + 1e-9
    if algo == "SMSEMOA":
        over["epoch_length_multiplier"] = 1.0 / len(pop) + 1e-9
    over.update(kw)
    return algos.make(algo, prob, [list(v) for v in pop], [f, CHAIN[1]], **over)


def children(algo, d, pop, seen):
    """what the first step has bred"""
    n = len(seen)
    d.step()
    if algo == "SPEA2":
        return tuple(v[0] for v in d.population)
    if algo == "SMSEMOA":
        return tuple(seen[n:])
    return tuple((collections.Counter(v[0] for v in d.population) - collections.Counter(v[0] for v in pop)).elements())


def winners(algo, size):
    """probability that the individual of the given rank is chosen as a parent (chain of dominance)"""
    out = dict.fromkeys(range(size), 0.0)
    if algo in ("NSGAII", "IBEA"):
        for a in range(size):
            for b in range(size):
                out[min(a, b)] += 0.9 / size ** 2
                out[max(a, b)] += 0.1 / size ** 2
    elif algo == "SPEA2":
        for a, b in itertools.permutations(range(size), 2):
            out[min(a, b)] += 1 / (size * (size - 1))
    else:
        out = dict.fromkeys(range(size), 1 / size)
    return out


def parents_part(item, rec):
    """with both rates 0 children are copies of their parents"""
    algo, size = item["algo"], item["size"]
    pop = [[0.1 + 0.25 * k] for k in range(size)]
    one = {rnd(pop[k][0]): p for k, p in winners(algo, size).items()}
    what = "%s, parents out of a chain of %d" % (algo, size)

    if algo == "NSGAIII":
        # children that are copies are not evaluated again: two children of one mating
        prob = algos.Problem("chain", [(0.0, 1.0)], CHAIN, (10.0, 10.0))

        def run():
            d = algos.make(algo, prob, [list(v) for v in pop], prob.fs, mutation_rate=0.0, crossover_rate=0.0)
            d.cost = 0
            return tuple(i.v[0] for i in d.make_offspring_individuals())
        if not hasattr(algos.algo_class(algo), "make_offspring_individuals"):
            rec.count("skipped")
            return
        same(distribution(run, NONE, rec), join(one, one), "parents", what, rec)
        return

    def run():
        seen = []
        d = offspring(algo, pop, seen, mutation_rate=0.0, crossover_rate=0.0)
        return tuple(sorted(children(algo, d, pop, seen)))
    nodes = COIN if algo in ("NSGAII", "IBEA") else NONE
    kids = size if algo == "SPEA2" else 1
    got = distribution(run, nodes, rec)
    want = {}
    for k, p in join(*[one] * kids).items():
        k = tuple(sorted(k))
        want[k] = want.get(k, 0.0) + p
    same(got, want, "parents", what, rec)


def variation_part(item, rec):
    """rates and indices reach the operators: one gene, one child"""
    algo, mut = item["algo"], item["what"] == "mutation"
    kw = dict(mutation_rate=0.25 if mut else 0.0, crossover_rate=0.0 if mut else 0.25)
    # one parent only when mutation is observed: all individuals are equal
    dims = [(0.0, 1.0)]
    if mut:
        n, pop = 4, [[0.35]] * (1 if algo in ("NSGAII", "IBEA") else 2)
    else:
        n, pop = (2 if algo in ("NSGAII", "IBEA", "SPEA2") else 4), [[0.2], [0.7]]
        if n == 2:
            kw["crossover_rate"] = 0.5
    nodes = even(n)
    what = "%s with %r" % (algo, kw)
    if algo == "NSGAIII":
        if not hasattr(algos.algo_class(algo), "make_offspring_individuals"):
            rec.count("skipped")
            return
        prob = algos.Problem("chain", dims, CHAIN, (10.0, 10.0))

        def run():
            d = algos.make(algo, prob, [list(v) for v in pop], prob.fs, mutation_eta=12.0, crossover_eta=9.0, **kw)
            return tuple(i.v[0] for i in d.make_offspring_individuals())
        if mut:
            one = {k[0]: p for k, p in mutation(pop[0], dims, kw["mutation_rate"], 12.0, nodes).items()}
            want = join(one, one)
        else:
            want = {}
            for a, b in itertools.product(pop, repeat=2):
                for (x, y), p in sbx_pair(a, b, dims, kw["crossover_rate"], 9.0, nodes).items():
                    k = (x[0], y[0])
                    want[k] = want.get(k, 0.0) + p / 4
        same(distribution(run, nodes, rec), want, "variation", what, rec)
        return

    def run():
        seen = []
        d = offspring(algo, pop, seen, **kw)
        return tuple(sorted(children(algo, d, pop, seen)))
    if mut:
        one = {k[0]: p for k, p in mutation(pop[0], dims, kw["mutation_rate"], 12.0, nodes).items()}
    else:
        size = len(pop)
        p = winners(algo, size)
        if algo in ("NSGAII", "IBEA"):
            # the grid gives the coin of 0.9 the side of the better individual
            c = below(nodes, 0.9)
            p = {0: 1 / 4 + 1 / 2 * c, 1: 1 / 4 + 1 / 2 * (1 - c)}
        one = {}
        pairs = {(a, b): 0.5 for a, b in itertools.permutations(range(2), 2)} if algo == "SMSEMOA" else {(a, b): p[a] * p[b] for a in p for b in p}
        for (a, b), w in pairs.items():
            for k, q in crossed(pop[a], pop[b], dims, kw["crossover_rate"], 9.0, nodes).items():
                one[k[0]] = one.get(k[0], 0.0) + w * q
    kids = len(pop) if algo == "SPEA2" else 1
    want = {}
    for k, p in join(*[one] * kids).items():
        k = tuple(sorted(k))
        want[k] = want.get(k, 0.0) + p
    same(distribution(run, nodes, rec), want, "variation", what, rec)


# ---------------------------------------------------------------- several populations


class Ind:
    def __init__(self, v):
        self.v = v


class Still(Driver):
    """keeps what it is given"""

    def __init__(self, made, population, **kw):
        super().__init__(message_adapter_factory=kw["message_adapter_factory"])
        self.individuals = [Ind(list(x)) for x in population]
        made.append(self)

    @property
    def population(self):
        return [x.v for x in self.individuals]

    def step(self):
        pass

    def finalized_population(self):
        return self.population


def migrant_part(item, rec):
    """an emigrant's layer is drawn with weight 1/(number of the layer), then uniformly within it"""
    from algorithms.IMGA.message import DefaultIMGAMessageAdapter
    layers = item["layers"]
    fits, pop = {}, []
    for isl in range(2):
        for k, n in enumerate(layers):
            for i in range(n):
                v = (float(isl), float(100 * isl + 10 * k + i))
                fits[v] = (k + 0.1 * i, k - 0.1 * i)
                pop.append(list(v))
    total = sum(1 / (k + 1) for k in range(len(layers)))
    # a grid that resolves the shares of the layers
    n = {1: 1, 2: 3, 3: 11}[len(layers)]
    size = sum(layers)

    def run():
        made = []
        d = algos.algo_class("IMGA")(
            population=[list(x) for x in pop], dims=[(0.0, 1000.0), (0.0, 1000.0)], fitnesses=[lambda x: fits[tuple(x)][0], lambda x: fits[tuple(x)][1]], islands_number=2,
            migrants_number=1, epoch_length=1, driver=lambda **k: Still(made, **k), mutation_eta=1.0, crossover_eta=1.0, mutation_rate=0.5, crossover_rate=0.5,
            driver_message_adapter_factory=DefaultIMGAMessageAdapter)
        start = [{x.v[1] for x in isl.individuals} for isl in made]
        sched.CTRL.reset()
        d.step()
        return tuple(tuple(sorted({x.v[1] for x in isl.individuals} - s)) for isl, s in zip(made, start)), tuple(tuple(sorted(s)) for s in start)
    got = {}
    for (moved, start), p in distribution(run, even(n), rec).items():
        if start != tuple(tuple(sorted(x[1] for x in pop[a:a + size])) for a in (0, size)):
            rec.count("skipped")        # dealt otherwise: the layers of an island are not those wanted
            continue
        got[moved] = got.get(moved, 0.0) + p
    mass = sum(got.values())
    if not mass:
        return
    one = [{(float(100 * isl + 10 * k + i),): 1 / (k + 1) / total / n_ for k, n_ in enumerate(layers) for i in range(n_)} for isl in (1, 0)]
    same({k: p / mass for k, p in got.items()}, join(*one), "migrants", "layers of %r individuals" % layers, rec)


class Adapter(PopulationMessageAdapter):
    def get_population(self):
        return self.driver.population

    def nominate_delegates(self):
        return self.driver.population[:1]


def root_part(item, rec):
    """the root starts from a uniformly drawn part of the initial population"""
    pop = [[0.1 * k, 0.5] for k in range(4)]
    prob = algos.Problem("chain", [(0.0, 1.0), (0.0, 1.0)], CHAIN, (10.0, 10.0))

    def run():
        made = []
        kw = algos.hgs_kwargs(prob, population_sizes=(2, 2, 2))
        build = lambda: algos.algo_class("HGS")(population=pop, dims=prob.dims, fitnesses=prob.fs, driver=lambda **k: Still(made, **k), hgs_type=item["type"],     # noqa: E731
                                                driver_message_adapter_factory=Adapter, **kw)
        if item["type"] == "classic":
            build()
        else:
            with actors.running(actors.System(actors.fifo)):
                build()
        return tuple(sorted(x[0] for x in made[0].population))
    want = {tuple(sorted((rnd(a[0]), rnd(b[0])))): 1 / 6 for a, b in itertools.combinations(pop, 2)}
    same(distribution(run, NONE, rec), want, "root", "root of the %s hierarchy" % item["type"], rec)


def delegate_part(item, rec):
    mod = importlib.import_module("algorithms.HGS.classic.ClassicHGS" if item["type"] == "classic" else "algorithms.HGS.tools")
    make = getattr(mod, "population_from_delegate", None)
    if make is None:
        rec.count("skipped")
        return
    nodes = even(4)
    for box in BOXES:
        dims = [BOXES[box]]
        for f in (0.2, 0.9):
            y = [at(box, f)]
            one = mutation(y, dims, 0.25, 14.0, nodes)
            for size in (1, 2, 3):
                want = {}
                for k, p in join(*[one] * (size - 1)).items():
                    want[(rnd(tuple(y)),) + k] = want.get((rnd(tuple(y)),) + k, 0.0) + p
                same(distribution(lambda: keep(y, lambda: tuple(tuple(x) for x in make(y, size, dims, 0.25, 14.0))), nodes, rec), want,
                     "sprout", "population of %d from %r in %r" % (size, y, dims), rec)


def turbulence_part(item, rec):
    """OMOPSO: a third of the swarm is mutated uniformly, a third non-uniformly once progress is known"""
    nodes, lo, hi = even(4), 0.0, 1.0
    prog = item["progress"]
    prob = chain_problem()
    for y in (0.0, 0.4, 1.0):
        for rate, b in ((0.25, 0.5), (0.75, 2.0), (0.0, 0.5)):
            def run():
                d = algos.make("OMOPSO", prob, [[y], [y], [y]], prob.fs, mutation_probability=rate, mutation_perturbation=b)
                d.mopso_mutation(prog)
                return tuple(v[0] for v in d.population)
            if not hasattr(algos.algo_class("OMOPSO"), "mopso_mutation"):
                rec.count("skipped")
                return
            p = below(nodes, rate)
            still = {rnd(y): 1.0}
            uni = mix(*[(w, {rnd(min(hi, max(lo, y + (u - 0.5) * b))): 1.0}) for u, w in nodes])
            non = still
            if prog is not None:
                move = [(w / 2, y + (end - y) * (1 - u ** ((1 - prog) ** b))) for u, w in nodes for end in (hi, lo)]
                non = mix((1 - p, still), (p, mix(*[(w, {rnd(v): 1.0}) for w, v in move])))
            same(distribution(run, nodes, rec), join(mix((1 - p, still), (p, uni)), non, still), "turbulence", "OMOPSO's mutation of three at %r, probability %r, perturbation %r, progress %r" % (y, rate, b, prog), rec)


PARTS = {"turbulence": turbulence_part, "mutate": mutate_part, "cross": cross_part, "mutate-all": all_part, "cross-all": all_part, "weighted": weighted_part, "init": init_part, "bootstrap": bootstrap_part,
         "parents": parents_part, "variation": variation_part, "migrant": migrant_part, "root": root_part, "delegate": delegate_part}


def run_case(item, rec):
    PARTS[item["kind"]](item, rec)
    rec.sample(item)

"""C15 The island model: isolated epochs, migration along the topology that loses and copies nobody."""
import collections

from mc import algos, env, sched
from mc import sessions as S
from mc.core import Chooser, DFS, deviations, tick, under
from algorithms.IMGA.topology import Topology, TorusTopology
from algorithms.base.driver import Driver
from algorithms.IMGA.message import DefaultIMGAMessageAdapter

PROPERTY = "C15"
LEVEL = "exploration"
RULE = ("every torus width x number of islands; the real island model over scripted islands for every topology, island size, epoch length and "
        "migrant number listed, exploring the choices of migrants and the order of the islands' work; the same with every real algorithm; "
        "non-trivial = at least one migrant moved; distinct = distinct final distributions")
ASSUMPTIONS = ["an island holds more individuals than it sends away in one migration", "every topology sends as many migrants to an island as the island sends away (as the repository's topologies do)"]


class Fixed(Topology):
    def __init__(self, links):
        self.links = links

    def create(self, size):
        return [list(x) for x in self.links]


TOPOLOGIES = {
    "torus2": lambda n: TorusTopology(2), "torus3": lambda n: TorusTopology(3), "torus4": lambda n: TorusTopology(4),
    "ring": lambda n: Fixed([[(i + 1) % n] for i in range(n)]),
    "back": lambda n: Fixed([[(i - 1) % n, (i + 1) % n] if n > 2 else [(i + 1) % n] for i in range(n)]),
    "full": lambda n: Fixed([[j for j in range(n) if j != i] for i in range(n)]),
    "none": lambda n: Fixed([[] for i in range(n)]),
}


def cases(tier):
    q = tier == "quick"
    out = [{"part": "topology", "width": w, "sizes": 40 if q else 120} for w in range(2, 9 if q else 13)]
    for topo in sorted(TOPOLOGIES):
        for n in (2, 3, 4, 5, 6, 8, 9) if q else range(2, 13):
            if topo == "full" and n > 5:
                continue
            for migrants, epoch, extra in ((1, 1, 0), (2, 3, 1), (1, 2, n - 1)) + (() if q else ((3, 1, 2),)):
                out.append({"part": "scripted", "topo": topo, "islands": n, "migrants": migrants, "epoch": epoch, "extra": extra,
                            "rounds": 2, "bound": 1, "budget": 120 if q else 3000})
    # the migrant numbers and island sizes of the configuration, more rounds
    for topo, n, migrants, epoch in (("torus4", 12, 5, 2), ("ring", 16, 7, 1), ("full", 4, 12, 1), ("torus2", 8, 5, 5)):
        out.append({"part": "scripted", "topo": topo, "islands": n, "migrants": migrants, "epoch": epoch, "extra": 3,
                    "rounds": 12, "bound": 0, "budget": 5})
    for n, topo in ((2, "torus2"), (3, "ring"), (4, "torus2")):
        for fail in (None, 0, n - 1):
            out.append({"part": "order", "topo": topo, "islands": n, "epoch": 2, "fail": fail, "preempt": 2 if q else 3, "budget": 400 if q else 6000})
    for inner in algos.INNER:
        for variant in ("rand", "dup", "same"):
            for n, migrants in ((2, 1), (4, 1)) + (() if q else ((3, 2), (5, 2))):
                out.append({"part": "real", "inner": inner, "variant": variant, "islands": n, "migrants": migrants,
                            "epoch": 1 + (variant == "rand"), "base": "lcg1", "bound": 1, "budget": 25 if q else 800})
    return out


def bounds(tier):
    return {"torus widths": "2-8 (thorough 2-12)", "islands": "1-40 for the topology, 2-9 (12) in runs", "epoch lengths": [1, 2, 3], "migrants": [1, 2, 3],
            "deviations": 1, "preemptions": "2 (3)", "algorithms": algos.INNER}


# ---------------------------------------------------------------- topology


def topology_part(item, rec):
    w = item["width"]
    for size in range(1, item["sizes"] + 1):
        links = [set(x) for x in TorusTopology(w).create(size)]
        rec.count("evaluations")
        what = "torus of width %d with %d islands" % (w, size)
        rec.ok(len(links) == size, "islands", lambda: "%s: %d rows of links" % (what, len(links)))
        for i, ns in enumerate(links):
            rec.ok(all(isinstance(j, int) and 0 <= j < size for j in ns), "range", lambda: "%s: island %d is linked to %r" % (what, i, sorted(ns)))
            rec.ok(i not in ns, "self", lambda: "%s: island %d is linked to itself" % (what, i))
            rec.ok(len(ns) <= 4, "degree", lambda: "%s: island %d has %d neighbours" % (what, i, len(ns)))
            for j in ns:
                rec.ok(0 <= j < size and i in links[j], "one-way", lambda: "%s: %d sends to %d, not back" % (what, i, j))
        seen, todo = {0}, [0]
        while todo:
            for j in links[todo.pop()]:
                if j not in seen and 0 <= j < size:
                    seen.add(j)
                    todo.append(j)
        rec.ok(len(seen) == size, "connected", lambda: "%s: only %r can be reached from island 0" % (what, sorted(seen)))
        if size % w == 0:
            h = size // w
            for i in range(size):
                r, c = divmod(i, w)
                want = {r * w + (c - 1) % w, r * w + (c + 1) % w, (r - 1) % h * w + c, (r + 1) % h * w + c} - {i}
                rec.ok(links[i] == want, "torus", lambda: "%s: island %d is linked to %r, want %r" % (what, i, sorted(links[i]), sorted(want)))
        again = TorusTopology(w)
        again.create(size + 3)
        rec.ok([set(x) for x in again.create(size)] == links, "reuse", lambda: "%s: a second creation differs" % what)
        rec.outcome((w, size, tuple(tuple(sorted(x)) for x in links)))


# ---------------------------------------------------------------- scripted islands


class Ind:
    def __init__(self, v):
        self.v = v


class Island(Driver):
    """every step moves each individual by one in its second coordinate; the first is its identity"""

    def __init__(self, world, population, **kw):
        kw = {"message_adapter_factory": kw["message_adapter_factory"]} if "message_adapter_factory" in kw else {}
        super().__init__(**kw)
        self.world, self.number = world, len(world.islands)
        self.given = population
        self.start = [x[0] for x in population]
        self.individuals = [Ind(list(x)) for x in population]
        self.cost = 10 * self.number
        self.log = []
        world.islands.append(self)

    @property
    def population(self):
        return [x.v for x in self.individuals]

    def ids(self):
        return sorted(x.v[0] for x in self.individuals)

    def step(self):
        sched.CTRL.point()
        before = self.ids()
        for x in self.individuals:
            x.v = [x.v[0], x.v[1] + 1.0]
        self.cost += len(self.individuals) + self.number
        self.log.append((before, self.ids()))
        self.world.trace.append(self.number)
        if self.world.fail == (self.number, len(self.log)):
            raise RuntimeError("island fails")
        sched.CTRL.point()

    def finalized_population(self):
        return self.population


class World:
    def __init__(self, fail=None):
        self.islands, self.trace, self.fail = [], [], fail


def build(world, pop, n, migrants, epoch, topo):
    return algos.algo_class("IMGA")(
        population=pop, dims=[(0.0, 1000.0), (0.0, 1000.0)], fitnesses=[lambda x: x[0] % 3, lambda x: x[1] % 2], islands_number=n,
        migrants_number=migrants, epoch_length=epoch, driver=lambda **k: Island(world, **k), mutation_eta=1.0, crossover_eta=1.0,
        mutation_rate=0.5, crossover_rate=0.5, topology=TOPOLOGIES[topo](n), driver_message_adapter_factory=DefaultIMGAMessageAdapter)


def initial(n, migrants, extra):
    size = n * (4 * migrants + 2) + extra
    return [[float(k), 0.0] for k in range(size)]


def check_start(rec, world, pop, n, what):
    rec.ok(len(world.islands) == n, "islands", lambda: "%s: %d islands made" % (what, len(world.islands)))
    got = sorted(i for isl in world.islands for i in isl.start)
    rec.ok(got == [x[0] for x in pop], "distributed", lambda: "%s: the islands start with %d of %d individuals" % (what, len(got), len(pop)))
    sizes = [len(isl.start) for isl in world.islands]
    rec.ok(max(sizes) - min(sizes) <= 1, "balanced", lambda: "%s: island sizes %r" % (what, sizes))


def check_round(rec, world, before, links, migrants, epoch, rnd, what):
    """before[i]: identities on island i when the round began"""
    for isl in world.islands:
        i = isl.number
        rec.ok(len(isl.log) == epoch * (rnd + 1), "epoch", lambda: "%s: island %d made %d steps in %d epochs of %d" % (what, i, len(isl.log), rnd + 1, epoch))
        for b, a in isl.log[epoch * rnd:]:
            rec.ok(b == before[i] and a == before[i], "interference", lambda: "%s: island %d changed its members during an epoch: %r -> %r, %r" % (what, i, before[i], b, a))
    after = [isl.ids() for isl in world.islands]
    home = {}
    for i, ids in enumerate(before):
        for x in ids:
            home[x] = i
    flow = collections.Counter()
    for i, ids in enumerate(after):
        for x in ids:
            if x in home and home[x] != i:
                flow[(home[x], i)] += 1
    total = sorted(x for ids in after for x in ids)
    rec.ok(total == sorted(home), "conservation", lambda: "%s: before migration %d individuals, after %d (%d different)" % (what, len(home), len(total), len(set(total))))
    want = {(i, j): migrants for i in range(len(links)) for j in links[i]}
    rec.ok(dict(flow) == want, "flow", lambda: "%s: migrants per link %r, want %d on each of %r" % (what, dict(flow), migrants, sorted(want)))
    for isl in world.islands:
        for x in isl.individuals:
            rec.ok(x.v[1] == float(epoch * (rnd + 1)), "altered", lambda: "%s: individual %r was altered by migration" % (what, x.v))
    return after


def scripted_part(item, rec):
    n, migrants, epoch, topo = item["islands"], item["migrants"], item["epoch"], item["topo"]
    links = [set(x) for x in TOPOLOGIES[topo](n).create(n)]
    what = "%d islands, %s, %d migrants, epochs of %d" % (n, topo, migrants, epoch)

    def body(ch):
        world, pop = World(), initial(n, migrants, item["extra"])
        model = build(world, pop, n, migrants, epoch, topo)
        check_start(rec, world, pop, n, what)
        for rnd in range(item["rounds"]):
            before = [isl.ids() for isl in world.islands]
            # emigrants leave and arrive at the end of the epoch; chosen among those present then
            model.next_step()
            check_round(rec, world, before, links, migrants, epoch, rnd, what)
            expect = sum(isl.cost for isl in world.islands)
            rec.ok(model.cost == expect, "cost", lambda: "%s: reports cost %r, its islands %r" % (what, model.cost, expect))
            fin = model.finalized_population()
            rec.ok(sorted(x[0] for x in fin) == [x[0] for x in pop], "result", lambda: "%s: the result holds %d of %d individuals" % (what, len(fin), len(pop)))
        rec.ok(pop == initial(n, migrants, item["extra"]), "input", lambda: "%s: the initial population was changed" % what)
        if topo != "none":
            rec.count("non_trivial")
        rec.outcome(tuple(tuple(isl.ids()) for isl in world.islands))

    gen, stats = deviations(body, item["bound"], "lcg1", item["budget"], int_cap=4)
    for _ in gen:
        rec.count("executions")
    rec.count("choice_points", stats["points"])
    if stats["capped"]:
        rec.cap("%s: first %d executions" % (what, item["budget"]))


# ---------------------------------------------------------------- order of work, failure of an island


def order_part(item, rec):
    n, epoch, topo = item["islands"], item["epoch"], item["topo"]
    links = [set(x) for x in TOPOLOGIES[topo](n).create(n)]
    dfs = DFS(item["budget"])

    def execute(pick):
        with under(Chooser()):
            fail = None if item["fail"] is None else (item["fail"], epoch)
            world, pop = World(fail), initial(n, 1, 0)
            model = build(world, pop, n, 1, epoch, topo)
            before = [isl.ids() for isl in world.islands]
            with sched.CTRL.explore(pick, item["preempt"]):
                try:
                    model.next_step()
                    failed = None
                except RuntimeError as e:
                    failed = e
            what = "%d islands, %s, work in the order %r" % (n, topo, world.trace)
            if item["fail"] is None:
                rec.ok(failed is None, "spurious", lambda: "%s: %r" % (what, failed))
                check_round(rec, world, before, links, 1, epoch, 0, what)
                rec.ok(model.cost == sum(isl.cost for isl in world.islands), "cost", lambda: "%s: cost" % what)
            else:
                rec.ok(failed is not None, "swallowed", lambda: "%s: island %d failed, the step did not" % (what, item["fail"]))
                rec.ok([isl.ids() for isl in world.islands] == before, "half-migrated", lambda: "%s: migration after a failed epoch" % what)
            rec.count("non_trivial")
            rec.outcome(tuple(world.trace))

    for _ in dfs.explore(execute):
        rec.count("executions")
    rec.count("choice_points", dfs.choices)
    if dfs.capped:
        rec.cap("order of work: first %d schedules" % item["budget"])


# ---------------------------------------------------------------- real algorithms


def multiset(pops):
    return collections.Counter(tuple(x) for p in pops for x in p)


def real_part(item, rec):
    inner, n, migrants, epoch = item["inner"], item["islands"], item["migrants"], item["epoch"]
    prob = algos.problem("conv/sym2")
    links = [set(x) for x in TorusTopology(4).create(n)]
    size = n * max(4, 1 + migrants * max(len(x) for x in links))
    what = "%s on %d islands with %d migrants" % (inner, n, migrants)

    def body(ch):
        pop = algos.population(prob, size, item["variant"])
        snaps = {}
        created = []
        log = algos.Log(prob)
        model = algos.make_imga(inner, prob, pop, log.fitnesses(), n, migrants, epoch, created=created)
        for k, (d, kw) in enumerate(created):
            step = d.step

            def hooked(d=d, k=k, step=step):
                step()
                snaps.setdefault(k, []).append([list(x) for x in d.message_adapter.get_population()])
            d.step = hooked
        for rnd in range(2):
            snaps.clear()
            model.next_step()
            rec.ok(sorted(snaps) == list(range(n)) and all(len(s) == epoch for s in snaps.values()), "epoch",
                   lambda: "%s: steps per island %r, want %d each" % (what, {k: len(s) for k, s in snaps.items()}, epoch))
            before = [snaps[k][-1] for k in range(n)]
            after = [[list(x) for x in d.message_adapter.get_population()] for d, _ in created]
            rec.ok(multiset(before) == multiset(after), "conservation", lambda: "%s: migration lost %r and made up %r" % (
                what, list((multiset(before) - multiset(after)).items())[:2], list((multiset(after) - multiset(before)).items())[:2]))
            rec.ok([len(p) for p in before] == [len(p) for p in after], "sizes", lambda: "%s: island sizes %r -> %r" % (
                what, [len(p) for p in before], [len(p) for p in after]))
            for i in range(n):
                b, a = multiset([before[i]]), multiset([after[i]])
                gone = sum((b - a).values())
                rec.ok(gone <= migrants * len(links[i]), "flow", lambda: "%s: %d left island %d with %d links" % (what, gone, i, len(links[i])))
                near = b.copy()
                for j in links[i]:
                    near.update(multiset([before[j]]))
                rec.ok(not (a - near), "route", lambda: "%s: island %d received %r from an island it is not linked to" % (what, i, list((a - near))[:1]))
                if gone:
                    rec.count("non_trivial")
        rec.outcome(tuple(sorted(multiset(after))))

    gen, stats = deviations(body, item["bound"], item["base"], item["budget"], int_cap=3)
    for _ in gen:
        rec.count("executions")
    rec.count("choice_points", stats["points"])
    if stats["capped"]:
        rec.cap("%s/%s: first %d executions" % (what, item["variant"], item["budget"]))


def run_case(item, rec):
    {"topology": topology_part, "scripted": scripted_part, "order": order_part, "real": real_part}[item["part"]](item, rec)
    rec.sample(item)

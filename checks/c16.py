"""C16 Hierarchical search: the life of the tree's nodes against a reference model.

The real hierarchical search runs over scripted node drivers; how each node's population
develops is decided by the explorer, and what the search may do with its nodes is observed
only through those drivers: which are created, from what, with which settings, which are
stepped, and what is returned."""
import math

from mc import algos, env, sched
from mc import sessions as S  # noqa: F401  (installs the controlled scheduler)
from mc.core import Chooser, deviations, tick, under
from algorithms.base.driver import Driver
from algorithms.base.model import PopulationMessageAdapter

PROPERTY = "C16"
LEVEL = "model_checking"
RULE = ("deviation-bounded exploration of node developments (hypervolume grows, grows slightly or hardly, stalls, falls; population stays, moves next to or away "
        "from the others) and of delegate orders, over tree settings; after every metaepoch the real tree is compared with the model; "
        "distinct = distinct model histories; non-trivial = a sprout was created")
ASSUMPTIONS = ["delegates are examined in any order", "distances and gains are not within rounding of a threshold"]

DIMS = [(0.0, 1.0), (-0.01, 0.05)]
GROWTH = ["grow", "stall", "small", "fall", "tiny", "hair"]
MOVES = ["stay", "meet", "away"]
ETAS = (10.0, 12.0, 15.0)

SETTINGS = {
    "default": {},
    "one sprout": {"max_sprouts_no": 1, "sproutiveness": 3},
    "many": {"max_sprouts_no": 4, "sproutiveness": 3, "comparison_multipliers": (1.0, 0.05, 0.02)},
    "single": {"sproutiveness": 1, "max_sprouts_no": 2},
    "flat": {"max_level": 0},
    "two levels": {"max_level": 1, "sproutiveness": 2},
    "wide": {"comparison_multipliers": (1.0, 0.6, 0.4)},
    "epochs": {"metaepoch_len": [2, 1, 3], "sproutiveness": 2},
    "crowded": {"max_sprouts_no": 7, "sproutiveness": 4, "comparison_multipliers": (1.0, 0.02, 0.005), "metaepoch_len": [5, 5, 5], "delegates": 9},
    "ratios": {"min_progress_ratio": [0.2, 0.1, 0.4]},
}


def cases(tier):
    q = tier == "quick"
    out = []
    # sizes of the configuration: many delegates, sprouts and metaepochs
    for default in ([1, 1, 1], [1, 0, 0]):
        out.append({"setting": "crowded", "default": default, "move": 0, "steps": 20, "bound": 0, "budget": 5})
    for name in SETTINGS:
        if name == "crowded":
            continue
        # the development when the explorer does not deviate, per level
        for default in ([1, 1, 1], [0, 0, 0], [1, 0, 0], [1, 1, 0], [1, 2, 2], [3, 1, 1]):
            for move in (0, 1, 2) if default == [1, 1, 1] else (0,):
                out.append({"setting": name, "default": default, "move": move, "steps": (12 if name in ("flat", "two levels", "one sprout") else 8) + (0 if q else 3), "bound": 1 if q else 2, "budget": 400 if q else 6000})
    if q:
        for name in ("default", "many", "wide"):
            out.append({"setting": name, "default": [1, 1, 1], "move": 0, "steps": 7, "bound": 2, "budget": 1500})
    else:
        for name in SETTINGS:
            if name == "crowded":
                out.append({"setting": name, "default": [1, 1, 1], "move": 0, "steps": 10, "bound": 1, "budget": 300})
                continue
            out.append({"setting": name, "default": [1, 1, 1], "move": 0, "steps": 7, "bound": 3, "budget": 20000})
    return out


def bounds(tier):
    return {"settings": SETTINGS, "metaepochs": "7-12 (thorough 7-15)", "deviations": "1-2 (thorough 2-3)", "growth": GROWTH, "moves": MOVES, "levels": 3}


# ---------------------------------------------------------------- scripted nodes


class Adapter(PopulationMessageAdapter):
    def get_population(self):
        return self.driver.finalized_population()

    def nominate_delegates(self):
        return [list(x) for x in self.driver.delegates()]


class NodeDriver(Driver):
    def __init__(self, world, kw):
        super().__init__(message_adapter_factory=kw["message_adapter_factory"])
        self.world, self.kw = world, kw
        self.number = len(world.drivers)
        world.drivers.append(self)
        self.given = [list(x) for x in kw["population"]]
        self.size = len(self.given)
        self.level = ETAS.index(kw["mutation_eta"])
        self.pos = round(self.given[0][0], 3) if self.level else 0.3
        self.gain = None
        self.steps = 0
        self.epochs = 0
        self.pop = None

    def step(self):
        self.steps += 1
        self.cost += self.size
        if self.steps % self.world.epoch[self.level] == 0:
            self.epochs += 1
            self.develop()

    def develop(self):
        ch = self.world.ch
        growth = GROWTH[(self.world.default[self.level] + ch._point(len(GROWTH))) % len(GROWTH)] if self.gain is not None and self.epochs > 2 else "grow"
        move = MOVES[(self.world.move + ch._point(3)) % 3]
        if self.gain is None:
            self.gain = 0.0
        elif growth == "grow":
            self.gain = 2 * abs(self.gain) + 1.0
        elif growth == "small":
            self.gain *= 1.07
        elif growth == "tiny":
            self.gain *= 1.018
        elif growth == "hair":
            self.gain *= 1.008
        elif growth == "fall":
            self.gain = -1.0
        if move == "meet":
            self.pos = 0.5
        elif move == "away":
            self.pos = (self.pos + 0.37) % 1.0
        s = (math.sqrt(25.0 + self.gain) - 5.0) / 1000.0
        tag = (self.number + 1) * 1e-6
        p = min(max(self.pos, 0.02), 0.97) + tag
        self.pop = [[p, s]] + [[p + (1 if k % 2 else -1) * 0.003 * k, s - 0.001] for k in range(1, self.size)]

    def delegates(self):
        return [[(self.pop[0][0] + d) % 1.0, self.pop[0][1]] for d in self.world.offsets]

    def finalized_population(self):
        return [list(x) for x in self.pop or self.given]


class World:
    def __init__(self, ch, epoch, default, move):
        self.ch, self.epoch, self.default, self.move = ch, epoch, default, move
        self.offsets = (0.0, 0.25, 0.5)
        self.drivers = []


class Rng(Chooser):
    """orders are explored, magnitudes come from a fixed stream"""

    def __init__(self, ch):
        super().__init__()
        self.ch = ch

    def unit(self):
        return self._u()

    def below(self, n):
        return self.ch._point(n) if n > 1 else 0


# ---------------------------------------------------------------- the model


def mean(pop):
    return [math.fsum(c) / len(pop) for c in zip(*pop)]


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


class MNode:
    def __init__(self, d, parent):
        self.d, self.parent, self.level = d, parent, d.level
        self.alive, self.ripe = True, False
        self.gains = []
        self.center = None

    def line_ripe(self):
        n = self
        while n is not None:
            if not n.ripe:
                return False
            n = n.parent
        return True


class Model:
    def __init__(self, root, kw):
        self.kw = kw
        self.nodes = [MNode(root, None)]
        self.ratio = list(kw["min_progress_ratio"])
        corner = dist([a for a, _ in DIMS], [b for _, b in DIMS])
        self.min_dist = [m * corner for m in kw["comparison_multipliers"]]
        self.trace = []

    def after_epoch(self):
        for n in self.nodes:
            if n.alive:
                n.gains.append(n.d.gain)
                n.center = mean(n.d.pop)
                n.delegates = n.d.delegates()
        for level in (2, 1, 0):
            on = [n for n in self.nodes if n.level == level]
            for n in [x for x in on if x.alive]:
                # the gain is measured against the first metaepoch, from the third on
                if len(n.gains) >= 3 and n.gains[-2] > 0 and n.gains[-1] / n.gains[-2] - 1 < self.ratio[level] / 2 ** level:
                    n.alive, n.ripe = False, True
            dead = [x for x in on if not x.alive and x.ripe]
            done = []
            for n in [x for x in on if x.alive]:
                if any(dist(n.center, o.center) < self.min_dist[level] for o in dead + done):
                    n.alive = False
                done.append(n)

    def candidates(self):
        """nodes that may sprout"""
        return [n for n in self.nodes if n.level < self.kw["max_level"] and n.line_ripe()]

    def sprouts(self, n):
        return [x for x in self.nodes if x.parent is n]

    def possible(self, n):
        """how many delegates are released, and from which, in any order"""
        room = self.kw["max_sprouts_no"] - len([x for x in self.sprouts(n) if x.alive])
        near = [x.center for x in self.nodes if x.level == n.level + 1 and x.center is not None]
        good = [tuple(d) for d in n.delegates if not any(dist(d, c) < self.min_dist[n.level + 1] for c in near)]
        k = max(0, min(room, self.kw["sproutiveness"], len(good)))
        return k, good

    def revive(self):
        if not any(n.alive for n in self.nodes):
            for n in self.nodes:
                if n.ripe:
                    n.alive, n.ripe = True, False
            self.ratio = [r / 2 for r in self.ratio]
            return True
        return False


# ---------------------------------------------------------------- comparison


def run_case(item, rec):
    what = "%s, developing %r/%s" % (item["setting"], [GROWTH[i] for i in item["default"]], MOVES[item["move"]])
    over = dict(min_progress_ratio=[0.1, 0.1, 0.1], comparison_multipliers=(1.0, 0.2, 0.08), population_sizes=(4, 3, 2), max_level=2,
                mutation_rates=[0.5, 0.4, 0.3], crossover_rates=[0.9, 0.8, 0.7], cost_modifiers=(1.0, 4.0, 16.0))
    over.update(SETTINGS[item["setting"]])
    offsets = [0.079 * k for k in range(over.pop("delegates", 0))]
    prob = algos.Problem("scripted", DIMS, [lambda x: 5.0 - 1000.0 * x[1], lambda x: 5.0 - 1000.0 * x[1]], (10.0, 10.0))

    def body(ch):
        kw = algos.hgs_kwargs(prob, **over)
        max_level = kw["max_level"]
        world = World(ch, kw["metaepoch_len"], item["default"], item["move"])
        if offsets:
            world.offsets = offsets
        pop = [[0.05 + 0.1 * k, 0.0] for k in range(7)]
        with under(Rng(ch)):
            hgs = algos.algo_class("HGS")(population=pop, dims=DIMS, fitnesses=prob.fs, driver=lambda **k: NodeDriver(world, k), hgs_type="classic",
                                          driver_message_adapter_factory=Adapter, **kw)
            rec.ok(len(world.drivers) == 1 and world.drivers[0].level == 0, "root", lambda: "%s: %d nodes at the start" % (what, len(world.drivers)))
            root = world.drivers[0]
            rec.ok(root.size == kw["population_sizes"][0] and all(x in pop for x in root.given) and len({tuple(x) for x in root.given}) == root.size,
                   "root-population", lambda: "%s: the root starts with %r" % (what, root.given))
            model = Model(root, dict(kw, max_level=max_level))
            cost = 0.0
            for step in range(item["steps"]):
                tick()
                before = {d.number: d.steps for d in world.drivers}
                hgs.next_step()
                where = "%s, metaepoch %d, history %s" % (what, step + 1, model.trace)
                for n in model.nodes:
                    made = n.d.steps - before[n.d.number]
                    want = kw["metaepoch_len"][n.level] if n.alive else 0
                    rec.ok(made == want, "metaepoch", lambda: "%s: node %d (level %d, %s) made %d steps, want %d" % (
                        where, n.d.number, n.level, "alive" if n.alive else "ripe" if n.ripe else "stopped", made, want))
                    cost += made * n.d.size * kw["cost_modifiers"][n.level]
                rec.ok(abs(hgs.cost - cost) < 1e-6, "cost", lambda: "%s: cost %r, want %r" % (where, hgs.cost, cost))
                fresh = [d for d in world.drivers if d.number not in before]
                if rec.violations:
                    return None
                model.after_epoch()
                fin = hgs.finalized_population()
                want = sorted(tuple(x) for n in model.nodes for x in n.d.pop or ())
                rec.ok(sorted(tuple(x) for x in fin) == want, "result", lambda: "%s: result of %d individuals, the nodes hold %d" % (where, len(fin), len(want)))
                able = model.candidates()
                by = {id(n): [] for n in model.nodes}
                for d in fresh:
                    head = tuple(d.given[0])
                    parents = [n for n in model.nodes if n.level == d.level - 1 and getattr(n, "delegates", None) and any(tuple(x) == head for x in n.delegates)]
                    rec.ok(len(parents) == 1, "origin", lambda: "%s: a level %d node starts from %r, nominated by %d nodes: %r" % (where, d.level, head, len(parents), [(n.d.number, n.delegates) for n in model.nodes if getattr(n, 'delegates', None)]))
                    rec.ok(d.size == kw["population_sizes"][d.level], "sprout-size", lambda: "%s: a level %d node starts with %d individuals, want %d" % (
                        where, d.level, d.size, kw["population_sizes"][d.level]))
                    rec.ok(d.kw["mutation_rate"] == kw["mutation_rates"][d.level] and d.kw["crossover_eta"] == kw["crossover_etas"][d.level]
                           and d.kw["crossover_rate"] == kw["crossover_rates"][d.level], "level-settings", lambda: "%s: a level %d node has another level's settings" % (where, d.level))
                    same = [o for o in world.drivers if o.level == d.level and o is not d]
                    rec.ok(all((o.kw.get("fitness_archive") is d.kw.get("fitness_archive")) for o in same), "archive", lambda: "%s: nodes of one level do not share their archive" % where)
                    rec.ok(not any(o.kw.get("fitness_archive") is d.kw.get("fitness_archive") for o in world.drivers if o.level != d.level) or d.kw.get("fitness_archive") is None,
                           "archive", lambda: "%s: levels share an archive" % where)
                    if len(parents) == 1:
                        by[id(parents[0])].append(d)
                if rec.violations:
                    return None
                for n in list(model.nodes):
                    got = tuple(tuple(d.given[0]) for d in by[id(n)])
                    if n in able:
                        k, good = model.possible(n)
                        rec.ok(len(got) == k and len(set(got)) == k and all(x in good for x in got), "sprouting", lambda: "%s: node %d (level %d) released %r of its delegates %r, allowed %d of %r" % (
                            where, n.d.number, n.level, got, n.delegates, k, good))
                    else:
                        rec.ok(not got, "unripe", lambda: "%s: node %d (level %d, %s) released %d sprouts" % (
                            where, n.d.number, n.level, "alive" if n.alive else "ripe" if n.ripe else "stopped", len(got)))
                if rec.violations:
                    return None
                model.nodes += [MNode(d, n) for n in list(model.nodes) for d in by[id(n)]]
                revived = model.revive()
                model.trace.append("".join("A" if n.alive else "R" if n.ripe else "x" for n in model.nodes) + ("!" if revived else ""))
                rec.ok(any(n.alive for n in model.nodes), "extinct", lambda: "%s: nothing left alive" % where)
                rec.count("transitions")
                rec.count("states")
            if len(model.nodes) > 1:
                rec.count("non_trivial")
            rec.count("nodes", len(model.nodes))
            rec.count("traces")
            rec.outcome(tuple(model.trace))
        return None

    gen, stats = deviations(body, item["bound"], "lcg1", item["budget"])
    for _ in gen:
        rec.count("executions")
        if rec.violations:
            break
    rec.count("choice_points", stats["points"])
    if stats["capped"]:
        rec.cap("%s: first %d executions" % (what, item["budget"]))
    rec.sample(item)

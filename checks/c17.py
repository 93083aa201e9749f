"""C17 Distributed hierarchical search: its protocol under every order of message delivery.

The real supervisor and node actors run in a controlled actor system over scripted node
drivers; after each execution the whole history is compared with a reference model."""
import itertools
import math

from mc import actors, env  # noqa: F401
from mc import algos
from mc import sessions as S  # noqa: F401
from mc.core import Chooser, tick, under
from algorithms.base.driver import Driver
from algorithms.base.model import PopulationMessageAdapter

try:
    from algorithms.HGS.distributed.message import HgsMessage, HgsOperation

    def StatusRequest(level):
        return HgsMessage(HgsOperation.CHECK_STATUS, data=level)
except ImportError:     # the names of the messages are not part of the property
    StatusRequest = None

PROPERTY = "C17"
LEVEL = "model_checking"
RULE = ("for each tree setting and development of the nodes: all delivery orders within each question to the supervisor and within each two consecutive ones "
        "(sleep sets: one per class of commuting deliveries), all pairs of slow channels, slow actors and newest-first over the whole history; "
        "distinct = distinct histories of the tree; non-trivial = a sprout was created; states = deliveries made")
ASSUMPTIONS = ["messages between two actors arrive in order, exactly once and as copies (as the transport used guarantees)", "an actor handles one message at a time",
               "distances and gains are not within rounding of a threshold", "a node's cost is charged as the largest of the nodes' of a metaepoch (they run in parallel)"]

DIMS = [(0.0, 1.0), (-0.01, 0.05)]
GROWTH = ["grow", "stall", "small", "fall", "tiny"]
ETAS = (10.0, 12.0, 15.0)
SETTINGS = {
    "default": {},
    "one sprout": {"max_sprouts_no": 1, "sproutiveness": 3},
    "many": {"max_sprouts_no": 3, "sproutiveness": 3, "comparison_multipliers": (1.0, 0.05, 0.02)},
    "two": {"max_sprouts_no": 2, "sproutiveness": 3, "comparison_multipliers": (1.0, 0.05, 0.02)},
    "flat": {"max_level": 0},
    "two levels": {"max_level": 1, "sproutiveness": 2},
    "wide": {"comparison_multipliers": (1.0, 0.6, 0.4)},
    "epochs": {"metaepoch_len": [2, 1, 3], "sproutiveness": 2},
    "crowded": {"max_sprouts_no": 16, "sproutiveness": 5, "comparison_multipliers": (1.0, 0.02, 0.005), "metaepoch_len": [5, 5, 5], "delegates": 6},
    "ratios": {"min_progress_ratio": [0.2, 0.1, 0.4]},
}
# development per level, and for single nodes (path of delegates from the root) from some metaepoch on
SCRIPTS = {
    "stall": dict(growth=[1, 1, 1]),
    "root stalls": dict(growth=[1, 0, 0]),
    "progress": dict(growth=[0, 0, 0]),
    "upper stall": dict(growth=[1, 1, 0]),
    "meeting": dict(growth=[1, 0, 0], meet=5),
    "early meeting": dict(growth=[1, 0, 0], meet=4),
    "late meeting": dict(growth=[1, 1, 0], meet=6),
    "falling": dict(growth=[3, 1, 1]),
    "recovering": dict(growth=[1, 1, 1], then=[4, 4, 4]),
    "drifting": dict(growth=[1, 2, 1], drift=True),
}


def cases(tier):
    q = tier == "quick"
    out = []
    # sizes of the configuration: many delegates, sprouts and metaepochs
    for script in ("stall", "root stalls", "upper stall") if q else SCRIPTS:
        out.append({"kind": "slow", "setting": "crowded", "script": script, "rot": 0, "steps": 18, "pairs": False, "few": True})
    for name in SETTINGS:
        if name == "crowded":
            continue
        for script in SCRIPTS:
            for rot in (0, 1) if q else (0, 1, 2):
                out.append({"kind": "slow", "setting": name, "script": script, "rot": rot, "steps": (11 if script == "recovering" and rot == 0 else 8) if q else 13 if script == "recovering" else 11, "pairs": not q})
    for name, script in (("default", "stall"), ("many", "early meeting"), ("two levels", "falling"), ("epochs", "meeting")) if q else itertools.product(sorted(set(SETTINGS) - {"crowded"}), SCRIPTS):
        steps = 6 if q else 8
        for w in range(1, 5 * steps + 3):
            # the first metaepochs (only the root) are all alike
            if 7 < w < 13:
                continue
            out.append({"kind": "orders", "setting": name, "script": script, "rot": 0, "steps": steps, "window": [w], "budget": 150 if q else 4000})
            if not q or w % 5 in (0, 1):
                out.append({"kind": "orders", "setting": name, "script": script, "rot": 0, "steps": steps, "window": [w, w + 1], "budget": 100 if q else 4000})
    for inner in algos.INNER:
        for base in ("lcg1", "lcg3") if q else ("lcg1", "lcg2", "lcg3"):
            for prob in ("conv/sym2", "plateau/unit2"):
                out.append({"kind": "real", "inner": inner, "base": base, "prob": prob, "steps": 5 if q else 9})
    return out


def bounds(tier):
    return {"settings": SETTINGS, "developments": SCRIPTS, "metaepochs": "6-11 (thorough 8-13)", "slow channels": "1 (thorough 2) at a time",
            "orders": "all within one question and within two consecutive questions, oldest first elsewhere"}


# ---------------------------------------------------------------- scripted nodes


class Adapter(PopulationMessageAdapter):
    def get_population(self):
        return self.driver.finalized_population()

    def nominate_delegates(self):
        return [list(x) for x in delegates(self.driver.pop)]


OFFSETS = [(0.0, 0.25, 0.5)]


def delegates(pop):
    return [[(pop[0][0] + d) % 1.0, pop[0][1]] for d in OFFSETS[0]]


class NodeDriver(Driver):
    def __init__(self, world, kw):
        super().__init__(message_adapter_factory=kw["message_adapter_factory"])
        self.world, self.kw = world, kw
        self.given = [list(x) for x in kw["population"]]
        self.size = len(self.given)
        self.level = ETAS.index(kw["mutation_eta"])
        self.tag = world.tag(self)
        self.made_at = world.system.sent_at
        self.pos = round(self.given[0][0], 3) if self.level else 0.3
        self.gain = None
        self.log = []           # moment of every step
        self.epochs = []        # (gain, population) after every metaepoch
        self.pop = None
        world.drivers.append(self)

    @property
    def population(self):
        return self.finalized_population()

    def step(self):
        self.log.append(self.world.system.sent_at)
        self.cost += self.size + self.tag % 3
        if len(self.log) % self.world.epoch[self.level] == 0:
            self.develop()

    def develop(self):
        sc, n = self.world.script, len(self.epochs) + 1
        growth = GROWTH[(sc["growth"] if n < 4 else sc.get("then", sc["growth"]))[self.level]] if n > 2 else "grow"
        if self.gain is None:
            self.gain = 0.0
        elif growth == "grow":
            self.gain = 2 * abs(self.gain) + 1.0
        elif growth == "small":
            self.gain *= 1.07
        elif growth == "tiny":
            self.gain *= 1.018
        elif growth == "fall":
            self.gain = -1.0
        if self.world.system.sent_at + 1 == sc.get("meet") and self.level:
            self.pos = 0.5
        if sc.get("drift"):
            self.pos = round((self.pos + 0.13 * (1 + self.tag % 2)) % 1.0, 3)
        s = (math.sqrt(25.0 + self.gain) - 5.0) / 1000.0
        p = min(max(self.pos, 0.02), 0.97) + (self.tag + 1) * 5e-7
        self.pop = [[p, s]] + [[p + (1 if k % 2 else -1) * 0.003 * k, s - 0.001] for k in range(1, self.size)]
        self.epochs.append((self.gain, self.pop))

    def finalized_population(self):
        return [list(x) for x in self.pop or self.given]


class World:
    def __init__(self, system, epoch, script, tags):
        self.system, self.epoch, self.script, self.tags = system, epoch, script, tags
        self.drivers = []

    def tag(self, d):
        """the same node has the same tag in every execution"""
        key = (d.level, tuple(d.given[0]) if d.level else None)
        key += (len([1 for o in self.drivers if (o.level, tuple(o.given[0]) if o.level else None) == key]),)
        return self.tags.setdefault(key, len(self.tags))


class Rng(Chooser):
    """independent of the order in which the actors draw"""

    def __init__(self, rot):
        super().__init__()
        self.rot = rot

    def unit(self):
        return 0.37

    def below(self, n):
        return self.rot % n


# ---------------------------------------------------------------- the model


def mean(pop):
    return [math.fsum(c) / len(pop) for c in zip(*pop)]


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


class Node:
    def __init__(self, d, parent):
        self.d, self.parent, self.level = d, parent, d.level
        self.alive, self.ripe = True, False
        self.center = mean(d.given)
        self.n = 0

    def look(self):
        self.gain, pop = self.d.epochs[self.n - 1]
        self.old = self.d.epochs[self.n - 2][0] if self.n > 1 else None
        self.center = mean(pop)
        self.delegates = [tuple(x) for x in delegates(pop)]


def judge(world, kw, steps, costs, final, answers, what, rec):
    """compares the finished history with the model, metaepoch by metaepoch"""
    roots = [d for d in world.drivers if d.level == 0]
    rec.ok(len(roots) == 1, "root", lambda: "%s: %d roots" % (what, len(roots)))
    if len(roots) != 1:
        return
    nodes = [Node(roots[0], None)]
    ratio = list(kw["min_progress_ratio"])
    corner = dist([a for a, _ in DIMS], [b for _, b in DIMS])
    md = [m * corner for m in kw["comparison_multipliers"]]
    cost, trace = 0.0, []
    bad = lambda: bool(rec.violations)      # noqa
    for step in range(steps):
        where = "%s, metaepoch %d, history %s" % (what, step + 1, trace)
        charged = []
        for n in nodes:
            made = n.d.log.count(step)
            want = kw["metaepoch_len"][n.level] if n.alive else 0
            rec.ok(made == want, "metaepoch", lambda: "%s: node %d (level %d, %s) made %d steps, want %d" % (
                where, n.d.tag, n.level, "alive" if n.alive else "ripe" if n.ripe else "stopped", made, want))
            if n.alive:
                charged.append(made * (n.d.size + n.d.tag % 3) * kw["cost_modifiers"][n.level])
                n.n += 1
        if bad():
            return
        cost += max(charged)
        rec.ok(abs(costs[step] - cost) < 1e-6, "cost", lambda: "%s: cost %r, want %r" % (where, costs[step], cost))
        for n in nodes:
            if n.alive:
                n.look()
        for level in (2, 1, 0):
            on = [n for n in nodes if n.level == level]
            for n in [x for x in on if x.alive]:
                if n.n >= 3 and n.old > 0 and n.gain / n.old - 1 < ratio[level] / 2 ** level:
                    n.alive, n.ripe = False, True
            dead, done = [x for x in on if not x.alive and x.ripe], []
            for n in [x for x in on if x.alive]:
                if any(dist(n.center, o.center) < md[level] for o in dead + done):
                    n.alive = False
                done.append(n)
        fresh = [d for d in world.drivers if d.made_at == step and d.level > 0]
        by = {}
        for d in fresh:
            head = tuple(d.given[0])
            parents = [n for n in nodes if n.level == d.level - 1 and head in n.delegates]
            rec.ok(len(parents) == 1, "origin", lambda: "%s: a level %d node starts from %r, nominated by %d nodes" % (where, d.level, head, len(parents)))
            rec.ok(d.size == kw["population_sizes"][d.level], "sprout-size", lambda: "%s: a level %d node starts with %d individuals" % (where, d.level, d.size))
            rec.ok(d.kw["mutation_rate"] == kw["mutation_rates"][d.level] and d.kw["crossover_eta"] == kw["crossover_etas"][d.level]
                   and d.kw["crossover_rate"] == kw["crossover_rates"][d.level], "level-settings", lambda: "%s: a level %d node has another level's settings" % (where, d.level))
            if len(parents) == 1:
                by.setdefault(id(parents[0]), []).append(d)
        if bad():
            return
        new = []
        for level in (2, 1, 0):
            for n in [x for x in nodes if x.level == level]:
                got = sorted(by.get(id(n), []), key=lambda d: d.tag)
                if n.ripe and level < kw["max_level"]:
                    near = [x.center for x in nodes if x.level == level + 1] + [mean(x.given) for x in new if x.level == level + 1]
                    room = kw["max_sprouts_no"] - len([x for x in nodes if x.parent is n and x.alive])
                    starts = {tuple(d.given[0]): mean(d.given) for d in got}
                    fits = False
                    options = []
                    for order in itertools.permutations(n.delegates):
                        out, close = [], list(near)
                        for dg in order:
                            if len(out) >= min(room, kw["sproutiveness"]):
                                break
                            if not any(dist(dg, c) < md[level + 1] for c in close):
                                out.append(dg)
                                if dg not in starts:
                                    break
                                close.append(starts[dg])
                        options.append(sorted(out))
                        if sorted(out) == sorted(starts):
                            fits = True
                            break
                    rec.ok(fits and len(starts) == len(got), "sprouting", lambda: "%s: node %d (level %d, %d delegates, room for %d) released %r, allowed e.g. %r" % (
                        where, n.d.tag, level, len(n.delegates), room, sorted(starts), options[:2]))
                else:
                    rec.ok(not got, "unripe", lambda: "%s: node %d (level %d, %s) released %d sprouts" % (
                        where, n.d.tag, level, "alive" if n.alive else "ripe" if n.ripe else "stopped", len(got)))
                new += got
                if bad():
                    return
        nodes += [Node(d, [n for n in nodes if d in by.get(id(n), ())][0]) for d in new]
        revived = not any(n.alive for n in nodes)
        if revived:
            for n in nodes:
                if n.ripe:
                    n.alive, n.ripe = True, False
            ratio = [r / 2 for r in ratio]
        trace.append("".join("A" if n.alive else "R" if n.ripe else "x" for n in nodes) + ("!" if revived else ""))
        rec.ok(any(n.alive for n in nodes), "extinct", lambda: "%s: nothing left alive" % where)
    want = sorted(tuple(x) for n in nodes if n.n for x in n.d.epochs[n.n - 1][1])
    for level, states in answers.items():
        if not all(hasattr(x, a) for x in states for a in ("level", "alive", "ripe", "population_len", "center")):
            break       # the form of the answers is not part of the property
        held = sorted((n.level, n.alive, n.ripe, len(n.d.epochs[n.n - 1][1]) if n.n else 0) for n in nodes if level is None or n.level == level)
        rec.ok(sorted((x.level, x.alive, x.ripe, x.population_len) for x in states) == held, "status", lambda: "%s: asked for the states of level %r: %r, want %r" % (
            what, level, sorted((x.level, x.alive, x.ripe, x.population_len) for x in states), held))
        for x in states:
            rec.ok(x.center is None or any(n.level == x.level and n.n and dist(list(x.center), n.center) < 1e-9 for n in nodes), "status", lambda: "%s: a state of level %r has the centre of no node" % (what, level))
    rec.ok(sorted(tuple(x) for x in final) == want, "result", lambda: "%s: result of %d individuals, the nodes hold %d" % (what, len(final), len(want)))
    if len(nodes) > 1:
        rec.count("non_trivial")
    rec.count("transitions", len(trace))
    rec.outcome(tuple(trace))


def real_part(item, rec):
    """every algorithm on the nodes"""
    prob = algos.problem(item["prob"])
    inner = item["inner"]
    over = dict(min_progress_ratio=[0.5, 0.3, 0.1], comparison_multipliers=(1.0, 0.05, 0.02), sproutiveness=2, population_sizes=(6, 4, 4), metaepoch_len=[2, 1, 1],
                cost_modifiers=(0.1, 0.5, 1.0))
    histories = set()

    def execute(choose, how):
        what = "%s on %s, %s" % (inner, item["prob"], how)
        system = actors.System(choose)
        log = algos.Log(prob)

        def logged(k, f):
            return lambda x: log._call(k, f, x)
        created, last = [], {}
        pop = algos.population(prob, 10, "rand")
        with actors.running(system), under(Chooser(base=item["base"])):
            try:
                hgs = algos.make_hgs(inner, prob, pop, [logged(k, f) for k, f in enumerate(prob.fs)], created=created, hgs_type="distributed", **over)
                total = 0.0
                for step in range(item["steps"]):
                    system.moment = step
                    before = {id(d): d.step_no for d, _ in created}
                    hgs.next_step()
                    charges = []
                    for d, kw in created:
                        made = d.step_no - before.get(id(d), 0)
                        level = ETAS.index(kw["mutation_eta"])
                        rec.ok(made in (0, over["metaepoch_len"][level]), "real-metaepoch", lambda: "%s: a node of level %d made %d steps in a metaepoch" % (what, level, made))
                        if made:
                            charges.append((d.cost - last.get(id(d), 0)) * over["cost_modifiers"][level])
                            last[id(d)] = d.cost
                    total += max(charges)
                    rec.ok(abs(total - hgs.cost) < 1e-6 * max(1.0, total), "real-cost", lambda: "%s: after %d metaepochs cost %r, want %r" % (what, step + 1, hgs.cost, total))
                final = hgs.finalized_population()
                rest = system.drain()
            except actors.Stuck as e:
                rec.violation("stuck", "%s: %s" % (what, e))
                return
        rec.ok(not rest, "extra-answer", lambda: "%s: unasked answer" % what)
        rec.ok(log.bad is None, "real-outside", lambda: "%s: %s" % (what, log.bad))
        ran = [d for d, _ in created if d.step_no]
        want = sorted(tuple(map(float, x)) for d in ran for x in d.finalized_population())
        rec.ok(sorted(tuple(map(float, x)) for x in final) == want, "real-result", lambda: "%s: result of %d individuals, the nodes hold %d" % (what, len(final), len(want)))
        for x in final:
            w = algos.outside(x, prob.dims)
            rec.ok(w is None, "real-outside", lambda: "%s: result %s" % (what, w))
        rec.count("states", system.delivered)
        rec.count("traces")
        rec.count("executions")
        rec.count("nodes", len(created))
        if len(created) > 1:
            rec.count("non_trivial")
        histories.add((len(created), tuple(d.step_no for d, _ in created)))
        return system

    s0 = execute(actors.fifo, "oldest first")
    execute(actors.lifo, "newest first")
    for name in sorted({c[1] for c in s0.channels} if s0 else ()):
        tick()
        execute(actors.slow({("*", name)}), "slow %s" % name)
        if rec.violations:
            break
    rec.outcome(tuple(sorted(histories)))
    rec.sample(item)


def run_case(item, rec):
    if item["kind"] == "real":
        return real_part(item, rec)
    what = "%s/%s" % (item["setting"], item["script"])
    over = dict(min_progress_ratio=[0.1, 0.1, 0.1], comparison_multipliers=(1.0, 0.2, 0.08), population_sizes=(4, 3, 2), max_level=2,
                mutation_rates=[0.5, 0.4, 0.3], crossover_rates=[0.9, 0.8, 0.7], cost_modifiers=(1.0, 4.0, 16.0))
    over.update(SETTINGS[item["setting"]])
    n = over.pop("delegates", 0)
    OFFSETS[0] = [0.149 * k for k in range(n)] or (0.0, 0.25, 0.5)
    prob = algos.Problem("scripted", DIMS, [fitness, fitness], (10.0, 10.0))
    tags, seen = {}, set()

    def execute(choose, how):
        system = actors.System(choose)
        kw = algos.hgs_kwargs(prob, **over)
        world = World(system, kw["metaepoch_len"], SCRIPTS[item["script"]], tags)
        pop = [[0.05 + 0.1 * k, 0.0] for k in range(7)]
        label = "%s, %s" % (what, how)
        with actors.running(system), under(Rng(item["rot"])):
            try:
                hgs = algos.algo_class("HGS")(population=pop, dims=DIMS, fitnesses=prob.fs, driver=lambda **k: NodeDriver(world, k), hgs_type="distributed",
                                              driver_message_adapter_factory=Adapter, **kw)
                costs = []
                for step in range(item["steps"]):
                    system.moment = step
                    hgs.next_step()
                    costs.append(hgs.cost)
                system.moment = item["steps"]
                final = hgs.finalized_population()
                again = hgs.finalized_population()
                answers = {}
                supervisor = getattr(hgs, "hgs", hgs).__dict__.get("node_supervisor")
                if StatusRequest and supervisor is not None:
                    for level in (None, 0, 1, 2, 3):
                        answers[level] = system.ask(supervisor, StatusRequest(level)).data
                    rec.count("status_queries", len(answers))
                left = system.drain()
                hgs.shutdown()
                system.drain()
            except actors.Stuck as e:
                rec.violation("stuck", "%s: %s" % (label, e))
                return system
        rec.ok(not left, "extra-answer", lambda: "%s: %d answers nobody asked for, first %r" % (label, len(left), left[:1]))
        rec.ok(sorted(map(tuple, final)) == sorted(map(tuple, again)), "unstable", lambda: "%s: asking twice gives different results" % label)
        rec.ok(any(x.startswith("HgsNodeSupervisor") for x in system.exited), "shutdown", lambda: "%s: the actors are not told to exit" % label)
        rec.ok(pop == [[0.05 + 0.1 * k, 0.0] for k in range(7)], "input", lambda: "%s: the initial population was changed" % label)
        judge(world, kw, item["steps"], costs, final, answers, label, rec)
        rec.count("states", system.delivered)
        rec.count("traces")
        seen.update(system.channels)
        return system

    if item["kind"] == "slow":
        execute(actors.fifo, "oldest first")
        execute(actors.lifo, "newest first")
        names = sorted(seen)
        # channels with cached, unused actors are all alike: only those used matter
        kinds = [[c] for c in names] + [[(a, "*")] for a in sorted({c[0] for c in names})] + [[("*", a)] for a in sorted({c[1] for c in names})]
        if item["pairs"]:
            kinds += [list(p) for p in itertools.combinations(names, 2)][:1500]
        for k in kinds[::max(1, len(kinds) // 4)] if item.get("few") else kinds:
            tick()
            execute(actors.slow(set(k)), "slow %r" % (k,))
            rec.count("executions")
            if rec.violations:
                break
    else:
        ex = actors.SleepSets(set(item["window"]), item["budget"])
        for _ in ex.explore(lambda choose: execute(choose, "some order in question %r" % item["window"])):
            tick()
            rec.count("executions")
            if rec.violations:
                break
        rec.count("redundant_orders", ex.blocked)
        rec.count("choice_points", ex.points)
        if ex.capped:
            rec.cap("question %r of %s: first %d orders" % (item["window"], what, item["budget"]))
    rec.sample(item)


def fitness(x):
    return 5.0 - 1000.0 * x[1]

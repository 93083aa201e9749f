"""C21 A simulation depends on its seed and parameters only."""
import hashlib
import importlib
import itertools
import os
import pickle
import random
import sys
import traceback

from mc import actors, env, runs  # noqa: F401  (actors before the repository's modules)
from mc.core import Chooser, under
from mc.env import RNG
from simulation import factory, log_helper, run_config, worker

PROPERTY = "C21"
LEVEL = "exploration"
RULE = ("one process per history: a closed walk through the complete directed graph of all listed algorithms, alternating between two problems, so that every algorithm runs right after every one, cut into pieces; "
        "every result against the one of a process that ran nothing else; all interleavings of the steps of two drivers in one process, each against its run alone; distinct = distinct results")
ASSUMPTIONS = ["the seed is what os.urandom returns", "messages of the distributed search are delivered first-in first-out (C17 covers other orders)"]

ALGOS = list(run_config.algorithms)
BASIC = [a for a in ALGOS if "+" not in a]


def small():
    """the same configurations with smaller numbers (a step of IBEA takes time cubic in its population)"""
    run_config.DEFAULT_POPULATION_SIZE = 12
    for conf in run_config.algo_base.values():
        for k, v in {"population_sizes": (12, 6, 4), "metaepoch_len": [2, 2, 2], "islands_number": 2, "migrants_number": 2, "epoch_length": 2}.items():
            if k in conf:
                conf[k] = v


small()


def cases(tier):
    q = tier == "quick"
    pieces = 24
    out = []
    for problems in ((("ZDT4", "UF8"),) if q else (("ZDT4", "UF8"), ("UF8", "ZDT4"), ("ZDT3", "ZDT3"), ("UF9", "UF2"))):
        for p in range(pieces):
            out.append({"part": "walk", "problems": problems, "piece": p, "of": pieces})
    for a in ALGOS:
        out.append({"part": "seeds", "algo": a, "problem": "ZDT4"})
        for shared in (True,) if q else (True, False):
            out.append({"part": "interleave", "pair": [a, a], "shared": shared, "problem": "ZDT4", "steps": 2 if q else 3})
    names = BASIC + (["HGS+NSGAII"] if q else [a for a in ALGOS if "+" in a and not a.startswith("DHGS")])
    for a, b in itertools.combinations(names, 2):
        out.append({"part": "interleave", "pair": [a, b], "shared": False, "problem": "ZDT4", "steps": 2})
    return out


def bounds(tier):
    return {"algorithms": len(ALGOS), "walk": "all %d ordered pairs" % (len(ALGOS) ** 2), "budgets": "20, 50", "interleavings": "2+2 steps (3+3 for the same algorithm)"}


# ---------------------------------------------------------------- processes


def elsewhere(f, *args):
    """f(*args) in a process of its own, forked from this one, which never runs any simulation"""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            try:
                res = ("ok", f(*args))
            except BaseException as e:
                res = ("raised", "%s: %s" % (type(e).__name__, e), traceback.format_exc()[-1500:])
            with os.fdopen(w, "wb") as fh:
                pickle.dump(res, fh, protocol=4)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as fh:
            data = fh.read()
    except BaseException:
        os.kill(pid, 9)
        raise
    finally:
        os.waitpid(pid, 0)
    res = pickle.loads(data) if data else ("raised", "the process ended without a result", "")
    if res[0] == "raised":
        raise RuntimeError(res[1] + "\n" + res[2])
    return res[1]


def free_randomness():
    """the module-level generator is an ordinary one again; its seed comes from os.urandom"""
    RNG.chooser = None

    def seed(*a, **k):
        RNG.gauss_next = None
        random.Random.seed(RNG, *a, **k)
    random.seed = seed
    log_helper.init = lambda *a, **k: None


def plain(x):
    if isinstance(x, (list, tuple)):
        return [plain(v) for v in x]
    return float(x)


def simulate(algo, problem, seed, budgets=(20, 50), directory=None):
    """one real simulation with the given seed; what it stored"""
    real = os.urandom
    drawn = itertools.count()

    def urandom(n):     # reproducible; no two draws alike (message ids are made of it, too)
        return hashlib.sha512(b"%d %d %s" % (seed, next(drawn), algo.encode())).digest() * (n // 64 + 1)
    os.urandom = lambda n: urandom(n)[:n]
    try:
        with runs.store_dir() as d, actors.running(actors.System(actors.fifo)):
            sim = runs.case(d, problem, algo, budgets=list(budgets))
            res = worker.BudgetWorker(sim, 0).run()
            if res is None:
                raise RuntimeError("%s on %s failed" % (algo, problem))
            return {n: (plain(r.population), plain(r.fitnesses), sorted(r.additional_data.items())) for n, r in runs.stored(sim).items()}
    finally:
        os.urandom = real


def alone(algo, problem, seed=1):
    free_randomness()
    return simulate(algo, problem, seed)


def shared_data(problems):
    """what other simulations work from: configured values, boxes, reference fronts"""
    out = {("configuration", a, k): v for a, conf in run_config.algo_base.items() for k, v in conf.items()}
    for p in problems:
        m = importlib.import_module("problems.%s.problem" % p)
        out[("box", p)], out[("front", p)] = m.dims, m.pareto_front
    return {k: repr(v) for k, v in out.items()}


def history(pairs):
    free_randomness()
    problems = sorted({p for _, p in pairs})
    before = shared_data(problems)
    out = []
    for a, p in pairs:
        res = simulate(a, p, 1)
        after = shared_data(problems)
        out.append((res, [k for k in before if after.get(k) != before[k]]))
    return out


def walk(n):
    """a closed walk over 0..n-1 that uses every ordered pair, (i, i) too, once"""
    edges = {i: list(range(n)) for i in range(n)}
    stack, out = [0], []
    while stack:
        v = stack[-1]
        if edges[v]:
            stack.append(edges[v].pop(0))
        else:
            out.append(stack.pop())
    return out[::-1]


def once(f, *args):
    """computed in a process of its own once, whichever shard needs it first"""
    path = os.path.join(env.SCRATCH, hashlib.md5(repr((f.__name__, args)).encode()).hexdigest())
    if not os.path.exists(path):
        res = elsewhere(f, *args)
        with open(path + ".%d" % os.getpid(), "wb") as fh:
            pickle.dump(res, fh)
        os.rename(path + ".%d" % os.getpid(), path)
    with open(path, "rb") as fh:
        return pickle.load(fh)


def walk_part(item, rec):
    seq = walk(len(ALGOS))
    size = -(-(len(seq) - 1) // item["of"])
    start = item["piece"] * size
    pairs = [(ALGOS[i], item["problems"][(start + k) % 2]) for k, i in enumerate(seq[start:start + size + 1])]
    for k, ((a, p), (res, changed)) in enumerate(zip(pairs, elsewhere(history, pairs))):
        rec.count("evaluations")
        if k:
            rec.count("pairs")
        rec.ok(not changed, "shared-data", lambda: "after %s on %s others find other values of %r" % (a, p, changed))
        rec.ok(res == once(alone, a, p), "history", lambda: "%s on %s gives a different result after %r than in a process of its own" % (a, p, pairs[max(0, k - 5):k]))
        rec.outcome(hash(repr(res)))
    rec.sample({"walk": pairs[:12]})


def seeds_part(item, rec):
    a, p = item["algo"], item["problem"]
    one, other = once(alone, a, p), elsewhere(alone, a, p, 2)
    rec.count("evaluations", 2)
    rec.ok(one != other, "seed-used", lambda: "%s on %s gives the same result with different seeds" % (a, p))
    rec.outcome(hash(repr(one)))
    rec.outcome(hash(repr(other)))


# ---------------------------------------------------------------- two drivers in one process


def chooser(k):
    return Chooser(base="lcg%d" % (k + 1), horizon=10 ** 9)


def state(driver):
    return plain(driver.finalized_population()), driver.cost


def run_steps(pair, shared, problem, order):
    """what each driver did, step by step, under the given order of steps"""
    log_helper.init = lambda *a, **k: None
    gauss = [None, None]
    choosers = [chooser(0), chooser(1)]
    made = {}
    trace = [[], []]
    with actors.running(actors.System(actors.fifo)):
        if shared:
            with under(chooser(2)):
                factories = [factory.prepare(pair[0], problem)[0]] * 2
        else:
            factories = []
            for i in sorted(set(order)):
                with under(chooser(2 + i)):
                    factories.append(factory.prepare(pair[i], problem)[0])
            factories = dict(zip(sorted(set(order)), factories))
        for i in order:
            with under(choosers[i]):
                RNG.gauss_next = gauss[i]
                if i not in made:
                    made[i] = factories[i]()
                made[i].next_step()
                trace[i].append(state(made[i]))
                gauss[i] = RNG.gauss_next
        for d in made.values():
            d.shutdown()
    return trace


def by_itself(algo, i, shared, problem, n):
    return run_steps([algo, algo], shared, problem, [i] * n)[i]


def interleave_part(item, rec):
    n = item["steps"]
    args = (item["pair"], item["shared"], item["problem"])

    def everything():
        out = []
        for mask in itertools.product((0, 1), repeat=2 * n):
            if sum(mask) == n:
                out.append((mask, run_steps(*args, mask)))
        return out

    solo = [once(by_itself, item["pair"][i], i, item["shared"], item["problem"], n) for i in (0, 1)]
    for mask, trace in elsewhere(everything):
        rec.count("evaluations")
        rec.count("schedules")
        for i in (0, 1):
            rec.ok(trace[i] == solo[i], "interference", lambda: "%s%s, steps in the order %r: driver %d (%s) differs from its run alone" % (
                " and ".join(item["pair"]), " from one configuration" if item["shared"] else "", mask, i, item["pair"][i]))
        rec.outcome(hash(repr(trace)))
    rec.sample(item)


def run_case(item, rec):
    {"walk": walk_part, "seeds": seeds_part, "interleave": interleave_part}[item["part"]](item, rec)

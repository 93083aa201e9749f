"""C10 A batch executes every simulation exactly once, whatever happens to the others."""
import itertools
import random

import thespian.actors

from mc import env, runs
from mc.core import Chooser, DFS, under
from simulation import factory, run_config, run_parallel
from simulation.model import SimulationCase
from simulation.run_config import NotViableConfiguration
from evotools import rxtools

PROPERTY = "C10"
LEVEL = "exploration"
RULE = ("every assignment of a fate (success, or one of the failure points) to each simulation of a batch x every order the "
        "queue can be shuffled into (depth-first over the shuffle's draws) x repetitions; distinct = distinct (order, fates); "
        "non-trivial = at least two simulations")
ASSUMPTIONS = ["failures are ordinary exceptions", "releasing a driver does not itself fail", "the actor system is replaced by a stand-in"]

ALGOS = ["NSGAII", "IBEA", "SPEA2", "OMOPSO"]
FATES = [None, ("prepare",), ("construct",), ("step", 0), ("step", 2), ("final", 1), ("final", 2), "notviable", "unpicklable"]


class Ticking(runs.Clock):
    """no two readings are equal"""

    def __call__(self):
        self.t += 2.0 ** -30
        return self.t


class System:
    made = []

    def __init__(self, *a, **k):
        self.down = 0
        System.made.append(self)

    def shutdown(self):
        self.down += 1


def cases(tier):
    q = tier == "quick"
    out = []
    for i in range(len(FATES)):
        for j in range(len(FATES)):
            out.append({"fates": [i, j], "n": 2, "mode": "budget"})
            if i % 2 or j % 3 == 0:
                out.append({"fates": [i, j], "n": 1, "mode": "time"})
    for fs in itertools.product((0, 1, 4, 7) if q else range(len(FATES)), repeat=3):
        out.append({"fates": list(fs), "n": 1, "mode": "budget"})
    for i in range(len(FATES)):
        # a large batch: orders are no longer enumerated, only the identity and one that mixes
        out.append({"fates": [0, i, 0, 3], "n": 13, "mode": "budget", "large": True})
        if i % 3 == 0:
            out.append({"fates": [i, 0], "n": 26, "mode": "time", "large": True})
    if not q:
        for fs in itertools.product((0, 4, 6), repeat=4):
            out.append({"fates": list(fs), "n": 1, "mode": "budget"})
    return out


def bounds(tier):
    return {"simulations in a batch": "2-4", "fates": [str(f) for f in FATES], "orders": "all", "large batches": "52 simulations in 3 orders, each fate"}


class Unpicklable(list):
    def __reduce__(self):
        raise TypeError("cannot be stored")


def run_case(item, rec):
    fates = [FATES[i] for i in item["fates"]]
    algos = ALGOS[:len(fates)]
    n, mode = item["n"], item["mode"]

    def execute(pick):
        class Ch(Chooser):
            def _point(self, k):
                self.points.append(k)
                return pick(k) if self.shuffling else 0
            shuffling = False
        ch = Ch(base="zero", int_cap=100)
        System.made = []
        clock = Ticking()
        scripts, sims = {}, []
        with runs.store_dir() as d:
            real_shuffle = random.shuffle
            made = []

            def prepare(algo, problem):
                fate = fates[algos.index(algo)]
                s = runs.Script((2, 2, 2, 2), clock=clock, durations=(1.0,) * 6,
                                fail=fate if isinstance(fate, tuple) else None,
                                exc=NotViableConfiguration if fate == "notviable" else runs.Boom)
                s.algo = algo
                made.append(s)
                s.log.append(("prepare",))
                if fate == "notviable":
                    raise NotViableConfiguration()
                s.raise_if("prepare")

                def build(*a, **k):
                    drv = runs.ScriptedDriver(s, *a, **k)
                    if fate == "unpicklable":
                        drv.finalized_population = lambda: Unpicklable(runs.population(drv.k))
                    return drv
                return build, runs.Problem

            def shuffle(x):
                ch.shuffling = True
                try:
                    return real_shuffle(x)
                finally:
                    ch.shuffling = False
            args = {"run": True, "budget": mode == "budget", "time": mode == "time", "<budget>": "6,2", "<timeout>": "4",
                    "<step>": "2", "--algo": ",".join(algos), "--problem": "ZDT1", "-N": str(n), "-j": "2",
                    "--renice": None, "--dir": d}
            nothing = lambda *a, **k: None      # noqa
            with runs.replaced((factory.prepare, prepare), (runs.log_helper.init, nothing), (random.shuffle, shuffle), (thespian.actors.ActorSystem, System),
                               *[(getattr(rxtools, f), nothing) for f in ("configure_default_executor", "shutdown_default_executor") if hasattr(rxtools, f)]):
                with under(ch), runs.controlled_clock(clock):
                    try:
                        run_parallel.run_parallel(args)
                    except Exception as e:
                        rec.violation("batch-died", "batch with fates %r ended in %s: %s" % (fates, type(e).__name__, e))
            order = [s.algo for s in made]
            rec.ok(sorted(order) == sorted(algos * n), "executed", lambda: "fates %r: executed %r, want each of %r %d times" % (fates, order, algos, n))
            import os
            for algo, fate in zip(algos, fates):
                base = os.path.join(d, "ZDT1", algo)
                dirs = sorted(os.listdir(base)) if os.path.isdir(base) else []
                full = ["2.pickle", "6.pickle"] if mode == "budget" else ["2.pickle", "4.pickle"]
                if fate is None:
                    want = full
                elif fate in (("step", 2), ("final", 2)):
                    # first budget after one step, second after three; slots at 2 s and 4 s, one step a second
                    want = full[:1]
                else:
                    want = []
                if want:
                    rec.ok(len(dirs) == n, "run-dirs", lambda: "fates %r: %s has %d result directories, want %d" % (fates, algo, len(dirs), n))
                for r in dirs:
                    sim = SimulationCase("ZDT1", algo, 0, None, d, id=r)
                    got = sorted(x for x in os.listdir(os.path.join(base, r)))
                    if mode == "time" and fate in (("step", 2), ("final", 2), ("final", 1)):
                        rec.ok(set(want) - {"2.pickle"} <= set(got) <= set(full), "files", lambda: "%s %r has %r" % (algo, fate, got))
                    else:
                        rec.ok(got == want, "files", lambda: "fates %r, order %r: %s stored %r, want %r" % (fates, order, algo, got, want))
                    for name, res in runs.stored(sim).items():
                        c = res.additional_data["cost"]
                        rec.ok(res.population == runs.population(c // 2), "content", lambda: "%s %s holds %r" % (algo, name, res.population))
            for s in made:
                rec.ok(s.log.count(("shutdown",)) == s.log.count(("constructed",)), "shutdown", lambda: "%s: driver not released" % s.algo)
            rec.ok(len(System.made) == 1 and System.made[0].down == 1, "actor-system", lambda: "actor systems %d, shut down %r" % (
                len(System.made), [x.down for x in System.made]))
            return tuple(order)

    if item.get("large"):
        for pick in (lambda k: 0, lambda k: k - 1, lambda k: k // 2):
            rec.count("evaluations")
            rec.outcome((execute(pick), tuple(item["fates"])))
        rec.sample({"fates": [str(f) for f in fates], "n": n})
        return
    dfs = DFS(budget=200)
    for trail, order in dfs.explore(execute):
        rec.count("evaluations")
        rec.outcome((order, tuple(item["fates"])))
        if rec.violations:
            break
    if dfs.capped:
        rec.cap("orders of a batch")
    rec.sample({"fates": [str(f) for f in fates], "orders": dfs.runs})

"""C08 Budget- and step-bound runs."""
import itertools
import logging

from mc import env, runs  # noqa: F401
from algorithms.base.driver import BudgetRun, StepsRun
from simulation import worker
from simulation.run_config import NotViableConfiguration
from simulation.serializer import Serializer

PROPERTY = "C08"
LEVEL = "exploration"
RULE = ("every sequence of step costs over the alphabet up to the length, x initial cost x every set of budgets x "
        "every failure point, and long runs of up to 40 budgets up to 12345; the real runner and worker drive a scripted driver and a scratch result store; "
        "distinct = distinct (trace, stored files); non-trivial = at least one step")
ASSUMPTIONS = ["every step costs at least zero and some step eventually costs something", "budgets are distinct and sorted (as the command line delivers them)"]

COSTS = (1, 2, 5, 0)
BUDGETS = (1, 2, 3, 5, 6, 8)
LONG_COSTS = ([64], [1], [97, 3], [640, 1, 1, 1], [5000, 1], [0, 0, 0, 33])


def cases(tier):
    q = tier == "quick"
    n = 4 if q else 5
    out = []
    for cost0 in (0, 1, 4):
        for first in COSTS:
            out.append({"part": "run", "cost0": cost0, "first": first, "n": n})
            for nb in (1, 2, 3):
                out.append({"part": "worker", "cost0": cost0, "first": first, "n": n - 1, "nb": nb})
    for fail in ([["prepare"], ["construct"]] + [["step", k] for k in range(5)] + [["final", k] for k in range(1, 5)]
                 + [["fitness", k] for k in range(1, 5)] + [["store", k] for k in range(1, 4)]):
        out.append({"part": "fail", "fail": fail, "n": 3 if q else 4})
    for inc in LONG_COSTS:
        out.append({"part": "long", "inc": inc})
    return out


def bounds(tier):
    return {"step costs": COSTS, "max scripted steps": 4 if tier == "quick" else 5, "budgets": BUDGETS,
            "budgets per run": 3, "long runs": "13 budget sets of up to 40 budgets, up to 12345, 6 cost patterns", "initial costs": [0, 1, 4]}


def run_part(item, rec):
    for rest in itertools.product(COSTS, repeat=item["n"] - 1):
        inc = (item["first"],) + rest
        for b in (0,) + BUDGETS + (12,):
            rec.count("evaluations")
            s = runs.Script(inc, cost0=item["cost0"])
            d = runs.ScriptedDriver(s)
            msgs, done, err = [], [], []
            costs_before = [item["cost0"]]
            job = BudgetRun(b).create_job(d)
            rec.ok(not [x for x in s.log if x[0] == "step"], "eager", "steps were made before anyone subscribed")
            job.subscribe(lambda m: msgs.append((m.cost, d.k, len(done))), err.append, lambda: done.append(1))
            c, k = item["cost0"], 0
            want = []
            while c < b:
                c += inc[k] if k < len(inc) else 1
                k += 1
                want.append((c, k, 0))
            rec.ok(msgs == want, "budget-run", lambda: "budget %d, step costs %r, initial %d: messages %r, want %r" % (
                b, inc, item["cost0"], msgs, want))
            rec.ok(done == [1] and not err, "completion", lambda: "completed %d times, errors %r" % (len(done), err))
            rec.ok(d.step_no == k and d.cost == c, "final-state", lambda: "driver made %d steps (%r), want %d" % (d.step_no, d.cost, k))
            rec.outcome((b, tuple(msgs)))
        for n in range(item["n"] + 1):
            rec.count("evaluations")
            s = runs.Script(inc, cost0=item["cost0"])
            d = runs.ScriptedDriver(s)
            msgs, done = [], []
            StepsRun(n).create_job(d).subscribe(lambda m: msgs.append((m.cost, d.k)), None, lambda: done.append(1))
            want = [(item["cost0"] + sum(inc[:i + 1]), i + 1) for i in range(n)]
            rec.ok(msgs == want and done == [1] and d.step_no == n, "steps-run",
                   lambda: "%d steps asked: %r, want %r" % (n, msgs, want))


def reference(inc, cost0, budgets):
    """budget -> (steps made, cost) when its result is due"""
    out = {}
    c, k = cost0, 0
    for b in budgets:
        while c < b:
            c += inc[k] if k < len(inc) else 1
            k += 1
        out[b] = (k, c)
    return out


def check_store(rec, sim, want, what):
    got = runs.stored(sim)
    rec.ok(sorted(got) == sorted("%d.pickle" % b for b in want), "files",
           lambda: "%s: files %r, want %r" % (what, sorted(got), sorted(want)))
    for b, (k, c) in want.items():
        r = got.get("%d.pickle" % b)
        if r is None:
            continue
        rec.ok(r.population == runs.population(k), "stored-population", lambda: "%s: budget %d holds %r, want the state after step %d" % (
            what, b, r.population, k))
        rec.ok([list(map(float, f)) for f in r.fitnesses] == runs.fits(runs.population(k)), "stored-fitness", lambda: "%s: budget %d fitnesses %r" % (what, b, r.fitnesses))
        rec.ok(r.additional_data.get("cost") == c, "stored-cost", lambda: "%s: budget %d cost %r, want %d" % (what, b, r.additional_data, c))


def worker_part(item, rec):
    for rest in itertools.product(COSTS, repeat=item["n"] - 1):
        inc = (item["first"],) + rest
        for budgets in itertools.combinations(BUDGETS, item["nb"]):
            rec.count("evaluations")
            with runs.store_dir() as d:
                s = runs.Script(inc, cost0=item["cost0"])
                sim = runs.case(d, budgets=list(budgets))
                with runs.scripted({("P", "A"): s}):
                    out = worker.BudgetWorker(sim, 7).run()
                want = reference(inc, item["cost0"], budgets)
                what = "step costs %r from %d, budgets %r" % (inc, item["cost0"], budgets)
                check_store(rec, sim, want, what)
                rec.ok(out is not None, "no-result", what)
                if out is not None:
                    res, _, no = out
                    rec.ok([(c, [list(x) for x in p]) for c, p in res] == [(want[b][1], runs.population(want[b][0])) for b in budgets],
                           "returned", lambda: "%s: returned %r" % (what, res))
                    rec.ok(no == 7, "number", "simulation number %r" % no)
                rec.ok(s.log.count(("shutdown",)) == 1, "shutdown", lambda: "%s: driver shut down %d times" % (what, s.log.count(("shutdown",))))
                rec.ok([x for x in s.log if x[0] == "step"] == [x for x in s.log if x[0] == "step"][:want[budgets[-1]][0]], "extra-steps",
                       lambda: "%s: stepped on after the last budget" % what)
                rec.outcome(tuple(s.log))


def long_part(item, rec):
    """many budgets, large budgets, long runs"""
    inc = tuple(item["inc"] * 700)
    sets = [tuple(range(100, 100 * (n + 1), 100)) for n in (1, 5, 9, 10, 11, 16, 25, 33)]
    sets += [(500, 1500, 10000), (9, 10, 11, 99, 100, 101), (12345,), (1000, 1001, 1002, 8192), tuple(range(1, 41))]
    for budgets in sets:
        if sum(inc) < budgets[-1]:
            continue
        rec.count("evaluations")
        with runs.store_dir() as d:
            s = runs.Script(inc)
            sim = runs.case(d, budgets=list(budgets))
            with runs.scripted({("P", "A"): s}):
                out = worker.BudgetWorker(sim, 123).run()
            want = reference(inc, 0, budgets)
            what = "step costs %r..., budgets %r" % (inc[:4], budgets)
            check_store(rec, sim, want, what)
            rec.ok(out is not None and len(out[0]) == len(budgets) and out[2] == 123, "returned", what)
            steps = len([x for x in s.log if x[0] == "step"])
            rec.ok(steps == want[budgets[-1]][0], "extra-steps", lambda: "%s: %d steps, want %d" % (what, steps, want[budgets[-1]][0]))
            rec.ok(s.log.count(("shutdown",)) == 1, "shutdown", what)
            rec.outcome((tuple(item["inc"]), budgets))


def fail_part(item, rec):
    fail = item["fail"]
    for inc in itertools.product((1, 2, 5), repeat=item["n"]):
        for budgets in ((3,), (1, 4), (2, 3, 6), (1, 2, 9)):
            for exc in (runs.Boom, KeyError, StopIteration, AssertionError, NotViableConfiguration, MemoryError):
                if exc is not runs.Boom and inc[0] != 1:
                    continue
                rec.count("evaluations")
                calls = [0]
                saved_f = runs.Problem.fitnesses
                with runs.store_dir() as d:
                    s = runs.Script(inc, fail=fail if fail[0] not in ("fitness", "store") else None, exc=exc)
                    sim = runs.case(d, budgets=list(budgets))
                    want = reference(inc, 0, budgets)
                    due = sorted(want)
                    if fail[0] == "step":
                        due = [b for b in due if want[b][0] <= fail[1]]
                    elif fail[0] in ("prepare", "construct"):
                        due = []
                    else:
                        due = due[:fail[1] - 1]
                    failed = len(due) < len(budgets)
                    with runs.scripted({("P", "A"): s}):
                        w = worker.BudgetWorker(sim, 3)
                        if fail[0] == "fitness":
                            def bad(x):
                                calls[0] += 1
                                if calls[0] == 3 * fail[1]:
                                    raise exc("scripted")
                                return runs.f1(x)
                            runs.Problem.fitnesses = [bad, runs.f2]
                        ser = Serializer.store
                        if fail[0] == "store":
                            def store(self, *a, **k):
                                calls[0] += 1
                                if calls[0] == fail[1]:
                                    raise exc("scripted")
                                return ser(self, *a, **k)
                            Serializer.store = store
                        try:
                            out = w.run()
                        except Exception as e:
                            rec.violation("escaped", "a failure at %r (%s) escaped the worker: %r" % (fail, exc.__name__, e))
                            out = None
                        finally:
                            runs.Problem.fitnesses = saved_f
                            Serializer.store = ser
                    what = "failure %r (%s), step costs %r, budgets %r" % (fail, exc.__name__, inc, budgets)
                    check_store(rec, sim, {b: want[b] for b in due}, what)
                    rec.ok((out is None) == failed, "outcome", lambda: "%s: returned %r" % (what, out))
                    made = ("constructed",) in s.log
                    rec.ok(s.log.count(("shutdown",)) == (1 if made else 0), "shutdown",
                           lambda: "%s: driver shut down %d times" % (what, s.log.count(("shutdown",))))
                    rec.outcome(tuple(s.log))
                    # a later simulation in the same process is not affected
                    s2 = runs.Script((2, 2, 2))
                    sim2 = runs.case(d, algo="B", budgets=[3])
                    with runs.scripted({("P", "B"): s2}):
                        out2 = worker.BudgetWorker(sim2, 4).run()
                    rec.ok(out2 is not None, "aftermath", lambda: "%s: the next simulation failed" % what)
                    check_store(rec, sim2, {3: (2, 4)}, what + ", next simulation")


def run_case(item, rec):
    {"run": run_part, "worker": worker_part, "fail": fail_part, "long": long_part}[item["part"]](item, rec)
    rec.sample(item)

"""C09 Time-bound runs: every sampling slot within the timeout is reported and stored once."""
import itertools

from mc import env, runs
from algorithms.base.driver import TimeRun
from simulation import worker
from simulation.serializer import Serializer

PROPERTY = "C09"
LEVEL = "exploration"
RULE = ("every sequence of step durations over the alphabet x sampling interval x timeout x clock overhead outside the steps, and long runs of up to 100 slots, "
        "with the clock of the process replaced; the real runner and worker drive a scripted driver and a scratch store; "
        "distinct = distinct (slot -> step) maps; non-trivial = at least one slot")
ASSUMPTIONS = ["durations are binary fractions, so the elapsed time is exact", "a slot that coincides with the end of a step may "
               "report that step or the one before", "interval and timeout are positive integers (as on the command line)"]

DUR = (0.25, 0.5, 1.0, 1.5, 3.0, 7.5, 0.0)
CONF = ((1, 1), (1, 3), (2, 6), (2, 5), (3, 7), (5, 4), (1, 10), (4, 8), (10, 10))
LONG = ([0.25], [1.0], [2.5, 0.5], [17.0, 0.25], [50.0, 1.0], [100.0, 3.0], [0.125, 0.125, 40.5])


def cases(tier):
    q = tier == "quick"
    out = []
    for first in range(len(DUR)):
        for c in CONF:
            out.append({"part": "run", "first": first, "conf": c, "n": 4 if q else 5})
            out.append({"part": "worker", "first": first, "conf": c, "n": 3 if q else 4})
    for k in range(5):
        out.append({"part": "fail", "fail": ["step", k], "n": 3})
        out.append({"part": "fail", "fail": ["final", k + 1], "n": 3})
    for durs in LONG:
        out.append({"part": "long", "durs": durs})
    return out


def bounds(tier):
    return {"durations": DUR, "scripted steps": 4 if tier == "quick" else 5, "interval, timeout": CONF, "long runs": [LONG, "up to 100 slots"], "overhead outside steps": [0, 0.75, 5]}


def reference(durs, tail, step, timeout):
    """ends[k] = elapsed after k steps; slots -> set of allowed step numbers"""
    ends = [0.0]
    while ends[-1] < timeout:
        k = len(ends) - 1
        ends.append(ends[-1] + (durs[k] if k < len(durs) else tail))
    slots = {}
    s = step
    while s <= timeout:
        during = next(k for k in range(1, len(ends)) if ends[k] >= s)       # the step in which the slot falls
        slots[s] = (max(1, during - 1), during if ends[during] == s else None, during)
        s += step
    return ends, slots


def run_part(item, rec):
    step, timeout = item["conf"]
    for rest in itertools.product(DUR, repeat=item["n"] - 1):
        durs = (DUR[item["first"]],) + rest
        for overhead in (0.0, 0.75, 5.0):
            rec.count("evaluations")
            clock = runs.Clock()
            s = runs.Script((), clock=clock, durations=durs)
            d = runs.ScriptedDriver(s)
            got, done, err = [], [], []

            def on_next(m):
                got.append((m.elapsed_time, m.cost, d.k, len(done)))
                clock.t += overhead       # storing a result takes time
            with runs.controlled_clock(clock):
                TimeRun(step, timeout).create_job(d).subscribe(on_next, err.append, lambda: done.append(1))
            ends, slots = reference(durs, 1.0, step, timeout)
            what = "interval %d, timeout %d, durations %r" % (step, timeout, durs)
            rec.ok([g[0] for g in got] == sorted(slots), "slots", lambda: "%s: slots %r, want %r" % (what, [g[0] for g in got], sorted(slots)))
            rec.ok(done == [1] and not err, "completion", lambda: "%s: completed %d times, errors %r" % (what, len(done), err))
            rec.ok(d.step_no == len(ends) - 1, "steps", lambda: "%s: %d steps, want %d" % (what, d.step_no, len(ends) - 1))
            for t, cost, k, fin in got:
                if t not in slots:
                    continue
                last, tie, during = slots[t]
                rec.ok(cost in (last, tie), "stale-or-early", lambda: "%s: slot %d reports the state of step %r, want %r" % (what, t, cost, last))
                rec.ok(k == during, "delivery", lambda: "%s: slot %d was reported during step %d, want %d" % (what, t, k, during))
            if got:
                rec.outcome((step, timeout, tuple(g[:2] for g in got)))


def check_store(rec, sim, slots, what, optional=()):
    got = runs.stored(sim)
    slots = dict(slots)
    slots.update({t: v for t, v in dict(optional).items() if "%d.pickle" % t in got})
    rec.ok(sorted(got) == sorted("%d.pickle" % t for t in slots), "files", lambda: "%s: files %r, want %r" % (what, sorted(got), sorted(slots)))
    prev = 0
    for t in sorted(slots):
        r = got.get("%d.pickle" % t)
        if r is None:
            continue
        cost = r.additional_data.get("cost")
        last, tie, during = slots[t]
        rec.ok(cost in (last, during), "stored-cost", lambda: "%s: slot %d stores cost %r, want %d or %d" % (what, t, cost, last, during))
        rec.ok(r.population == runs.population(cost), "stored-population", lambda: "%s: slot %d stores %r for cost %r" % (what, t, r.population, cost))
        rec.ok([list(map(float, f)) for f in r.fitnesses] == runs.fits(r.population), "stored-fitness", lambda: "%s: slot %d" % (what, t))
        rec.ok(cost >= prev, "order", lambda: "%s: slot %d is older than an earlier slot" % (what, t))
        prev = cost


def worker_part(item, rec):
    step, timeout = item["conf"]
    for rest in itertools.product(DUR, repeat=item["n"] - 1):
        durs = (DUR[item["first"]],) + rest
        for overhead in (0.0, 2.5):
            rec.count("evaluations")
            clock = runs.Clock()
            s = runs.Script((), clock=clock, durations=durs, overhead=overhead)
            with runs.store_dir() as d:
                sim = runs.case(d, timeout=timeout, sampling_interval=step)
                with runs.scripted({("P", "A"): s}), runs.controlled_clock(clock):
                    out = worker.TimeWorker(sim, 5).run()
                ends, slots = reference(durs, 1.0, step, timeout)
                what = "interval %d, timeout %d, durations %r" % (step, timeout, durs)
                check_store(rec, sim, slots, what)
                if slots:
                    rec.ok(out is not None and len(out[0]) == len(slots) and out[2] == 5, "returned", lambda: "%s: returned %r" % (what, out))
                rec.ok(s.log.count(("shutdown",)) == 1, "shutdown", what)
                rec.outcome(tuple(s.log))


def long_part(item, rec):
    """many slots, long timeouts, a step that outlasts many slots at any time"""
    for step, timeout in ((1, 24), (1, 100), (2, 90), (7, 300), (60, 600), (3, 11)):
        for lead in (0, 1, 5, 12):
            durs = tuple([0.75] * lead + item["durs"] * 300)
            rec.count("evaluations")
            clock = runs.Clock()
            s = runs.Script((), clock=clock, durations=durs, overhead=0.5)
            with runs.store_dir() as d:
                sim = runs.case(d, timeout=timeout, sampling_interval=step)
                with runs.scripted({("P", "A"): s}), runs.controlled_clock(clock):
                    out = worker.TimeWorker(sim, 5).run()
                ends, slots = reference(durs, 1.0, step, timeout)
                what = "interval %d, timeout %d, %d short steps, then durations %r..." % (step, timeout, lead, item["durs"])
                check_store(rec, sim, slots, what)
                rec.ok(out is not None and len(out[0]) == len(slots), "returned", lambda: "%s: returned %r" % (what, out))
                steps = len([x for x in s.log if x[0] == "step"])
                rec.ok(steps == len(ends) - 1, "steps", lambda: "%s: %d steps, want %d" % (what, steps, len(ends) - 1))
                rec.ok(s.log.count(("shutdown",)) == 1, "shutdown", what)
                rec.outcome((step, timeout, lead, tuple(item["durs"])))


def fail_part(item, rec):
    fail = item["fail"]
    for durs in itertools.product((0.5, 1.0, 3.0), repeat=item["n"]):
        for step, timeout in ((1, 4), (2, 6), (3, 7)):
            for exc in (runs.Boom, KeyError, StopIteration):
                rec.count("evaluations")
                clock = runs.Clock()
                s = runs.Script((), clock=clock, durations=durs, fail=fail, exc=exc)
                with runs.store_dir() as d:
                    sim = runs.case(d, timeout=timeout, sampling_interval=step)
                    what = "failure %r (%s), interval %d, timeout %d, durations %r" % (fail, exc.__name__, step, timeout, durs)
                    with runs.scripted({("P", "A"): s}), runs.controlled_clock(clock):
                        try:
                            out = worker.TimeWorker(sim, 5).run()
                        except Exception as e:
                            rec.violation("escaped", "%s: escaped the worker: %r" % (what, e))
                            continue
                    ends, slots = reference(durs, 1.0, step, timeout)
                    if fail[0] == "step":
                        due = {t: v for t, v in slots.items() if v[2] <= fail[1]}
                        later = {}
                        failed = fail[1] < len(ends) - 1
                    else:
                        # later slots may still be stored by the run, which has failed all the same
                        due = {t: slots[t] for t in sorted(slots)[:fail[1] - 1]}
                        later = {t: slots[t] for t in sorted(slots)[fail[1]:]}
                        failed = len(due) < len(slots)
                    check_store(rec, sim, due, what, later)
                    rec.ok((out is None) == failed, "outcome", lambda: "%s: returned %r" % (what, out))
                    rec.ok(s.log.count(("shutdown",)) == 1, "shutdown", what)
                    rec.outcome(tuple(s.log))


def run_case(item, rec):
    {"run": run_part, "worker": worker_part, "fail": fail_part, "long": long_part}[item["part"]](item, rec)
    rec.sample(item)

"""C13 Metrics of stored results are those of the results as they are now.

Histories of adding results, removing whole simulations and evaluating metrics (which are cached in the store); after every
evaluation each value is compared with one computed from the stored results alone."""
import itertools
import math
import os
import shutil
import zlib

from mc import env, runs
from checks.c03 import dom, euc2, near, rms, spacing
from problems.ZDT1 import problem as zdt1
from problems.ZDT2 import problem as zdt2
from simulation import run_config, serialization
from simulation.model import SimulationCase
from simulation.serializer import Result, Serializer

PROPERTY = "C13"
LEVEL = "exploration"
RULE = ("every ordered history of additions and removals over the alphabet with an evaluation pattern between them (all metrics, only the joint one, a "
        "part of the results, backwards, none), on the real store; distinct = distinct tables of values; non-trivial = two results at least")
ASSUMPTIONS = ["a stored result is not changed afterwards", "two objectives, problem fronts replaced by a two-point front to keep it small",
               "results of a history come from simulations; foreign files are covered by C12"]

FRONT = [[0.0, 1.0], [1.0, 0.0]]
zdt1.pareto_front = FRONT
zdt2.pareto_front = FRONT
SIMS = ["2021-03-09.235959.999999__4000000", "2021-03-10.000000.000000__0000001", "2020-12-31.235959.000001__0000002"]
POPS = {
    "a": [[0.0, 1.0], [1.0, 0.0], [1.0, 1.0]], "b": [[0.5, 0.5]], "c": [[0.0, 1.0], [0.0, 1.0]],
    "d": [[2.0, 2.0], [0.25, 3.0]], "e": [[3.0, -1.0], [0.5, 0.5]],
}
# problem, algorithm, simulation, name, fitness set
ADDS = [("ZDT1", "NSGAII", 0, "500", "a"), ("ZDT1", "NSGAII", 1, "500", "d"), ("ZDT1", "IBEA", 1, "500", "b"),
        ("ZDT1", "NSGAII", 2, "500", "c"), ("ZDT1", "IBEA", 0, "500", "e"), ("ZDT1", "NSGAII", 0, "1500", "b"),
        ("ZDT2", "NSGAII", 1, "500", "e"), ("ZDT1", "SPEA2", 2, "1500", "a")]
# a long campaign: many simulations, larger result sets
for _k in range(36):
    POPS["u%d" % _k] = [[_k / 8.0 - 9.0, -_k / 8.0 - 4.0], [_k / 4.0 - 9.0, 3.0]]
    POPS["m%d" % _k] = [[((i * 7 + _k * 3) % 29) / 8.0, ((i * 11 + _k * 5) % 31) / 8.0] for i in range(3 + _k)]


def sim_id(k):
    return SIMS[k] if k < len(SIMS) else "2021-%02d-%02d.%06d.%06d__%07d" % (1 + k * 5 % 12, 1 + k * 7 % 28, k * 3571 % 235959, k * 7919 % 999999, k)


def cost_of(op):
    return 100 + (ADDS.index(op) if op in ADDS else 50 + zlib.crc32(repr(op).encode()) % 9973)


# removing the directory of a simulation: problem, algorithm, simulation
REMOVES = [("ZDT1", "NSGAII", 0), ("ZDT1", "NSGAII", 1), ("ZDT1", "IBEA", 0), ("ZDT1", "IBEA", 1)]
OPS = ADDS + REMOVES


def sensible(order):
    """only what is there is removed, and something stays"""
    now = set()
    for i in order:
        if i < len(ADDS):
            if ADDS[i] in now:
                return False
            now.add(ADDS[i])
        else:
            gone = {x for x in now if x[:3] == OPS[i]}
            if not gone or gone == now:
                return False
            now -= gone
    return True


EVALS = ["all", "none", "pdi", "half", "backwards", "one problem"]
METRICS = ["cost", "gd", "igd", "ahd", "epsilon", "extent", "spacing", "ndr", "hypervolume", "pdi"]


def cases(tier):
    q = tier == "quick"
    out = []
    for c in itertools.permutations(range(len(ADDS)), 2):
        out.append({"adds": c, "len": 3 if q else 4, "deep": not q})
    for how in EVALS:
        out.append({"many": how})
    return out


def bounds(tier):
    return {"additions": ADDS, "removals": REMOVES, "length": 3 if tier == "quick" else 4, "evaluations between": EVALS}


def reference(ops):
    """(problem, algo, number, sim, metric) -> value"""
    runs_of = {}
    for p, a, s, n, f in ops:
        runs_of.setdefault((p, a), set()).add(sim_id(s))
    no = {(p, a, s): sorted(x).index(s) for (p, a), x in runs_of.items() for s in x}
    joint = {}
    for p, a, s, n, f in ops:
        joint.setdefault((p, n, no[(p, a, sim_id(s))]), []).extend(tuple(x) for x in POPS[f])
    joint = {k: {x for x in v if not any(dom(y, x) for y in v)} for k, v in joint.items()}
    out = {}
    for i, (p, a, s, n, f) in enumerate(ops):
        sol = [tuple(x) for x in POPS[f]]
        nd = [x for x in sol if not any(dom(y, x) for y in sol)]
        j = joint[(p, n, no[(p, a, sim_id(s))])]
        gd, igd = rms(nd, FRONT), rms(FRONT, sol)
        xs = sorted(set(nd))
        hv, top = 0.0, 50.0
        for x, y in xs:
            hv += (50.0 - x) * max(0.0, top - y)
            top = min(top, y)
        vals = [float(cost_of((p, a, s, n, f))), gd, igd, max(gd, igd), max(min(max(q[k] - z[k] for k in range(2)) for q in FRONT) for z in nd),
                math.sqrt(sum(max(x[k] for x in sol) - min(x[k] for x in sol) for k in range(2))), spacing(nd), len(nd) / len(sol), hv,
                len(j & set(nd)) / len(j)]
        for m, v in zip(METRICS, vals):
            out[(p, a, int(n), sim_id(s), m)] = v
    return out


def evaluate(d, how):
    out = {}
    k = 0
    for problem, mod, algos in serialization.each_result(serialization.BudgetResultsExtractor(), d):
        if how == "one problem" and problem != "ZDT1":
            continue
        for algo, results in algos:
            for r in results:
                todo = []
                for metric, _, parts in r["analysis"]:
                    for res, f in zip(r["results"], parts):
                        todo.append((metric, res, f))
                if how == "backwards":
                    todo = todo[::-1]
                for metric, res, f in todo:
                    k += 1
                    if how == "pdi" and metric != "pdi" or how == "half" and k % 2:
                        continue
                    out[(problem, algo, r["budget"], res.simulation_case.id, metric)] = f()
    return out


def many_case(item, rec):
    """23 simulations of one algorithm, 12 of another, three budgets; evaluated, three more simulations and a budget, evaluated again"""
    ops, early, late = [], [], []
    for s in range(26):
        for k, b in enumerate(("500", "1500", "10000", "99")):
            for a, last in (("NSGAII", 26), ("IBEA", 15)):
                if s < last and (s + k) % 4:
                    op = ("ZDT1", a, s, b, "m%d" % ((s * 5 + k * 11 + (a == "IBEA") * 17) % 36))
                    (late if s >= last - 3 or b == "99" else early).append(op)
    for i, a in enumerate(run_config.algorithms):
        if a not in ("NSGAII", "IBEA"):
            (late if i % 6 == 0 else early).append(("ZDT1", a, 0, "500", "u%d" % (i % 36)))
    with runs.store_dir() as d:
        for batch, how in ((early, item["many"]), (late, "all")):
            for op in batch:
                p, a, s, name, f = op
                ops.append(op)
                Serializer(SimulationCase(p, a, 0, None, d, id=sim_id(s))).store(
                    Result([[0.0, 0.0]] * len(POPS[f]), [list(x) for x in POPS[f]], cost=cost_of(op)), name)
            if how == "none":
                continue
            want = reference(ops)
            for again in range(2):
                rec.count("transitions")
                got = evaluate(d, how)
                rec.ok(how != "all" or set(got) == set(want), "covered", lambda: "%d results: values for %d, want %d" % (len(ops), len(got), len(want)))
                for key, v in got.items():
                    rec.ok(key in want and v is not None and near(v, want[key]), "value:" + key[4], lambda: "%d results, evaluated %r: %r is %r, want %r" % (
                        len(ops), how, key, v, want.get(key)))
    rec.count("evaluations")
    rec.outcome(("many", item["many"], len(got)))


def run_case(item, rec):
    if "many" in item:
        return many_case(item, rec)
    n = item["len"]
    first = list(item["adds"])
    tails = [[]]
    for k in range(1, n - 1):
        tails += [list(t) for t in itertools.permutations([i for i in range(len(OPS)) if i not in first], k) if sensible(first + list(t))]
    # what was removed is run again, with other results
    tails += [[i, j] for i in range(len(ADDS), len(OPS)) for j in range(len(ADDS)) if n == 3 and sensible(first + [i, j]) and j not in first and ADDS[j][:2] == OPS[i][:2]]
    for t in tails:
        order = first + t
        gaps = len(order) - 1
        for pattern in itertools.product((EVALS if gaps <= 2 else ("all", "pdi", "half")) if item["deep"] else EVALS if gaps < 2 else ("all", "pdi", "none"), repeat=gaps):
            if gaps > 1 and sum(e == "none" for e in pattern) > 1:
                continue
            rec.count("evaluations")
            with runs.store_dir() as d:
                ops = []
                for step, i in enumerate(order):
                    p, a, s = OPS[i][:3]
                    if i < len(ADDS):
                        name, f = ADDS[i][3:]
                        ops.append(ADDS[i])
                        Serializer(SimulationCase(p, a, 0, None, d, id=SIMS[s])).store(
                            Result([[0.0, 0.0]] * len(POPS[f]), [list(x) for x in POPS[f]], cost=100 + i), name)
                    else:
                        ops = [x for x in ops if x[:3] != OPS[i]]
                        shutil.rmtree(os.path.join(d, p, a, SIMS[s]))
                    how = pattern[step] if step < gaps else "all"
                    if how == "none":
                        continue
                    want = reference(ops)
                    for again in range(2 if step == gaps else 1):
                        rec.count("transitions")
                        got = evaluate(d, how)
                        if how == "all":
                            rec.ok(set(got) == set(want), "covered", lambda: "after %r: values for %r, want %r" % (ops, sorted(set(got) ^ set(want))[:4], len(want)))
                        for key, v in got.items():
                            rec.ok(key in want and v is not None and near(v, want[key]), "value:" + key[4], lambda: "after %r with evaluations %r: %r is %r, want %r" % (
                                ops, pattern, key, v, want.get(key)))
                    rec.outcome(tuple(sorted((k, round(float(v), 9)) for k, v in got.items() if v is not None)))
            if rec.violations:
                return
    rec.sample({"order": order, "pattern": pattern})

"""C12 What was stored is what is found: histories of the result store against a model."""
import itertools
import os
import random
import zlib

import numpy

from mc import env, runs
from mc.core import Chooser, under
from problems.ZDT1 import problem as zdt1
from problems.ZDT2 import problem as zdt2
from simulation import model, run_config, serialization
from simulation.model import SimulationCase
from simulation.serializer import Result, Serializer

PROPERTY = "C12"
LEVEL = "model_checking"
RULE = ("breadth-first over the states of the store (sets of stored results and foreign files) by the operations store / foreign file, "
        "every state reached by the real code from scratch by one of its histories, and every ordered history up to a smaller depth; after "
        "each history the readers are compared with a dictionary model; distinct = distinct states")
ASSUMPTIONS = ["result names are the decimal numbers the runners use (no leading zeros)", "one simulation stores each name once"]

zdt1.pareto_front = [[0.0, 1.0], [1.0, 0.0]]
zdt2.pareto_front = [[0.0, 1.0], [1.0, 0.0]]
# creation order is not directory order
SIMS = ["2021-03-09.235959.999999__4000000", "2021-03-10.000000.000000__0000001", "2020-12-31.235959.000001__0000002"]
STORES = [("ZDT1", "NSGAII", 0, "500"), ("ZDT1", "NSGAII", 1, "500"), ("ZDT1", "NSGAII", 2, "1500"), ("ZDT1", "NSGAII", 0, "1500"),
          ("ZDT1", "NSGAII", 1, "99"), ("ZDT1", "HGS+IBEA", 2, "500"), ("ZDT2", "NSGAII", 1, "500"), ("ZDT1", "NSGAII", 2, "0"),
          ("ZDT1", "NSGAII", 0, "2.5")]
JUNK = [("file", "ZDT1/notes"), ("dir", "ZDT1/NSGAII/old results"), ("file", "ZDT1/NSGAII/%s/500.igd.pickle" % SIMS[0]),
        ("file", "ZDT1/NSGAII/%s/readme.txt" % SIMS[1]), ("dir", "ZDT1/NSGAII/%s/700.pickle" % SIMS[0]),
        ("dir", "ZDT1/NSGAII/%s" % SIMS[2]), ("dir", "ZDT1/NSGAII/2021-01-01__0000001"), ("file", "ZDT1/NSGAII/%s/x500.pickle" % SIMS[0]),
        ("file", "ZDT1/NSGAII/%s/500.pickle.123.tmp" % SIMS[1])]


def sim_id(k):
    """the directory of the k-th simulation; neither creation nor time order is number order"""
    return SIMS[k] if k < len(SIMS) else "2021-%02d-%02d.%06d.%06d__%07d" % (1 + k * 5 % 12, 1 + k * 7 % 28, k * 3571 % 235959, k * 7919 % 999999, k)


OPS = [("store",) + s for s in STORES] + [("junk",) + j for j in JUNK]


def cases(tier):
    q = tier == "quick"
    out = []
    for first in range(len(OPS)):
        out.append({"part": "states", "first": first, "size": 3 if q else 5})
        out.append({"part": "orders", "first": first, "len": 3 if q else 4})
    out.append({"part": "values"})
    out.append({"part": "ids"})
    for k in range(4 if q else 12):
        out.append({"part": "many", "seed": k})
    return out


def bounds(tier):
    return {"operations": len(OPS), "state size": 4 if tier == "quick" else 5, "ordered histories": 3 if tier == "quick" else 4}


def value(op):
    k = OPS.index(op) + 1 if op in OPS else 101 + zlib.crc32(repr(op).encode()) % 100003
    return Result([[k * 0.5, -1.0], [0.1 * k, 2.0]], [[float(k), 3.0], [2.0, k / 3.0]], cost=k * 7)


def same(a, b):
    return repr(a.population) == repr(b.population) and repr(a.fitnesses) == repr(b.fitnesses) and a.additional_data == b.additional_data


def apply(d, op):
    if op[0] == "store":
        _, p, a, s, name = op
        path = Serializer(SimulationCase(p, a, 0, None, d, id=sim_id(s))).store(value(op), name)
        return path
    _, kind, rel = op
    full = os.path.join(d, rel)
    os.makedirs(os.path.dirname(full), exist_ok=True)
    if kind == "dir":
        os.makedirs(full, exist_ok=True)
    else:
        with open(full, "wb") as fh:
            fh.write(b"not a result")


def expect(ops):
    """problem -> algorithm -> number -> [(run_no, sim id, op)]"""
    dirs = {}
    for op in ops:
        if op[0] == "store":
            dirs.setdefault((op[1], op[2]), set()).add(sim_id(op[3]))
        else:
            parts = op[2].split("/")
            if len(parts) >= 3 and parts[2] in SIMS:
                dirs.setdefault((parts[0], parts[1]), set()).add(parts[2])
            elif len(parts) >= 3:
                dirs.setdefault((parts[0], parts[1]), set())
    out = {}
    for (p, a), sims in dirs.items():
        out.setdefault(p, {})[a] = {}
        order = sorted(sims)
        for op in ops:
            if op[0] == "store" and (op[1], op[2]) == (p, a) and op[4].isdigit():
                out[p][a].setdefault(int(op[4]), []).append((order.index(sim_id(op[3])), sim_id(op[3]), op))
    return out


def check(rec, d, ops, extractor, key):
    want = expect(ops)
    got = {}
    for problem, mod, algos in serialization.each_result(extractor(), d):
        rec.ok(problem not in got, "twice", lambda: "%r listed twice" % problem)
        got[problem] = {}
        rec.ok(mod.__name__ == "problems.%s.problem" % problem, "module", lambda: "%s: %r" % (problem, mod))
        for algo, results in algos:
            got[problem][algo] = {}
            last = -1
            for r in results:
                n = r[key]
                rec.ok(r["problem"] == problem and r["algo"] == algo, "labels", lambda: "%r" % {k: r[k] for k in ("problem", "algo")})
                rec.ok(n > last, "order", lambda: "numbers out of order: %r after %r" % (n, last))
                last = n
                got[problem][algo][n] = r["results"]
    what = lambda: "after %r" % (ops,)  # noqa
    def shape(t):
        full = {p: {a: sorted(ns) for a, ns in x.items() if ns} for p, x in t.items()}
        return {p: x for p, x in full.items() if x}
    rec.ok(shape(got) == shape(want),
        "found", lambda: "after %r: found %r, want %r" % (ops, {p: {a: sorted(ns) for a, ns in x.items()} for p, x in got.items()}, {
            p: {a: sorted(ns) for a, ns in x.items()} for p, x in want.items()}))
    for p in got:
        for a in got[p]:
            for n, rs in got[p][a].items():
                w = sorted(want.get(p, {}).get(a, {}).get(n, []))
                rec.ok([(r.run_no, r.simulation_case.id) for r in rs] == [x[:2] for x in w], "runs", lambda: "after %r: %s %s %s holds runs %r, want %r" % (
                    ops, p, a, n, [(r.run_no, r.simulation_case.id) for r in rs], [x[:2] for x in w]))
                for r, (no, sim, op) in zip(rs, w):
                    rec.ok(same(r, value(op)), "content", lambda: "after %r: %s %s %s run %d holds %r" % (ops, p, a, n, no, r.population))
                    rec.ok(r.name == op[4] and r.simulation_case.problem_name == p and r.simulation_case.algorithm_name == a, "metadata",
                           lambda: "after %r: result %r is labelled %r" % (ops, op, (r.name, r.simulation_case)))
                    rec.ok(os.path.samefile(str(r.path), os.path.join(d, p, a, sim, op[4] + ".pickle")), "path", what)
    for op in ops:
        if op[0] == "store":
            back = Serializer(SimulationCase(op[1], op[2], 0, None, d, id=sim_id(op[3]))).load(op[4])
            rec.ok(same(back, value(op)), "load", lambda: "%r loads as %r" % (op, back.population))


def history(rec, ops):
    rec.count("evaluations")
    rec.count("traces")
    with runs.store_dir() as d:
        for op in ops:
            apply(d, op)
            rec.count("transitions")
        ext, key = ((serialization.BudgetResultsExtractor, "budget"), (serialization.TimeResultsExtractor, "time"))[len(ops) % 2]
        check(rec, d, ops, ext, key)
        rec.outcome(tuple(sorted(ops)))


def states_part(item, rec):
    # every set of operations, built in index order
    rest = range(item["first"] + 1, len(OPS))
    for n in range(item["size"]):
        for c in itertools.combinations(rest, n):
            rec.count("states")
            history(rec, [OPS[i] for i in (item["first"],) + c])


def orders_part(item, rec):
    for n in range(1, item["len"] + 1):
        for c in itertools.permutations([i for i in range(len(OPS)) if i != item["first"]], n - 1):
            ops = (item["first"],) + c
            if sum(OPS[i][0] == "store" for i in ops) < 2 or list(ops) == sorted(ops):
                continue
            history(rec, [OPS[i] for i in ops])


def many_part(item, rec):
    """a long campaign: many simulations of one algorithm, budgets of different digit counts, every problem and algorithm
    the configuration lists; stored in different orders"""
    k = item["seed"]
    ops = [("store", "ZDT1", "NSGAII", s, b) for s in range(24) for b in ("0", "9", "40", "99", "100", "500", "1500", "10000", "100000", "2000000")
           if (s + len(b)) % 3]
    ops += [("store", p, a, s, str(500 * (1 + (s + i) % 3))) for i, p in enumerate(run_config.problems) for a in run_config.algorithms[i % 2::2]
            for s in range(3 if a == "IBEA" else 1)]
    ops = list(dict.fromkeys(ops))
    ops = [ops[(i * 7919 + 31 * k) % len(ops)] for i in range(len(ops))] if k else ops
    if k == 1:
        ops = ops[::-1]
    rec.ok(len(set(ops)) == len(ops) and len(ops) > 300, "harness", "not a permutation")
    rec.count("evaluations")
    with runs.store_dir() as d:
        for op in ops:
            apply(d, op)
            rec.count("transitions")
        for ext, key in ((serialization.BudgetResultsExtractor, "budget"), (serialization.TimeResultsExtractor, "time")):
            check(rec, d, ops, ext, key)
    rec.outcome(("many", k))


def values_part(item, rec):
    """the round trip is exact for any numbers"""
    alphabet = [0.0, -0.0, 1.0 / 3, 5e-324, 1.7976931348623157e308, float("inf"), float("-inf"), 2 ** 53 + 1, 0, True,
                numpy.float64(0.1), -1e-300]
    with runs.store_dir() as d:
        k = 0
        for a, b in itertools.product(alphabet, alphabet):
            for pop in ([[a, b]], [(a, b), [b, a]], [], [[a], [a, b]]):
                rec.count("evaluations")
                k += 1
                fit = [[b, a] for _ in pop]
                ser = Serializer(SimulationCase("P", "A", k, None, d, id="s%d" % k))
                name = str(k)
                ser.store(Result(pop, fit, cost=k, extra=a), name)
                back = ser.load(name)
                rec.ok(repr(back.population) == repr(pop) and repr(back.fitnesses) == repr(fit) and repr(back.additional_data) == repr(dict(cost=k, extra=a)),
                       "round-trip", lambda: "%r comes back as %r" % ((pop, fit), (back.population, back.fitnesses)))
                rec.outcome(repr(pop))


class FakeClock(runs.Clock):
    pass


def ids_part(item, rec):
    """simulations of one or several batches never share a directory, and directory order is time order"""
    times = [1577836799.0, 1577836799.999999, 1577836800.0, 1583020800.5, 1600000000.000001, 1609459199.999999, 1609459200.0]
    seen = {}
    stamps = []
    for n, t in enumerate(times):
        clock = FakeClock(t)
        for alt in (None, 0.0, env.TOP):
            with runs.controlled_clock(clock), under(Chooser(base="zero" if alt == 0.0 else "top" if alt else "lcg1")):
                ids = [SimulationCase("P", "A", r, None, "d").id for r in (0, 1, 2, 10, 99)]
            rec.count("evaluations")
            rec.ok(len(set(ids)) == len(ids), "shared", lambda: "simulations of one batch share a directory: %r" % ids)
            for i in ids:
                rec.ok(seen.get(i, n) == n, "shared", lambda: "two batches share the directory %r" % i)
                seen[i] = n
                rec.ok("/" not in i and os.sep not in i, "path", "%r" % i)
            stamps.append((t, ids))
            with runs.store_dir() as d:
                for r, i in enumerate(ids):
                    Serializer(SimulationCase("ZDT1", "A", r, None, d, id=i)).store(Result([[1.0]], [[1.0, 2.0]], cost=r), "5")
                (res, _), = serialization.BudgetResultsExtractor().load("A", "ZDT1", d)
                rec.ok(sorted(x.simulation_case.id for x in res) == sorted(ids), "found", lambda: "stored %r, found %r" % (ids, [x.simulation_case.id for x in res]))
    for (t1, a), (t2, b) in itertools.combinations(stamps, 2):
        if t1 < t2:
            rec.ok(max(a) < min(b), "time-order", lambda: "a later run sorts before an earlier one: %r %r" % (a, b))
    rec.outcome(len(seen))


def run_case(item, rec):
    {"states": states_part, "orders": orders_part, "values": values_part, "ids": ids_part, "many": many_part}[item["part"]](item, rec)
    rec.sample(item)

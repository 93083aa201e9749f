"""C11 The result store is crash- and fault-safe.

The real code runs histories of stores and metric evaluations on a scratch directory below a
library that counts file-system mutations; every operation of every history is a crash point
(process death, machine death) and a fault point."""
import ctypes
import errno
import os
import pickle
import re
import shutil
import sys
import tempfile

from mc import env, runs
from metrics import metrics  # noqa: F401
from problems.ZDT1 import problem as zdt1
from problems.ZDT2 import problem as zdt2
from simulation import serialization, worker
from simulation.serializer import Result, Serializer

PROPERTY = "C11"
LEVEL = "fault_enumeration"
RULE = ("histories of simulation runs, single stores and metric evaluations x every file-system mutation they make x "
        "{process dies there, machine dies there losing unsynced data, that operation fails, all from there on fail} x torn-write cut; "
        "non-trivial = at least one mutation happened before the crash; distinct = distinct surviving file sets")
ASSUMPTIONS = ["a rename is atomic and survives a machine crash; data not fsynced may be lost entirely or by half",
               "mutations go through libc calls (open, write, rename, unlink, mkdir, truncate, fsync)"]

try:
    LIB = ctypes.CDLL(None)
    LIB.shim_log.restype = ctypes.c_char_p
except AttributeError:
    LIB = None

zdt1.pareto_front = [[0.0, 1.0], [1.0, 0.0]]
zdt2.pareto_front = [[0.0, 1.0], [1.0, 0.0]]
SIMS = ["2020-01-01.000000.000001__1000001", "2020-01-01.000000.000002__0000001", "2020-01-02.000000.000003__0000002"]

# ops: ("run", problem, algo, sim, budgets, step costs) | ("store", problem, algo, sim, name, seed) | ("metrics",)
HISTORIES = {
    "two budgets": [("run", "ZDT1", "NSGAII", 0, [2, 6], [2, 2, 2])],
    "two runs": [("run", "ZDT1", "NSGAII", 0, [2], [1, 1]), ("run", "ZDT1", "IBEA", 0, [2], [2])],
    "overwrite": [("store", "ZDT1", "NSGAII", 0, "500", 1), ("store", "ZDT1", "NSGAII", 0, "500", 2)],
    "store then metrics": [("store", "ZDT1", "NSGAII", 0, "500", 1), ("store", "ZDT1", "IBEA", 0, "500", 2), ("metrics",)],
    "metrics, new run, metrics": [("store", "ZDT1", "NSGAII", 0, "500", 1), ("metrics",), ("store", "ZDT1", "NSGAII", 1, "500", 2),
                                  ("store", "ZDT1", "IBEA", 1, "500", 3), ("metrics",)],
    "two problems": [("store", "ZDT1", "NSGAII", 0, "500", 1), ("store", "ZDT2", "NSGAII", 0, "500", 2), ("metrics",),
                     ("store", "ZDT2", "NSGAII", 0, "1500", 3), ("metrics",)],
    "big": [("store", "ZDT1", "NSGAII", 0, "500", 400), ("store", "ZDT1", "NSGAII", 0, "1500", 401)],
}
MODES = [("crash", 1, 0, 0, 0), ("crash", 1, 1, 0, 0), ("crash", 1, 2, 0, 0), ("crash", 1, 3, 0, 0),
         ("power", 2, 0, 0, 0), ("power", 2, 0, 0, 1), ("power", 2, 3, 0, 0),
         ("fault", 3, 0, errno.ENOSPC, 0), ("fault", 3, 0, errno.EIO, 0), ("fault", 3, 0, errno.EACCES, 0),
         ("full", 4, 0, errno.ENOSPC, 0), ("full", 4, 2, errno.ENOSPC, 0)]
SHARDS = 4


def cases(tier):
    q = tier == "quick"
    hs = sorted(HISTORIES)
    out = []
    for h in hs:
        for m, mode in enumerate(MODES):
            if q and h in ("metrics, new run, metrics", "two problems") and mode in (MODES[1], MODES[2], MODES[3], MODES[5], MODES[8], MODES[9]):
                continue
            for s in range(SHARDS):
                out.append({"history": h, "mode": m, "shard": s, "half": q})
    return out


def bounds(tier):
    return {"histories": {k: [list(o) for o in v] for k, v in HISTORIES.items()}, "modes": MODES}


def result(seed):
    if seed >= 400:
        pop = [[i * 0.5, i + 0.25 * seed] for i in range(seed)]
    else:
        pop = [[float(seed), 1.0], [0.5 * seed, 2.0], [float(seed), 3.0 - seed]]
    return Result(pop, [[x[0] + 0.125, x[1] * 0.5] for x in pop], cost=10 * seed)


def as_tuple(r):
    return (repr(r.population), repr(r.fitnesses), repr(r.additional_data))


def expected(history):
    """(op index, relative path, value) in order"""
    out = []
    for i, op in enumerate(history):
        if op[0] == "store":
            out.append((i, "%s/%s/%s/%s.pickle" % (op[1], op[2], SIMS[op[3]], op[4]), as_tuple(result(op[5]))))
        elif op[0] == "run":
            c = k = 0
            for b in op[4]:
                while c < b:
                    c += op[5][k]
                    k += 1
                pop = runs.population(k)
                out.append((i, "%s/%s/%s/%d.pickle" % (op[1], op[2], SIMS[op[3]], b),
                            as_tuple(Result(pop, [[f(x) for f in (runs.f1, runs.f2)] for x in pop], cost=c))))
    return out


def evaluate(d):
    """every metric of every result, by the real code: {(problem, algo, budget, run, metric): value}"""
    out = {}
    for problem, mod, algos in serialization.each_result(serialization.BudgetResultsExtractor(), d):
        for algo, results in algos:
            for r in results:
                for metric, _, parts in r["analysis"]:
                    for res, f in zip(r["results"], parts):
                        v = f()
                        out[(problem, algo, r["budget"], res.simulation_case.id, metric)] = v
    return out


def perform(d, history, emit):
    for i, op in enumerate(history):
        try:
            if op[0] == "store":
                Serializer(runs.case(d, op[1], op[2], id=SIMS[op[3]])).store(result(op[5]), op[4])
                emit(i, True)
            elif op[0] == "run":
                s = runs.Script(op[5])
                sim = runs.case(d, op[1], op[2], id=SIMS[op[3]], budgets=op[4])
                with runs.scripted({(op[1], op[2]): s}):
                    emit(i, worker.BudgetWorker(sim, 0).run() is not None)
            else:
                evaluate(d)
                emit(i, True)
        except Exception:
            emit(i, False)


def child(d, history, mode, target, cut, err, keep):
    """runs the history in a forked process; returns (exit status, {op: acknowledged}, operations, log)"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            LIB.shim_arm(d.encode() + b"/", mode, target, cut, err, keep)
            perform(d, history, lambda i, ok: os.write(w, pickle.dumps((i, ok))))
            if mode == 2:
                LIB.shim_die()
            n = LIB.shim_disarm()
            os.write(w, pickle.dumps(("log", [LIB.shim_log(i).decode() for i in range(min(n, 4096))])))
            os._exit(0)
        except BaseException:
            os._exit(3)
    os.close(w)
    data = b""
    while True:
        b = os.read(r, 1 << 16)
        if not b:
            break
        data += b
    os.close(r)
    _, st = os.waitpid(pid, 0)
    import io
    f = io.BytesIO(data)
    acks, log = {}, []
    while True:
        try:
            k, v = pickle.load(f)
        except EOFError:
            break
        if k == "log":
            log = v
        else:
            acks[k] = v
    return st, acks, log


def files_of(d):
    out = {}
    for root, _, names in os.walk(d):
        for n in names:
            p = os.path.join(root, n)
            out[os.path.relpath(p, d)] = p
    return out


def judge(rec, d, history, acks, what, durable):
    exp = expected(history)
    allowed = {}
    for i, rel, v in exp:
        allowed.setdefault(rel, []).append((i, v))
    present = {}
    for rel, p in files_of(d).items():
        if re.fullmatch(r"[0-9]+\.pickle", os.path.basename(rel)):
            try:
                with open(p, "rb") as fh:
                    v = as_tuple(pickle.load(fh))
            except Exception as e:
                rec.violation("torn", "%s: %s is visible but broken: %r" % (what, rel, e))
                return
            rec.ok(v in [x for _, x in allowed.get(rel, [])], "wrong-content", lambda: "%s: %s holds something never stored" % (what, rel))
            present[rel] = v
    if durable:
        for rel, vs in allowed.items():
            acked = [n for n, (i, _) in enumerate(vs) if acks.get(i)]
            if acked:
                ok = [v for _, v in vs[acked[-1]:]]
                rec.ok(present.get(rel) in ok, "lost", lambda: "%s: %s was stored and is now %s" % (what, rel, "missing" if rel not in present else "older"))
    clean = tempfile.mkdtemp(dir=env.SCRATCH)
    try:
        for root, dirs, _ in os.walk(d):            # a run that stored nothing is still a run
            for x in dirs:
                os.makedirs(os.path.join(clean, os.path.relpath(os.path.join(root, x), d)), exist_ok=True)
        for rel in present:
            os.makedirs(os.path.dirname(os.path.join(clean, rel)), exist_ok=True)
            shutil.copyfile(os.path.join(d, rel), os.path.join(clean, rel))
        want = evaluate(clean)
        try:
            got = evaluate(d)
        except Exception as e:
            rec.violation("unreadable", "%s: evaluating the surviving store raises %s: %s" % (what, type(e).__name__, e))
            return
        rec.ok(set(x[:4] for x in got) == {(r.split("/")[0], r.split("/")[1], int(r.split("/")[3][:-7]), r.split("/")[2]) for r in present}, "extracted",
               lambda: "%s: readers see %r of %r" % (what, sorted(set(x[:4] for x in got)), sorted(present)))
        rec.ok(got == want, "metrics", lambda: "%s: metrics differ from those of the same results without caches: %r" % (
            what, [(k, got.get(k), want.get(k)) for k in sorted(set(got) | set(want)) if got.get(k) != want.get(k)][:3]))
    finally:
        shutil.rmtree(clean, ignore_errors=True)
    rec.outcome((tuple(sorted(present)), len(files_of(d))))


def run_case(item, rec):
    if LIB is None:
        raise OSError("the fault library is not loaded")
    history = [tuple(o) for o in HISTORIES[item["history"]]]
    kind, mode, cut, err, keep = MODES[item["mode"]]
    with runs.store_dir() as d:
        st, acks, log = child(d, history, 0, -1, 0, 0, 0)
        if st != 0 or not log:
            rec.violation("plain", "the history fails without any fault")
            return
        rec.ok(all(acks.get(i) for i in range(len(history))), "plain", "the history fails without any fault: %r" % acks)
        judge(rec, d, history, acks, "%s, no fault" % item["history"], True)
    n = len(log)
    for k in range(item["shard"], n + (1 if mode == 2 else 0), SHARDS):
        if cut and k < n and not log[k].startswith("write"):
            continue
        rec.count("evaluations")
        rec.count("fault_points")
        what = "%s, %s at %d (%s) cut %d err %d" % (item["history"], kind, k, log[k] if k < n else "end", cut, err)
        with runs.store_dir() as d:
            st, acks, _ = child(d, history, mode, k, cut, err, keep)
            code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else -1
            rec.count("crashed" if code == 77 else "survived")
            rec.ok(code in (0, 77), "died", "%s: the process ended with %d" % (what, code))
            # (on a copy: results are immutable, so metrics cached between the two values of an
            # overwritten result are not part of the claim)
            shutil.copytree(d, d + ".copy")
            try:
                judge(rec, d + ".copy", history, acks, what, mode != 2)
            finally:
                shutil.rmtree(d + ".copy", ignore_errors=True)
            if item["half"] and k % 3:
                continue
            # the same history can be run again on what is left
            st, acks2, _ = child(d, history, 0, -1, 0, 0, 0)
            rec.ok(st == 0 and all(acks2.get(i) for i in range(len(history))), "retry", "%s: running the history again fails: %r" % (what, acks2))
            judge(rec, d, history, acks2, what + ", run again", True)
        if len(rec.violations) > 3:
            break
    rec.sample({"history": item["history"], "mode": kind, "operations": n, "log": log[:8]})

"""C20 Statistics and rankings over stored results."""
import collections
import contextlib
import io
import itertools
import math
import os
import re
import statistics as pystat

from mc import env, runs
from mc.core import Chooser, under
import statistic.ranking as ranking
import statistic.stats as stats
import statistic.summary as summary
from problems.ZDT1 import problem as zdt1
from problems.ZDT2 import problem as zdt2
from simulation import serialization
from simulation.model import SimulationCase
from simulation.serializer import Result, Serializer
from statistic import stats_bootstrap
from statistic.stats_bootstrap import find_acceptable_result_for_budget, yield_analysis

validate_cost = getattr(stats_bootstrap, "validate_cost", None)     # a helper of find_acceptable_result_for_budget

PROPERTY = "C20"
LEVEL = "exploration"
RULE = ("all ordered lists of up to 3 values and multisets of more over the alphabet; all outcomes of the resampling as multisets (boot 40, 100) for up to 3 values; all cost tables; "
        "all stores of three algorithms over the value-cost alphabet through the real reports; distinct = distinct analyses / report contents")
ASSUMPTIONS = ["values are finite", "ties between winners may be resolved either way"]

FRONT = [[0.0, 1.0], [1.0, 0.0]]
zdt1.pareto_front = FRONT
zdt2.pareto_front = FRONT
ALPHABET = (-2.0, 0.0, 0.5, 1.0, 3.0, 10.0, 1048576.0)
SIM = ["2021-03-%02d.120000.000000__%07d" % (d, d) for d in range(1, 29)]
TOL = {"hypervolume": 0.005, "igd": 0.05, "ahd": 0.05, "spacing": 0.05, "gd": 0.05, "pdi": 0.005}
BEST = {"hypervolume": max, "igd": min, "ahd": min, "spacing": min, "gd": min, "pdi": max}
METRICS = ["cost", "gd", "igd", "ahd", "epsilon", "extent", "spacing", "ndr", "hypervolume", "pdi"]
ALGOS = ("IBEA", "NSGAII", "SPEA2")
#           (point at the last budget, at the budget before, cost pattern)
POINTS = (1.0, 2.0, 2.04, 2.06, 3.0)
COSTS = ("fine", "edge", "late", "never")
STATES = [(p, POINTS[(i + 2) % len(POINTS)], c) for i, p in enumerate(POINTS) for c in COSTS]


def cases(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2, 3):
        for first in range(len(ALPHABET)):
            out.append({"part": "analysis", "n": n, "first": first, "ordered": True})
    for n in (4, 5, 6) if q else (4, 5, 6, 7, 8):
        for first in range(len(ALPHABET)):
            out.append({"part": "analysis", "n": n, "first": first, "ordered": False})
    for n in (11, 12, 20, 21, 40):
        out.append({"part": "analysis", "n": n, "first": 0, "ordered": None})
    for boot in (1, 2, 39, 40, 80, 100) if q else (1, 2, 39, 40, 41, 79, 80, 81, 100, 119, 120, 200):
        for order in ("up", "down", "mixed"):
            out.append({"part": "quantiles", "boot": boot, "order": order})
    for n in (1, 2, 3):
        out.append({"part": "costs", "n": n})
    for kind in ("rank", "detailed", "table"):
        spaces = [("points:fine" if kind == "rank" else "points3:fine"), "costs:0"] if q else ["points:" + c for c in COSTS] + ["costs:%d" % i for i in range(3)]
        for s in spaces:
            for a in range(5 if s[0] == "p" else 4):
                if not (q and kind != "rank" and s[0] == "p" and a > 2):
                    out.append({"part": kind, "space": s, "a": a})
        if not q:
            for a in range(len(STATES)):
                out.append({"part": kind, "space": "all", "a": a})
    for k in range(16 if q else 48):
        out.append({"part": "stats", "k": k})
    return out


def bounds(tier):
    return {"values": ALPHABET, "list length": "1-6 (8), 11-40 with outliers", "resamples": "1-100 (200), all multisets of 3 values", "algorithms": 3, "problems": 2,
            "stores": "values: all triples of 5; cost patterns: all triples of 4" + ("" if tier == "quick" else "; all triples of 20 states")}


def eq(a, b):
    if a == b:
        return True
    if math.isinf(a) or math.isinf(b) or math.isnan(a) or math.isnan(b):
        return False
    return abs(a - b) <= 1e-9 * max(1.0, abs(a), abs(b))


# ---------------------------------------------------------------- the analysis of a list of values


class Draws(Chooser):
    """remembers which elements were drawn"""

    def __init__(self, n, script=None, base="lcg1"):
        super().__init__(base=base)
        self.n, self.script, self.drawn = n, script, []

    def below(self, m):
        i = self.script[len(self.drawn) % len(self.script)] if self.script is not None else int(self._u() * self.n)
        self.drawn.append(i)
        return min(i, m - 1)

    def unit(self):
        return (self.below(self.n) + 0.5) / self.n


def percentile(xs, q):
    xs = sorted(xs)
    pos = (len(xs) - 1) * q
    i = int(pos)
    return xs[i] + (xs[min(i + 1, len(xs) - 1)] - xs[i]) * (pos - i)


def share(k, n):
    return "{0:6.2f}%".format(k * 100.0 / n) if k else "--"


def relative(a, b):
    return 100.0 * (a - b) / b if b != 0 else float("inf")


def resample_means(values, drawn, boot):
    k = len(drawn) // boot
    return sorted(math.fsum(values[i] for i in drawn[r * k:(r + 1) * k]) / k for r in range(boot))


def check_analysis(rec, values, boot, chooser):
    keep = list(values)
    with under(chooser):
        got = yield_analysis(values, boot)
    rec.count("evaluations")
    what = lambda: "analysis of %r (%d resamples)" % (values, boot)
    rec.ok(values == keep, "input", lambda: what() + " changes its input")
    n = len(values)
    mean = math.fsum(values) / n
    sd = math.sqrt(math.fsum((x - mean) ** 2 for x in values) / n)
    q1, q3 = percentile(values, 0.25), percentile(values, 0.75)
    iq = q3 - q1
    fences = (q1 - 3 * iq, q1 - 1.5 * iq, q3 + 1.5 * iq, q3 + 3 * iq)
    inside = [x for x in values if fences[1] <= x <= fences[2]]
    extreme = [x for x in values if x < fences[0] or x > fences[3]]
    mild = n - len(inside) - len(extreme)
    m2 = math.fsum(inside) / len(inside) if inside else -float("inf")
    sd2 = math.sqrt(math.fsum((x - m2) ** 2 for x in inside) / len(inside)) if inside else 0.0
    for key, want in (("low_out_fence", fences[0]), ("low_inn_fence", fences[1]), ("upp_inn_fence", fences[2]), ("upp_out_fence", fences[3]), ("mean", mean), ("stdev", sd),
                      ("lower", mean - 3 * sd), ("upper", mean + 3 * sd), ("metrics_nooutliers", m2), ("stdev_nooutliers", sd2)):
        rec.ok(eq(float(got[key]), want), key, lambda: what() + ": %s is %r, want %r" % (key, got[key], want))
    rec.ok(got["mild_outliers"] == share(mild, n), "mild_outliers", lambda: what() + ": mild outliers %r, want %r" % (got["mild_outliers"], share(mild, n)))
    rec.ok(got["extr_outliers"] == share(len(extreme), n), "extr_outliers", lambda: what() + ": extreme outliers %r, want %r" % (got["extr_outliers"], share(len(extreme), n)))
    if abs(mean) > 1e-9 or mean == 0:
        rec.ok(eq(float(got["mean_nooutliers_diff"]), relative(m2, mean)), "mean_nooutliers_diff", lambda: what() + ": %r, want %r" % (got["mean_nooutliers_diff"], relative(m2, mean)))
    if sd > 1e-9 or sd == 0:
        rec.ok(eq(float(got["stdev_nooutliers_diff"]), relative(sd2, sd)), "stdev_nooutliers_diff", lambda: what() + ": %r, want %r" % (got["stdev_nooutliers_diff"], relative(sd2, sd)))
    near = [x for x in values if abs(abs(x - mean) - 3 * sd) < 1e-9]
    if not near or sd == 0:
        good = sum(abs(x - mean) <= 3 * sd for x in values) >= 0.95 * n
        rec.ok((got["goodbench"] == "✓") == good, "goodbench", lambda: what() + ": %s" % got["goodbench"])
    b = got["btstrpd"]
    rec.ok(eq(float(b["metrics"]), mean), "result", lambda: what() + ": the result is %r, want %r" % (b["metrics"], mean))
    rec.ok(eq(b["confidence"], 95.0), "confidence", lambda: what() + ": confidence %r" % b["confidence"])
    rec.ok(len(chooser.drawn) == boot * max(1, int(n * 0.66)), "resample-size", lambda: what() + ": %d draws" % len(chooser.drawn))
    rec.ok(all(0 <= i < n for i in chooser.drawn), "draw", "an element outside the list is drawn")
    means = resample_means(values, chooser.drawn, boot)
    lo, hi = means[int(boot * 0.025)], means[int(boot * 0.975)]
    rec.ok(eq(float(b["from"]), lo) and eq(float(b["to"]), hi), "interval", lambda: what() + ": interval [%r, %r], quantiles of the resampled means [%r, %r]" % (b["from"], b["to"], lo, hi))
    if abs(mean) > 1e-9 or mean == 0:
        spread = 100.0 * (hi - lo) / mean if mean else float("inf")
        rec.ok(eq(float(got["pr_dispersion"]), spread), "dispersion", lambda: what() + ": dispersion %r, want %r" % (got["pr_dispersion"], spread))
        if mean and abs(abs(spread) - 30) > 1e-6:
            rec.ok((got["dispersion_warn"].strip() == "HIGH") == (abs(spread) > 30), "dispersion-warning", lambda: what() + ": dispersion %r, warning %r" % (spread, got["dispersion_warn"]))
    rec.outcome((n, round(mean, 6), round(lo, 6), round(hi, 6), mild, len(extreme)))


def analysis_part(item, rec):
    n, first = item["n"], ALPHABET[item["first"]]
    if item["ordered"]:
        lists = [[first] + list(t) for t in itertools.product(ALPHABET, repeat=n - 1)]
    elif item["ordered"] is False:
        lists = [[first] + list(t) for t in itertools.combinations_with_replacement(ALPHABET[item["first"]:], n - 1)]
    else:
        lists = [[0.5] * (n - k - m) + [a] * k + [b] * m for a, b in itertools.permutations(ALPHABET, 2) for k in (0, 1, 2) for m in (0, 1, 3)]
        lists += [[1.0 + i / 8.0 for i in range(n - 1)] + [a] for a in ALPHABET]
        lists = [v for v in lists if len(v) == n]
    for values in lists:
        for boot, base in ((1, "lcg1"), (7, "lcg2"), (40, "lcg1"), (100, "lcg3")):
            if boot > 7 and n > 8 and values.index(max(values)) % 2:
                continue
            check_analysis(rec, list(values), boot, Draws(n, base=base))
        if rec.violations:
            return
    rec.sample(item)


def quantiles_part(item, rec):
    boot = item["boot"]
    for values in ([1.0, 2.0, 4.0], [4.0, 1.0, 2.0], [-1.0, 0.5, 0.5], [2.0, 3.0], [7.0]):
        n = len(values)
        if n == 3 and values[0] != 1.0 and boot > 40:
            continue
        for a in range(boot + 1) if n > 1 else [boot]:
            for b in (range(boot + 1 - a) if n == 3 else [boot - a]):
                seq = [0] * a + [1] * b + [2] * (boot - a - b)
                if n < 3:
                    seq = [min(i, n - 1) for i in seq]
                if item["order"] == "down":
                    seq = seq[::-1]
                elif item["order"] == "mixed":
                    seq = [seq[i * 7 % boot] for i in range(boot)] if boot % 7 else seq[::2] + seq[1::2]
                check_analysis(rec, list(values), boot, Draws(n, script=seq))
        if rec.violations:
            return


# ---------------------------------------------------------------- costs


def costs_part(item, rec):
    """which of the results of increasing budgets counts for a budget: the last whose cost is at most 500 over"""
    budgets = (500, 1000, 2000)
    levels = (0, 500, 999, 1000, 1001, 1500, 1501, 2499, 2500, 2501, 10 ** 6)
    for n in (item["n"],):
        for bs in itertools.combinations(budgets, n):
            for costs in itertools.product(levels, repeat=n):
                for spread in (0, 100):
                    table = []
                    for b, c in zip(bs, costs):
                        parts = [c - spread, c + spread]
                        table.append({"budget": b, "analysis": [("gd", "x", [lambda: 0.0]), ("cost", "y", [lambda p=p: p for p in parts])]})
                    rec.count("evaluations")
                    with under(Chooser()):
                        got = find_acceptable_result_for_budget(table, 3)
                        single = [validate_cost(t, 3) for t in table] if validate_cost else None
                    want = next((t for t, c in reversed(list(zip(table, costs))) if c <= bs[-1] + 500), None)
                    rec.ok(got is want, "acceptable", lambda: "budgets %r with mean costs %r: %r counts, want %r" % (bs, costs, got and got["budget"], want and want["budget"]))
                    wants = [c <= b + 500 for b, c in zip(bs, costs)]
                    rec.ok(single is None or [bool(s) for s in single] == wants, "valid-cost", lambda: "budgets %r with mean costs %r: valid %r" % (bs, costs, single))
                    rec.outcome((bs, costs))
    no_cost = [{"budget": 5, "analysis": [("gd", "x", [lambda: 0.0])]}]
    with under(Chooser()):
        rec.ok(find_acceptable_result_for_budget(no_cost, 3) is no_cost[0], "no-cost", "a result without cost data is refused")


# ---------------------------------------------------------------- rankings


@contextlib.contextmanager
def place():
    """a working directory beside which the default results directory can lie"""
    here = os.getcwd()
    with runs.store_dir() as d:
        work = os.path.join(d, "a", "work")
        os.makedirs(work)
        os.chdir(work)
        try:
            yield work
        finally:
            os.chdir(here)


def put(root, problem, algo, run, name, points, cost):
    Serializer(SimulationCase(problem, algo, 0, None, root, id=SIM[run])).store(Result([[0.0, 0.0]] * len(points), [list(p) for p in points], cost=cost), name)


def output(f, *a):
    buf = io.StringIO()
    with contextlib.redirect_stdout(buf), under(Chooser()):
        f(*a)
    return buf.getvalue()


def averages(root):
    """(problem, algorithm, budget) -> metric -> mean over the runs, in order of budgets"""
    out = collections.OrderedDict()
    with contextlib.redirect_stdout(io.StringIO()):
        for problem, _, algos in serialization.each_result(serialization.BudgetResultsExtractor(), root):
            for algo, results in algos:
                for r in results:
                    out[(problem, algo, r["budget"])] = {m: pystat.mean(float(f()) for f in parts) for m, _, parts in r["analysis"]}
    return out


MEMO = {}


def expected(problem, states, names):
    """the averages of one problem, from a store of its own"""
    key = problem, tuple(states), names
    if key not in MEMO:
        if len(MEMO) > 5000:
            MEMO.clear()
        with runs.store_dir() as d:
            fill(d, problem, states, names)
            MEMO[key] = averages(d)
    return MEMO[key]


def both(one, two, names):
    out = dict(expected("ZDT1", one, names))
    out.update(expected("ZDT2", two, names))
    return out


def fill(root, problem, states, names):
    """two budgets, two runs for each algorithm"""
    low, high = names
    for algo, (p, before, pattern) in zip(ALGOS, states):
        top = {"fine": int(high), "edge": int(high) + 500, "late": int(high) + 502, "never": int(high) + 10000}[pattern]
        first = {"fine": int(low), "edge": int(low) + 500, "late": int(high) + 499, "never": int(high) + 600}[pattern]
        for run in (0, 1):
            put(root, problem, algo, run, low, [[before + 0.01 * run, 0.0]], first - run)
            put(root, problem, algo, run, high, [[p, 0.0]] if run == 0 else [[p - 0.01, 0.0], [0.0, p]], top + run - (pattern == "edge"))


def winners(scores, metric):
    best = BEST[metric](scores.values())
    top = [a for a in scores if scores[a] == best]
    near = [a for a in scores if (min(scores[a], best) + 1e-16) / (max(scores[a], best) + 1e-16) >= 1 - TOL[metric]]
    return top, near


def combos(item):
    """what the three algorithms did on the first and on the second problem"""
    kind, _, arg = item["space"].partition(":")
    a = item["a"]
    if kind in ("points", "points3"):            # all triples of values
        n = 5 if kind == "points" else 3
        triples = [[STATES[4 * i + COSTS.index(arg)] for i in (a, b, c)] for b in range(n) for c in range(n)]
    elif kind == "costs":           # all triples of cost patterns
        pts = [(0, 1, 2), (3, 1, 4), (2, 2, 3)][int(arg)]
        triples = [[STATES[4 * p + i] for p, i in zip(pts, (a, b, c))] for b in range(4) for c in range(4)]
    else:                           # everything
        triples = [[STATES[i] for i in (a, b, c)] for b in range(len(STATES)) for c in range(len(STATES))]
    for k, t in enumerate(triples):
        yield tuple(t), (STATES[(k * 3 + a) % len(STATES)], STATES[k % len(STATES)], STATES[(a + 5) % len(STATES)])


def check_points(rec, what, printed, wanted):
    """printed: name -> points, wanted the same"""
    rec.ok(printed == wanted, "points", lambda: "%s: points %r, want %r" % (what(), printed, wanted))


def counted(line):
    return {m.group(1): int(m.group(2)) for m in re.finditer(r"([\w+]+) \((\d+)\)", line)}


def rank_part(item, rec):
    for one, two in combos(item):
        with place() as work:
            root = os.path.join(work, serialization.RESULTS_DIR)
            fill(root, "ZDT1", one, ("500", "1000"))
            fill(root, "ZDT2", two, ("500", "1000"))
            text = output(ranking.rank, {"--bootstrap": "4"})
        table = both(one, two, ("500", "1000"))
        rec.count("evaluations")
        what = lambda: "ranking of %r" % ((one, two),)
        scores = {}
        for problem in ("ZDT1", "ZDT2"):
            for algo in ALGOS:
                ok = [table[(problem, algo, b)] for b in (1000, 500) if table[(problem, algo, b)]["cost"] <= 1500]
                if ok:
                    for m in BEST:
                        scores.setdefault((problem, m), {})[algo] = ok[0][m]
        problem_lines = re.findall(r"^(ZDT\d), (\w+) : (\S+)$", text, re.M)
        rec.ok(sorted((p, m) for p, m, _ in problem_lines) == sorted(scores), "rows", lambda: "%s: rows %r" % (what(), problem_lines))
        total = {}
        for p, m, a in problem_lines:
            if (p, m) not in scores:
                continue
            top, near = winners(scores[(p, m)], m)
            rec.ok(a in top, "winner:" + m, lambda: "%s: the winner of %s, %s is %s, values %r" % (what(), p, m, a, scores[(p, m)]))
            t = total.setdefault(m, {})
            for x in near:
                t[x] = t.get(x, 0) + (2 if len(near) == 1 else 1)
        tail = text.split("Global ranking", 1)[-1]
        glob = {m: counted(rest) for m, rest in re.findall(r"^(\w+) : (.*\(\d+\).*)$", tail, re.M)}
        check_points(rec, what, glob, total)
        for m, rest in re.findall(r"^(\w+) : (.*\(\d+\).*)$", tail, re.M):
            nums = [int(x) for x in re.findall(r"\((\d+)\)", rest)]
            rec.ok(nums == sorted(nums, reverse=True), "order", lambda: "%s: %s is not in order: %s" % (what(), m, rest))
        rec.outcome(tuple(sorted((m, tuple(sorted(t.items()))) for m, t in glob.items())))
        if rec.violations:
            return


def sections(text, dirs):
    """the output for each results directory"""
    parts = re.split(r"^\*\*\*(.*?)\*\*\*$", text, flags=re.M)
    return {parts[i]: parts[i + 1] for i in range(1, len(parts), 2) if parts[i] in dirs}


def detailed_part(item, rec):
    dirs = ranking.result_dirs
    for one, two in combos(item):
        with place() as work:
            for k, d in enumerate(dirs):
                fill(os.path.join(work, d), "ZDT1", one[k:] + one[:k], ("500", "1000"))
                fill(os.path.join(work, d), "ZDT2", two, ("500", "1000"))
            text = sections(output(ranking.detailed_rank, {"--bootstrap": "4"}), dirs)
        tables = {d: both(one[k:] + one[:k], two, ("500", "1000")) for k, d in enumerate(dirs)}
        rec.count("evaluations")
        for d in dirs:
            what = lambda: "detailed ranking of %s with %r" % (d, (one, two))
            rows = {(int(b), m): counted(rest) for b, m, rest in re.findall(r"^(\d+) (\w+) : (.*)$", text[d], re.M)}
            least, most, n = {}, {}, {}
            for problem, budget, m in itertools.product(("ZDT1", "ZDT2"), (500, 1000), BEST):
                scores = {a: tables[d][(problem, a, budget)][m] for a in ALGOS if tables[d][(problem, a, budget)]["cost"] <= budget + 500}
                if not scores:
                    continue
                top, _ = winners(scores, m)
                key = (budget, m)
                n[key] = n.get(key, 0) + 1
                for a in top:
                    most.setdefault(key, {}).setdefault(a, 0)
                    most[key][a] += 1
                if len(top) == 1:
                    least.setdefault(key, {}).setdefault(top[0], 0)
                    least[key][top[0]] += 1
            rec.ok(sorted(rows) == sorted(n), "rows", lambda: "%s: rows %r, want %r" % (what(), sorted(rows), sorted(n)))
            for key, got in rows.items():
                rec.ok(sum(got.values()) == n.get(key) and all(v <= most.get(key, {}).get(a, 0) for a, v in got.items())
                       and all(got.get(a, 0) >= v for a, v in least.get(key, {}).items()), "wins",
                       lambda: "%s: %r won %r, sure %r, possible %r, of %r" % (what(), key, got, least.get(key), most.get(key), n.get(key)))
            rec.outcome(tuple(sorted((k, tuple(sorted(v.items()))) for k, v in rows.items())))
        if rec.violations:
            return


def table_part(item, rec):
    dirs = ranking.result_dirs
    for one, two in combos(item):
        with place() as work:
            for k, d in enumerate(dirs):
                fill(os.path.join(work, d), "ZDT1", one[k:] + one[:k], ("20", "40"))
                fill(os.path.join(work, d), "ZDT2", two, ("20", "40"))
            text = output(ranking.table_rank, {"--bootstrap": "4"})
        tables = {d: both(one[k:] + one[:k], two, ("20", "40")) for k, d in enumerate(dirs)}
        rec.count("evaluations")
        body = text[text.index("\\begin{table}"):]
        rows = re.findall(r"^(\d* ?)& (\w+) (&.*)\\\\$", body, re.M)
        rec.ok([m for _, m, _ in rows] == ["ahd", "gd", "igd", "hypervolume", "pdi", "spacing"] and rows[0][0].strip() == "40", "rows", lambda: "table rows %r" % [r[:2] for r in rows])
        for _, m, cells in rows:
            cells = cells.split("& ")[1:]
            rec.ok(len(cells) == len(dirs), "columns", lambda: "table row %s has %d columns" % (m, len(cells)))
            for d, cell in zip(dirs, cells):
                points = {}
                for problem in ("ZDT1", "ZDT2"):
                    scores = {a: tables[d][(problem, a, 40)][m] for a in ALGOS}
                    _, near = winners(scores, m)
                    for a in near:
                        points[a] = points.get(a, 0) + (2 if len(near) == 1 else 1)
                got = re.findall(r"([\w+]+) \((\d+)\)(\$\^\*\$)?", cell)
                order = sorted(points.values(), reverse=True)
                rec.ok([int(p) for _, p, _ in got] == order[:2] and all(points.get(a) == int(p) for a, p, _ in got) and len({a for a, _, _ in got}) == len(got), "cell:" + m,
                       lambda: "table of %r: cell %r for %s in %s, points %r" % ((one, two), cell, m, d, points))
                for a, p, star in got:
                    hidden = sum(v == int(p) for x, v in points.items() if x not in [g[0] for g in got])
                    rec.ok(bool(star) == bool(hidden), "star", lambda: "table: cell %r of points %r" % (cell, points))
                rec.outcome((m, tuple(sorted(points.items()))))
        if rec.violations:
            return


# ---------------------------------------------------------------- the report


def stats_part(item, rec):
    k = item["k"]
    n_runs = (1, 2, 3, 5, 11, 12, 13, 20)[k % 8]
    kinds = [(0, 0), (1, 50), (2, 3), (1, -0.5)][(k // 8) % 4]
    content = {}
    with place() as work:
        root = os.path.join(work, "mine" if k % 3 else serialization.RESULTS_DIR)
        for pi, problem in enumerate(("ZDT1", "ZDT2")):
            for ai, algo in enumerate(ALGOS[:1 + (k + pi) % 3]):
                for name in ("500", "1000")[:1 + (k + ai) % 2]:
                    for run in range(n_runs):
                        out = kinds[1] if run < kinds[0] else 0.0
                        t = 2.0 + 0.125 * (run % 3 + ai) + out
                        put(root, problem, algo, run, name, [[t, 0.0], [0.0, t + 0.5 * (run % 2)]], int(name) + 3 * run + int(out) * 100)
                    content[(problem, algo, int(name))] = n_runs
        text = output(stats.statistics, {"--bootstrap": "50", "-j": "1", "--dir": "mine" if k % 3 else None})
        listing = None
        if not k % 3:
            listing = output(summary.analyse_results)
        values = {}
        with contextlib.redirect_stdout(io.StringIO()):
            for problem, _, algos in serialization.each_result(serialization.BudgetResultsExtractor(), root):
                for algo, results in algos:
                    for r in results:
                        for m, _, parts in r["analysis"]:
                            values[(problem, algo, r["budget"], m)] = [float(f()) for f in parts]
    rec.count("evaluations")
    rows = {}
    lines = text.splitlines()
    suspicious = {}
    last = None
    for line in lines:
        cols = [c.strip() for c in line.split(" :: ")]
        if len(cols) >= 11 and cols[0] in ("ZDT1", "ZDT2"):
            last = (cols[0], cols[1], int(cols[3]), cols[4])
            rec.ok(last not in rows, "repeated", lambda: "the report has two rows for %r" % (last,))
            rows[last] = cols
        elif "::" in line and last is not None:
            suspicious.setdefault(last, []).append(line)
    want = {c + (m,) for c in content for m in METRICS}
    rec.ok(set(rows) == want, "rows", lambda: "rows of the report: too many %r, missing %r" % (sorted(set(rows) - want)[:3], sorted(want - set(rows))[:3]))
    number = r"[-+]?(?:inf|[\d.]+)"
    for key, cols in sorted(rows.items()):
        data = values.get(key, [])
        n = content.get(key[:3])
        rec.ok(len(data) == n and cols[2] == str(n), "runs", lambda: "row %r reports %s runs, stored %r" % (key, cols[2], n))
        if not data:
            continue
        with under(Chooser()):
            a = yield_analysis(data, 50)
        lo, mid, hi = [float(x) for x in re.findall(number, cols[6])]
        rec.ok(abs(mid - a["btstrpd"]["metrics"]) <= 0.00051, "result", lambda: "row %r: result %r of %r" % (key, cols[6], data))
        rec.ok(min(data) - 0.00051 <= lo <= hi <= max(data) + 0.00051, "interval", lambda: "row %r: interval %r of %r" % (key, cols[6], data))
        rec.ok(abs(float(cols[7]) - a["stdev"]) <= 0.00051, "deviation", lambda: "row %r: deviation %r of %r" % (key, cols[7], data))
        rec.ok(cols[8].split() == (a["mild_outliers"].split() + ["mild"] + a["extr_outliers"].split() + ["extr."]), "outliers", lambda: "row %r: outliers %r of %r" % (key, cols[8], data))
        rec.ok(abs(float(re.findall(number, cols[9])[0]) - a["metrics_nooutliers"]) <= 0.00051, "without-outliers", lambda: "row %r: %r of %r" % (key, cols[9], data))
        bad = a["goodbench"] != "✓"
        rec.ok((cols[5] == "✓") == (not bad), "good", lambda: "row %r: %r of %r" % (key, cols[5], data))
        rec.ok(bad == (key in suspicious and any("Suspicious" in s for s in suspicious[key])), "suspicious", lambda: "row %r of %r" % (key, data))
        if bad:
            rec.count("suspicious")
            marked = {}
            for s in suspicious[key]:
                m = re.search(r":: +(\S+)  = avg (\S+) ", s)
                if m:
                    marked.setdefault(float(m.group(1)), set()).add(("out of mean" in s, "mild" in s, "EXTREME" in s))
            for x in set(data):
                flags = [f for v, fs in marked.items() if abs(v - x) <= 1e-9 * max(1, abs(x)) for f in fs]
                right = (not a["lower"] <= x <= a["upper"], a["low_out_fence"] <= x < a["low_inn_fence"] or a["upp_inn_fence"] < x <= a["upp_out_fence"],
                         x < a["low_out_fence"] or x > a["upp_out_fence"])
                rec.ok(flags == [right], "marks", lambda: "row %r: value %r is marked (outside, mild, extreme) %r, want %r" % (key, x, flags, right))
            out = sum(not a["lower"] <= x <= a["upper"] for x in data)
            rec.ok(any(re.search(r"::\s+%d /\s*%d " % (out, len(data)), s) for s in suspicious[key]), "outside-count", lambda: "row %r: %d of %d values are outside; report %r" % (
                key, out, len(data), suspicious[key][:2]))
    if listing is not None:
        got = sorted(tuple(line.split()) for line in listing.splitlines() if line.startswith("ZDT") and len(line.split()) == 4)
        rec.ok(got == sorted((p, a, str(b), str(n)) for (p, a, b), n in content.items()), "summary", lambda: "summary %r of %r" % (got, content))
    rec.outcome((k, len(rows)))


def run_case(item, rec):
    {"analysis": analysis_part, "quantiles": quantiles_part, "costs": costs_part, "rank": rank_part, "detailed": detailed_part, "table": table_part, "stats": stats_part}[item["part"]](item, rec)

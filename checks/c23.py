"""C23 Figures show what the store holds."""
import collections
import contextlib
import io
import itertools
import math
import os

from mc import env, runs
from mc.core import Chooser, under
import checks.c20 as c20
from checks.c20 import SIM, STATES, put, averages
import matplotlib
matplotlib.use("Agg")
import matplotlib.collections
import matplotlib.figure
import matplotlib.pyplot as plt
from problems.UF1 import problem as uf1
from problems.UF8 import problem as uf8
from problems.ZDT3 import problem as zdt3
from simulation import serialization
with contextlib.redirect_stdout(io.StringIO()):
    from plots import best_fronts, pictures, violin

PROPERTY = "C23"
LEVEL = "exploration"
RULE = ("all stores over the listed contents: which times, values and cost patterns each of three algorithms has on two problems; the real figure commands run on each and every figure written is read back; "
        "distinct = distinct sets of figures")
ASSUMPTIONS = ["figures are read as drawn, before rendering", "an algorithm the figures have no style for may be left out"]

BEST = ("hypervolume", "igd", "ahd", "spacing", "gd", "pdi")
ORDER = list(pictures.algos_order)
uf1.pareto_front = c20.FRONT
uf8.pareto_front = [[0.0, 0.0, 1.0], [0.0, 1.0, 0.0], [1.0, 0.0, 0.0]]
ZDT3_FRONT = [[0.0, 1.0], [0.02, 0.9], [0.04, 0.8], [0.2, 0.6], [0.22, 0.5], [0.4, 0.2], [0.42, 0.1], [0.44, 0.0]]
zdt3.pareto_front = ZDT3_FRONT
TIMES = ((), ("3",), ("20",), ("3", "20"), ("20", "100"), ("3", "20", "100"))
TEAMS = (("IBEA", "NSGAII", "OMOPSO"), ("IMGA+IBEA", "HGS+IBEA", "IBEA"), ("SPEA2", "NSGAIII", "DHGS+NSGAII"), ("SMSEMOA", "JGBL", "HGS+SMSEMOA"), ("NSLS", "IMGA+SPEA2", "IMGA+NSLS"))
VALUES = (0.0, 0.5, 1.0, 4.0)


def cases(tier):
    q = tier == "quick"
    out = []
    for a in range(len(TIMES)):
        for b in range(len(TIMES)):
            if not q or (a + 2 * b) % 3 == 0:
                out.append({"part": "times", "a": a, "b": b, "wide": not q})
    for pattern in itertools.product(range(4), repeat=2):
        out.append({"part": "summary", "patterns": pattern, "wide": not q})
    for t in range(len(TEAMS)):
        for p in range(4 if q else 16):
            out.append({"part": "fronts", "team": t, "k": p})
            out.append({"part": "violins", "team": t, "k": p})
    for f in ("pictures_time", "pictures_summary", "best_fronts", "violin"):
        out.append({"part": "nothing", "what": f})
    return out


def bounds(tier):
    return {"algorithms": "3 of %d teams" % len(TEAMS), "problems": "2 of ZDT1, ZDT2, ZDT3, UF1, UF8", "times": TIMES, "runs": "1-3", "metrics": BEST}


# ---------------------------------------------------------------- reading figures


class Figures(collections.OrderedDict):
    """file name -> the axes as they were when the figure was saved"""

    def read(self, fig, path):
        out = []
        for ax in fig.axes:
            lines = []
            for l in ax.lines:
                z = getattr(l, "_verts3d", None)
                data = list(zip(*[[float(v) for v in d] for d in (z if z is not None else (l.get_xdata(), l.get_ydata()))]))
                lines.append({"label": l.get_label(), "data": data, "style": (matplotlib.colors.to_hex(l.get_color()), str(l._dashSeq if l._us_dashSeq is None else l._us_dashSeq))})
            clouds = []
            for c in ax.collections:
                if isinstance(c, matplotlib.collections.PathCollection):
                    z = getattr(c, "_offsets3d", None)
                    data = list(zip(*[[float(v) for v in d] for d in z])) if z is not None else [tuple(float(v) for v in o) for o in c.get_offsets()]
                    clouds.append({"label": c.get_label(), "data": data, "paths": len(c.get_paths())})
            segments = [[[tuple(float(v) for v in p) for p in s] for s in c.get_segments()] for c in ax.collections if isinstance(c, matplotlib.collections.LineCollection) and not hasattr(c, "_segments3d")]
            out.append({"lines": lines, "clouds": clouds, "segments": segments, "xlim": ax.get_xlim(), "ylim": ax.get_ylim(), "ylabel": ax.get_ylabel(), "title": ax.get_title(),
                        "ticks": [(float(x), t.get_text()) for x, t in zip(ax.get_xticks(), ax.get_xticklabels())]})
        legends = [[(t.get_text(), h) for t, h in zip(l.get_texts(), l.legendHandles)] for l in list(fig.legends) + [a.get_legend() for a in fig.axes if a.get_legend()]]
        self[path] = {"axes": out, "legends": legends}


@contextlib.contextmanager
def reading():
    figures = Figures()

    def savefig(self, fname, *args, **kw):
        figures.read(self, os.path.abspath(str(fname)))
        if not os.path.isdir(os.path.dirname(os.path.abspath(str(fname)))):
            raise FileNotFoundError(str(fname))

    keep = matplotlib.figure.Figure.savefig
    matplotlib.figure.Figure.savefig = savefig
    try:
        yield figures
    finally:
        matplotlib.figure.Figure.savefig = keep
        plt.close("all")


def draw(rec, what, f, root, out, **more):
    args = {"--bootstrap": "4", "--dir": root, "-o": out, "--selected": "", **more}
    with reading() as figures, contextlib.redirect_stdout(io.StringIO()), under(Chooser()):
        try:
            f(args)
        except Exception as e:
            rec.ok(False, "failure:" + f.__name__ + ":" + type(e).__name__, "%s fails: %s: %s" % (what(), type(e).__name__, e))
            return None
    rec.count("evaluations")
    both = collections.defaultdict(dict)
    for path, fig in figures.items():
        name, ext = os.path.splitext(os.path.relpath(path, out))
        both[name][ext] = fig
    for name, kinds in both.items():
        rec.ok(set(kinds) == {".pdf", ".eps"}, "formats", lambda: "%s: %s is written as %r" % (what(), name, sorted(kinds)))
    return {name: kinds.get(".pdf") or kinds.get(".eps") for name, kinds in both.items()}


def near(a, b, tol=1e-6):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def same(one, two):
    return len(one) == len(two) and all(len(p) == len(q) and all(near(x, y) for x, y in zip(p, q)) for p, q in zip(one, two))


def named(figures, folder, prefix):
    """(problem, metric) -> figure"""
    start = folder + "/" + prefix
    return {n[len(start):]: f for n, f in figures.items() if n.startswith(start)}


# ---------------------------------------------------------------- pictures: metrics over time

MEMO = {}


def content_of(fill, key):
    """the averages of a store built by fill, computed on a copy of its own"""
    if key not in MEMO:
        if len(MEMO) > 2000:
            MEMO.clear()
        with runs.store_dir() as d:
            fill(d)
            MEMO[key] = averages(d)
    return MEMO[key]


def times_fill(team, plan):
    def fill(root):
        for problem, sets in plan:
            for i, (algo, times) in enumerate(zip(team, sets)):
                for j, t in enumerate(times):
                    for run in range(1 + (i + j) % 3):
                        x = 2.0 + i - 0.5 * j + 0.25 * run
                        put(root, problem, algo, run, t, [[x, 0.0], [0.0, x + run]], 100 * j + run)
    return fill


def times_part(item, rec):
    styles = {}
    for c in range(len(TIMES)):
        if not item["wide"] and (c + item["a"] + item["b"]) % 2:
            continue
        k = item["a"] * 36 + item["b"] * 6 + c
        team = TEAMS[k % len(TEAMS)]
        one = tuple(TIMES[i] for i in (item["a"], item["b"], c))
        plan = [("ZDT1", one), ("ZDT2", (TIMES[(c + 2) % 6], TIMES[(c + 1) % 6], TIMES[k % 6]))] if k % 3 else [("ZDT1", one)]
        fill = times_fill(team, plan)
        what = lambda: "pictures of the times %r of %r" % (plan, team)
        with runs.store_dir() as d:
            root, out = os.path.join(d, "store"), os.path.join(d, "out", "plots")
            os.makedirs(root)
            fill(root)
            figures = draw(rec, what, pictures.pictures_time, root, out)
        if figures is None:
            return
        table = content_of(fill, repr((team, plan)))
        wanted = {}
        for (problem, algo, time), means in table.items():
            for m in BEST:
                wanted.setdefault("%s_%s" % (problem, m), {}).setdefault(algo, []).append((float(time), means[m]))
        drawn = named(figures, "metrics", "figures_metrics_")
        drawn.pop("legend", None)
        styled = {n: {a: sorted(s) for a, s in series.items() if a in ORDER} for n, series in wanted.items()}
        rec.ok(all(n in drawn for n, s in styled.items() if s) and all(n in wanted for n in drawn), "figures", lambda: "%s: figures %r, want %r" % (what(), sorted(drawn), sorted(wanted)))
        for n, fig in drawn.items():
            if n not in wanted:
                continue
            ax = fig["axes"][0]
            lines = {l["label"]: l for l in ax["lines"]}
            rec.ok(len(lines) == len(ax["lines"]) and set(styled[n]) <= set(lines) <= set(wanted[n]), "series", lambda: "%s: %s shows %r, the store has %r" % (what(), n, [l["label"] for l in ax["lines"]], sorted(wanted[n])))
            for a, l in lines.items():
                want = sorted(wanted[n].get(a, []))
                rec.ok(same(l["data"], want), "values", lambda: "%s: %s shows %r for %s, the means are %r" % (what(), n, l["data"], a, want))
                rec.ok(all(ax["xlim"][0] <= x <= ax["xlim"][1] for x, _ in l["data"]), "range", lambda: "%s: %s shows times within %r only, %s has %r" % (what(), n, ax["xlim"], a, [x for x, _ in want]))
                rec.ok(styles.setdefault(a, l["style"]) == l["style"] , "style", lambda: "%s: %s is drawn in different styles" % (what(), a))
            rec.ok(len({lines[a]["style"] for a in lines}) == len(lines), "style", lambda: "%s: %s draws different algorithms alike: %r" % (what(), n, {a: lines[a]["style"] for a in lines}))
            rec.ok(ax["ylabel"] == n.split("_", 1)[1], "label", lambda: "%s: %s is labelled %r" % (what(), n, ax["ylabel"]))
        legend = figures.get("metrics/figures_metrics_legend")
        for text, handle in itertools.chain(*(legend["legends"] if legend else [])):
            style = matplotlib.colors.to_hex(handle.get_color()), str(handle._dashSeq if handle._us_dashSeq is None else handle._us_dashSeq)
            rec.ok(styles.get(text, style) == style, "legend", lambda: "%s: the legend shows %s as %r, it is drawn as %r" % (what(), text, style, styles.get(text)))
        rec.outcome((tuple(sorted(drawn)), repr(plan)))
        if rec.violations:
            return


# ---------------------------------------------------------------- stores with budgets


def budget_fill(team, plan):
    """c20.fill for any algorithms: two budgets, two runs each; None = no results at all"""
    def fill(root):
        for problem, states in plan:
            for algo, state in zip(team, states):
                if state is not None:
                    keep = c20.ALGOS
                    c20.ALGOS = (algo,)
                    try:
                        c20.fill(root, problem, (state,), ("500", "1000"))
                    finally:
                        c20.ALGOS = keep
    return fill


def accepted(table, problem, algo):
    """the budget which counts"""
    for b in (1000, 500):
        if (problem, algo, b) in table and table[(problem, algo, b)]["cost"] <= 1500:
            return b
    return None


def summary_part(item, rec):
    pa, pb = item["patterns"]
    for pc in range(4):
        for k in range(4 if item["wide"] else 1):
            n = pa * 16 + pb * 4 + pc
            team = TEAMS[(n + k) % len(TEAMS)]
            state = lambda i, p: STATES[4 * ((n + i + k) % 5) + p]
            one = (state(0, pa), state(1, pb), state(2, pc))
            two = (state(3, pc), None if n % 5 == 0 else state(4, pa), state(2, (pb + k) % 4)) if n % 4 else (STATES[3], STATES[7], STATES[11])
            # in the order of the figures, which is not that of the names
            pair = (("ZDT1", "ZDT2"), ("ZDT2", "UF1"), ("ZDT1", "UF1"))[n % 3]
            plan = [(pair[0], one), (pair[1], two)] if n % 5 else [(pair[1], one), (pair[0], two)]
            fill = budget_fill(team, plan)
            selected = [",".join(team[:1]), ",".join(team[1:]).lower(), "", "nothing"][n % 4]
            what = lambda: "summary of %r with %r, %r selected" % (plan, team, selected)
            with runs.store_dir() as d:
                root, out = os.path.join(d, "store"), os.path.join(d, "out")
                os.makedirs(root)
                fill(root)
                figures = draw(rec, what, pictures.pictures_summary, root, out, **{"--selected": selected})
            if figures is None:
                return
            table = content_of(fill, repr((team, plan)))
            wanted = {}
            for problem in pair:
                for m in BEST:
                    raw = {a: math.log(1.0 + abs(table[(problem, a, accepted(table, problem, a))][m])) for a in team if accepted(table, problem, a)}
                    top = max(raw.values(), default=0.0)
                    for a, v in raw.items():
                        wanted.setdefault(m, {}).setdefault(a, {})[problem] = v if m == "pdi" else v / (top + 0.0001)
            drawn = named(figures, "plots_summary", "figures_summary_")
            rec.ok(sorted(drawn) == sorted(wanted), "figures", lambda: "%s: figures %r, want %r" % (what(), sorted(drawn), sorted(wanted)))
            for m, fig in drawn.items():
                ax = fig["axes"][0]
                place = {x: t for x, t in ax["ticks"] if t}
                rec.ok([t for _, t in sorted((x, t) for x, t in place.items())] == list(pair), "places", lambda: "%s: problems at %r" % (what(), ax["ticks"]))
                shown = {}
                for c in ax["clouds"]:
                    if c["data"]:
                        rec.ok(c["label"] not in shown, "series", lambda: "%s: two series %s for %s" % (what(), c["label"], m))
                        shown[c["label"]] = {place.get(x): y for x, y in c["data"]}
                want = wanted.get(m, {})
                rec.ok({a for a in want if a in ORDER} <= set(shown) <= set(want), "series", lambda: "%s: %s shows %r, there are results of %r" % (what(), m, sorted(shown), sorted(want)))
                for a, marks in shown.items():
                    w = want.get(a, {})
                    rec.ok(set(marks) == set(w) and all(near(marks[p], w[p]) for p in w if p in marks), "values", lambda: "%s: %s of %s is shown as %r, want %r" % (what(), m, a, marks, w))
                joined = {l["label"]: l["data"] for l in ax["lines"] if l["data"]}
                asked = set(selected.upper().split(","))
                rec.ok(set(joined) == set(shown) & asked, "selected", lambda: "%s: %s highlights %r" % (what(), m, sorted(joined)))
                for a, data in joined.items():
                    rec.ok(same(sorted(data), sorted(next(c["data"] for c in ax["clouds"] if c["label"] == a))), "selected", lambda: "%s: the line of %s leaves its marks" % (what(), a))
            rec.outcome(repr(plan))
            if rec.violations:
                return


# ---------------------------------------------------------------- fronts


def front_points(k, dims, scale):
    return [[scale * (i + 1) / 4.0 if d == i % dims else 0.125 * (k + d) for d in range(dims)] for i in range(3)]


def fronts_part(item, rec):
    team = TEAMS[item["team"]]
    for q, pair in enumerate((("ZDT1", "ZDT3"), ("UF8", "ZDT2"))):
        for pattern in list(itertools.product(("both", "late", "none"), repeat=2))[(q + item["k"] // 2) % 2::2]:
            pattern = (pattern + ("both", "late"))[:3] if item["k"] % 2 else (("none",) + pattern)
            stored = {}
            with runs.store_dir() as d:
                root, out = os.path.join(d, "store"), os.path.join(d, "out")
                os.makedirs(root)
                for j, problem in enumerate(pair):
                    dims = 3 if problem == "UF8" else 2
                    for i, algo in enumerate(team):
                        p = pattern[(i + j) % 3]
                        # both: the last budget counts; late: only the first one does; none: none
                        costs = {"both": (500, 1000), "late": (900, 1502), "none": (1600, 3000)}[p]
                        for run in range(1 + (i + item["k"]) % 2):
                            for b, c in zip((500, 1000), costs):
                                pts = front_points(i + 3 * run, dims, 1.0 + 0.5 * i + b / 1000.0 + item["k"])
                                put(root, problem, algo, run, str(b), pts, c)
                                if (p, b) in (("both", 1000), ("late", 500)):
                                    stored.setdefault((problem, algo), []).append([tuple(x) for x in pts])
                what = lambda: "fronts of %r with %r" % (pattern, team)
                figures = draw(rec, what, best_fronts.best_fronts, root, out)
            if figures is None:
                return
            drawn = named(figures, "fronts", "figures_metrics_")
            rec.ok(sorted(drawn) == sorted(pair), "figures", lambda: "%s: figures %r, want %r" % (what(), sorted(drawn), sorted(pair)))
            for problem, fig in drawn.items():
                ax = fig["axes"][0]
                dims = 3 if problem == "UF8" else 2
                front = [tuple(float(v) for v in p) for p in {"ZDT3": ZDT3_FRONT, "UF8": uf8.pareto_front}.get(problem, c20.FRONT)]
                clouds, back = {}, []
                for c in ax["clouds"]:
                    (clouds.setdefault(c["label"], []) if c["label"] in pictures.algos else back).append(c["data"])
                curve = [p for l in ax["lines"] if l["data"] not in ([(0.0, 0.0), (1.0, 0.0)], [(0.0, 0.0), (0.0, 1.0)]) for p in l["data"]]
                seen = curve if dims == 2 else [p for c in back for p in c]
                rec.ok(set(seen) == set(front), "reference", lambda: "%s: the front of %s is drawn as %r, it is %r" % (what(), problem, seen, front))
                if problem == "ZDT3":
                    jumps = [(p, q) for l in ax["lines"] for p, q in zip(l["data"], l["data"][1:]) if p in front and q in front and q[0] - p[0] > 0.05]
                    rec.ok(not jumps, "gap", lambda: "%s: the parts of the front of ZDT3 are joined: %r" % (what(), jumps))
                want = {a: s for (p, a), s in stored.items() if p == problem}
                rec.ok({a for a in want if a in pictures.algos} == set(clouds), "series", lambda: "%s: %s shows %r, there are results of %r" % (what(), problem, sorted(clouds), sorted(want)))
                for a, cs in clouds.items():
                    pts = sorted(p for c in cs for p in c)
                    rec.ok(any(same(pts, sorted(s)) for s in want.get(a, [])), "points", lambda: "%s: %s shows %r for %s, its runs ended with %r" % (what(), problem, pts, a, want.get(a)))
            rec.outcome((pattern, pair))
            if rec.violations:
                return


# ---------------------------------------------------------------- violins


def violins_part(item, rec):
    team = TEAMS[item["team"]]
    for k in range(4):
        k += item["k"] * 4
        one = tuple(None if (k + i) % 7 == 6 else (VALUES[(k + i) % 4], VALUES[(k // 2 + 2 * i) % 4], VALUES[(k // 3 + i) % 4])[:1 + (k + i) % 3] for i in range(3))
        plan = [("ZDT1", one), ("ZDT2", one[1:] + one[:1])] if k % 2 else [("ZDT2", one)]
        late = k % 3

        def fill(root):
            for problem, sets in plan:
                for i, (algo, xs) in enumerate(zip(team, sets)):
                    for run, x in enumerate(xs or ()):
                        # of one algorithm the last budget does not count
                        put(root, problem, algo, run, "500", [[x + 0.5, 0.0], [0.0, 1.0 + x]], 500)
                        put(root, problem, algo, run, "1000", [[x, 0.0], [0.0, x]], 1502 if i == late else 1000)

        what = lambda: "violins of %r with %r, of %s the first budget" % (plan, team, team[late])
        with runs.store_dir() as d:
            root, out = os.path.join(d, "store"), os.path.join(d, "out")
            os.makedirs(root)
            fill(root)
            figures = draw(rec, what, violin.violin, root, out)
        if figures is None:
            return
        values = {}
        with runs.store_dir() as d, contextlib.redirect_stdout(io.StringIO()):
            fill(d)
            for problem, _, algos in serialization.each_result(serialization.BudgetResultsExtractor(), d):
                for algo, results in algos:
                    for r in results:
                        if r["budget"] == (500 if algo == team[late] else 1000):
                            for m, _, parts in r["analysis"]:
                                if m in BEST:
                                    values.setdefault("%s_%s" % (problem, m), {})[algo] = [float(f()) for f in parts]
        drawn = named(figures, "plots_violin", "figures_violin_")
        want = {n: {a: v for a, v in by.items() if a in ORDER and any(v)} for n, by in values.items()}
        rec.ok(all(n in drawn for n, w in want.items() if w) and set(drawn) <= set(values), "figures", lambda: "%s: figures %r, want %r" % (what(), sorted(drawn), sorted(n for n, w in want.items() if w)))
        for n, fig in drawn.items():
            ax, w = fig["axes"][0], want.get(n, {})
            labels = [t for _, t in ax["ticks"] if t]
            rec.ok(set(w) <= set(labels) <= set(values.get(n, {})) and len(set(labels)) == len(labels), "series", lambda: "%s: %s shows %r, the values are %r" % (what(), n, labels, values.get(n)))
            for x, a in ax["ticks"]:
                data = values.get(n, {}).get(a)
                if data is None:
                    continue
                marks = sorted({round(p[1], 9) for s in ax["segments"] for seg in s for p in seg if seg[0][1] == seg[1][1] and min(q[0] for q in seg) <= x <= max(q[0] for q in seg)})
                srt = sorted(data)
                mid = (srt[(len(srt) - 1) // 2] + srt[len(srt) // 2]) / 2
                stats = sorted({round(v, 9) for v in (srt[0], mid, math.fsum(srt) / len(srt), srt[-1])})
                rec.ok(same([marks], [stats]), "values", lambda: "%s: %s marks %r for %s, its values are %r" % (what(), n, marks, a, data))
            rec.ok(ax["ylabel"] == n.split("_", 1)[1], "label", lambda: "%s: %s is labelled %r" % (what(), n, ax["ylabel"]))
        rec.outcome(repr((plan, late)))
        if rec.violations:
            return


def nothing_part(item, rec):
    """no results, no figures, no failure"""
    f = getattr({"pictures_time": pictures, "pictures_summary": pictures, "best_fronts": best_fronts, "violin": violin}[item["what"]], item["what"])
    for kind in ("missing", "empty", "empty problem", "empty run"):
        with runs.store_dir() as d:
            root, out = os.path.join(d, "store"), os.path.join(d, "out")
            if kind != "missing":
                os.makedirs(root)
            if kind == "empty problem":
                os.makedirs(os.path.join(root, "ZDT1"))
            what = lambda: "%s of a store (%s)" % (item["what"], kind)
            figures = draw(rec, what, f, root, out)
            if figures is not None:
                rec.ok(not [n for n in figures if item["what"] != "best_fronts"], "figures", lambda: "%s: %r" % (what(), sorted(figures)))
        rec.outcome((item["what"], kind))


def run_case(item, rec):
    {"times": times_part, "summary": summary_part, "fronts": fronts_part, "violins": violins_part, "nothing": nothing_part}[item["part"]](item, rec)

"""C14 What is run is what was asked for: command line, selection, layered configuration."""
import collections
import contextlib
import copy
import io
import itertools
import os
import sys

from mc import env, runs
from mc.core import Chooser, under
import docopt
import evogil
import plots.best_fronts
import plots.pictures
import plots.violin
import simulation.run_parallel
import statistic.ranking
import statistic.stats
import statistic.summary
from mc import algos
from simulation import factory, run_config, serialization, worker

PROPERTY = "C14"
LEVEL = "exploration"
RULE = ("every combination of command-line selections from small alphabets through the real command-line parser; every subset of the eight "
        "configuration layers for every nesting; every listed problem x algorithm prepared, constructed and stepped; "
        "distinct = distinct resolved batches / configurations")
ASSUMPTIONS = ["command lines are those of the usage text; selections name listed algorithms or problems or unknown ones"]

ALGOS = ["nsgaii", "HGS+SPEA2", "imga+omopso", "DHGS+NSGAII", "nosuch"]
PROBS = ["zdt1", "UF2", "ZDT6", "nosuch"]
FEW = 6


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(4):
        for a in itertools.permutations(range(len(ALGOS)), n):
            out.append({"part": "select", "algos": a})
    for a in (["NSGAII"], ["HGS", "NSGAII"], ["DHGS", "SPEA2"], ["IMGA", "OMOPSO"]):
        for p in ("ZDT1", "UF2"):
            out.append({"part": "layers", "chain": a, "problem": p})
    for p in run_config.problems:
        for k in range(4):
            if q and k != run_config.problems.index(p) % 4:
                continue
            out.append({"part": "listed", "problem": p, "algos": run_config.algorithms[k::4]})
    out.append({"part": "commands"})
    out.append({"part": "list"})
    return out


def bounds(tier):
    return {"algorithms named": ALGOS, "problems named": PROBS, "layers": 8, "listed": "%d x %d (quick: a quarter of each problem's)" % (
        len(run_config.problems), len(run_config.algorithms))}


def parse(argv):
    return docopt.docopt(evogil.__doc__, argv=argv)


def resolve(argv):
    args = parse(argv)
    evogil.set_default_options(args)
    with under(Chooser()):
        return factory.resolve_configuration(args)


def select_part(item, rec):
    names = [ALGOS[i] for i in item["algos"]]
    known = {a.lower(): a for a in run_config.algorithms}
    probs = {p.lower(): p for p in run_config.problems}
    want_a = [known[n.lower()] for n in names if n.lower() in known] if names else list(run_config.algorithms)
    for pn in range(3):
        for ps in itertools.permutations(PROBS, pn):
            want_p = [probs[n.lower()] for n in ps if n.lower() in probs] if ps else list(run_config.problems)
            for style in range(3):
                for n in ((None, 2) if not names or not ps else (None, 1, 3, 12)):
                    argv = ["run", "budget", ["500", "1500,40", "7,1000,50"][style]]
                    if names:
                        argv += [["-a", "--algo"][style % 2], ",".join(x.upper() if style == 1 else x for x in names)]
                    if ps:
                        argv += [["-p", "--problem"][style % 2], ",".join(x.swapcase() if style == 2 else x for x in ps)]
                    if n:
                        argv += ["-N", str(n)]
                    if style:
                        argv += ["-d", "some/dir"]
                    check_batch(rec, argv, want_p, want_a, n or 1, "some/dir" if style else serialization.RESULTS_DIR,
                                worker.BudgetWorker, {"budgets": [[500], [40, 1500], [7, 50, 1000]][style]}, "5" if False else None)
                    if pn < 2 and n not in (3, 12):
                        argv2 = ["run", "time"] + [["-t", "12", "-s", "3"], ["--timeout", "12", "--step", "3"], ["-t", "12", "--step", "3"]][style] + argv[3:]
                        check_batch(rec, argv2, want_p, want_a, n or 1, "some/dir" if style else serialization.RESULTS_DIR,
                                    worker.TimeWorker, {"timeout": 12, "sampling_interval": 3}, None)


def check_batch(rec, argv, want_p, want_a, n, d, wk, params, renice):
    rec.count("evaluations")
    cls, sims = resolve(argv)
    got = collections.Counter((s.problem_name, s.algorithm_name, s.run_id) for s in sims)
    want = collections.Counter((p, a, r) for p in want_p for a in want_a for r in range(n))
    rec.ok(got == want, "batch", lambda: "%r: %d simulations, want %d; differing %r" % (argv, len(sims), sum(want.values()), sorted((got - want) + (want - got))[:3]))
    rec.ok(cls is wk, "worker", lambda: "%r is run by %r" % (argv, cls))
    paths = set()
    for s in sims:
        rec.ok(s.params == params, "params", lambda: "%r: parameters %r, want %r" % (argv, s.params, params))
        rec.ok(s.results_dir == d, "dir", lambda: "%r: results go to %r, want %r" % (argv, s.results_dir, d))
        paths.add((s.problem_name, s.algorithm_name, s.id))
    rec.ok(len(paths) == len(sims), "shared-dir", lambda: "%r: %d simulations share %d directories" % (argv, len(sims), len(paths)))
    rec.outcome((tuple(sorted(got)), d))


@contextlib.contextmanager
def clean_config():
    saved = {k: v for k, v in vars(run_config).items()}
    base, cust = dict(run_config.algo_base), dict(run_config.cust_base)
    size = run_config.DEFAULT_POPULATION_SIZE
    try:
        yield
    finally:
        for k in [k for k in vars(run_config) if k not in saved]:
            delattr(run_config, k)
        for k, v in saved.items():
            setattr(run_config, k, v)
        run_config.algo_base.clear()
        run_config.algo_base.update(base)
        run_config.cust_base.clear()
        run_config.cust_base.update(cust)


def layers_part(item, rec):
    """more specific configuration wins: algorithm < with sub-algorithms < for the problem < initialisers"""
    chain, problem = item["chain"], item["problem"]
    for pos, algo in enumerate(chain):
        subs = chain[pos + 1:]
        for mask in range(1 << 8):
            with clean_config():
                run_config.DEFAULT_POPULATION_SIZE = 5
                order = []
                with_subs = "init_alg___%s__%s" % (algo, "_".join(subs))

                def layer(bit, name, install):
                    if mask >> bit & 1:
                        install(name)
                        order.append(name)
                layer(0, "algorithm", lambda v: run_config.algo_base.__setitem__(algo, dict(run_config.algo_base.get(algo, {}), marker=v, **{v: 1})))
                layer(1, "algorithm+subs", lambda v: run_config.algo_base.__setitem__((algo, tuple(subs)), {"marker": v, v: 1}))
                layer(2, "problem", lambda v: run_config.cust_base.__setitem__((algo, problem), {"marker": v, v: 1}))
                layer(3, "subs+problem", lambda v: run_config.cust_base.__setitem__((algo,) + tuple(subs) + (problem,), {"marker": v, v: 1}))

                def init(name, attr):
                    old = getattr(run_config, attr, None)

                    def f(config, mod):
                        if old:
                            old(config, mod)
                        config.update({"marker": name, name: 1})
                    setattr(run_config, attr, f)
                layer(4, "init", lambda v: init(v, "init_alg___" + algo))
                layer(5, "init+subs", lambda v: init(v, with_subs))
                layer(6, "init+problem", lambda v: init(v, "init_alg___%s____%s" % (algo, problem)))
                layer(7, "init+subs+problem", lambda v: init(v, with_subs + "____" + problem))
                if not subs and mask >> 2 & 3 == 3:
                    order.remove("problem")        # the same key
                rec.count("evaluations")
                with under(Chooser()):
                    made, mod = factory.prepare("+".join(chain), problem)
                p = made
                for _ in range(pos):
                    p = p.keywords["driver"]
                kw = p.keywords
                rec.ok(kw.get("marker") == (order[-1] if order else None), "precedence", lambda: "%s in %s for %s with layers %r: %r wins, want %r" % (
                    algo, "+".join(chain), problem, order, kw.get("marker"), order[-1] if order else None))
                for name in order:
                    rec.ok(kw.get(name) == 1, "lost-layer", lambda: "%s in %s: layer %r has no effect (layers %r)" % (algo, "+".join(chain), name, order))
                rec.ok(mod.__name__ == "problems.%s.problem" % problem and kw["dims"] is mod.dims and kw["fitnesses"] is mod.fitnesses, "problem",
                       "the prepared driver has another problem's data")
                rec.ok(p.func is algos.algo_class(algo), "class", lambda: "%s builds %r" % (algo, p.func))
                rec.ok(len(kw["population"]) == 5, "population", "initial population of %d" % len(kw["population"]))
                others = [x for q, x in enumerate(chain) if q != pos]
                for q, x in enumerate(chain):
                    pp = made
                    for _ in range(q):
                        pp = pp.keywords["driver"]
                    if x != algo and q != pos:
                        rec.ok("marker" not in pp.keywords, "leaked-layer", lambda: "configuration of %s reaches %s" % (algo, x))
                if subs:
                    rec.ok(kw["driver_message_adapter_factory"] is algos.adapter(subs[0], algo if algo != "DHGS" or hasattr(
                        __import__("algorithms.%s.message" % subs[0], fromlist=["x"]), "%sDHGSMessageAdapter" % subs[0]) else "HGS"), "adapter", "wrong message adapter")
                rec.outcome((algo, tuple(order)))


def listed_part(item, rec):
    import thespian.actors
    problem = item["problem"]
    before = copy.deepcopy((run_config.algo_base, run_config.cust_base))
    mod = factory.prepare_problem_class(problem)
    data = copy.deepcopy((mod.dims, [list(x) for x in mod.pareto_front]))
    with clean_config():
        for algo in item["algos"]:
            run_config.DEFAULT_POPULATION_SIZE = 64 if "HGS" in algo else 40
            rec.count("evaluations")
            with under(Chooser()):
                made, pm = factory.prepare(algo, problem)
                rec.ok(pm is mod, "problem", algo)
                if algo.startswith("DHGS"):
                    if made.keywords["hgs_type"] != "distributed":
                        rec.violation("hgs-type", "%s is not the distributed variant" % algo)
                    rec.ok(made.func.__name__ == "HGS", "class", algo)
                    continue
                kw = dict(made.keywords)
                if "HGS" in algo:
                    rec.ok(kw["hgs_type"] == "classic", "hgs-type", algo)
                    kw["metaepoch_len"] = [1, 1, 1]
                if "IMGA" in algo:
                    kw["epoch_length"] = 1
                d = made.func(**kw)
                c0 = d.cost
                d.next_step()
                rec.ok(d.cost > c0 or d.cost > 0, "cost", lambda: "%s on %s: one step costs nothing" % (algo, problem))
                fin = d.finalized_population()
                rec.ok(len(fin) > 0, "result", algo)
                for x in fin:
                    w = algos.outside(x, mod.dims)
                    rec.ok(w is None, "outside", lambda: "%s on %s: %s" % (algo, problem, w))
                    vals = [f(x) for f in mod.fitnesses]
                    rec.ok(len(vals) == len(mod.pareto_front[0]) and all(v == v for v in vals), "objectives", lambda: "%s on %s: %r" % (algo, problem, vals))
                d.shutdown()
                rec.outcome((algo, problem))
    rec.ok((run_config.algo_base, run_config.cust_base) == before, "config-changed", lambda: "preparing and running on %s changed the configuration tables" % problem)
    rec.ok((mod.dims, [list(x) for x in mod.pareto_front]) == data, "problem-changed", "running changed the problem's data")


TARGETS = [("run", simulation.run_parallel, "run_parallel"), ("statistics", statistic.stats, "statistics"), ("stats", statistic.stats, "statistics"),
           ("rank", statistic.ranking, "rank"), ("table", statistic.ranking, "table_rank"), ("rank_details", statistic.ranking, "detailed_rank"),
           ("pictures", plots.pictures, "pictures_time"), ("pictures_summary", plots.pictures, "pictures_summary"),
           ("best_fronts", plots.best_fronts, "best_fronts"), ("violin", plots.violin, "violin"), ("summary", statistic.summary, "analyse_results")]


def commands_part(item, rec):
    calls = []
    saved = [(m, n, getattr(m, n)) for _, m, n in TARGETS]
    for _, m, n in TARGETS:
        setattr(m, n, lambda *a, _n=(m.__name__, n), **k: calls.append((_n, a[0])))
    argv0 = sys.argv
    try:
        for cmd, m, n in TARGETS:
            for opts in ([], ["-d", "here"], ["-o", "there"], ["--dir", "here", "-o", "there", "-b", "17", "-j", "2"]):
                if opts and cmd in ("rank", "rank_details", "table", "summary"):
                    continue
                sys.argv = ["evogil.py"] + ([cmd, "budget", "5"] if cmd == "run" else [cmd]) + opts
                del calls[:]
                rec.count("evaluations")
                evogil.main_worker()
                rec.ok([c[0] for c in calls] == [(m.__name__, n)], "dispatch", lambda: "%r called %r" % (sys.argv[1:], [c[0] for c in calls]))
                if len(calls) == 1:
                    a = calls[0][1]
                    rec.ok(a["--dir"] == ("here" if "here" in opts else serialization.RESULTS_DIR), "dispatch-dir", lambda: "%r: %r" % (sys.argv[1:], a["--dir"]))
                    rec.ok(a["-o"] == ("there" if "there" in opts else plots.pictures.PLOTS_DIR), "dispatch-out", lambda: "%r: %r" % (sys.argv[1:], a["-o"]))
                    rec.ok(a["--bootstrap"] == ("17" if "17" in opts else "10000"), "dispatch-bootstrap", "%r" % a["--bootstrap"])
                rec.outcome(tuple(sys.argv))
    finally:
        sys.argv = argv0
        for m, n, f in saved:
            setattr(m, n, f)


def list_part(item, rec):
    out, saved, argv0 = io.StringIO(), sys.stdout, sys.argv
    sys.stdout, sys.argv = out, ["evogil.py", "list"]
    try:
        evogil.main_worker()
    finally:
        sys.stdout, sys.argv = saved, argv0
    words = out.getvalue().split()
    rec.count("evaluations")
    for x in run_config.algorithms + run_config.problems:
        rec.ok(x in words, "list", "%s is not listed" % x)
    rec.ok(len(set(run_config.algorithms)) == len(run_config.algorithms), "list", "an algorithm is listed twice")
    rec.outcome(len(words))


def run_case(item, rec):
    with runs.controlled_clock(Ticking()) if item["part"] == "select" else contextlib.nullcontext():
        {"select": select_part, "layers": layers_part, "listed": listed_part, "commands": commands_part, "list": list_part}[item["part"]](item, rec)
    rec.sample(item)


class Ticking(runs.Clock):
    def __call__(self):
        self.t += 2.0 ** -10
        return self.t

"""C04 Search-space containment: nothing outside the declared box is ever evaluated, kept
in a population or returned.

(a) the variation operators: exhaustive over parents x boxes x parameters x the extreme
    outcome of every random draw (complete depth-first search over the draws);
(b) every optimisation algorithm, alone and inside IMGA / HGS: every execution whose random
    draws deviate from a base stream in at most `bound` places, an extreme outcome each."""
import itertools

from mc import algos, env, sessions as S
from mc.core import Chooser, DFS, under
from algorithms.base import drivertools
from evotools import ea_utils, random_tools  # noqa: F401
from simulation import factory  # noqa: F401

PROPERTY = "C04"
LEVEL = "exploration"
RULE = ("an execution is one complete run of a closed algorithm instance (or one operator "
        "application) with every random draw decided by the explorer; all executions with at "
        "most `bound` deviations from the base stream are run; distinct = distinct final "
        "results; non-trivial = the run made at least one variation step")
ASSUMPTIONS = ["boxes have positive width", "initial individuals lie in the box",
               "for hierarchical search with reduced precision the box contains zero",
               "objectives are pure functions"]
ALTS = list(Chooser.UNIT_ALTS)
BOXES = [(0.0, 1.0), (-1.0, 1.0), (-5.0, 2.0), (0.0, 1e-3), (-1000.0, 1000.0), (0.3, 0.9), (0, 1), (-2, 3)]


def cases(tier):
    q = tier == "quick"
    out = []
    for b in range(len(BOXES)):
        for op in ("mutate", "crossover", "bogo", "population", "delegates"):
            out.append({"part": "op", "op": op, "box": b, "deep": not q})
    probs = ["conv/unit2", "plateau/sym2", "zdt/mixed3", "conv/narrow2", "conv/pos2", "conv/int2",
             "three/unit4", "conv/unit1"]
    for a in algos.SINGLE:
        for i, p in enumerate(probs):
            if a == "JGBL" and p.endswith("unit1"):
                continue
            for variant in ("rand", "corner"):
                for base in ("lcg1", "lcg3"):
                    if q and (i % 2) != (base == "lcg3"):
                        continue
                    out.append({"part": "alg", "spec": S.single_spec(
                        a, p, n=5, variant=variant, base=base, bound=1, steps=2 if q else 3,
                        budget=2500 if q else 6000)})
        out.append({"part": "alg", "spec": S.single_spec(
            a, "conv/sym2", n=4, bound=1, steps=2, budget=250 if q else 2500, native=True)})
        if a != "NSGAIII":
            for p in ("conv/sym2", "zdt/mixed3"):
                out.append({"part": "alg", "spec": S.single_spec(
                    a, p, n=4, base="half", bound=1, steps=2, budget=2500)})
        if not q:
            for p in ("conv/sym2", "plateau/unit2"):
                out.append({"part": "alg", "spec": S.single_spec(
                    a, p, n=4, bound=2, steps=1, budget=60000)})
    two = [0.0, env.TOP]
    for a in algos.INNER:
        slow = a == "NSGAIII" and q
        for p in ("conv/sym2", "plateau/unit2") if q else ("conv/sym2", "plateau/unit2", "conv/pos2", "zdt/mixed3"):
            out.append({"part": "alg", "spec": S.imga_spec(
                a, p, n=8, bound=1, alts=two if q else None, steps=1 if slow else 2)})
        for p in ("conv/sym2", "zdt/mixed3") if q else ("conv/sym2", "zdt/mixed3", "conv/narrow2", "plateau/unit2"):
            out.append({"part": "alg", "spec": S.hgs_spec(
                a, p, n=8, bound=1, alts=[env.TOP] if slow else two if q else None)})
        out.append({"part": "alg", "spec": S.hgs_spec(
            a, "conv/narrow2" if q else "conv/sym2", n=8, bound=1, base="lcg2", budget=100 if q else 3000,
            alts=two, over={"mantissa_bits": (2, 4, 8), "metaepoch_len": [2, 2, 2],
                            "fitness_errors": (0.2, 0.1, 0.0)})})
    out += [{"part": "alg", "spec": s} for s in S.long_specs(not q)]
    return out


def bounds(tier):
    cs = cases(tier)
    return {"algorithm instances": sum(c["part"] == "alg" for c in cs),
            "max deviations": max(c["spec"]["bound"] for c in cs if c["part"] == "alg"),
            "operator boxes": BOXES, "draw alternatives": ["base"] + ALTS}


def check_vec(rec, x, dims, key, where):
    w = algos.outside(x, dims)
    rec.ok(w is None, key, lambda: "%s: %s -> %s" % (where, list(x), w))


def op_case(item, rec):
    lo, hi = BOXES[item["box"]]
    grid = [lo, hi, lo + (hi - lo) * 0.25, lo + (hi - lo) * 0.5, lo + (hi - lo) * 1e-12,
            hi - (hi - lo) * 1e-12, lo + (hi - lo) * 0.999]
    grid = [v for v in grid if lo <= v <= hi]
    etas = [0.0, 1.0, 20.0, 200.0] if item["deep"] else [0.5, 20.0]
    deep = item["deep"]
    if not deep:
        grid = grid[:5]
    S.set_eps(True)

    def full(run, **kw):
        """every combination of alternatives at every draw (complete DFS)"""
        dfs = DFS()

        def body(pick):
            class Ch(Chooser):
                def _point(self, n):
                    self.points.append(n)
                    return pick(n)
            with under(Ch(base="lcg1", unit_alts=(0.0, env.TOP, 0.5, 0.25, 0.75, 1e-17) if deep
                          else (0.0, env.TOP, 0.5))):
                return run()
        for trail, _ in dfs.explore(body):
            rec.count("evaluations")
        rec.count("transitions", dfs.choices)

    op = item["op"]
    dims = [(lo, hi)]
    if op == "mutate":
        for v in grid:
            for eta in etas:
                for rate in (1.0, 0.5, 0.0):
                    def run():
                        src = [v]
                        out = drivertools.mutate(src, dims, rate, eta)
                        check_vec(rec, out, dims, "mutate", "mutate(%r, %r, rate %r, eta %r)" % (v, dims, rate, eta))
                        rec.ok(src == [v], "mutate-input", "the parent was changed")
                        if rate == 0.0 and out != [v]:
                            # a draw of exactly 0 may still pass `> rate`
                            pass
                        rec.outcome(round(out[0], 9))
                    full(run)
    elif op == "crossover":
        for v, w in itertools.product(grid, grid):
            for eta in etas:
                for rate in (0.9,):
                    def run():
                        a, b = [v], [w]
                        out = drivertools.crossover(a, b, dims, rate, eta)
                        check_vec(rec, out, dims, "crossover", "crossover(%r, %r, %r, eta %r)" % (v, w, dims, eta))
                        rec.ok(a == [v] and b == [w], "crossover-input", "a parent was changed")
                        rec.outcome(round(out[0], 9))
                    full(run)
    elif op == "bogo":
        for v in grid:
            def run():
                log = []
                def f(x):
                    log.append(list(x))
                    return x[0]
                d = algos.algo_class("BOGO")(population=[[v]], dims=dims, fitnesses=[f],
                                             mutation_variance=[.1], crossover_variance=[.1])
                d.next_step()
                for x in log:
                    check_vec(rec, x, dims, "bogo", "random search in %r" % dims)
            full(run)
    elif op == "population":
        gen = factory.gen_population

        def run():
            for x in gen(2, [dims[0], (-1.0, 2.0)]):
                check_vec(rec, x, [dims[0], (-1.0, 2.0)], "initial", "initial population")
            rec.ok(len(gen(3, dims)) == 3, "initial-size", "wrong initial population size")
        full(run)
    elif op == "delegates":
        from algorithms.HGS import tools
        from algorithms.HGS.classic import ClassicHGS
        for mod in (tools, ClassicHGS):
            if not hasattr(mod, "population_from_delegate"):
                continue        # then only its effects are checked, in the sessions
            for v in grid[:4]:
                def run():
                    pop = mod.population_from_delegate([v], 2, dims, 0.5, 20.0)
                    rec.ok(len(pop) == 2 and pop[0] == [v], "delegate", "delegate population %r" % (pop,))
                    for x in pop:
                        check_vec(rec, x, dims, "delegate", "population from a delegate")
                full(run)


def run_case(item, rec):
    if item["part"] == "op":
        return op_case(item, rec)
    spec = item["spec"]

    def body(ch):
        s = S.Session(spec)
        dims = s.prob.dims
        for step in range(spec["steps"] + 1):
            if step:
                s.driver.next_step()
            for pop in s.populations():
                for x in pop:
                    check_vec(rec, x, dims, "population", "%s after step %d" % (spec["alg"], step))
        fin = s.driver.finalized_population()
        for x in fin:
            check_vec(rec, x, dims, "result", "%s result" % spec["alg"])
        rec.ok(s.log.bad is None, "evaluated", lambda: "%s: %s" % (spec["alg"], s.log.bad))
        return sorted(tuple(round(c, 9) for c in x) for x in fin)

    S.explore(spec, body, rec)

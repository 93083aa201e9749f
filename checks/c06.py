"""C06 Population size conservation, termination of steps, and usable results."""
import pickle

from mc import algos, env, sessions as S

PROPERTY = "C06"
LEVEL = "exploration"
RULE = ("an execution is one complete run of a closed algorithm instance with every random "
        "draw decided by the explorer (all executions with at most `bound` deviations from the "
        "base stream); distinct = distinct result sets; non-trivial = at least one step made")
ASSUMPTIONS = ["at least 4 individuals per (sub)population", "objectives are pure and finite"]
FIXED = ("NSGAII", "IBEA", "SPEA2", "SMSEMOA", "JGBL", "NSLS", "NSGAIII")


def cases(tier):
    q = tier == "quick"
    out = []
    two = [0.0, env.TOP]
    for a in algos.SINGLE:
        for p, variant, n in (("conv/unit2", "rand", 4), ("plateau/sym2", "dup", 5), ("three/unit4", "rand", 6),
                              ("conv/unit2", "same", 4), ("zdt/mixed3", "corner", 7), ("needle/unit2", "grid", 5),
                              ("plateau/unit2", "rand", 9)):
            out.append({"spec": S.single_spec(a, p, n=n, variant=variant, bound=1, steps=3, alts=two,
                                              base="lcg1" if n % 2 else "lcg3",
                                              budget=(60 if a == "NSGAIII" else 500) if q else 20000)})
        for steps in (0, 1, 8):
            out.append({"spec": S.single_spec(a, "plateau/unit2" if steps else "conv/unit2", n=6, bound=0 if q else 1,
                                              steps=steps, alts=two, budget=3000, base="lcg2")})
        out.append({"spec": S.single_spec(a, "plateau/sym2", n=6, bound=0, steps=3,
                                          base="half" if a != "NSGAIII" else "lcg2")})
        if not q:
            out.append({"spec": S.single_spec(a, n=4, bound=2, steps=1, alts=two, budget=50000)})
            out.append({"spec": S.single_spec(a, "plateau/unit2", n=4, bound=2, steps=1, alts=two, budget=50000)})
    for a in algos.INNER:
        sl = a == "NSGAIII" and q
        for p, n, isl, mig, ep in (("conv/unit2", 8, 2, 1, 1), ("plateau/sym2", 13, 3, 1, 2), ("plateau/unit2", 10, 2, 2, 1)):
            out.append({"spec": S.imga_spec(a, p, n=n, islands=isl, migrants=mig, epoch=ep, steps=2, bound=1,
                                            alts=[env.TOP], budget=30 if sl else 120 if q else 4000)})
        for p in ("conv/sym2", "plateau/unit2"):
            out.append({"spec": S.hgs_spec(a, p, n=8, steps=4, bound=1, alts=[env.TOP],
                                           over={"population_sizes": (6, 5, 4)},
                                           budget=30 if sl else 100 if q else 3000)})
    out += [{"spec": s} for s in S.long_specs(not q)]
    return out


def bounds(tier):
    cs = cases(tier)
    return {"instances": len(cs), "max deviations": max(c["spec"]["bound"] for c in cs),
            "steps": sorted({c["spec"]["steps"] for c in cs})}


def canon(pop):
    return sorted(tuple(float(c) for c in x) for x in pop)


def run_case(item, rec):
    spec = item["spec"]
    name = spec["alg"]
    outer, _, inner = name.partition("+")

    def body(ch):
        s = S.Session(spec)
        d = s.driver
        taken = None
        for step in range(spec["steps"] + 1):
            if step:
                d.next_step()
            sizes = [len(p) for p in s.populations()]
            if step == max(1, spec["steps"] - 1) and not inner:
                first = d.finalized_population()
                taken = (first, [list(x) for x in first])
        if name == "OMOPSO":
            rec.ok(sizes == [spec["n"]], "swarm-size", lambda: "%r particles, started with %d" % (sizes, spec["n"]))
        if outer == "IMGA" and inner:
            want = [len(kw["population"]) for _, kw in s.inner]
            rec.ok(sum(want) == spec["n"], "islands", lambda: "islands got %r of %d individuals" % (want, spec["n"]))
        fin = d.finalized_population()
        rec.ok(isinstance(fin, list), "result-type", lambda: "%s returns a %s" % (name, type(fin).__name__))
        a, b = canon(fin), canon(fin)
        rec.ok(a == b, "reiterable", lambda: "%s: second iteration over the result differs" % name)
        rec.ok(canon(d.finalized_population()) == a, "idempotent", lambda: "%s: asking twice gives different results" % name)
        for x in fin:
            rec.ok(len(x) == len(s.prob.dims), "vector-length", lambda: "%s returned %r" % (name, x))
        rec.ok(canon(pickle.loads(pickle.dumps(fin))) == a, "picklable", "result does not survive pickling")
        rec.ok(len(fin) > 0 or (name == "SPEA2" and spec["steps"] == 0), "empty", lambda: "%s returned nothing" % name)
        if name in FIXED and (spec["steps"] or name != "SPEA2"):
            rec.ok(len(fin) == spec["n"], "size", lambda: "%s returned %d individuals after %d steps, started with %d" % (
                name, len(fin), spec["steps"], spec["n"]))
        if outer == "IMGA" and inner in FIXED:
            rec.ok(len(fin) == spec["n"], "size", lambda: "%s returned %d individuals, started with %d" % (name, len(fin), spec["n"]))
            for (drv, kw) in s.inner:
                k = len(drv.finalized_population())
                rec.ok(k == len(kw["population"]), "island-size", lambda: "%s: an island of %d ended with %d" % (name, len(kw["population"]), k))
        if outer == "HGS" and inner in FIXED:
            sizes = spec["over"]["population_sizes"]
            rec.ok(len(s.inner[0][1]["population"]) == sizes[0], "root-size", "root population size")
            want = 0
            for (drv, kw) in s.inner:
                k = len(kw["population"])
                rec.ok(k in sizes, "node-size", lambda: "%s: a node got %d individuals" % (name, k))
                if drv.step_no:
                    want += k
            rec.ok(len(fin) == want, "size", lambda: "%s returned %d individuals, its nodes hold %d" % (name, len(fin), want))
        if taken:
            rec.ok(canon(taken[0]) == canon(taken[1]), "snapshot", lambda: "%s: a result taken earlier was changed by a later step" % name)
        rec.ok(s.pop == algos.population(s.prob, spec["n"], spec["variant"]), "input", lambda: "%s changed the initial population it was given" % name)
        return a

    S.explore(spec, body, rec)

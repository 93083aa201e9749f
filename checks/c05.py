"""C05 Cost accounting: the cost an algorithm reports is the number of candidate evaluations
it made; a multi-population algorithm reports the (weighted) sum of its members' costs."""
from mc import algos, env, sessions as S
from algorithms.HGS.tools import ResultArchive

PROPERTY = "C05"
LEVEL = "exploration"
RULE = ("an execution is one complete run of a closed algorithm instance with every random "
        "draw decided by the explorer (all executions with at most `bound` deviations from "
        "the base stream); after construction and after every step the reported cost is "
        "compared with the logged objective calls; distinct = distinct cost histories")
ASSUMPTIONS = ["objectives are pure",
               "IBEA re-reads objectives of known individuals while scaling: for it the charge "
               "is compared with the number of individuals created (initial + offspring)",
               "the ranking of emigrants and the hypervolume bookkeeping of tree nodes are not "
               "part of any member's cost (as in the existing cost test)"]


def cases(tier):
    q = tier == "quick"
    out = []
    two = [0.0, env.TOP]
    for a in algos.SINGLE:
        for p, variant, n in (("conv/unit2", "rand", 4), ("plateau/sym2", "dup", 5), ("three/unit4", "rand", 6),
                              ("zdt/mixed3", "corner", 7)):
            for base in ("lcg1", "lcg2"):
                if q and (base == "lcg2") != (p[0] in "pz"):
                    continue
                for arch in ("none", "empty", "prefilled"):
                    if a == "BOGO" and arch != "none":
                        continue
                    if q and arch == "prefilled" and p[0] == "t":
                        continue
                    out.append({"arch": arch, "spec": S.single_spec(
                        a, p, n=n, variant=variant, base=base, bound=1, steps=3, alts=two,
                        budget=300 if q else 20000)})
        if not q and a != "BOGO":
            out.append({"arch": "empty", "spec": S.single_spec(a, n=4, bound=2, steps=1, alts=two, budget=50000)})
    for a in algos.INNER:
        sl = a == "NSGAIII" and q
        for n, isl, mig, ep in ((8, 2, 1, 1), (9, 2, 1, 2), (12, 3, 1, 1)):
            if q and isl == 3 and a not in ("NSGAII", "OMOPSO", "SPEA2"):
                continue
            out.append({"arch": "none", "spec": S.imga_spec(
                a, "conv/unit2", n=n, islands=isl, migrants=mig, epoch=ep, steps=2, bound=1, alts=[env.TOP],
                budget=40 if sl else 200 if q else 4000)})
        for p, over in (("conv/sym2", {"cost_modifiers": (1.0, 0.5, 0.25)}),
                        ("zdt/mixed3", {"cost_modifiers": (0.25, 0.5, 1.0), "metaepoch_len": [2, 1, 3]})):
            out.append({"arch": "none", "spec": S.hgs_spec(
                a, p, n=8, steps=4, over=over, bound=1, alts=[env.TOP], budget=40 if sl else 150 if q else 3000)})
    out += [{"arch": a, "spec": s} for s in S.long_specs(not q)
            for a in (("none",) if "+" in s["alg"] or s["alg"] == "BOGO" else ("none", "prefilled"))]
    return out


def bounds(tier):
    cs = cases(tier)
    return {"instances": len(cs), "max deviations": max(c["spec"]["bound"] for c in cs),
            "archives": ["none", "empty", "prefilled"]}


def offspring(driver, n):
    return int(0.5 * n)


def run_case(item, rec):
    spec = item["spec"]
    name = spec["alg"]
    outer, _, inner = name.partition("+")

    def body(ch):
        if item["arch"] != "none":
            arch = ResultArchive()
            prob = algos.problem(spec["prob"])
            pre = 0
            pop = algos.population(prob, spec["n"], spec["variant"])
            if item["arch"] == "prefilled":
                for x in pop[::2]:
                    arch[x] = [f(x) for f in prob.fs]
            hits = sum(x in arch for x in pop)
            over = dict(spec["over"], fitness_archive=arch)
        else:
            over, hits = dict(spec["over"]), 0
        s = S.Session(dict(spec, over=over))
        d = s.driver
        trace = []
        prev = None
        for step in range(spec["steps"] + 1):
            existing = list(range(len(s.inner)))
            if step:
                msg = d.next_step()
                rec.ok(msg.cost == d.cost, "message-cost", lambda: "%s: message says %r, driver %r" % (name, msg.cost, d.cost))
                rec.ok(d.step_no == step, "step-number", lambda: "%s: %d steps made, counter %r" % (name, step, d.step_no))
                trace.append(msg.step_no)
            rec.ok(prev is None or d.cost >= prev, "monotone", lambda: "%s: cost fell from %r to %r" % (name, prev, d.cost))
            prev = d.cost
            if not outer or not inner:
                if name == "IBEA":
                    want = spec["n"] - hits + step * offspring(d, spec["n"])
                    got = "n - archived + offspring"
                else:
                    want = s.log.n[0]
                    got = "calls"
                good = d.cost == want
                if name == "IBEA" and hits and step:
                    # an unchanged copy of an archived individual is a hit as well
                    good = spec["n"] - hits <= d.cost <= want
                rec.ok(good, "cost", lambda: "%s after step %d: reports %r, %s = %r (archive %s)" % (
                    name, step, d.cost, got, want, item["arch"]))
                if name != "IBEA":
                    rec.ok(len(set(s.log.n)) == 1, "objectives", lambda: "%s: objectives called %r times" % (name, s.log.n))
            else:
                for i, (drv, kw) in enumerate(s.inner):
                    if inner == "IBEA":
                        n0 = len(kw["population"])
                        want = n0 + drv.step_no * offspring(drv, n0)
                    else:
                        want = s.log.by.get(i, 0)
                    rec.ok(drv.cost == want, "member-cost", lambda: "%s member %d after step %d: reports %r, made %r" % (
                        name, i, step, drv.cost, want))
                if outer == "IMGA" and step:
                    want = sum(drv.cost for drv, _ in s.inner)
                    rec.ok(d.cost == want, "island-sum", lambda: "%s: %r, sum of islands %r" % (name, d.cost, want))
                elif outer == "HGS" and step:
                    mods = spec["over"]["cost_modifiers"]
                    etas = (10.0, 12.0, 15.0)
                    want = sum(mods[etas.index(s.inner[i][1]["mutation_eta"])] * s.inner[i][0].cost for i in existing)
                    rec.ok(abs(d.cost - want) < 1e-6, "level-sum", lambda: "%s after metaepoch %d: %r, weighted sum %r" % (
                        name, step, d.cost, want))
            before = d.cost
            if step == spec["steps"]:
                d.finalized_population()
                d.finalized_population()
                rec.ok(d.cost == before, "observing", lambda: "%s: asking for the result changed the cost" % name)
                if not inner:
                    rec.ok(name == "IBEA" or s.log.n[0] == before, "observing-calls", "%s: asking for the result evaluated candidates" % name)
        rec.ok(trace == list(range(trace[0], trace[0] + len(trace))) if trace else True, "message-steps",
               lambda: "step numbers of successive messages: %r" % trace)
        return (before, s.log.n[0], len(s.inner))

    S.explore(spec, body, rec)

"""C07 Selection soundness: survivor selection never discards a candidate that Pareto-dominates
one it keeps, never invents or alters candidates, and archives hold exactly what they should."""
from collections import Counter

from mc import algos, env, sessions as S
from metrics.metrics import hypervolume  # noqa: F401  (must be importable)

PROPERTY = "C07"
LEVEL = "exploration"
RULE = ("an execution is one complete run of a closed algorithm instance with every random draw "
        "decided by the explorer (all executions with at most `bound` deviations from the base "
        "stream); at every step the candidates before selection are compared with the survivors; "
        "distinct = distinct survivor sets; non-trivial = at least one candidate was discarded")
ASSUMPTIONS = ["objectives are pure, finite and non-negative",
               "reference-point based (theta) selection orders by another relation: for it only "
               "the clause about invented candidates is decided",
               "for the steady-state hypervolume algorithm the dominance clause is decided for "
               "one insertion per step, the hypervolume clause for any number"]


def cases(tier):
    q = tier == "quick"
    out = []
    two = [0.0, env.TOP]
    probs = [("conv/unit2", "rand", 4), ("plateau/sym2", "rand", 6), ("three/unit4", "rand", 6),
             ("plateau/unit2", "dup", 6), ("zdt/mixed3", "corner", 7), ("conv/unit1", "rand", 5),
             ("plateau/mixed3", "rand", 8)]
    for a in algos.SINGLE:
        for i, (p, variant, n) in enumerate(probs):
            if a == "JGBL" and p.endswith("unit1"):
                continue
            for base in ("lcg1", "lcg3", "lcg2"):
                if q and ("lcg1", "lcg3", "lcg2").index(base) != i % 3:
                    continue
                over = {}
                if a == "SMSEMOA":
                    over = {"epoch_length_multiplier": 1.0 / n + 1e-9 if i % 2 == 0 else 0.5}
                out.append({"spec": S.single_spec(
                    a, p, n=n, variant=variant, base=base, bound=1, steps=4, alts=two, over=over,
                    budget=(60 if a == "NSGAIII" else 600) if q else 20000)})
        out.append({"spec": S.single_spec(a, "plateau/sym2", n=6, bound=0, steps=20, base="lcg2")})
        out.append({"spec": S.single_spec(a, "zdt/mixed3", n=8, bound=0, steps=20, base="lcg3")})
        out.append({"spec": S.single_spec(a, "three/unit4", n=10, bound=0, steps=15, base="lcg1")})
        if not q:
            for p in ("conv/unit2", "plateau/sym2"):
                out.append({"spec": S.single_spec(a, p, n=4, bound=2, steps=2, alts=[env.TOP], budget=40000)})
    out += [{"spec": dict(s, over={"epoch_length_multiplier": 1.0 / s["n"] + 1e-9} if s["alg"] == "SMSEMOA" else {})}
            for s in S.long_specs() if "+" not in s["alg"]]
    return out


def bounds(tier):
    cs = cases(tier)
    return {"instances": len(cs), "max deviations": max(c["spec"]["bound"] for c in cs),
            "steps": sorted({c["spec"]["steps"] for c in cs})}


def dom(a, b):
    return all(x <= y for x, y in zip(a, b)) and any(x < y for x, y in zip(a, b))


def multiset(pop):
    return Counter(tuple(float(c) for c in x) for x in pop)


def run_case(item, rec):
    spec = item["spec"]
    name = spec["alg"]

    def body(ch):
        s = S.Session(spec)
        d = s.driver
        obj = {}

        def f(x):
            if x not in obj:
                obj[x] = tuple(s.objectives(x))
            return obj[x]

        def judge(cands, kept, step, exact):
            """cands, kept: multisets"""
            gone = cands - kept
            if exact:
                extra = kept - cands
                rec.ok(not extra, "invented", lambda: "%s step %d keeps %r, which was no candidate" % (name, step, list(extra)[:2]))
            if gone:
                rec.count("discarding_selections")
            rec.count("transitions")
            for x in gone:
                fx = f(x)
                for y in kept:
                    if dom(fx, f(y)):
                        rec.violation("discarded-dominator", "%s step %d: discarded %r (%r) dominates kept %r (%r)" % (
                            name, step, x, fx, y, f(y)))
                        return

        last_hv = None
        prev = None
        for step in range(1, spec["steps"] + 1):
            seen = len(s.log.calls)
            if name in ("NSGAII", "IBEA", "JGBL"):
                d.next_step()
                cands = multiset(d.population)
                kept = multiset(d.finalized_population())
                rec.ok(sum(kept.values()) == spec["n"], "kept-size", lambda: "%s keeps %d" % (name, sum(kept.values())))
                judge(cands, kept, step, True)
                if prev is not None and name != "JGBL":
                    # elitism over the whole step: parents plus offspring
                    rec.ok(not (prev - cands), "lost-parent", lambda: "%s step %d lost a parent before selection" % (name, step))
                prev = kept
            elif name == "SPEA2":
                before = multiset(d.finalized_population()) + multiset(d.population)
                d.next_step()
                judge(before, multiset(d.finalized_population()), step, True)
            elif name in ("NSLS", "NSGAIII", "SMSEMOA"):
                before = multiset(d.population)
                d.next_step()
                kept = multiset(d.finalized_population())
                new = multiset(s.log.calls[seen:])
                # every kept individual is a parent or was evaluated during this step
                alien = [x for x in kept if x not in before and x not in new]
                rec.ok(not alien, "invented", lambda: "%s step %d keeps the never evaluated %r" % (name, step, alien[:1]))
                if name == "SMSEMOA" and sum(new.values()) == 1:
                    judge(before + new, kept, step, True)
                elif name in ("SMSEMOA", "NSGAIII"):
                    pass        # reference-vector (theta) dominance is a different order
                else:
                    judge(before, kept, step, False)
                if name == "SMSEMOA":
                    hv = ref_hv([f(x) for x in kept], s.prob.ref)
                    rec.ok(last_hv is None or hv >= last_hv * (1 - 1e-9), "hypervolume", lambda: "%s step %d: hypervolume fell from %r to %r" % (
                        name, step, last_hv, hv))
                    last_hv = hv
            elif name == "BOGO":
                d.next_step()
                ev = [(x, f(x)) for x in (tuple(float(c) for c in v) for v in s.log.calls)]
                want = Counter(x for x, fx in ev if not any(dom(fy, fx) for _, fy in ev))
                got = multiset(d.finalized_population())
                rec.ok(got == want, "archive", lambda: "BOGO step %d: archive %r, non-dominated so far %r" % (step, got, want))
                rec.count("transitions")
            elif name == "OMOPSO":
                d.next_step()
                arch = list(multiset(d.finalized_population()))
                rec.count("transitions")
                evaluated = set(tuple(float(c) for c in v) for v in s.log.calls)
                for x in arch:
                    rec.ok(x in evaluated, "invented", lambda: "OMOPSO returns the never evaluated %r" % (x,))
                    for y in arch:
                        if dom(f(x), f(y)):
                            rec.violation("dominated-result", "OMOPSO step %d returns %r (%r) and %r (%r)" % (
                                step, x, f(x), y, f(y)))
                # what it returns is not beaten by the best single objectives seen
        return sorted(multiset(d.finalized_population()))

    S.explore(spec, body, rec)


def ref_hv(points, ref):
    """inclusion of boxes by sweeping a grid of the coordinates (small sets only)"""
    pts = [p for p in set(points) if all(a < r for a, r in zip(p, ref))]
    if not pts:
        return 0.0
    if len(ref) == 1:
        return ref[0] - min(p[0] for p in pts)
    total = 0.0
    xs = sorted(set(p[-1] for p in pts))
    for i, z in enumerate(xs):
        top = xs[i + 1] if i + 1 < len(xs) else ref[-1]
        total += (top - z) * ref_hv([p[:-1] for p in pts if p[-1] <= z], ref[:-1])
    return total

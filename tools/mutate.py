"""mutate.py FILE[:FIRST-LAST] CHECK[,CHECK...] [--every N] [--max N]

Development aid: applies small syntactic changes to one file of a scratch copy of /repo, one at a time, and runs the
given checks (first violation counts) against each.  Prints the changes none of them notices, for a reader to
decide which break a property.  Not part of any check."""
import ast, os, shutil, subprocess, sys, tempfile, time

SKIP_CALLS = ("log", "logger", "print", "debug", "info", "warning", "super", "error")


def mutants(src):
    tree = ast.parse(src)
    lines = src.split("\n")
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    raw = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()
    out = []

    def rep(n, new, why, whole=None):
        a, b = span(n)
        out.append((n.lineno, a, b, new, why))

    def between(l, r, old, new, n):
        a, b = span(l)[1], span(r)[0]
        mid = raw[a:b].decode()
        if mid.count(old) == 1:
            out.append((n.lineno, a, b, mid.replace(old, new), "%s -> %s" % (old, new)))
    CMP = {ast.Lt: ("<", ["<=", ">"]), ast.LtE: ("<=", ["<", ">="]), ast.Gt: (">", [">=", "<"]), ast.GtE: (">=", [">", "<="]), ast.Eq: ("==", ["!="]), ast.NotEq: ("!=", ["=="]),
           ast.Is: ("is", ["is not"]), ast.IsNot: ("is not", ["is"]), ast.In: ("in", ["not in"]), ast.NotIn: ("not in", ["in"])}
    OPS = {ast.Add: ("+", "-"), ast.Sub: ("-", "+"), ast.Mult: ("*", "/"), ast.Div: ("/", "*"), ast.FloorDiv: ("//", "/"), ast.Mod: ("%", "//"), ast.Pow: ("**", "*")}
    logged = set()
    for n in ast.walk(tree):
        if isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
            if name in SKIP_CALLS:
                for m in ast.walk(n):
                    logged.add(id(m))
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            logged.add(id(n.value))
        if isinstance(n, ast.JoinedStr):
            for m in ast.walk(n):
                logged.add(id(m))
        if isinstance(n, (ast.FunctionDef,)):
            for a in [n.returns] + [x.annotation for x in n.args.args]:
                if a is not None:
                    for m in ast.walk(a):
                        logged.add(id(m))
    for n in ast.walk(tree):
        if id(n) in logged:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            old, news = CMP[type(n.ops[0])]
            for new in news:
                between(n.left, n.comparators[0], old, new, n)
        elif isinstance(n, ast.BinOp) and type(n.op) in OPS:
            between(n.left, n.right, *OPS[type(n.op)], n)
        elif isinstance(n, ast.BoolOp):
            o, w = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
            between(n.values[0], n.values[1], o, w, n)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, text(n.operand), "not dropped")
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            rep(n, text(n.operand), "minus dropped")
        elif isinstance(n, ast.Constant):
            v = n.value
            if v is True or v is False:
                rep(n, str(not v), "flipped")
            elif isinstance(v, int):
                rep(n, str(v + 1), "+1")
                rep(n, str(v - 1), "-1")
            elif isinstance(v, float):
                rep(n, repr(v * 1.5 + (0.1 if v == 0 else 0)), "x1.5")
            elif isinstance(v, str) and v and len(v) < 25:
                rep(n, repr(v + "_x"), "string")
        elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
            rep(n.test, "(%s) and False" % text(n.test) if not isinstance(n, ast.While) else "False", "cond False")
            if not isinstance(n, ast.While):
                rep(n.test, "(%s) or True" % text(n.test), "cond True")
        elif isinstance(n, ast.comprehension):
            for i in n.ifs:
                rep(i, "(%s) or True" % text(i), "filter dropped")
        elif isinstance(n, (ast.AugAssign, ast.Assign)):
            if not (isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) for t in n.targets)):
                rep(n, "pass", "statement dropped")
        elif isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Yield)) and id(n.value) not in logged:
            rep(n, "pass", "statement dropped")
        elif isinstance(n, (ast.Continue, ast.Break)):
            rep(n, "pass", "dropped")
        elif isinstance(n, ast.Return) and n.value is not None:
            rep(n, "return None", "returns None")
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and len(n.args) >= 1:
            f = n.func.id
            swap = {"min": "max", "max": "min", "any": "all", "all": "any", "floor": "ceil"}
            if f in swap:
                rep(n.func, swap[f], "%s -> %s" % (f, swap[f]))
            if f in ("list", "sorted", "set", "deepcopy", "float", "int", "abs", "reversed", "round", "tuple", "str") and len(n.args) == 1:
                rep(n, text(n.args[0]) if not isinstance(n.args[0], ast.GeneratorExp) or text(n.args[0])[0] == "(" else "(%s)" % text(n.args[0]), "%s() dropped" % f)
            if len(n.args) == 2:
                a, b = n.args
                rep2 = raw[span(a)[1]:span(b)[0]].decode()
                out.append((n.lineno, span(a)[0], span(b)[1], text(b) + rep2 + text(a), "arguments swapped"))
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "deepcopy", "sqrt", "abs", "fabs") and len(n.args) == 1:
            rep(n, text(n.args[0]), "%s() dropped" % n.func.attr)
        elif isinstance(n, ast.Slice):
            if n.upper is not None:
                rep(n.upper, "(%s) + 1" % text(n.upper), "upper +1")
            if n.lower is not None:
                rep(n.lower, "(%s) + 1" % text(n.lower), "lower +1")
        elif isinstance(n, ast.ExceptHandler) and n.type is not None and isinstance(n.type, ast.Name):
            rep(n.type, "ZeroDivisionError", "other exception")
        elif isinstance(n, (ast.Yield,)) and n.value is not None:
            pass
    seen, res = set(), []
    for line, a, b, new, why in sorted(out):
        m = raw[:a] + new.encode() + raw[b:]
        if m in seen or m == raw:
            continue
        seen.add(m)
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append((line, why, raw[a:b].decode(), new, m))
    return res


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opt = {sys.argv[i][2:]: sys.argv[i + 1] for i in range(1, len(sys.argv)) if sys.argv[i].startswith("--")}
    for v in opt.values():
        if v in args:
            args.remove(v)
    path, _, rng = args[0].partition(":")
    checks = args[1].split(",")
    d = tempfile.mkdtemp(prefix="mutate-", dir="/tmp")
    try:
        subprocess.run(["cp", "-a", "/repo", d + "/r"], check=True)
        full = d + "/r/" + path
        src = open(full, newline="").read()
        ms = mutants(src)
        if rng:
            lo, hi = map(int, rng.split("-"))
            ms = [m for m in ms if lo <= m[0] <= hi]
        ms = ms[::int(opt.get("every", 1))][:int(opt.get("max", 10 ** 6))]
        print("%s: %d mutants, checks %s" % (path, len(ms), checks), flush=True)
        caught = {}
        for line, why, old, new, m in ms:
            open(full, "wb").write(m)
            hit = None
            t0 = time.time()
            for c in checks:
                try:
                    r = subprocess.run(["./run", c], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), env=dict(os.environ, EVOGIL_REPO=d + "/r", VERIF_FAIL_FAST="1"),
                                       capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    hit = c + "(timeout)"
                    break
                if r.returncode:
                    hit = c if r.returncode == 1 else c + "(rc %d)" % r.returncode
                    break
            if hit:
                caught[hit] = caught.get(hit, 0) + 1
                if "(" in hit:
                    print("?    %s:%d %s  %r -> %r  %s %s" % (path, line, why, old[:60], new[:60], hit, r.stderr[-150:].replace("\n", " | ") if "rc" in hit else ""), flush=True)
            else:
                print("LIVE %s:%d %s  %r -> %r   | %s   (%d s)" % (path, line, why, old[:60], new[:60], src.split("\n")[line - 1].strip()[:90], time.time() - t0), flush=True)
        print("%s: caught %r of %d" % (path, caught, len(ms)), flush=True)
    finally:
        shutil.rmtree(d)


main()

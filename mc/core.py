"""Exploration, sharding, evidence and reporting shared by all checks."""
import importlib
import json
import os
import pickle
import resource
import signal
import struct
import sys
import time
import traceback

from mc import env
from mc.env import RNG, TOP, Horizon

# ------------------------------------------------------------------ choosers


class Chooser:
    """Replays `prefix`; afterwards alternative 0 at every point.  Alternative 0 is the
    base stream (a deterministic generator), the others are the extreme outcomes."""

    UNIT_ALTS = (0.0, TOP, 0.5, 0.25, 0.75)

    def __init__(self, prefix=(), base="lcg1", unit_alts=None, horizon=200000, int_cap=6):
        self.prefix = dict(prefix) if not isinstance(prefix, dict) else prefix
        self.base = base
        self.points = []            # number of alternatives at each point
        self.horizon = horizon
        self.int_cap = int_cap
        self.diverged = False
        self.alts = self.UNIT_ALTS if unit_alts is None else unit_alts
        self.state = {"lcg1": 12345, "lcg2": 987654321, "lcg3": 55555}.get(base, 1)

    def _u(self):
        if self.base == "zero":
            return 0.0
        if self.base == "top":
            return TOP
        if self.base == "half":
            return 0.5
        self.state = (self.state * 6364136223846793005 + 1442695040888963407) % (1 << 64)
        return (self.state >> 11) / float(1 << 53)

    def _point(self, n):
        i = len(self.points)
        if i >= self.horizon:
            raise Horizon("more than %d choice points" % self.horizon)
        self.points.append(n)
        c = self.prefix.get(i, 0)
        if c >= n:
            self.diverged = True
            return 0
        return c

    def unit(self):
        u = self._u()
        c = self._point(1 + len(self.alts))
        return u if c == 0 else self.alts[c - 1]

    def below(self, n):
        b = int(self._u() * n)
        if n <= 1:
            return 0
        if n - 1 <= self.int_cap:
            others = [x for x in range(n) if x != b]
        else:
            others = sorted(set([0, 1, n // 2, n - 2, n - 1]) - {b})
        c = self._point(1 + len(others))
        return b if c == 0 else others[c - 1]


class under:
    """with under(chooser): every random draw of the code is decided by the chooser."""

    def __init__(self, chooser):
        self.chooser = chooser

    def __enter__(self):
        self.saved = RNG.chooser
        RNG.chooser = self.chooser
        RNG.gauss_next = None
        return self.chooser

    def __exit__(self, *a):
        RNG.chooser = self.saved
        return False


def deviations(run, bound, base="lcg1", budget=None, **kw):
    """Executes run(chooser) for every assignment with at most `bound` deviations from the
    base stream.  Yields (prefix, result).  Stops (returning False through .capped) when
    `budget` executions were made."""
    stats = {"runs": 0, "capped": False, "points": 0, "max_bound": bound, "diverged": 0}

    def gen():
        stack = [({}, 0, 0)]
        while stack:
            prefix, start, used = stack.pop()
            if budget is not None and stats["runs"] >= budget:
                stats["capped"] = True
                return
            ch = Chooser(prefix, base, **kw)
            tick()
            with under(ch):
                res = run(ch)
            stats["runs"] += 1
            stats["points"] += len(ch.points)
            stats["diverged"] += ch.diverged
            yield prefix, res
            if used < bound:
                for i in range(len(ch.points) - 1, start - 1, -1):
                    for alt in range(ch.points[i] - 1, 0, -1):
                        p = dict(prefix)
                        p[i] = alt
                        stack.append((p, i + 1, used + 1))

    return gen(), stats


class DFS:
    """Exhaustive stateless exploration: run(pick) where pick(n) is a choice in range(n)."""

    def __init__(self, budget=None):
        self.runs = 0
        self.budget = budget
        self.capped = False
        self.choices = 0

    def explore(self, run):
        prefix = []
        while True:
            if self.budget is not None and self.runs >= self.budget:
                self.capped = True
                return
            trail = []

            def pick(n):
                i = len(trail)
                c = prefix[i] if i < len(prefix) else 0
                if c >= n:
                    raise RuntimeError("replay diverged")
                trail.append((c, n))
                return c

            tick()
            res = run(pick)
            self.runs += 1
            self.choices += len(trail)
            yield [c for c, _ in trail], res
            while trail and trail[-1][0] + 1 >= trail[-1][1]:
                trail.pop()
            if not trail:
                return
            c, n = trail.pop()
            prefix = [x for x, _ in trail] + [c + 1]


# ------------------------------------------------------------------ recording


class Recorder:
    """What one case produced."""

    MAX_V = 3

    def __init__(self, item):
        self.item = item
        self.counts = {}
        self.violations = []      # (key, message, extra)
        self.samples = []
        self.distinct = set()
        self.capped = []

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def outcome(self, x):
        if len(self.distinct) < 200000:
            self.distinct.add(hash(x) if not isinstance(x, int) else x)

    def sample(self, x, limit=2):
        if len(self.samples) < limit:
            self.samples.append(x)

    def cap(self, what):
        if what not in self.capped:
            self.capped.append(what)

    def violation(self, key, message, **extra):
        if sum(1 for k, _, _ in self.violations if k == key) == 0 and len(self.violations) < 50:
            self.violations.append((key, message, extra))

    def ok(self, cond, key, message, **extra):
        self.count("assertions")
        if not cond:
            self.violation(key, message() if callable(message) else message, **extra)
        return cond

    def dump(self):
        return (self.counts, self.violations, self.samples, self.distinct, self.capped)


class CaseTimeout(BaseException):
    pass


CASE_LIMIT = 400      # one case
EXEC_LIMIT = 60       # one execution inside a case (they take milliseconds)
_deadline = [None]
_last_tick = [0.0]


def tick():
    """a new execution starts: it gets its own time limit"""
    if _deadline[0] is not None:
        _last_tick[0] = time.time()
        signal.alarm(max(1, min(EXEC_LIMIT, int(_deadline[0] - time.time()) + 1)))


def _alarm(*_):
    raise CaseTimeout()


def in_repo(tb):
    """Does the innermost non-library frame of the traceback belong to the repository?"""
    for fr in reversed(traceback.extract_tb(tb)):
        fn = fr.filename
        if fn.startswith(env.VERIF + os.sep):
            return False
        if fn.startswith(env.REPO + os.sep):
            return True
    return False


def run_one(run_case, item):
    rec = Recorder(item)
    t0 = time.time()
    old = signal.signal(signal.SIGALRM, _alarm)
    _deadline[0] = time.time() + CASE_LIMIT
    _last_tick[0] = time.time()
    signal.alarm(CASE_LIMIT)
    try:
        with env.Silence():
            run_case(item, rec)
    except CaseTimeout:
        if time.time() - _last_tick[0] < EXEC_LIMIT - 2:
            rec.cap("case stopped after %d s" % CASE_LIMIT)
            rec.count("timeouts")
        else:
            rec.violation("hang", "an execution did not finish within %d s" % (time.time() - _last_tick[0]))
    except Horizon as e:
        rec.violation("hang", "an execution does not end: %s" % e)
    except Exception as e:
        if in_repo(e.__traceback__):
            rec.violation("exception:%s" % type(e).__name__,
                          "the code under test raised %s: %s" % (type(e).__name__, e),
                          traceback=traceback.format_exc()[-3000:])
        elif isinstance(e, MemoryError):
            rec.violation("runaway", "an execution needs more than %d GB" % (MEMORY_LIMIT >> 30))
        elif isinstance(e, (OSError, ImportError)):
            raise
        else:
            rec.violation("uninterpretable:%s" % type(e).__name__,
                          "the oracle cannot make sense of what the code produced: %s: %s" % (type(e).__name__, e),
                          traceback=traceback.format_exc()[-3000:])
    finally:
        signal.alarm(0)
        _deadline[0] = None
        signal.signal(signal.SIGALRM, old)
        RNG.chooser = None
        if os.environ.get("VERIF_PROFILE") and time.time() - t0 > float(os.environ["VERIF_PROFILE"]):
            sys.stderr.write("%6.1f s %s\n" % (time.time() - t0, json.dumps(item)[:230]))
    return rec.dump()


MEMORY_LIMIT = 3 << 30          # per process: a runaway execution ends as a MemoryError
FAIL_FAST = bool(os.environ.get("VERIF_FAIL_FAST"))     # for mutation runs (tools/mutate.py): one violation is enough


def parallel(run_case, items, nproc=None):
    """Runs every item in a pool of forked children; yields (index, dump)."""
    nproc = min(nproc or os.cpu_count() or 1, max(1, len(items)))
    tr, tw = os.pipe()
    data = b"".join(struct.pack("<I", i) for i in range(len(items)))
    assert len(data) <= 60000, "too many cases: group them"
    os.write(tw, data)
    os.close(tw)
    kids = []
    for _ in range(nproc):
        r, w = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                resource.setrlimit(resource.RLIMIT_AS, (MEMORY_LIMIT, MEMORY_LIMIT))
                os.close(r)
                out = os.fdopen(w, "wb")
                while True:
                    b = os.read(tr, 4)
                    if len(b) < 4:
                        break
                    i = struct.unpack("<I", b)[0]
                    try:
                        res = ("ok", i, run_one(run_case, items[i]))
                    except BaseException:
                        res = ("err", i, traceback.format_exc())
                    if res[0] == "ok" and (any(v[0] in ("hang", "runaway") for v in res[2][1]) or FAIL_FAST and res[2][1]):
                        rest = b""
                        while True:             # no point in letting every case hang
                            b = os.read(tr, 65536)
                            if not b:
                                break
                            rest += b
                        for k in range(0, len(rest), 4):
                            pickle.dump(("skip", struct.unpack("<I", rest[k:k + 4])[0], None), out, protocol=4)
                    pickle.dump(res, out, protocol=4)
                    out.flush()
                out.close()
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        kids.append((pid, r))
    os.close(tr)
    import select
    files = {r: os.fdopen(r, "rb") for _, r in kids}
    results, errors = {}, []
    bufs = {r: b"" for r in files}
    open_r = set(files)
    while open_r:
        ready, _, _ = select.select(list(open_r), [], [])
        for r in ready:
            chunk = os.read(r, 1 << 20)
            if not chunk:
                open_r.discard(r)
                continue
            bufs[r] += chunk
    import io
    for r in bufs:
        f = io.BytesIO(bufs[r])
        while True:
            try:
                kind, i, payload = pickle.load(f)
            except EOFError:
                break
            if kind == "ok":
                results[i] = payload
            elif kind == "skip":
                results[i] = ({}, [], [], set(), ["skipped after a violation elsewhere"])
            else:
                errors.append((i, payload))
    for pid, _ in kids:
        _, st = os.waitpid(pid, 0)
        if st != 0:
            errors.append((-1, "a worker process ended with status %d" % st))
    for i in range(len(items)):
        if i not in results and not any(e[0] == i for e in errors):
            errors.append((i, "no result"))
    return results, errors


# ------------------------------------------------------------------ main


def known_findings(prop):
    out = {}
    path = os.path.join(env.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path, encoding="utf-8"):
            line = line.strip()
            if line.startswith("finding: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, what = rest.partition(" ")
                out[key[len("key="):]] = what
    return out


def jsonable(x):
    try:
        json.dumps(x)
        return x
    except (TypeError, ValueError):
        return repr(x)


def main(mod):
    prop, level = mod.PROPERTY, mod.LEVEL
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    if len(sys.argv) > 2 and sys.argv[1] == "--replay":
        rp = json.load(open(sys.argv[2]))
        dump = run_one(mod.run_case, rp["item"])
        for key, msg, extra in dump[1]:
            print("REPRODUCED [%s] %s" % (key, msg))
        return 1 if dump[1] else 0
    items = json.loads(json.dumps(mod.cases(tier)))
    results, errors = parallel(mod.run_case, items)
    counts, viols, samples, distinct, capped = {}, [], [], set(), []
    for i in sorted(results):
        c, v, s, d, cp = results[i]
        for k, n in c.items():
            counts[k] = counts.get(k, 0) + n
        viols += [(items[i], *x) for x in v]
        if len(samples) < 6:
            samples += [jsonable(x) for x in s][:2]
        if len(distinct) < 2000000:
            distinct |= d
        for x in cp:
            if x not in capped:
                capped.append(x)
    if hasattr(mod, "finish"):
        # cross-case oracle / extra coverage numbers, in the parent
        for x in (mod.finish(counts) or []):
            viols.append(({"finish": True}, *x))
    known = known_findings(prop)
    hit, new = {}, []
    for v in viols:
        if v[1] in known:
            hit.setdefault(v[1], v)
        else:
            new.append(v)
    cov = {
        "evaluations": counts.get("evaluations", 0),
        "distinct_nontrivial": len(distinct),
        "rule": getattr(mod, "RULE", ""),
        "samples": samples or ["(none)"],
        "exhaustive": not capped,
        "cases": len(items),
        "counts": counts,
        "bounds": mod.bounds(tier) if hasattr(mod, "bounds") else getattr(mod, "BOUNDS", ""),
        "capped": capped,
    }
    if level == "model_checking":
        cov["states"] = counts.get("states", 0)
        cov["transitions"] = counts.get("transitions", 0)
        cov["traces_validated_against_impl"] = counts.get("traces", 0)
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": getattr(mod, "ASSUMPTIONS", []),
          "wall_s": round(time.time() - t0, 3), "violations": len(new)}
    os.makedirs(os.path.join(env.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(env.VERIF, "evidence", prop + ".json"), "w") as fh:
        json.dump(ev, fh, indent=1)
    for key, v in sorted(hit.items()):
        print("KNOWN-FINDING: property=%s %s" % (prop, known[key]))
    print("%s %s: %d cases, %s%s, %.1f s" % (
        prop, tier, len(items), ", ".join("%s=%d" % kv for kv in sorted(counts.items())),
        " distinct=%d" % len(distinct) + (" CAPPED" if capped else ""), ev["wall_s"]))
    if new:
        d = os.path.join(env.VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        seen = set()
        for n, (item, key, msg, extra) in enumerate(new):
            if key in seen or len(seen) >= 8:
                continue
            seen.add(key)
            path = os.path.join(d, "%s-%s.json" % (prop, "".join(
                ch if ch.isalnum() else "_" for ch in key)[:60]))
            with open(path, "w") as fh:
                json.dump({"property": prop, "key": key, "message": msg, "item": item,
                           "extra": jsonable(extra),
                           "rerun": "./run %s --replay %s" % (prop, path)}, fh, indent=1)
            print("  [%s] %s" % (key, msg[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if errors:
        for i, e in errors[:5]:
            print("ERROR in case %s:\n%s" % (items[i] if i >= 0 else "?", e), file=sys.stderr)
        return 2
    return 0


def entry(mod_name):
    mod = importlib.import_module(mod_name)
    env.leave_repo()
    code = main(mod)
    sys.stdout.flush()
    env._cleanup()
    os._exit(code)

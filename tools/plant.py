"""plant.py FILE [ID ...]: builds and validates planted bugs described in a python file
(list BUGS of dicts id, prop, edits=[(file, old, new)], demo, needs, breaks) in scratch copies of /repo,
and stores the valid ones under /verif/seeded/<id>/.  Also says which checks catch them."""
import json, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

PY = "/opt/venv/bin/python"
TESTS = ["test/test_algorithms/test_driver.py::DriverTest::test_default_proxy_is_progress_proxy",
         "test/test_algorithms/test_driver.py::DriverTest::test_step_number_updated",
         "test/test_algorithms/test_hgs.py::HGSTest::test_steps", "test/test_algorithms/test_imga.py::ImgaTest",
         "test/test_algorithms/test_platform.py::DriverTest::test_smoke"]
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", MPLBACKEND="Agg")
DEMO_SH = '#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec %s "$(dirname "$0")/demo.py"\n' % PY


def demo(d, where):
    r = subprocess.run(["bash", d + "/demo.sh"], cwd=where, env=ENV, capture_output=True, text=True, timeout=280)
    return r.returncode, (r.stdout + r.stderr)[-400:]


def one(b):
    base = tempfile.mkdtemp(prefix="plant-", dir="/tmp")
    log = ["== %s (%s)" % (b["id"], b["prop"])]
    try:
        bad, seed = base + "/bad", base + "/seed"
        subprocess.run(["cp", "-a", "/repo", bad], check=True)
        for f, o, n in b["edits"]:
            s = open(bad + "/" + f, newline="").read()
            if s.count(o) != 1:
                log.append("EDIT matches %d times: %s %r" % (s.count(o), f, o[:60]))
                return log
            open(bad + "/" + f, "w", newline="").write(s.replace(o, n))
        diff = subprocess.run(["git", "diff"], cwd=bad, capture_output=True).stdout
        os.makedirs(seed)
        open(seed + "/patch.diff", "wb").write(diff)
        open(seed + "/demo.sh", "w").write(DEMO_SH)
        open(seed + "/demo.py", "w").write("import os, sys\nsys.path.insert(0, os.getcwd())\n" + b["demo"].lstrip("\n"))
        json.dump({"property": b["prop"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(seed + "/meta.json", "w"), indent=1)
        rc, out = demo(seed, "/repo")
        ok = rc == 0
        log.append("demo on clean: %d %s" % (rc, "" if ok else out))
        rc, out = demo(seed, bad)
        ok &= rc != 0
        log.append("demo on bug: %d %s" % (rc, out[-160:].replace("\n", " | ")))
        if ok and "--notest" not in sys.argv:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider"] + TESTS, cwd=bad, env=ENV, capture_output=True, text=True, timeout=600)
            log.append("tests: %d %s" % (r.returncode, r.stdout.strip().splitlines()[-1:]))
            ok &= r.returncode == 0
        for c in [b["prop"]] + b.get("also", []):
            r = subprocess.run(["./run", c], cwd="/verif", env=dict(os.environ, EVOGIL_REPO=bad), capture_output=True, text=True)
            log.append("check %s: %d %s" % (c, r.returncode, " ;; ".join(l[:200] for l in r.stdout.splitlines() if l.strip().startswith("["))[:500]))
        if ok:
            dst = "/verif/seeded/" + b["id"]
            shutil.rmtree(dst, ignore_errors=True)
            shutil.copytree(seed, dst)
            log.append("KEPT")
        else:
            log.append("REJECTED")
        return log
    except Exception as e:
        return log + ["ERROR %r" % e]
    finally:
        shutil.rmtree(base)


ns = {}
exec(open(sys.argv[1]).read(), ns)
ids = [a for a in sys.argv[2:] if not a.startswith("--")]
with ThreadPoolExecutor(2) as ex:
    for log in ex.map(one, [b for b in ns["BUGS"] if not ids or b["id"] in ids]):
        print("\n".join(log), flush=True)

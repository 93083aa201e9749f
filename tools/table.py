"""Writes the table of planted bugs into DESIGN.md (after '## Planted changes')."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
STRONGER = {"c02-tied-bound": "more orders and dimensions added", "c02-stale-skip": "more dimensions added", "c13-same-count": "removals added", "c13-shared-cache": "removals added", "c16-dead-count": "revival histories added",
            "c16-live-only": "", "c16-halve-per-node": "slow growth added", "c16-dead-epoch": "recovering populations added", "c17-status-level": "status queries modelled", "c17-halve-per-node": "slow growth added",
            "c17-ungrouped": "two-request windows added", "c21-shared-evaluations": "problems of different shape alternate", "c21-numpy-noise": "numpy's source added", "c22-linear-turbulence": "late progress added", "c23-place-by-name": "problems whose names are not in the figures' order added"}
extra = {}
p = os.path.join(ROOT, "seeded", "strengthened.json")
if os.path.exists(p):
    extra = json.load(open(p))
STRONGER.update(extra)
rows = ["| change | caught by | needs | check strengthened for it |", "|---|---|---|---|"]
for d in sorted(os.listdir(os.path.join(ROOT, "seeded"))):
    f = os.path.join(ROOT, "seeded", d, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f))
        rows.append("| %s | %s | %s | %s |" % (d, m["property"], m["needs"], STRONGER.get(d, "")))
path = os.path.join(ROOT, "DESIGN.md")
s = open(path).read()
s = s[:s.index("## Planted changes")]
s += """## Planted changes
Each was written from a property's text and the code, validated in a scratch copy (builds, stable tests pass, demonstration fails with it and passes without) and kept in `seeded/`.  Each is caught by the
quick check of its property; where the first version of the check missed it, the last column says what was added.

""" + "\n".join(rows) + "\n"
open(path, "w").write(s)

#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from props_data.py and the registered harnesses"""
import json
import os
import re
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, here)
from props_data import PROPS

have = set()
for f in os.listdir(os.path.join(root, "symff", "props")):
    if f.endswith(".py"):
        have |= set(re.findall(r'@harness\("(C\d+)"', open(os.path.join(root, "symff", "props", f)).read()))


def line_of(where):
    f, name = where.split(":")
    for i, l in enumerate(open(os.path.join("/repo", f)), 1):
        if l.startswith("def %s(" % name):
            return "%s:%d" % (f, i)
    raise SystemExit("no %s" % where)


with open(os.path.join(root, "properties.jsonl"), "w") as o:
    for p in PROPS:
        if p["id"] not in have:
            continue
        assert len(p["title"]) <= 80, p["id"]
        p = json.loads(json.dumps(p))
        for m in p["anchors"]["mechanism"]:
            m["where"] = line_of(m["where"])
        o.write(json.dumps(p) + "\n")

NOTE = ("symbolic execution of the current source over symbolic inputs; each obligation is decided for all values within the bounds stated in DESIGN.md and the evidence "
        "by normal-form equality or z3; counterexamples are replayed on the real package; numpy/scipy semantics are modelled over exact reals, rounding is outside")
checks = []
for p in PROPS:
    if p["id"] in have:
        checks.append(dict(property=p["id"], quick_cmd="python3-vt check.py %s --tier quick" % p["id"],
                           thorough_cmd="python3-vt check.py %s --tier thorough" % p["id"],
                           technique="symbolic execution of the Python source + SMT (z3; cvc5 cross-check in the thorough tier)",
                           level="model_checking", level_note=NOTE))
NA = []
try:
    from props_data import NOT_APPLICABLE
    NA = NOT_APPLICABLE
except ImportError:
    pass
json.dump(dict(version=1, setup_cmd="python3-vt -c 'import z3, numpy, scipy, networkx'", checks=checks, not_applicable=NA),
          open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")

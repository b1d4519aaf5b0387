#!/usr/bin/env python3-vt
"""DESIGN.md = design_head.md + per-property tables from the harnesses + planted-bug table"""
import glob
import importlib
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path[:0] = [root, here]
sys.setrecursionlimit(20000)
from props_data import PROPS
from design_props import N
from symff import registry
for f in sorted(glob.glob(os.path.join(root, "symff/props/p*.py"))):
    importlib.import_module("symff.props." + os.path.basename(f)[:-3])
timing = {}
for p in PROPS:
    f = os.path.join(root, "evidence", p["id"] + ".json")
    if os.path.exists(f):
        timing[p["id"]] = json.load(open(f))
o = [open(os.path.join(here, "design_head.md")).read()]
o.append("## The properties, one by one\n")
o.append("*inst.*: harness instances in the quick tier (+ more in the thorough tier).\n")
for p in PROPS:
    i = p["id"]
    o.append("### %s – %s\n" % (i, p["title"]))
    o.append(p["statement"] + "\n")
    o.append("*How:* " + N[i] + "\n")
    o.append("*Why tests cannot:* %s.\n" % p["why_tests_cant"])
    o.append("| harness | inst. | bounds |\n|---|---|---|")
    for h in registry.HARNESSES[i]:
        b = h.bound + ("; assumes " + h.assumes if h.assumes else "")
        o.append("| %s | %d%s | %s |" % (h.name, len(h.quick), " +%d" % len(h.thorough) if h.thorough else "", b.replace("|", "\\|")))
    o.append("")
o.append("## Planted bugs\n")
o.append("Each was written from a property's text and the code, passes the repository's stable tests and has a demonstration. `seeded/<id>`; the check named is the one that reports it.\n")
o.append("| bug | caught by | needs | breaks |\n|---|---|---|---|")
note = {}
nf = os.path.join(here, "seeded_notes.json")
if os.path.exists(nf):
    note = json.load(open(nf))
for f in sorted(glob.glob(os.path.join(root, "seeded/*/meta.json"))):
    m = json.load(open(f))
    n = f.split("/")[-2]
    o.append("| %s | %s | %s | %s |" % (n, note.get(n, m["property"]), m["needs"].replace("|", "\\|"), m["what_it_breaks"].replace("|", "\\|")))
o.append("")
o.append(open(os.path.join(here, "design_tail.md")).read())
open(os.path.join(root, "DESIGN.md"), "w").write("\n".join(o))

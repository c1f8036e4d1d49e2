"""write CONTRACTS.md: every contract, its functions, its cases, what is proved and what is bounded"""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from vf import run
P = {json.loads(l)["id"]: json.loads(l)["title"] for l in open(os.path.join(ROOT, "properties.jsonl"))}
out = ["# Contracts (generated by tools/mkcontracts.py)", "", "P = obligations discharged for all inputs; B = bounded (concrete) stand-in; P cases / concrete cases."]
last = None
for c in sorted(run.load_contracts(None), key=lambda c: c.prop):
    if c.prop != last:
        out += ["", "## %s %s" % (c.prop, P[c.prop]), ""]
        last = c.prop
    doc = " ".join((c.body.__doc__ or "").split())
    fs = ", ".join(c.funcs[:6]) + (" and %d more" % (len(c.funcs) - 6) if len(c.funcs) > 6 else "")
    out.append("* **%s** (%s; %d/%d cases): %s%s%s%s" % (
        c.name, "P" if c.sym else "B", len(c.symcases or c.cases) if c.sym else 0, len(c.cases) if c.num else 0, "`%s`" % fs,
        " -- " + doc if doc else "", "  Assumes: " + c.note + "." if c.note else "", "  Bound: " + c.bounded + "." if c.bounded else ""))
open(os.path.join(ROOT, "CONTRACTS.md"), "w").write("\n".join(out) + "\n")

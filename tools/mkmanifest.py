"""writes /verif/MANIFEST.json from properties.jsonl and the contracts present."""
import json, os, sys, glob
sys.path.insert(0, "/verif")
from vf import run, engine
cons = run.load_contracts()
props = [json.loads(l) for l in open("/verif/properties.jsonl")]
NA = json.load(open("/verif/tools/not_applicable.json"))
checks = []
na = []
for p in props:
    cs = [c for c in cons if c.prop == p["id"]]
    if not cs or p["id"] in NA:
        na.append(dict(property=p["id"], reason=NA.get(p["id"], "no contract built yet")))
        continue
    sym = [c for c in cs if c.sym]
    pf = sorted({f for c in sym for f in c.funcs})
    bd = sorted({f for c in cs if not c.sym for f in c.funcs} - set(pf))
    if sym:
        tech = "contracts on the real functions, discharged by symbolic execution + normal-form prover / z3 for all inputs and all dimensions"
        note = ("Proved for all values and all dimensions (%d contracts over %d functions; real arithmetic, trusted inverses/optimisers; "
                "concrete options enumerated). " % (len(sym), len(pf)))
        if bd:
            note += "Bounded only (random concrete runs of the contract on the real code, not counted as proved): " + ", ".join(bd[:40]) + "."
        lvl = "proof"
    else:
        tech = "executable contracts on the real functions, bounded: evaluated on random concrete inputs"
        note = "Bounded stand-in: contracts evaluated on random instances of the real code; nothing is proved."
        lvl = "exploration"
    checks.append(dict(property=p["id"], quick_cmd="./check %s" % p["id"], thorough_cmd="./check %s --tier thorough" % p["id"],
                       technique=tech, level=lvl, level_note=note))
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
         notes="vf/ is the contract engine, vf/contracts/ the contracts; ./check ID [--tier thorough]; known_findings.json lists recorded genuine defects.")
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
print(len(checks), "claimed;", [n["property"] for n in na])

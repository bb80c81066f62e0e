#!/usr/bin/env python3
"""Writes MANIFEST.json from plan.py and properties.jsonl."""
import json
from plan import PLAN
props=[json.loads(l) for l in open("properties.jsonl")]
NOTE={
 "C04":"One coding step is decided for every 32-bit interval state (inductive), whole sequences up to the stated number of free bits.",
 "C08":"All values of the full integer ranges; only the lengths of unary codes and bit patterns are bounded.",
 "C17":"Predictor steps from any reachable state; whole models for bounded histories and long runs.",
}
NA={}
checks=[]
for p in props:
    i=p["id"]
    if i not in PLAN: continue
    b="; ".join(x["b"] for x in PLAN[i] if not x.get("thorough_only"))
    checks.append(dict(property=i,quick_cmd="VERIF_TIER=quick python3 vc.py check "+i,thorough_cmd="VERIF_TIER=thorough python3 vc.py check "+i,evidence_file="evidence/%s.json"%i,
      technique="bounded symbolic execution of the repository's LLVM bitcode with Z3, counterexamples replayed natively",level="other",
      level_note=(NOTE.get(i,"")+" Holds for every value of the symbolic inputs within the bounds, nothing beyond: "+b+". Trusts clang's bitcode, the engine, Z3 and the C library model.").strip()))
m=dict(version=1,setup_cmd="python3 vc.py setup",checks=checks,
  not_applicable=[dict(property=p["id"],reason=NA[p["id"]]) for p in props if p["id"] not in PLAN],
  notes="No hooks in /repo: the checks compile the unmodified sources. See DESIGN.md.")
json.dump(m,open("MANIFEST.json","w"),indent=1); print(len(checks),"checks")

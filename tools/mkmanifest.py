#!/usr/bin/env python3
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from jobs import PROPS
NA = json.load(open(os.path.join(H, "tools", "na.json"))) if os.path.exists(os.path.join(H, "tools", "na.json")) else {}
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks = [dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i, evidence_file="evidence/%s.json" % i,
               technique="symbolic execution of the compiled LLVM IR with z3 deciding branches and assertions, counterexamples replayed natively", level=PROPS[i]["level"],
               level_note=PROPS[i]["how"] + ". Bounded: " + "; ".join(j["name"] + ": " + j["bounds"] for j in PROPS[i]["jobs"] if not j.get("thorough_only"))[:900] + ". Trusts clang's lowering, the executor, z3 and the harness models listed under assumptions in the evidence.") for i in ids if i in PROPS and PROPS[i]["how"] != "x"]
na = [dict(property=i, reason=NA.get(i, "the harness for this property is not built yet")) for i in ids if i not in PROPS or PROPS[i]["how"] == "x"]
json.dump(dict(version=1, setup_cmd="python3 -c \"import check; check.build_engine()\"", checks=checks, not_applicable=na, notes="see DESIGN.md"), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not claimed")

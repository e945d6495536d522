#!/usr/bin/env python3
# writes DESIGN.md from tools/design.in.md, jobdefs.py, known_findings.json, seeded/*/meta.json
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, here)
from jobdefs import PROPS
NOTES = json.load(open(here + "/tools/design_notes.json"))
props = [json.loads(l) for l in open(here + "/properties.jsonl")]
out = []
for p in props:
    i = p["id"]; d = PROPS[i]; n = NOTES["props"].get(i, {})
    out.append("### %s  %s\n" % (i, p["title"])); out.append("*Decided by:* %s. " % d["how"] + n.get("how", "") + "\n")
    if n.get("oracle"): out.append("*Oracle:* %s\n" % n["oracle"])
    if n.get("why"): out.append("*Beyond the tests:* %s\n" % n["why"])
    if n.get("cost"): out.append("*Cost (quick, 8 cores):* about %s s.\n" % n["cost"])
    ex = [a for a in d["assumptions"][3:]]
    if ex: out.append("*Assumed:* " + "; ".join(ex) + ".\n")
    q = [j for j in d["jobs"] if not j.get("thorough_only")]; t = [j for j in d["jobs"] if j.get("thorough_only")]
    out.append("*Bounds (quick):*\n\n" + "\n".join("- `%s` (%s:%s): %s" % (j["name"], j["src"], j["entry"], j["bounds"]) for j in q) + "\n")
    if t: out.append("*Thorough adds:* " + "; ".join("`%s` %s" % (j["name"], j["bounds"]) for j in t) + ".\n")
fx = "\n".join("- %s `%s` %s" % (f["property"], f["commit"], f["what"]) for f in json.load(open(here + "/known_findings.json"))["findings"])
sd = []
for s in sorted(os.listdir(here + "/seeded")):
    m = json.load(open(here + "/seeded/%s/meta.json" % s)); k = NOTES["seeded"].get(s, "caught at once")
    sd.append("| %s | %s | %s | %s | %s |" % (s, m["property"], m["needs"], m["what_it_breaks"], k))
sd = "| id | caught by | needs | breaks | note |\n|---|---|---|---|---|\n" + "\n".join(sd)
t = open(here + "/tools/design.in.md").read()
open(here + "/DESIGN.md", "w").write(t.replace("{{PROPS}}", "\n" + "\n".join(out)).replace("{{FIXED}}", fx).replace("{{SEEDED}}", sd))

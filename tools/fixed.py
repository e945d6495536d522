#!/usr/bin/env python3
# record a fix: tools/fixed.py PROP COMMIT text
import json, sys, os
f = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known_findings.json"); d = json.load(open(f)); p, c, w = sys.argv[1:4]
d["findings"].append(dict(id="F%02d" % (len(d["findings"]) + 1), property=p, status="fixed", commit=c, what=w, line="fixed: property=%s %s %s" % (p, c, w))); json.dump(d, open(f, "w"), indent=1)

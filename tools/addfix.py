#!/usr/bin/env python3
"""addfix.py PROP ID COMMIT TEXT: appends a fixed entry to known-findings.json."""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "known-findings.json")
d = json.load(open(p))
prop, i, c, t = sys.argv[1:5]
d.append({"status": "fixed", "property": prop, "id": i, "record": "fixed: property=%s %s %s" % (prop, c, t)})
open(p, "w").write("[\n" + ",\n".join(" " + json.dumps(x, ensure_ascii=False) for x in d) + "\n]\n")

#!/usr/bin/env python3
"""fixed.py PROP COMMIT-SUBJECT-GREP WHAT: adds a fixed entry to known_findings.json"""
import json, subprocess, sys
p = "/verif/known_findings.json"
k = json.load(open(p))
h = subprocess.run(["git", "-C", "/repo", "log", "--format=%h", "-1", "-F", "--grep=" + sys.argv[2]], capture_output=True, text=True).stdout.strip()
assert h, "no such commit"
k.append(dict(property=sys.argv[1], status="fixed", key=h, what="fixed: property=%s %s %s" % (sys.argv[1], h, sys.argv[3])))
open(p, "w").write("[\n " + ",\n ".join(json.dumps(x) for x in k) + "\n]\n")

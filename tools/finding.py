#!/usr/bin/env python3
"""finding.py fixed PROP COMMIT WHAT... | known PROP CASEFILE WHAT... : add an entry to known_findings.json"""
import json, sys, os
p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "known_findings.json")
L = json.load(open(p))
st, pid, a, what = sys.argv[1], sys.argv[2], sys.argv[3], " ".join(sys.argv[4:])
if st == "fixed":
    L.append(dict(status=st, property=pid, commit=a, what=what, line="fixed: property=%s %s %s" % (pid, a, what)))
else:
    L.append(dict(status=st, property=pid, case=a, what=what))
json.dump(L, open(p, "w"), indent=1)

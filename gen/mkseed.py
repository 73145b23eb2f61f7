#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE NEEDS WHAT < spec: spec holds OLD text, a line '====', NEW text; several edits separated by a line '####' (optionally '#### file').
Writes seeded/ID/patch.diff and meta.json; leaves /repo as it was."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = os.environ.get("VERIF_REPO", "/repo")
id, prop, f, needs, what = sys.argv[1:6]
spec = sys.stdin.read()
cur, edits = f, []
buf = []
for l in spec.split("\n"):
    if l.startswith("####"):
        edits.append((cur, "\n".join(buf)))
        buf = []
        cur = l[4:].strip() or cur
    else:
        buf.append(l)
edits.append((cur, "\n".join(buf)))
orig = {}
for fn, t in edits:
    a, _, b = t.partition("\n====\n")
    a, b = a.strip("\n"), b.strip("\n")
    p = R + "/" + fn
    s = open(p).read()
    orig.setdefault(p, s)
    assert s.count(a) == 1, (fn, s.count(a), a)
    open(p, "w").write(s.replace(a, b))
d = subprocess.run(["git", "-C", R, "diff", "--"] + [x[len(R) + 1:] for x in orig], capture_output=True, text=True).stdout
for p, s in orig.items():
    open(p, "w").write(s)
os.makedirs(V + "/seeded/" + id, exist_ok=True)
open(V + "/seeded/%s/patch.diff" % id, "w").write(d)
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(V + "/seeded/%s/meta.json" % id, "w"), indent=1)
print(d)

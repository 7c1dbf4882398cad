#!/usr/bin/env python3
"""mkseed.py ID PROP FILE  (reads old/new text from stdin separated by a line '====', needs/breaks after '----')
Makes seeded/ID/patch.diff from a textual replacement in /repo (nothing is left changed)."""
import sys, os, subprocess, json, tempfile
i, prop, f = sys.argv[1:4]
t = sys.stdin.read()
edits, meta = t.split("\n----\n")
src = open("/repo/" + f).read()
new = src
for e in edits.split("\n&&&&\n"):
    old, nw = e.split("\n====\n")
    old = old.strip("\n"); nw = nw.strip("\n")
    assert new.count(old) == 1, (new.count(old), old)
    new = new.replace(old, nw)
d = "/verif/seeded/" + i
os.makedirs(d, exist_ok=True)
with tempfile.TemporaryDirectory() as T:
    for s, c in (("a", src), ("b", new)):
        p = os.path.join(T, s, f); os.makedirs(os.path.dirname(p)); open(p, "w").write(c)
    r = subprocess.run(["git", "diff", "--no-index", "--no-color", "a/" + f, "b/" + f], cwd=T, capture_output=True, text=True).stdout
mode = "w"
if len(sys.argv) > 4 and sys.argv[4] == "append": mode = "a"
open(d + "/patch.diff", mode).write(r.replace("a/a/", "a/").replace("b/b/", "b/"))
needs, breaks = meta.strip().split("\n", 1)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)

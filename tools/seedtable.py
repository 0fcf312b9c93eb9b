#!/usr/bin/env python3
"""seedtable.py: the table of planted bugs in DESIGN.md section 5."""
import json, glob, os
r = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
out = ["| planted bug (seeded/) | caught by | needs |", "|---|---|---|"]
for f in sorted(glob.glob(r + "/seeded/*/meta.json")):
    m = json.load(open(f))
    out.append("| %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"].replace("|", "/")))
p = r + "/DESIGN.md"
t = open(p).read()
if "@TABLE@" in t:
    t = t.replace("@TABLE@", "\n".join(out))
else:
    i = t.index("| planted bug (seeded/)")
    j = t.index("\n\n", i)
    t = t[:i] + "\n".join(out) + t[j:]
open(p, "w").write(t)

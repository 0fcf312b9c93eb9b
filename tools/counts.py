#!/usr/bin/env python3
"""counts.py: which planted bugs change lines of the original repository."""
import glob, os, re, subprocess
ROOT = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "seeded")
base = subprocess.run(["git", "-C", "/repo", "rev-list", "--max-parents=0", "HEAD"], capture_output=True, text=True).stdout.strip()
for d in sorted(glob.glob(ROOT + "/*")):
    f, ln, orig, own = None, 0, 0, 0
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
            bl = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "--root", "HEAD", "--", f], capture_output=True, text=True).stdout.split("\n")
        elif l.startswith("@@"):
            ln = int(re.match(r"@@ -(\d+)", l)[1])
        elif l.startswith("-") and not l.startswith("---"):
            if l[1:].strip() and not l[1:].strip().startswith("//"):
                if bl[ln - 1].lstrip("^").startswith(base[:38]):
                    orig += 1
                else:
                    own += 1
            ln += 1
        elif l.startswith(" "):
            ln += 1
    print("%-50s original %d own %d%s" % (os.path.basename(d), orig, own, "" if orig else "   <--- does not count"))

#!/usr/bin/env python3
"""Lists the planted bugs that change only lines which are not the original repository's."""
import os, re, subprocess
BASE = "f741294"
D = "/verif/seeded"
for i in sorted(os.listdir(D)):
    f, n, own = None, 0, 0
    old = []
    for l in open("%s/%s/patch.diff" % (D, i)):
        if l.startswith("--- "):
            f = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m:
            n = int(m.group(1))
            continue
        if f is None or l.startswith(("+++", "---", "diff", "index")):
            continue
        if l[0] == "-":
            if l[1:].strip():
                old.append((f, n))
            n += 1
        elif l[0] == " ":
            n += 1
    res = []
    for f, n in old:
        b = subprocess.run(["git", "-C", "/repo", "blame", "-l", "-s", "-L%d,%d" % (n, n), BASE + "..HEAD", "--", f], stdout=subprocess.PIPE, text=True).stdout
        res.append(b.startswith("^"))
    if not any(res):
        print(i, "no original line removed", old)
    elif not all(res):
        print(i, "some lines of ours:", [o for o, r in zip(old, res) if not r])

#!/usr/bin/env python3
"""Which planted bugs change lines of the original repository (vcheck counts only those)?"""
import glob, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = "a708162"
_c = {}


def added(f):
    if f not in _c:
        out = subprocess.run(["git", "-C", "/repo", "diff", "-U0", "--no-color", BASE, "HEAD", "--", f],
                             capture_output=True, text=True).stdout
        s = set()
        for m in re.finditer(r"(?m)^@@ -\S+ \+(\d+)(?:,(\d+))? @@", out):
            a, n = int(m[1]), int(m[2] or 1)
            s |= set(range(a, a + n))
        _c[f] = s
    return _c[f]


for d in sorted(glob.glob(V + "/seeded/*")):
    ok, f = False, None
    src = {}
    for l in open(d + "/patch.diff"):
        if l.startswith("--- a/"):
            f = l[6:].strip()
        m = re.match(r"@@ -(\d+)", l)
        if m:
            at = int(m[1])
        elif l.startswith("-") and not l.startswith("---"):
            ok |= at not in added(f)
            at += 1
        elif l.startswith("+") and not l.startswith("+++"):
            # an insertion counts when both neighbours are original
            ok |= at not in added(f) and at - 1 not in added(f)
        elif l.startswith(" "):
            at += 1
    if not ok:
        print(os.path.basename(d))

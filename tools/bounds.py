#!/usr/bin/env python3
"""Copies the bounds stated in harness/src/props into DESIGN.md."""
import re, glob, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
b = {}
for f in sorted(glob.glob(V + "/harness/src/props/*.rs")):
    t = open(f).read()
    for m in re.finditer(r'"(C\d\d)",\s*(?:\w+,\s*)?((?:"(?:[^"\\]|\\.)*",?\s*)+)', t):
        s = re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(2))
        if len(s) >= 2: b[m.group(1)] = s[-2] + " / " + s[-1]
d = open(V + "/DESIGN.md").read()
for p, s in b.items():
    d = re.sub(r"(### %s .*?\n- bounds: )[^\n]*" % p, lambda m: m.group(1) + s, d, count=1, flags=re.S)
open(V + "/DESIGN.md", "w").write(d)
print(len(b))

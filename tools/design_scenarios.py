#!/usr/bin/env python3
"""Refreshes the "Scenarios (bound quick/thorough)" lines of DESIGN.md from the built check binaries."""
import os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = os.path.join(V, "DESIGN.md"); s = open(p).read()
def line(pid):
    out = subprocess.run([os.path.join(V, "build", pid.lower()), "--list"], capture_output=True, text=True).stdout
    r = []
    for l in out.splitlines():
        m = re.match(r"(\S+) q(-?\d+) t(-?\d+)( SEQ)?( WEAK)?", l)
        if m: r.append("`%s` %s" % (m[1], "(SEQ)" if m[4] else m[2] + "/" + m[3] + (m[5] or "").lower()))
    return "Scenarios (bound quick/thorough): " + ", ".join(r) + "."
def repl(m): return m[1] + line(m[2])
s = re.sub(r"(### (C\d\d) (?:(?!### C\d\d)[\s\S])*?)Scenarios \(bound quick/thorough\): [^\n]*", repl, s)
open(p, "w").write(s)

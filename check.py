#!/usr/bin/env python3
"""check.py CNN [--tier quick|thorough] [binary options...]: rebuild from /repo and run one check."""
import os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
import build as B

def main():
    a = sys.argv[1:]
    pid = a.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        i = a.index("--tier"); tier = a[i + 1]; del a[i:i + 2]
    os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
    rd = os.path.join(B.OUT, "replay"); os.makedirs(rd, exist_ok=True)
    exe = B.build([pid.lower()])[0]
    cmd = [exe, "--tier", tier, "--replay-dir", rd, "--known", os.path.join(V, "KNOWN_FINDINGS.txt")]
    if "--replay" not in a and "--scenario" not in a:
        cmd += ["--evidence", os.path.join(V, "evidence", pid + ".json")]
    cmd += a
    try:
        sys.exit(subprocess.run(cmd, timeout=870 if tier == "quick" else 14000).returncode)
    except subprocess.TimeoutExpired:
        print("check timed out", file=sys.stderr); sys.exit(2)

main()

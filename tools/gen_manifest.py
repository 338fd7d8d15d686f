#!/usr/bin/env python3
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
CONC = "Exhaustive within the stated deviation bounds on the real code: every schedule with at most N preemptions (and every harness choice) of each listed driver is executed; happens-before race, use-after-free, leak, deadlock and assertion oracles plus the property's own oracle run on every one. Assumes SC outside the weak-memory scenarios and trusts GLib/libc internals."
SEQ = "Exhaustive within the stated alphabet and depth on the real code against a small reference model; nothing is claimed beyond those bounds. Trusts GLib/libc internals."
tech = {}
exec(open(os.path.join(V, "tools", "technique.py")).read())
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "harness", i.lower() + ".c")):
        t, note = tech.get(i, ("stateless model checking of the implementation (preemption-bounded schedule enumeration with happens-before state caching)", CONC))
        checks.append({"property": i, "quick_cmd": "python3 check.py %s --tier quick" % i, "thorough_cmd": "python3 check.py %s --tier thorough" % i,
                       "technique": t, "level": "model_checking", "level_note": note})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check has been built for it yet")})
m = {"version": 1, "setup_cmd": "python3 build.py --all", "checks": checks, "not_applicable": na,
     "notes": "No hooks are added to /repo: libdex is compiled with -fsanitize=thread against the checker's own runtime and linked with --wrap, so instrumentation needs no source change. KNOWN_FINDINGS.txt lists fixed and known findings."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

#!/usr/bin/env python3
"""Writes MANIFEST.json and known_findings.json from the specs and the fix commits in /repo."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import specs
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
have = specs.all_props()
def git(*a): return subprocess.run(["git", "-C", "/repo"] + list(a), capture_output=True, text=True, check=True).stdout
hook = [l.split()[0] for l in git("log", "--format=%H %s").splitlines() if "Add observation points" in l or " Monitor: " in l]
TECH = "runtime monitoring: lock-step comparison of every executed instruction of the ASan+UBSan-built interpreter with an independent model, on generated hostile programs"
NOTE = "Exploration: every generated execution is decided in full (machine state before each instruction, output, exit code, files, final fungespace) up to its step limit; programs not generated are not decided. Trusts the reference model in lib/ and the observation hook."
import tech
checks = []
for p in props:
    i = p["id"]
    if i not in have: continue
    t, n = tech.TECH.get(i, (None, None))
    checks.append({"property": i, "quick_cmd": "python3 lib/check.py %s" % i, "thorough_cmd": "VERIF_TIER=thorough python3 lib/check.py %s" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": t or TECH, "level": "exploration", "level_note": n or NOTE})
na = [{"property": p["id"], "reason": tech.NA.get(p["id"], "check not built yet")} for p in props if p["id"] not in have]
m = {"version": 1, "setup_cmd": "python3 lib/build.py asan tsan",
     "hooks": {"guard": "FUNGE_MONITOR", "enable": "lib/build.py compiles /repo's sources with -DFUNGE_MONITOR and links harness/monitor.cpp, which defines Funge::monitorStep and Funge::monitorEnd", "source_commits": hook},
     "checks": checks, "not_applicable": na,
     "notes": "Every check builds the interpreter from /repo's working tree with sanitizers (cached by content under build/). VERIF_SEED seeds all generators."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
sys.path.insert(0, os.path.join(V, "tools"))
import fixes
out = {"findings": list(fixes.KNOWN), "fixed": []}
missing = []
for l in git("log", "--reverse", "--format=%h %s").splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "): continue
    k = fixes.PROP.get(s[5:])
    if k is None: missing.append(s[5:]); continue
    out["fixed"].append("fixed: property=%s %s %s" % (k, h, s[5:]))
json.dump(out, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
if missing: print("no property recorded for:", *missing, sep="\n  ")
print(len(checks), "checks,", len(out["fixed"]), "fixes")

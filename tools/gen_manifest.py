#!/usr/bin/env python3
"""Author's source of /verif/MANIFEST.json (run: python3 tools/gen_manifest.py)."""
import json, os, re
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
NOTE = {}
for line in open(os.path.join(here, "tools", "level_notes.txt")):
    m = re.match(r"(C\d+)\|([^|]*)\|(.*)", line.strip())
    if m:
        NOTE[m.group(1)] = (m.group(2).strip(), m.group(3).strip())
checks, na = [], []
for p in props:
    if p in NOTE:
        t, n = NOTE[p]
        checks.append({"property": p, "quick_cmd": "python3 tools/check.py %s --tier quick" % p,
                       "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p,
                       "evidence_file": "evidence/%s.json" % p,
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": p, "reason": "check not built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/build.py",
     "hooks": {"guard": "cfg(ocg_mc)",
               "enable": "cargo rustc -- --cfg ocg_mc, with OCG_MC_SHIM=/verif/rs/shim.rs in the environment (tools/build.py)",
               "source_commits": ["253940d"]},
     "checks": checks, "not_applicable": na,
     "notes": "All checks share one driver built from /repo's working tree; see DESIGN.md. Known findings: known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")

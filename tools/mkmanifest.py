#!/usr/bin/env python3
"""Writes MANIFEST.json from the list of properties the simulator implements."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
NOTE = {}
exec(open(V + "/tools/levels.py").read())
checks = [{"property": i, "quick_cmd": "python3 tools/check.py " + i, "thorough_cmd": "python3 tools/check.py " + i,
           "evidence_file": "evidence/%s.json" % i,
           "technique": "deterministic simulation with fault injection: " + NOTE[i][0], "level": "exploration", "level_note": NOTE[i][1]} for i in ids if i in NOTE]
na = [{"property": i, "reason": NA.get(i, "not built yet")} for i in ids if i not in NOTE]
m = {"version": 1, "setup_cmd": "python3 tools/build.py fast && python3 tools/build.py asan && python3 tools/build.py o0",
     "hooks": {"guard": "BUZZ_SIM", "enable": "tools/build.py compiles /repo/src/buzz with -DBUZZ_SIM=1; no source line depends on it so far, all seams are link-time wrappers", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "One simulator binary per build flavour (sanitized, fast). See DESIGN.md."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)

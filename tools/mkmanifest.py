#!/usr/bin/env python3
"""Writes MANIFEST.json from bin/plan.py and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "bin"))
from plan import PLAN
TECH = {
 "reactor": "runtime monitors on real threads, sockets and timerfds under ASan/UBSan/TSan with injected system call failures",
 "logger": "offline checker over the recorded log output of concurrent threads, under ASan/UBSan/TSan",
 "modbus": "online reference-model monitor over recorded events in a virtual-time world, under ASan/UBSan and valgrind memcheck",
 "codec": "independent reference encoder/decoder compared on generated and mutated values and bytes, under ASan/UBSan and valgrind memcheck",
 "ua": "online protocol monitor over recorded wire and message events in a virtual-time world, under ASan/UBSan and valgrind memcheck",
 "conn": "online protocol monitor of the connection library in a virtual-time world, under ASan/UBSan and valgrind memcheck",
 "system": "whole system on real reactors and loopback sockets, end-to-end monitor, under ASan/UBSan/TSan and memcheck",
}
checks = []
for p, v in sorted(PLAN.items()):
    d = v["runs"][0][1]
    checks.append(dict(property=p, quick_cmd="python3 bin/check.py %s quick" % p, thorough_cmd="python3 bin/check.py %s thorough" % p,
                       technique=TECH[d], level=v["level"],
                       level_note="Oracle observes executions of the real code (sources of /repo, instrumented); holds for the executions explored: " + v["rule"]))
na = []
for l in open(os.path.join(V, "properties.jsonl")):
    i = json.loads(l)["id"]
    if i not in PLAN:
        na.append(dict(property=i, reason="check not built yet"))
m = dict(version=1, setup_cmd="python3 bin/setup.py", checks=checks, not_applicable=na)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not claimed")

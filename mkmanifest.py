#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the checks that exist"""
import importlib, json, os, sys
os.chdir(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ".")
checks, na = [], []
for l in open("properties.jsonl"):
    p = json.loads(l)
    i = p["id"]
    if not os.path.exists("checks/%s.py" % i.lower()):
        na.append(dict(property=i, reason="no check has been built for it yet"))
        continue
    m = importlib.import_module("checks." + i.lower())
    checks.append(dict(property=i, quick_cmd="python3 check.py %s" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
                       technique=getattr(m, "TECHNIQUE", (m.__doc__ or "").strip().split("\n")[0][5:]), level=m.LEVEL,
                       level_note=getattr(m, "NOTE", m.RULE) + " Held on the executions run, under: " + "; ".join(getattr(m, "ASSUME", []))))
json.dump(dict(version=1, setup_cmd="python3 -m vlib.build asan rel dbg tsan", checks=checks, not_applicable=na,
               hooks=dict(guard="BLOCK_LENGTH", enable="-DBLOCK_LENGTH=131072 (variants of vlib/build.py; without it the length stays 4096)", source_commits=["3855263"]),
               notes="The hook only makes the length of a block configurable. All other instrumentation is by compiler sanitizers and by link-time wrapping of system calls (vlib/shim.c)."),
          open("MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")

#!/usr/bin/env python3
"""Builds the library and all harnesses, so that the checks find most objects."""
import os
import sys
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from specs import SPECS

t0 = time.time()
b = vbuild.Builder()
rc = 0
with vbuild.Lock():
    b.configure()
    jobs = []
    for v in ("main", "instr"):
        if v == "main" or any(h.get("variant") == v and h.get("upto", "dataset") == "dataset"
                              for s in SPECS.values() for h in s["harness"]):
            jobs += b.lib_jobs(vbuild.COMPONENTS, v)
    try:
        b.objs(jobs)
    except vbuild.BuildError as e:
        print(str(e)[:3000])
        rc = 1
    # all harness sources at once, then link
    seen = {}
    for s in SPECS.values():
        for h in s["harness"]:
            for j in b.harness_jobs(**h):
                seen[str(j)] = j
    try:
        b.objs(seen.values())
    except vbuild.BuildError:
        pass  # reported below
    for pid, s in SPECS.items():
        for h in s["harness"]:
            try:
                b.harness(**h)
            except vbuild.BuildError as e:
                print(pid, str(e)[:3000])
                rc = 1
print(f"setup {time.time() - t0:.0f} s", b.stats)
sys.exit(rc)

#!/usr/bin/env python3
"""seed.py save ID PROPERTY NEEDS BREAKS : stores the change in the scratch copy
   seed.py test [ID ...] [--nocheck]     : validates planted changes in the scratch copy

The scratch copy is /tmp/pb/repo (cp -a /repo /tmp/pb/repo); /repo is not touched.
A development tool: no check uses it."""
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COPY = "/tmp/pb/repo"
BUILD = "/tmp/pb/build"


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def reset():
    sh(["git", "-C", COPY, "checkout", "-q", "--", "."])
    sh(["git", "-C", COPY, "fetch", "-q", "/repo", "HEAD"])
    r = sh(["git", "-C", COPY, "reset", "-q", "--hard", "FETCH_HEAD"])
    assert r.returncode == 0, r.stdout


def build_and_test():
    r = sh(["cmake", "-S", "/opt/vp/cmake", "-B", BUILD, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=RelWithDebInfo",
            "-DCMAKE_CXX_COMPILER=/usr/bin/g++", f"-DREPO={COPY}"])
    if r.returncode == 0:
        r = sh(["cmake", "--build", BUILD, "-j8"])
    if r.returncode:
        return "build fails: " + r.stdout[-1500:]
    for t in ("common", "units", "core"):
        r = sh([f"{BUILD}/bin/scipp-{t}-test", "--gtest_brief=1"])
        if r.returncode:
            return f"tests fail: {r.stdout[-800:]}"
    return None


def main():
    if sys.argv[1] == "save":
        _, _, i, prop, needs, breaks = sys.argv
        d = f"{HERE}/seeded/{i}"
        os.makedirs(d, exist_ok=True)
        diff = subprocess.check_output(["git", "-C", COPY, "diff"], text=True)
        assert diff.strip(), "no change"
        open(f"{d}/patch.diff", "w").write(diff)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks},
                  open(f"{d}/meta.json", "w"), indent=1)
        return
    ids = [a for a in sys.argv[2:] if not a.startswith("-")] or sorted(os.listdir(f"{HERE}/seeded"))
    for i in ids:
        d = f"{HERE}/seeded/{i}"
        meta = json.load(open(f"{d}/meta.json"))
        reset()
        res = {}
        if "--nodemo" not in sys.argv:
            t = time.time()
            r = sh(["bash", f"{d}/demo.sh"], cwd=COPY)
            res["demo clean"] = f"{r.returncode} {time.time() - t:.0f}s" + ("" if r.returncode == 0 else r.stdout[-1500:])
        r = sh(["git", "-C", COPY, "apply", f"{d}/patch.diff"])
        if r.returncode:
            print(i, "does not apply", r.stdout)
            continue
        if "--nodemo" not in sys.argv:
            err = build_and_test()
            res["build"] = err or "ok"
            t = time.time()
            r = sh(["bash", f"{d}/demo.sh"], cwd=COPY)
            res["demo bug"] = f"{r.returncode} {time.time() - t:.0f}s " + r.stdout.strip()[-200:]
        if "--nocheck" not in sys.argv:
            t = time.time()
            r = sh(["python3", f"{HERE}/tools/check.py", meta["property"], "--tier", "quick"],
                   cwd=HERE, env=dict(os.environ, VERIF_REPO=COPY))
            v = [l for l in r.stdout.splitlines() if "VIOLATION" in l or "cannot build" in l or "error" in l]
            res["check"] = f"{r.returncode} {time.time() - t:.0f}s {v[:2]}"
        print(i, json.dumps(res, indent=1))
        reset()


main()

#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : runs the check of one property.

Builds the library and the harness from /repo's working tree, lets the harness
enumerate its space, replays what it reports, compares with the list of known
findings, and writes evidence/PROPERTY.json.
"""
import json
import os
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild
from specs import SPECS

HERE = vbuild.HERE


def known_findings():
    res = {}
    try:
        with open(os.path.join(HERE, "known_findings.txt")) as f:
            for line in f:
                line = line.strip()
                if line.startswith("finding: property="):
                    # finding: property=ID sig=SIG what fails
                    _, p, s, what = line.split(" ", 3)
                    res.setdefault(p.split("=", 1)[1], {})[s.split("=", 1)[1]] = what
    except OSError:
        pass
    return res


def main():
    pid = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv:
        tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    spec = SPECS[pid]
    for p in (f"evidence/{pid}.json",):
        try:
            os.unlink(os.path.join(HERE, p))
        except OSError:
            pass
    b = vbuild.Builder()
    try:
        with vbuild.Lock():
            exes = [b.harness(**h) for h in spec["harness"]]
    except vbuild.BuildError as e:
        print(f"cannot build the harness of {pid}: {str(e)[:6000]}")
        return 2
    t_build = time.time() - t0
    env = dict(os.environ, MALLOC_PERTURB_="165", MALLOC_ARENA_MAX="2",
               ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1",
               UBSAN_OPTIONS="print_stacktrace=1")
    env.update(spec.get("env", {}))
    total = None
    violations = []
    limit = spec.get("limit", 700 if tier == "quick" else 36000)
    for exe in exes:
        with tempfile.TemporaryDirectory(prefix="verif-") as scratch:
            out = os.path.join(scratch, "out.json")
            cmd = [exe, "--prop", pid, "--tier", tier, "--jobs",
                   str(spec.get("jobs", 8)), "--out", out, "--scratch", scratch,
                   "--case-limit", str(spec.get("case_limit", 60))]
            p = subprocess.Popen(cmd, env=env, start_new_session=True, cwd=scratch)
            try:
                rc = p.wait(timeout=limit)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                print(f"the exploration of {pid} did not end within {limit} s")
                return 2
            finally:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
            if rc not in (0, 1) or not os.path.exists(out):
                print(f"the harness of {pid} ended with status {rc}")
                return 2
            with open(out) as f:
                res = json.load(f)
            for v in res["violations"]:
                v["exe"] = exe
                violations.append(v)
            if total is None:
                total = res
            else:
                for k in ("enumerated", "cases", "nontrivial", "transitions", "checks",
                          "traces", "states", "outcomes"):
                    total[k] += res[k]
                total["samples"] += res["samples"]
                for k, n in res["tally"].items():
                    total["tally"][k] = total["tally"].get(k, 0) + n
    known = known_findings().get(pid, {})
    confirmed, unconfirmed = [], []
    seen_known = set()
    for v in sorted(violations, key=lambda v: v["id"])[:40]:
        cmd = [v["exe"], "--prop", pid, "--tier", tier, "--only", str(v["id"])]
        lim = 3 * spec.get("case_limit", 60)
        with tempfile.TemporaryDirectory(prefix="verif-") as scratch:
            try:
                r = subprocess.run(cmd, env=env, timeout=lim, stdout=subprocess.PIPE,
                                   stderr=subprocess.STDOUT, text=True, errors="replace",
                                   cwd=scratch)
                ok, text = r.returncode not in (0, 4), r.stdout
                v["replay_status"] = r.returncode
            except subprocess.TimeoutExpired as e:
                ok, text = True, f"did not end within {lim} s"
                v["replay_status"] = "timeout"
        v["replay_output"] = text[-6000:]
        if v["sig"] in known:
            seen_known.add(v["sig"])
            continue
        (confirmed if ok else unconfirmed).append(v)
    cov = {
        "states": total["states"] or total["cases"],
        "transitions": total["transitions"],
        "traces_validated_against_impl": total["traces"],
        "evaluations": total["cases"],
        "distinct_nontrivial": total["nontrivial"],
        "rule": spec["rule"],
        "samples": total["samples"][:6] or ["none"],
        "exhaustive": True,
        "enumerated_cases": total["enumerated"],
        "checks_evaluated": total["checks"],
        "distinct_outcomes": total["outcomes"],
        "bounds": spec["bounds"][tier] if isinstance(spec["bounds"], dict) else spec["bounds"],
        "tally": total["tally"],
        "build": b.stats,
        "build_s": round(t_build, 1),
    }
    ev = {"property": pid, "tier": tier, "seed": seed, "level": "model_checking",
          "coverage": cov, "assumptions": spec.get("assumptions", []),
          "wall_s": round(time.time() - t0, 2), "violations": len(confirmed)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for s in sorted(seen_known):
        print(f"KNOWN-FINDING: property={pid} {known[s]}")
    for v in unconfirmed:
        print(f"not confirmed on replay: case {v['id']} [{v['sig']}] {v['msg']}")
    print(f"{pid} {tier}: cases={total['cases']} nontrivial={total['nontrivial']} "
          f"states={total['states']} transitions={total['transitions']} "
          f"checks={total['checks']} outcomes={total['outcomes']} "
          f"build={t_build:.1f}s wall={time.time() - t0:.1f}s")
    if confirmed:
        d = os.path.join(vbuild.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, f"{pid}-{tier}.json")
        with open(path, "w") as f:
            json.dump([{k: x for k, x in v.items()} | {
                "replay_cmd": f"{v['exe']} --prop {pid} --tier {tier} --only {v['id']}"}
                for v in confirmed], f, indent=1)
        for v in confirmed[:5]:
            print(f"case {v['id']} [{v['sig']}] {v['msg'][:2000]}\n   in: {v['desc'][:2000]}"
                  f"\n   ({v['count']} cases)")
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    if unconfirmed:
        print("some cases failed in the exploration but not when replayed alone")
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())

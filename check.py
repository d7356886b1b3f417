#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]

exit 0: property holds on everything analysed; exit 1 + VIOLATION line: broken; exit 2: analysis broken
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True


def known(pid):
    out = []
    path = os.path.join(HERE, "known_findings.txt")
    if os.path.exists(path):
        for ln in open(path):
            ln = ln.strip()
            if ln.startswith("known: property=%s " % pid):
                key, _, desc = ln[len("known: property=%s " % pid):].partition(" :: ")
                out.append((key[4:] if key.startswith("key=") else key, desc))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.v:
        os.environ["KSTATIC_V"] = "1"
    if a.tier not in ("quick", "thorough"):
        a.tier = "quick"
    from kstatic import core, checks
    reg = checks.load()
    if a.pid not in reg:
        print("no check for %s" % a.pid)
        return 2
    c = reg[a.pid]
    t0 = time.time()
    core.KNOWN = {k for k, _ in known(a.pid)}
    rep = core.run_check(c["fn"], a.tier)
    wall = time.time() - t0
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    kf = known(a.pid)
    fresh, listed = [], []
    for v in rep.violations:
        hit = [k for k in kf if k[0] == v["what"]]
        (listed if hit else fresh).append(v)
    funcs = rep.funcs
    ev = {
        "property": a.pid, "tier": a.tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1),
        "level": "other",
        "coverage": {
            "explanation": "Static analysis of /repo's current source (%s): %s Nothing of the package is executed "
                           "or imported by Python; the syntax trees are interpreted over abstract values and every "
                           "abstract path of every scenario below is decided." % (c["technique"], c["note"]),
            "rule": c["technique"],
            "obligations": rep.oblig, "abstract_paths": rep.paths, "infeasible_paths": rep.pruned,
            "scenarios": len(rep.scen),
            "functions_analysed": len(funcs), "functions": funcs[:200],
            "per_scenario": dict(list(rep.scen.items())[:60]),
            "structural_rules": rep.rules[:80],
            "samples": rep.samples[:8],
            "exhaustive": not rep.broken,
        },
        "assumptions": ["models of tornado, kazoo, six, struct, zlib, gzip and snappy in kstatic/models.py and kstatic/loop.py",
                        "collections of up to the listed sizes represent all sizes (no code branches on larger sizes)"],
        "wall_s": round(wall, 3), "violations": len(fresh),
    }
    with open(os.path.join(HERE, "evidence", a.pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for v in listed[:20]:
        print("KNOWN-FINDING: property=%s %s" % (a.pid, v["what"]))
    if fresh:
        rp = os.path.join(HERE, "evidence", "%s.violation.txt" % a.pid)
        with open(rp, "w") as f:
            for v in fresh:
                f.write("property %s violated\n  what:  %s\n  where: %s\n  scenario: %s\n" % (
                    a.pid, v["what"], v["where"], v["scenario"]))
                if v["detail"]:
                    f.write("  detail: %s\n" % v["detail"])
                f.write("  decisions:\n" + "".join("    %s\n" % d for d in v["decisions"]))
                f.write("  events:\n" + "".join("    %s\n" % d for d in v["events"]))
                f.write("  call path (most recent last):\n" + "".join("    %s\n" % d for d in v["call_path"]))
                f.write("\n")
        for v in fresh[:5]:
            print("  %s: %s [%s]" % (v["where"], v["what"], v["scenario"]))
        print("VIOLATION property=%s replay=%s" % (a.pid, rp))
        return 1
    if rep.broken:
        for b in rep.broken[:10]:
            print("ANALYSIS-BROKEN: %s" % b)
        return 2
    if rep.oblig < c["floor"]:
        print("ANALYSIS-BROKEN: only %d obligations decided, at least %d expected" % (rep.oblig, c["floor"]))
        return 2
    print("OK property=%s obligations=%d paths=%d functions=%d wall=%.1fs" % (
        a.pid, rep.oblig, rep.paths, len(funcs), wall))
    return 0


if __name__ == "__main__":
    sys.exit(main())

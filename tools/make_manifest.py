#!/usr/bin/env python3
"""writes MANIFEST.json from the registry of checks and the property list"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from kstatic import checks  # noqa

NA = {
    "C51": "Exactly-once processing is a property of histories that span the brokers' log, other producers and "
           "consumers; the deciding half of the behaviour is not in this source.",
    "C52": "Disjointness across members at every moment depends on ZooKeeper's delivery order and on every "
           "member's callback timing; the per-member part (stable function of sorted inputs) is claimed as C32 and C33.",
    "C53": "There is no rejoin code in the package to analyse; the behaviour is the ZooKeeper client library's. "
           "DESIGN.md records the gap as an observation.",
    "C54": "Throughput and latency are run-time quantities; nothing in the source bounds them.",
}


def main():
    reg = checks.load()
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    out = {"version": 1,
           "setup_cmd": "python3 tools/selftest.py",
           "checks": [], "not_applicable": []}
    for p in props:
        pid = p["id"]
        if pid in reg:
            c = reg[pid]
            out["checks"].append({
                "property": pid,
                "quick_cmd": "python3 check.py %s --tier quick" % pid,
                "thorough_cmd": "python3 check.py %s --tier thorough" % pid,
                "technique": c["technique"], "level": "other",
                "level_note": c["note"] + " Trusted: the models of the host libraries and the frozen protocol tables in kstatic/."})
        else:
            out["not_applicable"].append({"property": pid, "reason": NA.get(pid, "No check has been built yet.")})
    out["notes"] = ("Static analysis only: the package is never imported or run. Its syntax trees are interpreted over "
                    "abstract values (kstatic/), every abstract path of every scenario is decided.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()

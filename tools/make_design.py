#!/usr/bin/env python3
"""writes DESIGN.md from tools/design.md and the machinery's own tables"""
import glob
import json
import os
import re
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, "tools"))
sys.dont_write_bytecode = True
from kstatic import checks  # noqa
import make_manifest  # noqa


def main():
    reg = checks.load()
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    extra = json.load(open(os.path.join(HERE, "tools", "oracles.json")))
    caught = json.load(open(os.path.join(HERE, "tools", "caught.json")))
    out = []
    for d in props:
        if d["id"] not in reg:
            continue
        c = reg[d["id"]]
        e = extra.get(d["id"], {})
        out.append("**%s %s.** *%s.* Enumerated: %s Oracle: %s Cost: %s s.\n" % (
            d["id"], d["title"], c["technique"], c["note"], e.get("oracle", "the property's statement."), e.get("s", "?")))
    lines = open(os.path.join(HERE, "known_findings.txt")).read().split("\n")
    fixed = [re.match(r"fixed: property=(\S+) (\S+) (.*)", x).groups() for x in lines if x.startswith("fixed:")]
    known = [re.match(r"known: property=(\S+) key=(.*?) :: (.*)", x).groups() for x in lines if x.startswith("known:")]
    seeded = []
    for m in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        n = os.path.basename(os.path.dirname(m))
        seeded.append("| %s | %s | %s | %s |" % (n, d["property"], d["what_it_breaks"].replace("|", "\\|"),
                                                caught.get(n, "not evaluated").replace("|", "\\|")))
    t = open(os.path.join(HERE, "tools", "design.md")).read()
    t = t.replace("@@PROPS@@", "\n".join(out))
    t = t.replace("@@NA@@", "\n".join("* **%s** %s: %s" % (d["id"], d["title"], make_manifest.NA[d["id"]])
                                      for d in props if d["id"] not in reg))
    t = t.replace("@@FIXED@@", "\n".join("* %s (%s): %s" % f for f in fixed))
    t = t.replace("@@KNOWN@@", "\n".join("* %s, *%s*: %s" % k for k in known))
    t = t.replace("@@SEEDED@@", "| change | property | breaks | caught by |\n|---|---|---|---|\n" + "\n".join(seeded))
    with open(os.path.join(HERE, "DESIGN.md"), "w") as f:
        f.write(t)


if __name__ == "__main__":
    main()

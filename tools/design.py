"""rewrites the generated parts of DESIGN.md (bugs planted, repairs):
   /opt/venv/bin/python tools/design.py"""
import json
import os
import re

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def part(s, name, text):
    a, b = "<!-- %s -->" % name, "<!-- end %s -->" % name
    return re.sub(re.escape(a) + ".*?" + re.escape(b), lambda m: a + "\n" + text + "\n" + b, s, flags=re.S)


def main():
    p = os.path.join(HERE, "DESIGN.md")
    s = open(p).read()
    rows = ["| bug | check | breaks | needs |", "|---|---|---|---|"]
    for d in sorted(os.listdir(os.path.join(HERE, "seeded"))):
        m = json.load(open(os.path.join(HERE, "seeded", d, "meta.json")))
        rows.append("| %s | %s | %s | %s |" % (d, m.get("caught_by", m["property"]), m["what_it_breaks"], m["needs"]))
    s = part(s, "planted", "\n".join(rows))
    k = json.load(open(os.path.join(HERE, "known_findings.json")))
    s = part(s, "repairs", "\n".join("- " + x[len("fixed: property="):] for x in k["fixed"]))
    open(p, "w").write(s)


main()

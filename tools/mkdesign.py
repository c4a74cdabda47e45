#!/usr/bin/env python3
"""Writes DESIGN.md from tools/doc/ and the state of the tree."""
import json
import os
import re
import subprocess

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D = os.path.join(V, "tools", "doc")
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]


def read(n):
    return open(os.path.join(D, n)).read().strip() if os.path.exists(os.path.join(D, n)) else ""


def main():
    have = {p["id"] for p in props if os.path.exists(os.path.join(V, "checks", p["id"].lower() + ".py"))}
    texts = dict(re.findall(r"^## (C\d\d)\n(.*?)(?=^## |\Z)", read("props.md") + "\n", re.M | re.S))
    out = []
    for p in props:
        i = p["id"]
        out.append("### %s %s%s\n\n%s\n" % (i, p["title"], "" if i in have else " (planned, not claimed yet)", texts.get(i, "-").strip()))
    fixes = ["| property | commit | what failed |", "|---|---|---|"]
    for l in open(os.path.join(V, "KNOWN_FINDINGS")):
        m = re.match(r"fixed: property=(\S+) (\S+) (.*)", l)
        if m:
            fixes.append("| %s | %s | %s |" % m.groups())
    hits = json.load(open(os.path.join(D, "hits.json"))) if os.path.exists(os.path.join(D, "hits.json")) else {}
    bugs = ["| change | property | what it breaks | needs | found by |", "|---|---|---|---|---|"]
    for d in sorted(os.listdir(os.path.join(V, "seeded"))):
        m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
        bugs.append("| %s | %s | %s | %s | %s |" % (d, m["property"], m["what_it_breaks"], m["needs"], hits.get(d, "-")))
    t = read("DESIGN.in.md") + "\n"
    for k, v in (("MORE_SPEC", read("more_spec.md")), ("PROPS", "\n".join(out)), ("FIXES", "\n".join(fixes)),
                 ("FALSE", read("false.md")), ("BUGS", "\n".join(bugs))):
        t = t.replace("@@%s@@" % k, v)
    open(os.path.join(V, "DESIGN.md"), "w").write(t)


main()

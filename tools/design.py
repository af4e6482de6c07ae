#!/usr/bin/env python3
"""Writes DESIGN.md from doc/ and the checks."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/lib", V + "/checks", V + "/doc"]
from oracles import ORACLE
out = [open(V + "/doc/head.md").read()]
for l in open(V + "/properties.jsonl"):
    p = json.loads(l)
    m = importlib.import_module(p["id"])
    t = {}
    try: t = json.load(open(V + "/doc/cost.json"))
    except OSError: pass
    out.append("### %s %s\n\n* Generated: %s.\n* Oracle: %s\n* Build %s; %d cases quick%s, %d thorough.\n" % (
        p["id"], p["title"], m.RULE.rstrip("."), ORACLE[p["id"]], getattr(m, "FLAVOUR", "plain"), m.QUICK, " (%s)" % t[p["id"]] if p["id"] in t else "", m.THOROUGH))
out.append(open(V + "/doc/tail.md").read())
out.append("\n## Defects found and repaired\n\nEach is a `fix:` commit in /repo and an entry of known-findings.jsonl; there are no unrepaired ones.\n\n")
for l in open(V + "/known-findings.jsonl"):
    e = json.loads(l)
    w = e["what"].replace("fixed: property=", "")
    out.append("* %s\n" % w)
c = "| change | property | what it breaks | needs |\n|---|---|---|---|\n"
for i in sorted(os.listdir(V + "/seeded")):
    e = json.load(open(V + "/seeded/%s/meta.json" % i))
    c += "| %s | %s | %s | %s |\n" % (i, e["property"], e["what_it_breaks"], e["needs"])
out.append("\n" + open(V + "/doc/catch.md").read().replace("TABLE", c))
open(V + "/DESIGN.md", "w").write("\n".join(out[:-1]).replace("\n\n* ", "\n* ") + out[-1])

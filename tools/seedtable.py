#!/usr/bin/env python3
"""rewrites the tables of planted bugs in DESIGN.md from their meta.json"""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = ""
for d in ("seeded", "planted-tcc"):
    out += "### %s\n\n| id | property | what breaks | needs |\n|---|---|---|---|\n" % d
    for f in sorted(glob.glob(os.path.join(V, d, "*", "meta.json"))):
        m = json.load(open(f))
        out += "| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(f)), m["property"], m["what_it_breaks"], m["needs"])
    out += "\n"
p = os.path.join(V, "DESIGN.md")
s = open(p).read()
s = re.sub(r"### seeded\n.*?(?=Misses on the way)", lambda _: out, s, flags=re.S)
open(p, "w").write(s)

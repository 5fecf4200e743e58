#!/usr/bin/env python3
"""Refresh the tables of DESIGN.md (between the <!-- X --> markers) from seeded/ and known_findings.txt."""
import glob, json, os, re
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
p = "| planted bug | property | needs | breaks |\n|----|----|----|----|\n"
for f in sorted(glob.glob("seeded/*/meta.json")):
    m = json.load(open(f))
    p += "| %s | %s | %s | %s |\n" % (f.split("/")[1], m["property"], m["needs"], m["what_it_breaks"])
d = "| property | commit | what failed |\n|----|----|----|\n"
n = 0
for l in open("known_findings.txt"):
    m = re.match(r"fixed: property=(\w+) (\w+) (.*)", l)
    if m:
        n += 1
        d += "| %s | %s | %s |\n" % m.groups()
d = "%d repairs, each one \"fix:\" commit:\n\n" % n + d
s = open("DESIGN.md").read()
s = s.replace("PLANTED_TABLE", "<!-- planted -->\n<!-- /planted -->").replace("DEFECTS_TABLE", "<!-- defects -->\n<!-- /defects -->")
for k, t in (("planted", p), ("defects", d)):
    s = re.sub(r"<!-- %s -->.*?<!-- /%s -->" % (k, k), lambda _: "<!-- %s -->\n%s<!-- /%s -->" % (k, t, k), s, flags=re.S)
open("DESIGN.md", "w").write(s)

#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md."""
import json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
path = os.path.join(root, "DESIGN.md")
s = open(path).read()
i = s.index("| bug | property |")
ext = dict(re.findall(r"^\| (\S+)\* \|.*\| ([^|]*) \|$", s[i:], re.M))
ext.update(dict(a.split("=", 1) for a in os.sys.argv[1:]))
t = "| bug | property | needs | extension |\n|---|---|---|---|\n"
for d in sorted(os.listdir(os.path.join(root, "seeded"))):
    m = json.load(open(os.path.join(root, "seeded", d, "meta.json")))
    t += "| %s%s | %s | %s | %s |\n" % (d, "*" if d in ext else "", m["property"], m["needs"].replace("|", "/"), ext.get(d, ""))
open(path, "w").write(s[:i] + t)

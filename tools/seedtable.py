#!/usr/bin/env python3
"""prints the table of planted bugs for DESIGN.md (from seeded/*/meta.json)"""
import json, glob, os, re
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| bug | caught by | what it breaks | needs |\n|---|---|---|---|")
for d in sorted(glob.glob(top + "/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    print("| %s | %s | %s | %s |" % (os.path.basename(d), m["property"], m["what_it_breaks"], m["needs"]))

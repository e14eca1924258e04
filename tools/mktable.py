#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md section 6 (documentation only; no check uses it)."""
import glob, json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
print("| planted bug | property / check | needs | breaks |\n|---|---|---|---|")
for f in sorted(glob.glob(root + "/seeded/*/meta.json")):
    m = json.load(open(f))
    print("| `%s` | %s | %s | %s |" % (os.path.basename(os.path.dirname(f)), m["property"], m["needs"], m["what_it_breaks"]))

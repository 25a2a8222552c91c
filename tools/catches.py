#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from their meta.json."""
import json, glob, os
print("| planted bug | property | needs | caught by |")
print("|---|---|---|---|")
extra = {}
for d in sorted(glob.glob("/verif/seeded/*")):
    m = json.load(open(d + "/meta.json"))
    print(f"| {os.path.basename(d)} | {m['property']} | {m['needs']} | {m.get('caught','quick ' + m['property'])} |")

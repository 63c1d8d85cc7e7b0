#!/usr/bin/env python3
"""Prints the table of planted bugs for DESIGN.md from seeded/*/meta.json."""
import glob, json, os
print("| planted bug | caught by | needs |\n|---|---|---|")
for f in sorted(glob.glob(os.path.join(os.path.dirname(__file__), "..", "seeded", "*", "meta.json"))):
    m = json.load(open(f))
    print(f"| {os.path.basename(os.path.dirname(f))} | {m['property']} | {m['needs']} |")

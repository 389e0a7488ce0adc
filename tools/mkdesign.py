#!/usr/bin/env python3
"""Rewrites the table of planted bugs in DESIGN.md from seeded/*/meta.json (run from /verif)."""
import json,glob,re
t="| bug | property | needs | breaks |\n|---|---|---|---|\n"
for f in sorted(glob.glob("seeded/*/meta.json")):
    d=json.load(open(f)); t+=f"| {f.split('/')[1]} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |\n"
s=open("DESIGN.md").read()
s=re.sub(r"<!-- seeded -->\n.*?<!-- /seeded -->",lambda m:"<!-- seeded -->\n"+t+"<!-- /seeded -->",s,flags=re.S)
open("DESIGN.md","w").write(s)

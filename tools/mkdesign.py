#!/usr/bin/env python3
"""DESIGN.md from tools/DESIGN.in.md: fills in the property and planted-bug sections"""
import glob, json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NOT_APPLICABLE
root = os.path.dirname(here)
t = open(here + "/DESIGN.in.md").read()
P = ""
for p in PROPS:
    P += f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n* Decided by: {p.get('decide') or p['technique']}.\n* Tests cannot: {p['why_tests_cant']}.\n* Quantified over: {p['quantifier']['text']}.\n\n"
for n in NOT_APPLICABLE:
    P += f"Not applicable: {n['property']}: {n['reason']}\n\n"
res = json.load(open(here + "/seed_results.json")) if os.path.exists(here + "/seed_results.json") else {}
S = "| planted bug | property | needs | caught by |\n|---|---|---|---|\n"
for d in sorted(glob.glob(root + "/seeded/*/meta.json")):
    i = os.path.basename(os.path.dirname(d))
    m = json.load(open(d))
    S += f"| {i} | {m['property']} | {m['needs']} | {res.get(i, m['property'])} |\n"
open(root + "/DESIGN.md", "w").write(t.replace("<<PROPS>>", P).replace("<<SEEDS>>", S))

#!/usr/bin/env python3
"""Fills the tables of DESIGN.md from tools/spec.py and seeded/*/meta.json (kept between markers)."""
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import spec
T = {}
for l in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(l); T[p["id"]] = p["title"]
rows = ["| | title | how it is decided | level |", "|-|-|-|-|"]
for i in sorted(T):
    P = spec.PROPS.get(i)
    rows.append(f"| {i} | {T[i]} | {P['note'].split(' Trusts odcv')[0] if P else 'not applicable, see below'} | {P['level'] if P else '-'} |")
na = [f"* **{k}**: {v}" for k, v in sorted(spec.NA.items())]
seeds = ["| planted bug | property | needs | caught by |", "|-|-|-|-|"]
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    m = json.load(open(os.path.join(V, "seeded", d, "meta.json")))
    seeds.append(f"| {d} | {m['property']} | {m['needs']} | {m['property']} |")
f = os.path.join(V, "DESIGN.md"); s = open(f).read()
for name, lines in (("TABLE", rows), ("NA", na or ["None."]), ("SEEDS", seeds)):
    s = re.sub(f"(<!-- {name} -->\n).*?(<!-- /{name} -->)", lambda m: m.group(1) + "\n".join(lines) + "\n" + m.group(2), s, flags=re.S)
open(f, "w").write(s)

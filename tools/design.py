#!/usr/bin/env python3
"""DESIGN.md from tools/design_head.md, tools/design_tail.md, props.py, the rules, seeded/ and selftest/"""
import importlib.util, json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path[:0] = [os.path.join(V, "tools"), os.path.join(V, "sa"), V]
from props import PROPS, NA
out = [open(os.path.join(V, "tools/design_head.md")).read()]
rules = {}
for g in sorted({p["id"][0].lower() for p in PROPS}):
    s = open(os.path.join(V, f"sa/rules/{g}.py")).read()
    for m in re.finditer(r"^def ([A-Z]\d\d)\(c\):\n    c\.rule = (\((?:.|\n)*?\"\)\n|.*\n)", s, re.M):
        rules[m.group(1)] = eval(m.group(2))
seeds = {}
for d in sorted(os.listdir(os.path.join(V, "seeded"))):
    f = os.path.join(V, "seeded", d, "meta.json")
    if os.path.exists(f):
        m = json.load(open(f))
        seeds.setdefault(m["property"], []).append((d, m))
muts, quiet = {}, {}
for f in sorted(os.listdir(os.path.join(V, "selftest"))):
    if f.startswith("mutants_"):
        s = importlib.util.spec_from_file_location(f[:-3], os.path.join(V, "selftest", f))
        mod = importlib.util.module_from_spec(s)
        s.loader.exec_module(mod)
        for n, want, _ in mod.MUTANTS:
            if want:
                for w in want:
                    muts.setdefault(w, []).append(n)
            else:
                quiet.setdefault(f[8:-3].upper(), []).append(n)
out.append("## How each property is decided\n")
for p in PROPS:
    assert p["id"] in rules, p["id"]
    out.append(f"### {p['id']}: {p['title']}\n\n{p['statement']}\n\n*Decided by* {p['tech']} (in {', '.join(p['files'])}). {rules[p['id']]}\n\n"
               f"*Beyond tests:* {p['why']} Quantifies over {p['q']}.\n")
    if p["id"] in seeds:
        out.append("*Planted bugs caught:* " + ", ".join(f"`{d}`" for d, m in seeds[p["id"]]) + "\n")
    if p["id"] in muts:
        out.append("*Self-test mutants caught:* " + ", ".join(muts[p["id"]]) + "\n")
out.append("## Not applicable\n")
for p in NA:
    out.append(f"- **{p['id']} {p['title']}**: {p['reason']}")
out.append("\n## Quiet mutants (behaviour kept, every check stays quiet)\n")
for g, ns in sorted(quiet.items()):
    out.append(f"- {g}: {', '.join(ns)}")
out.append("\n## Planted bugs (`seeded/`)\n\n| bug | property | needs | breaks |\n|---|---|---|---|")
for pid in sorted(seeds):
    for d, m in seeds[pid]:
        out.append(f"| {d} | {pid} | {m['needs']} | {m['what_it_breaks']} |".replace("\n", " "))
out.append("\n" + open(os.path.join(V, "tools/design_tail.md")).read())
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))

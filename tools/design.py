"""Writes DESIGN.md from design_head.md, the catalog, the harnesses, the planted bugs and design_tail.md."""
import glob, json, os, re, sys, ast
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = os.path.join(HERE, "tools")
sys.path.insert(0, T)
from catalog import PROPS
from design_props import HOW

PROPS.sort(key=lambda p: p["id"])
out = open(os.path.join(T, "design_head.md")).read() + "\n## Properties\n"


def harnesses(path):
    for f in ast.parse(open(path).read()).body:
        if isinstance(f, ast.FunctionDef) and f.decorator_list:
            d = f.decorator_list[0]
            if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "harness":
                k = {}
                for a in d.keywords:
                    try:
                        k[a.arg] = ast.literal_eval(a.value)
                    except ValueError:
                        k[a.arg] = None if not isinstance(a.value, ast.BinOp) else ast.unparse(a.value)
                yield f.name, k


def fmt(d):
    return ", ".join(f"{k}={v}" for k, v in (d or {}).items()) or "-"


times = {}
tp = os.path.join(T, "times.json")
if os.path.exists(tp):
    times = json.load(open(tp))
for p in PROPS:
    out += f"\n### {p['id']} {p['title']}\n\n{p['statement']}\n\n"
    if p["na"]:
        out += f"Not applicable: {p['na']}\n"
        continue
    out += f"How: {HOW.get(p['id'], '')}\nWhy tests cannot: {p['why']}\n\n"
    for name, k in harnesses(os.path.join(HERE, "props", p["id"].lower() + ".py")):
        out += f"* `{name}` (quick {fmt(k.get('quick'))}; thorough {fmt(k.get('thorough') or k.get('quick'))}): {k.get('bounds', '')}\n"
    if p["id"] in times:
        out += f"\nCost (8 cores): quick {times[p['id']][0]} s, thorough {times[p['id']][1]} s.\n"
out += "\n" + open(os.path.join(T, "design_tail.md")).read()
out += "\n## Planted bugs\n\nEach is in `seeded/`, breaks the property named, passes the stable tests, and is reported by that property's quick check. `*`: missed at first; the check was strengthened.\n\n"
MISSED = {"disconnect-keeps-step", "socket-file-left", "console-name-stripped", "negative-expression", "listens-everywhere"}
mp = os.path.join(T, "missed.txt")
if os.path.exists(mp):
    MISSED |= set(open(mp).read().split())
rows = []
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m = json.load(open(d))
    i = os.path.basename(os.path.dirname(d))
    rows.append((m["property"], i, m["needs"]))
for prop, i, needs in sorted(rows):
    out += f"* {prop} `{i}`{' \\*' if i in MISSED else ''}: {needs}\n"
open(os.path.join(HERE, "DESIGN.md"), "w").write(out)

"""Writes DESIGN.md: design_text.md, one section per property, the planted bugs."""
import ast
import glob
import json
import os
import sys

here = os.path.dirname(os.path.abspath(__file__))
root = os.path.dirname(here)
sys.path.insert(0, root)
from props import NOTE, NOT_APPLICABLE, PROPS  # noqa: E402


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and \
                n.targets[0].id in ("RULE", "REQUIRED", "BUDGET"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    doc = ast.get_docstring(ast.parse(open(path).read()))
    return out, doc


def main():
    t = open(os.path.join(here, "design_text.md")).read()
    swept = {}
    if os.path.exists(os.path.join(here, "sweep.json")):
        swept = json.load(open(os.path.join(here, "sweep.json")))
    bugs = {}
    for f in sorted(glob.glob(os.path.join(root, "seeded", "*", "meta.json"))):
        d = json.load(open(f))
        bugs.setdefault(d["property"], []).append((os.path.basename(os.path.dirname(f)), d))
    t += "## Properties\n\n"
    for p in sorted(PROPS, key=lambda p: p["id"]):
        i = p["id"]
        if i in NOT_APPLICABLE:
            t += f"### {i} {p['title']}\n\nNot applicable: {NOT_APPLICABLE[i]}\n\n"
            continue
        c, doc = consts(os.path.join(root, "checks", i.lower() + ".py"))
        t += f"### {i} {p['title']}\n\n"
        t += f"* **Monitored**: {doc.split(chr(10) * 2)[0].replace(chr(10), ' ')}\n" if doc else ""
        t += f"* **Decided by**: {p['technique']}.\n"
        t += f"* **Explored**: {p['quant']}; {c['RULE']}.\n"
        t += f"* **Oracles that must fire**: {', '.join(c['REQUIRED'])}.\n"
        if "BUDGET" in c:
            t += (f"* **Bound**: the cases of the tier, at most {c['BUDGET'][0]} s (quick) or "
                  f"{c['BUDGET'][1]} s (thorough).\n")
        t += f"* **Beyond the tests**: {p['why']}.\n"
        n = p.get("note", "").replace(NOTE, "").strip()
        if n:
            t += f"* **Note**: {n}\n"
        t += f"* **Code**: {', '.join('`' + f + '`' for f in p['files'])}.\n"
        if i in bugs:
            t += "* **Planted bugs**: " + ", ".join(
                f"{b} ({swept.get(b, 'not swept')})" for b, _ in bugs[i]) + ".\n"
        t += "\n"
    t += "## Which check catches which planted bug\n\n| bug | check | outcome | needs |\n|---|---|---|---|\n"
    for i in sorted(bugs):
        for b, d in bugs[i]:
            t += f"| {b} | {i} | {swept.get(b, 'not swept')} | {d['needs'].replace('|', '/')} |\n"
    open(os.path.join(root, "DESIGN.md"), "w").write(t)


main()

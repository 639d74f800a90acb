"""Writes DESIGN.md: tools/design_head.md, one section per property (from props.py and the sub-checks), the planted bugs, tools/design_tail.md."""
import glob
import importlib
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, "vendor"), ROOT, "/repo/src", os.path.join(ROOT, "tools")]
import meta  # noqa: E402

ORACLE = {}
exec(open(os.path.join(ROOT, "tools", "oracles.py")).read())
read = lambda n: open(os.path.join(ROOT, "tools", n)).read().rstrip() + "\n"
out = [read("design_head.md"), "\n## The properties\n"]
for p in sorted(meta.P, key=lambda p: p["id"]):
    m = importlib.import_module(f"harness.props.{p['id'].lower()}")
    out.append(f"\n### {p['id']} {p['title']}\n\n")
    out.append(f"Quantifier ({', '.join(p['over'])}): {p['text']}. Decided by {p['technique']}.\n\n")
    out.append(f"{ORACLE[p['id']].strip()}\n\nBounds: {p['note']} Beyond the tests: {p['why']}\n\n")
    for s in m.SUBCHECKS:
        out.append(f"- `{s.name}`: {s.quick} cases quick, {s.thorough or s.quick * 15} thorough"
                   + (f", {len(s.corpus)} fixed" if s.corpus else "") + f". Non-trivial: {s.rule}\n")
out.append("\n" + read("design_mid.md") + "\n| bug | property | needs | breaks |\n|---|---|---|---|\n")
for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
    d = json.load(open(f))
    out.append(f"| {f.split('/')[-2]} | {d['property']} | {d['needs']} | {d['what_it_breaks']} |\n")
out.append("\n" + read("design_tail.md"))
open(os.path.join(ROOT, "DESIGN.md"), "w").write("".join(out))

"""covreport.py COVDIR... -- PATH...: lines of functions in PATH (under src) that no check ran."""
import ast, glob, json, os, sys
sep = sys.argv.index("--")
hit = {}
for d in sys.argv[1:sep]:
    for f in glob.glob(os.path.join(d, "**", "*.json"), recursive=True):
        for name, no in json.load(open(f)):
            hit.setdefault(name, set()).add(no)
src = os.path.join(os.environ.get("VERIF_REPO", "/repo"), "src")
files = []
for p in sys.argv[sep + 1:]:
    p = os.path.join(src, p)
    files += [p] if p.endswith(".py") else [f for f in glob.glob(p + "/**/*.py", recursive=True) if "/tests/" not in f]
total = miss_total = 0
for f in sorted(files):
    rel = os.path.relpath(f, src)
    text = open(f).read()
    lines = text.splitlines()
    want = set()
    for fn in ast.walk(ast.parse(text)):
        if isinstance(fn, ast.FunctionDef):
            for st in ast.walk(fn):
                if isinstance(st, ast.stmt) and st is not fn and not isinstance(st, ast.FunctionDef | ast.Global | ast.Pass):
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Constant):
                        continue
                    want.add(st.lineno)
    miss = sorted(want - hit.get(rel, set()))
    total += len(want); miss_total += len(miss)
    if miss:
        print(f"== {rel}: {len(miss)} of {len(want)} not run")
        if len(miss) == len(want):
            print("   (none)")
        else:
            for m in miss:
                print(f"   {m}: {lines[m-1].strip()[:110]}")
print(total, miss_total)

"""mutate.py OUT.jsonl SEED N PROP:FILE[,FILE...] ...   N random small mutants per entry: does the check notice, do the tests?

Runs in copies of /repo under /tmp/w/mut. Survivors of both are candidates for a blind spot (or change nothing).
"""
import ast, concurrent.futures as cf, json, os, queue, random, shutil, subprocess, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SWAP = {ast.Lt: "<=", ast.LtE: "<", ast.Gt: ">=", ast.GtE: ">", ast.Eq: "!=", ast.NotEq: "==", ast.Is: "is not", ast.IsNot: "is", ast.In: "not in", ast.NotIn: "in"}
OPS = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*"}
NAMES = {"min": "max", "max": "min", "minimum": "maximum", "maximum": "minimum", "any": "all", "all": "any", "ceil": "floor", "floor": "ceil", "first": "last",
         "start": "end", "end": "start", "inlet_stream": "outlet_stream"}


def seg(src, offs, node):
    return offs[node.lineno - 1] + node.col_offset, offs[node.end_lineno - 1] + node.end_col_offset


def mutants(text):
    data = text.encode()
    offs, o = [], 0
    for line in data.splitlines(keepends=True):
        offs.append(o); o += len(line)
    tree = ast.parse(text)
    out = []

    def rep(node, new, what):
        a, b = seg(data, offs, node)
        out.append((a, b, new, node.lineno, what))

    def src(node):
        a, b = seg(data, offs, node)
        return data[a:b].decode()

    def skip(st):
        s = src(st)
        return isinstance(st, ast.Raise | ast.Assert | ast.Import | ast.ImportFrom) or (isinstance(st, ast.Expr) and (isinstance(st.value, ast.Constant) or s.startswith(("logger.", "_logger.", "logging.", "super("))))

    def visit(node, infn):
        if isinstance(node, ast.stmt) and infn and skip(node):
            return
        if isinstance(node, ast.FunctionDef):
            for st in node.body:
                visit(st, True)
            return
        if infn:
            if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in SWAP:
                l, r = src(node.left), src(node.comparators[0])
                if not (isinstance(node.comparators[0], ast.Constant) and node.comparators[0].value is None and False):
                    rep(node, f"({l} {SWAP[type(node.ops[0])]} {r})", "cmp")
                    if type(node.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
                        flip = {ast.Lt: ">", ast.LtE: ">=", ast.Gt: "<", ast.GtE: "<="}[type(node.ops[0])]
                        rep(node, f"({l} {flip} {r})", "flip")
            elif isinstance(node, ast.BinOp) and type(node.op) in OPS:
                l, r = src(node.left), src(node.right)
                rep(node, f"({l} {OPS[type(node.op)]} {r})", "arith")
                if isinstance(node.op, ast.Mult | ast.Add | ast.Sub | ast.Div):
                    rep(node, f"({l})", "drop operand")
            elif isinstance(node, ast.BoolOp):
                word = " or " if isinstance(node.op, ast.And) else " and "
                rep(node, "(" + word.join(f"({src(v)})" for v in node.values) + ")", "bool")
                for i in range(len(node.values)):
                    w = " and " if isinstance(node.op, ast.And) else " or "
                    rep(node, "(" + w.join(f"({src(v)})" for j, v in enumerate(node.values) if j != i) + ")", "drop term")
            elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
                rep(node, src(node.operand), "not")
            elif isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.USub) and not isinstance(node.operand, ast.Constant):
                rep(node, src(node.operand), "neg")
            elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
                rep(node, str(not node.value), "bool const")
            elif isinstance(node, ast.Constant) and isinstance(node.value, int | float):
                rep(node, repr(node.value + 1), "const+1")
                if node.value > 1 or isinstance(node.value, float):
                    rep(node, repr(node.value * 1.05 if isinstance(node.value, float) else node.value - 1), "const~")
            elif isinstance(node, ast.IfExp):
                rep(node, f"({src(node.body)})", "ifexp body")
                rep(node, f"({src(node.orelse)})", "ifexp else")
            elif isinstance(node, ast.If):
                rep(node.test, f"(True or {src(node.test)})" if False else "True", "if True")
                rep(node.test, "False", "if False")
            elif isinstance(node, ast.Attribute) and node.attr in NAMES:
                rep(node, src(node)[: -len(node.attr)] + NAMES[node.attr], "name")
            elif isinstance(node, ast.Name) and node.id in NAMES and isinstance(node.ctx, ast.Load):
                rep(node, NAMES[node.id], "name")
            elif isinstance(node, ast.Assign | ast.AugAssign) or (isinstance(node, ast.Expr) and isinstance(node.value, ast.Call)):
                if isinstance(node, ast.AugAssign) or isinstance(node, ast.Expr) or isinstance(node.targets[0], ast.Attribute | ast.Subscript):
                    rep(node, "pass", "delete")
            elif isinstance(node, ast.Continue):
                rep(node, "pass", "delete")
            elif isinstance(node, ast.keyword) and isinstance(node.value, ast.Name | ast.Attribute) :
                pass
            elif isinstance(node, ast.ListComp | ast.GeneratorExp) and node.generators[0].ifs:
                rep(node.generators[0].ifs[0], "True", "filter")
            elif isinstance(node, ast.Call) and len(node.args) == 2 and not node.keywords and src(node.args[0]) != src(node.args[1]):
                rep(node, f"{src(node.func)}({src(node.args[1])}, {src(node.args[0])})", "swap args")
        for f, v in ast.iter_fields(node):
            if f in ("annotation", "returns", "decorator_list"):
                continue
            for child in v if isinstance(v, list) else [v]:
                if isinstance(child, ast.AST):
                    if isinstance(child, ast.JoinedStr):
                        continue
                    visit(child, infn)

    visit(tree, False)
    res = []
    for a, b, new, line, what in out:
        t = (data[:a] + new.encode() + data[b:]).decode()
        if t == text:
            continue
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        res.append({"line": line, "what": what, "old": data[a:b].decode()[:160], "new": new[:160], "text": t})
    return res


STABLE = None


def tests_pass(repo, work):
    """the stable tests in a copy; the installed package is found through PYTHONPATH"""
    env = dict(os.environ, PYTHONPATH=f"{repo}/src", PYTHONDONTWRITEBYTECODE="1")
    x = f"{work}.xml"
    subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "-q", "-n", "3", "-p", "no:cacheprovider", "--timeout=300", "--tb=no", "--continue-on-collection-errors",
                    f"--basetemp={work}.tmp", "-o", "junit_family=xunit2", f"--junitxml={x}"], cwd=repo, env=env, capture_output=True)
    r = subprocess.run(["python3", "/opt/vp/results.py", f"{work}.json", f"junit:{x}"], capture_output=True, text=True)
    got = json.load(open(f"{work}.json"))
    passed = set(got.get("passed") or got.get("pass"))
    return sorted(STABLE - passed)


def main():
    global STABLE
    STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    outp, seed, n = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rng = random.Random(seed)
    jobs = []
    for entry in sys.argv[4:]:
        prop, files = entry.split(":")
        pool = []
        for f in files.split(","):
            text = open(f"/repo/{f}").read()
            pool += [dict(m, file=f, prop=prop) for m in mutants(text)]
        rng.shuffle(pool)
        seen, pick = {}, []
        for m in pool:  # at most two per line
            k = (m["file"], m["line"])
            if seen.get(k, 0) < 1:
                seen[k] = seen.get(k, 0) + 1
                pick.append(m)
        jobs += pick[:n]
        print(entry.split(":")[0], len(pool), "possible", flush=True)
    nworkers = int(os.environ.get("MUT_WORKERS", "4"))
    base = os.environ.get("MUT_DIR", "/tmp/w/mut")
    shutil.rmtree(base, ignore_errors=True)
    os.makedirs(base)
    verif = f"{base}/verif"
    subprocess.run(["git", "clone", "-q", ROOT, verif], check=True)
    subprocess.run(f"cd {ROOT} && git diff HEAD | (cd {verif} && git apply --allow-empty)", shell=True, check=True)
    slots = queue.Queue()
    for k in range(nworkers):
        subprocess.run(["cp", "-a", "/repo", f"{base}/r{k}"], check=True)
        subprocess.run(["cp", "-a", verif, f"{base}/v{k}"], check=True)
        slots.put(k)

    def run(m):
        k = slots.get()
        try:
            repo = f"{base}/r{k}"
            p = f"{repo}/{m['file']}"
            orig = open(p).read()
            open(p, "w").write(m["text"])
            try:
                env = dict(os.environ, VERIF_REPO=repo, VERIF_WORKERS="2")
                for prop in m["prop"].split("+"):
                    r = subprocess.run(["timeout", "500", "./run.sh", prop, "quick"], cwd=f"{base}/v{k}", env=env, capture_output=True, text=True)
                    m["rc"] = r.returncode
                    if r.returncode != 0:
                        break
                m["msg"] = [l for l in r.stdout.splitlines() if l and not l.startswith(("P", "case", "VIOL", "KNOWN"))][:1]
                if r.returncode != 1:
                    bad = tests_pass(repo, f"{base}/t{k}")
                    m["tests"] = bad[:2]
            finally:
                open(p, "w").write(orig)
        except Exception as e:
            m["error"] = repr(e)
        finally:
            slots.put(k)
        m = {k2: v for k2, v in m.items() if k2 != "text"}
        with open(outp, "a") as f:
            f.write(json.dumps(m) + "\n")

    with cf.ThreadPoolExecutor(nworkers) as ex:
        list(ex.map(run, jobs))
    print("finished", len(jobs))


if __name__ == "__main__":
    main()

"""Expressions evaluate, per time step, exactly as documented; malformed ones are rejected."""
import math

import numpy as np
from hypothesis import strategies as st

from harness.core import Ctx, Sub, close, expect_raises, fail, require, require_list_close
from harness.gen import nice

from libecalc.expression.expression import Expression, InvalidExpressionError

# documented precedence: higher binds tighter; everything left to right except power
PREC = {"{^}": 4, "{*}": 3, "{/}": 3, "{+}": 2, "{-}": 2, "==": 1, "!=": 1, "<": 1, ">": 1, "<=": 1, ">=": 1}
ARITH = ["{+}", "{-}", "{*}", "{/}", "{^}"]
CMP = ["==", "!=", "<", ">", "<=", ">="]
REFS = ["SIM;A", "SIM;B", "SIM2;GAS_PROD:F-1", "SIM;a+b", "SIM;x*y/z", "$var.v_1", "$var.Total"]
MAX = float(np.finfo(float).max)


literals = st.one_of(
    st.integers(0, 12).map(lambda i: repr(i)),
    nice(0, 100, 2).map(lambda v: repr(v)),
    st.tuples(st.integers(0, 9), st.integers(-8, 8)).map(lambda t: f"{t[0]}e{t[1]}"),
    st.tuples(nice(0, 99.99, 2), st.integers(-6, 6), st.sampled_from(["e", "E"])).map(
        lambda t: f"{t[0]!r}{t[2]}{'+' if t[1] >= 0 and int(t[0]) % 2 else ''}{t[1]}"
    ),
)


@st.composite
def _tree(draw, depth=None):
    if depth is None:
        depth = draw(st.sampled_from([0, 1, 2, 2, 3, 3, 4]))
    if depth == 0 or draw(st.integers(0, 5)) == 5:
        kind = draw(st.integers(0, 2))
        if kind == 0:
            return ["n", draw(literals)]
        return ["r", draw(st.sampled_from(REFS if kind == 1 else REFS[:2]))]
    op = draw(st.sampled_from(ARITH + CMP if draw(st.booleans()) else ARITH))
    return ["o", op, draw(_tree(depth - 1)), draw(_tree(depth - 1)), draw(st.booleans())]


@st.composite
def valid_case(draw):
    n = draw(st.integers(1, 4))
    val = st.one_of(
        st.integers(-3, 12).map(float), nice(-20, 1000, 2), st.just(0.0), st.just(float("nan")), st.just(1e300)
    )
    return {
        "tree": draw(_tree()),
        "vars": {r: [None if math.isnan(v) else v for v in draw(st.lists(val, min_size=n, max_size=n))] for r in REFS},
        "n": n,
        "ws": draw(st.sampled_from([" ", "", "  ", " \t"])),
    }


def render(t, ws=" "):
    """Text with only the parentheses the documented precedence requires (plus any extra the case asks for)."""
    if t[0] != "o":
        return t[1]
    _, op, a, b, extra = t

    def sub(x, right):
        s = render(x, ws)
        if x[0] == "o":
            p, q = PREC[x[1]], PREC[op]
            need = p < q or (p == q and (right if op != "{^}" else not right))
            if need or x[4]:
                return f"({ws}{s}{ws})"
        return s

    return f"{sub(a, False)}{' ' if ws else ''}{op}{' ' if ws else ''}{sub(b, True)}"


class Ambiguous(Exception):
    pass


def clean(v):
    v = float(v)
    if math.isnan(v):
        return 0.0
    if math.isinf(v):
        return MAX if v > 0 else -MAX
    return v


def ref_eval(t, env):
    """value, exact: documented semantics for one time step."""
    if t[0] == "n":
        return clean(float(t[1])), True
    if t[0] == "r":
        return clean(env[t[1]]), True
    _, op, a, b, _x = t
    (x, ex), (y, ey) = ref_eval(a, env), ref_eval(b, env)
    exact = ex and ey
    if op in CMP:
        if not exact and x != y and close(x, y, 1e-9, 1e-9):
            raise Ambiguous
        if not exact and x == y and x != 0 and x not in (MAX, -MAX):
            raise Ambiguous
        r = {"==": x == y, "!=": x != y, "<": x < y, ">": x > y, "<=": x <= y, ">=": x >= y}[op]
        return (1.0 if r else 0.0), True
    with np.errstate(all="ignore"):
        x64, y64 = np.float64(x), np.float64(y)
        if op == "{+}":
            r = x64 + y64
        elif op == "{-}":
            r = x64 - y64
            if not exact and abs(r) <= 1e-9 * max(abs(x), abs(y)):
                raise Ambiguous
        elif op == "{*}":
            r = x64 * y64
        elif op == "{/}":
            if not exact and abs(y) < 1e-12:
                raise Ambiguous
            r = np.float64(0.0) if y == 0 else x64 / y64
        else:
            if not exact and not (1e-20 < x < 1e20 and abs(y) < 50):
                raise Ambiguous
            r = np.power(x64, y64)
            exact = exact and abs(r) < 2**53 and x == round(x) and y == round(y) and y >= 0
    return clean(r), exact


def check_valid(c, ctx: Ctx):
    text = render(c["tree"], c["ws"])
    env = {r: [float("nan") if v is None else v for v in vs] for r, vs in c["vars"].items()}
    try:
        expected = [ref_eval(c["tree"], {r: vs[i] for r, vs in env.items()})[0] for i in range(c["n"])]
    except Ambiguous:
        ctx.label("ambiguous")
        return
    expr = Expression.setup_from_expression(text)
    with np.errstate(all="ignore"):
        got = expr.evaluate(env, fill_length=c["n"])
        require_list_close(got, expected, f"value of {text!r}", rel=1e-9, abs_=1e-300)
        # every time step on its own gives the same value: no leakage between time steps
        for i in range(c["n"]):
            one = expr.evaluate({r: vs[i : i + 1] for r, vs in env.items()}, fill_length=1)
            require_list_close(one, expected[i : i + 1], f"value of {text!r} in step {i} alone", rel=1e-9, abs_=1e-300)
        # text -> expression -> text -> expression is the identity
        again = Expression.setup_from_expression(str(expr))
        require(again == expr, f"round trip of {text!r} through {str(expr)!r}")
        require_list_close(again.evaluate(env, fill_length=c["n"]), list(got), f"value after round trip of {text!r}", 1e-12, 0)
        prod = Expression.multiply(expr, Expression.setup_from_expression("SIM;A"))
        want = [clean(np.float64(g) * np.float64(clean(a))) for g, a in zip(got, env["SIM;A"])]
        require_list_close(prod.evaluate(env, fill_length=c["n"]), want, f"({text}) * SIM;A", 1e-9, 1e-300)
    used = set()

    def walk(t):
        if t[0] == "r":
            used.add(t[1])
        elif t[0] == "o":
            walk(t[2])
            walk(t[3])

    walk(c["tree"])
    require(set(expr.variables) == used, f"references of {text!r}: {expr.variables}")
    if used:
        missing = sorted(used)[0]
        err = expect_raises(
            InvalidExpressionError,
            lambda: expr.evaluate({k: v for k, v in env.items() if k != missing}, fill_length=c["n"]),
            f"unknown reference {missing}",
        )
        require(missing in str(err), f"the error names the missing reference: {err}")
    ops = text.count("{") + sum(text.count(o) for o in ("==", "!=", "<", ">"))
    ctx.nontrivial(ops >= 2 and used)


@st.composite
def number_case(draw):
    return draw(
        st.one_of(
            st.integers(-(10**12), 10**12), nice(-1e6, 1e6, 3), st.floats(allow_nan=False, allow_infinity=False, width=64)
        )
    )


def check_number(c, ctx: Ctx):
    """A plain number (also as text, also negative or in scientific notation) is that number in every time step."""
    for form in (c, repr(c), f" {c!r} "):
        got = Expression.setup_from_expression(form).evaluate({}, fill_length=3)
        require_list_close(got, [float(c)] * 3, f"number {form!r}", rel=1e-15, abs_=0)
    ctx.nontrivial(c != 0)


TOKENS = st.one_of(
    st.sampled_from(list(PREC)),
    st.sampled_from(["(", ")"]),
    literals,
    st.sampled_from(REFS),
    st.sampled_from(["+", "*", "^", "-", "&", "{", "}", "{%}", ":=", ";", "1.2.3", "=", "!", "$var", "$var.", ",", "$x.y"]),
)


@st.composite
def token_case(draw):
    if draw(st.booleans()):
        base = render(draw(_tree()), " ").replace("(", " ( ").replace(")", " ) ").split()
        for _ in range(draw(st.integers(1, 2))):
            i = draw(st.integers(0, max(0, len(base) - 1)))
            how = draw(st.sampled_from(["drop", "dup", "insert", "replace"]))
            if how == "drop" and base:
                base.pop(i)
            elif how == "dup" and base:
                base.insert(i, base[i])
            elif how == "insert":
                base.insert(i, draw(TOKENS))
            elif base:
                base[i] = draw(TOKENS)
        return base
    return draw(st.lists(TOKENS, min_size=0, max_size=7))


def is_number(tok):
    return tok[:1].isdigit() and tok != "1.2.3"


def parse(tokens):
    """Reference grammar: returns a tree or None."""
    pos = 0

    def atom():
        nonlocal pos
        if pos >= len(tokens):
            return None
        t = tokens[pos]
        pos += 1
        if t == "(":
            e = level(1)
            if e is None or pos >= len(tokens) or tokens[pos] != ")":
                return None
            pos += 1
            return e
        if is_number(t):
            return ["n", t]
        if t in REFS:
            return ["r", t]
        return None

    def level(p):
        nonlocal pos
        if p == 4:
            a = atom()
            if a is not None and pos < len(tokens) and tokens[pos] == "{^}":
                pos += 1
                b = level(4)
                return None if b is None else ["o", "{^}", a, b, False]
            return a
        a = level(p + 1)
        while a is not None and pos < len(tokens) and PREC.get(tokens[pos]) == p:
            op = tokens[pos]
            pos += 1
            b = level(p + 1)
            if b is None:
                return None
            a = ["o", op, a, b, False]
        return a

    t = level(1)
    return t if t is not None and pos == len(tokens) else None


def must_reject(tokens):
    depth = 0
    for t in tokens:
        if t not in PREC and t not in "()" and not is_number(t) and t not in REFS:
            return "unknown token"
        depth += (t == "(") - (t == ")")
        if depth < 0:
            return "unbalanced"
    if depth:
        return "unbalanced"
    operands = sum(1 for t in tokens if is_number(t) or t in REFS)
    operators = sum(1 for t in tokens if t in PREC)
    if operands != operators + 1:
        return "operands and operators do not add up"
    return None


def check_tokens(tokens, ctx: Ctx):
    text = " ".join(tokens)
    env = {r: [2.0 + i, 0.5] for i, r in enumerate(REFS)}
    try:
        float(text)
        return
    except ValueError:
        pass
    tree, reason = parse(tokens), must_reject(tokens)
    try:
        with np.errstate(all="ignore"):
            got = Expression.setup_from_expression(text).evaluate(env, fill_length=2)
    except InvalidExpressionError as e:
        require(tree is None, f"well-formed expression {text!r} rejected: {e}")
        require(str(e) and text.split()[:1] == [] or "Invalid expression" in str(e), "error says what is wrong")
        ctx.label("rejected")
        ctx.nontrivial(len(tokens) > 1)
        return
    if reason:
        fail(f"malformed expression {text!r} ({reason}) evaluates to {list(got)}")
    if tree is None:
        # operands and operators add up but not in infix order: accepted by design (see the repository's own tests)
        ctx.label("not infix")
        return
    try:
        expected = [ref_eval(tree, {r: v[i] for r, v in env.items()})[0] for i in range(2)]
    except Ambiguous:
        return
    require_list_close(got, expected, f"value of {text!r}", rel=1e-9, abs_=1e-300)
    ctx.label("accepted")


@st.composite
def model_case(draw):
    n = draw(st.integers(1, 3))
    val = st.one_of(st.integers(0, 12).map(float), nice(0, 100, 2))
    return {
        "tree": draw(_tree().filter(lambda t: True)),
        "vars": {r: draw(st.lists(val, min_size=n, max_size=n)) for r in REFS},
        "n": n,
    }


def check_model(c, ctx: Ctx):
    """An expression in a model field is evaluated the same way, on the time steps of the model."""
    from harness.e2e import Run, csv_text

    env = {r: c["vars"][r] for r in REFS}
    try:
        expected = [ref_eval(c["tree"], {r: vs[i] for r, vs in env.items()})[0] for i in range(c["n"])]
    except Ambiguous:
        return
    if any(not 0 <= v < 1e12 for v in expected):
        ctx.label("outside what a hydrocarbon export can be")
        return
    dates = [f"{2020 + i}-01-01" for i in range(c["n"] + 1)]
    text = render(c["tree"], " ")
    names = {"SIM": [], "SIM2": []}
    for r in REFS:
        if r.startswith("SIM"):
            names[r.split(";")[0]].append(r)
    # CSV headers cannot hold "*": those columns get a header the file format allows
    header = lambda r: r.split(";")[1].replace("*", "-")  # noqa: E731
    body = text.replace("SIM;x*y/z", "SIM;x-y/z")
    res = {
        f"{s}.csv": csv_text({"DATE": dates[:-1], **{header(r): env[r] for r in rs}}) for s, rs in names.items()
    }
    res["VAR.csv"] = csv_text({"DATE": dates[:-1], **{r.split(".")[1]: env[r] for r in REFS if r.startswith("$")}})
    model = {
        "START": dates[0],
        "END": dates[-1],
        "TIME_SERIES": [{"NAME": s, "FILE": f"{s}.csv", "TYPE": "DEFAULT"} for s in ("SIM", "SIM2", "VAR")],
        "VARIABLES": {
            "result": {"VALUE": body},
            **{r.split(".")[1]: {"VALUE": f"VAR;{r.split('.')[1]}"} for r in REFS if r.startswith("$")},
        },
        "FUEL_TYPES": [{"NAME": "fuel", "EMISSIONS": [{"NAME": "CO2", "FACTOR": 2.0}]}],
        "INSTALLATIONS": [
            {
                "NAME": "A",
                "HCEXPORT": body,
                "FUEL": "fuel",
                "FUELCONSUMERS": [
                    {
                        "NAME": "flare",
                        "CATEGORY": "FLARE",
                        "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": "$var.result"},
                    },
                    {
                        "NAME": "conditional",
                        "CATEGORY": "FLARE",
                        "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": 3, "CONDITION": body},
                    },
                ],
            }
        ],
    }
    run = Run(model, res)
    require_list_close(run.by_name["A"].hydrocarbon_export_rate.values, expected, f"HCEXPORT: {text}", 1e-9, 1e-9)
    require_list_close(run.by_name["flare"].energy_usage.values, expected, f"FUELRATE: {text}", 1e-9, 1e-9)
    want = [3.0 if v != 0 else 0.0 for v in expected]
    require_list_close(run.by_name["conditional"].energy_usage.values, want, f"CONDITION: {text}", 1e-9, 1e-9)
    ctx.nontrivial(text.count("{") >= 1)


SUBCHECKS = [
    Sub("valid", valid_case, check_valid, 2500, rule="random expression trees rendered with minimal/extra parentheses, evaluated by a reference evaluator of the documented rules; non-trivial: at least two operators and one reference",
        corpus=[
            {"tree": ["o", "{/}", ["n", "5"], ["r", "SIM;A"], False], "vars": {r: [0.0, 2.0, None] for r in REFS}, "n": 3, "ws": " "},
            {"tree": ["o", "==", ["o", ">=", ["n", "2"], ["n", "2"], False], ["n", "1"], False], "vars": {r: [0.0] for r in REFS}, "n": 1, "ws": " "},
            {"tree": ["o", "{-}", ["o", "{-}", ["n", "9"], ["n", "3"], False], ["n", "2"], False], "vars": {r: [0.0] for r in REFS}, "n": 1, "ws": ""},
            {"tree": ["o", "{^}", ["n", "2"], ["o", "{^}", ["n", "3"], ["n", "2"], False], False], "vars": {r: [0.0] for r in REFS}, "n": 1, "ws": " "},
        ]),
    Sub("number", number_case, check_number, 400, rule="numbers as number and as text; non-trivial: not zero"),
    Sub("tokens", token_case, check_tokens, 2500, rule="mutated and random token lists against a reference grammar; non-trivial: rejected with more than one token"),
    Sub("model", model_case, check_model, 160, rule="the expression in HCEXPORT, VARIABLES and CONDITION of a whole model; non-trivial: at least one arithmetic operator"),
]

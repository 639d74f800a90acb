"""Variables: each $var resolves to its definition whatever the order of declaration; unresolvable ones are refused."""
from datetime import datetime

from hypothesis import strategies as st

from harness.core import Ctx, Sub, expect_raises, fail, require, require_list_close
from harness.e2e import Run, csv_text, make_model
from harness.gen import dt, nice

YEARS = list(range(2020, 2026))


@st.composite
def case(draw):
    k = draw(st.integers(1, 6))
    start = draw(st.integers(0, 2))
    n = draw(st.integers(1, 3))
    variables = []
    for i in range(k):
        def term():
            kind = draw(st.sampled_from(["const", "ref", "var"] if i else ["const", "ref"]))
            a = draw(st.integers(0, 9))
            if kind == "const":
                return {"k": a}
            if kind == "ref":
                return {"k": a, "ref": draw(st.sampled_from(["A", "B"]))}
            return {"k": a, "var": draw(st.integers(0, i - 1))}

        if draw(st.booleans()):
            years = draw(st.lists(st.sampled_from(range(2019, 2026)), min_size=1, max_size=3, unique=True))
            variables.append({"temporal": [[y, term()] for y in years]})
        else:
            variables.append({"single": term()})
    return {
        "start": YEARS[start],
        "n": n,
        "A": draw(st.lists(st.integers(0, 50), min_size=n, max_size=n)),
        "B": draw(st.lists(nice(0, 50, 1), min_size=n, max_size=n)),
        "vars": variables,
        "order": draw(st.permutations(range(k))),
        "break": draw(st.sampled_from([None, None, None, "cycle", "missing_var", "missing_ref"])),
        "break_at": draw(st.integers(0, k - 1)),
    }


def text(term):
    if "ref" in term:
        return f"{term['k']} {{+}} S;{term['ref']}"
    if "var" in term:
        return f"{term['k']} {{+}} $var.v{term['var']} {{*}} 2"
    return term["k"]


def build(c, broken):
    defs = {}
    for i in c["order"]:
        v = c["vars"][i]
        if "single" in v:
            d = {"VALUE": text(v["single"])}
        else:
            d = {f"{y}-01-01": {"VALUE": text(t)} for y, t in v["temporal"]}
        defs[f"v{i}"] = d
    if broken:
        target = defs[f"v{c['break_at']}"]
        bad = {"cycle": f"$var.v{len(c['vars']) - 1} {{+}} $var.v{c['break_at']}", "missing_var": "$var.nope {+} 1", "missing_ref": "S;NOPE {+} 1"}[broken]
        if "VALUE" in target:
            target["VALUE"] = bad
        else:
            target[next(iter(target))] = {"VALUE": bad}
    dates = [f"{c['start'] + i}-01-01" for i in range(c["n"] + 1)]
    return {
        "START": dates[0],
        "END": dates[-1],
        "TIME_SERIES": [{"NAME": "S", "FILE": "s.csv", "TYPE": "DEFAULT"}],
        "VARIABLES": defs,
        "FUEL_TYPES": [{"NAME": "fuel", "EMISSIONS": [{"NAME": "CO2", "FACTOR": 2.0}]}],
        "INSTALLATIONS": [
            {
                "NAME": "I",
                "HCEXPORT": 0,
                "FUEL": "fuel",
                "FUELCONSUMERS": [
                    {
                        "NAME": f"c{i}",
                        "CATEGORY": "FLARE",
                        "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": f"$var.v{i}"},
                    }
                    for i in range(len(c["vars"]))
                ],
            }
        ],
    }, {"s.csv": csv_text({"DATE": dates[:-1], "A": c["A"], "B": c["B"]})}


def reference(c):
    out = []
    for v in c["vars"]:
        values = []
        for j in range(c["n"]):
            year = c["start"] + j
            if "single" in v:
                t = v["single"]
            else:
                started = [(y, t) for y, t in v["temporal"] if y <= year]
                t = max(started, key=lambda p: p[0])[1] if started else None
            if t is None:
                values.append(0.0)
            elif "ref" in t:
                values.append(float(t["k"] + c[t["ref"]][j]))
            elif "var" in t:
                values.append(t["k"] + 2 * out[t["var"]][j])
            else:
                values.append(float(t["k"]))
        out.append(values)
    return out


def check(c, ctx: Ctx):
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    model, res = build(c, c["break"])
    if c["break"]:
        try:
            Run(model, res)
        except ModelValidationException as e:
            require(str(e), "the error says something")
            ctx.nontrivial()
            ctx.label(f"{c['break']}: {type(e).__name__}")
            return
        fail(f"variables with a {c['break']} were accepted")
    run = Run(model, res)
    for i, want in enumerate(reference(c)):
        got = run.by_name[f"c{i}"].energy_usage
        by_year = {}
        for p, v in zip(got.periods, got.values):
            by_year.setdefault(p.start.year, []).append(v)
        require_list_close([by_year[c["start"] + j][0] for j in range(c["n"])], want, f"$var.v{i} with definitions {model['VARIABLES']}")
        require(all(len(set(vs)) == 1 for vs in by_year.values()), "one value per year")
    ctx.nontrivial(any("var" in t for v in c["vars"] for t in ([v["single"]] if "single" in v else [x[1] for x in v["temporal"]])))


SUBCHECKS = [
    Sub("resolve", case, check, 500, rule="random acyclic definitions (constants, series, other variables, dated definitions in any order) in shuffled declaration order, or one injected cycle/missing reference; non-trivial: a variable defined by another, or a refused model"),
]

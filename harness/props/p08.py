"""Generator sets deliver what their consumers ask for, and burn what the electricity-to-fuel table says."""
from hypothesis import strategies as st

from harness import assetcheck as ac
from harness import assetgen as ag
from harness.core import Ctx, Sub, expect_raises, require
from harness.e2e import Run
from harness.gen import nice


def check_balance(spec, ctx: Ctx):
    data, files = ag.build(spec)
    exp = ag.expect(spec)
    run = Run(data, files)
    ac.check_periods(run, spec)
    for name, e in exp.items():
        if e["kind"] != "genset":
            continue
        ac.check_genset(run, exp, name, spec)
        ac.check_production(run, exp, name)
        # the balance as reported: the sum over the consumers below it
        kids = [c for c in exp if exp[c]["kind"] == "electric" and exp[c]["parent"] == name]
        total = ac.add([0.0] * len(e["reg"]), *[ac.stream_values(run.by_name[k].power) for k in kids])
        got = ac.stream_values(run.by_name[name].power)
        for i, (a, b) in enumerate(zip(got, total)):
            if all(exp[k]["valid"][i] for k in kids):
                require(ac_close(a, b), f"{name} step {i}: power {a}, its consumers use {b}")
        ctx.nontrivial(any(p > 0 for p in ac.clean(e["power"])))
        if not all(e["valid"]):
            ctx.label("over capacity or undefined")
        if any(0 < p < 1 for p in ac.clean(e["power"])):
            ctx.label("low load")
        if e["max_usage"]:
            ctx.label("maximum usage")
        if any(a != b for a, b in zip(e["produced"], e["power"])):
            ctx.label("cable loss")


def ac_close(a, b):
    return abs(a - b) <= 1e-9 * max(1, abs(a), abs(b))


# ---------------------------------------------------------------- the table itself
@st.composite
def table_case(draw):
    t = draw(ag.e2f_tables())
    xs = draw(st.lists(st.one_of(nice(-5, 80, 2), st.sampled_from([r[0] for r in t])), min_size=1, max_size=6))
    return {"table": draw(st.permutations(t)), "loads": xs}


def check_table(c, ctx: Ctx):
    n = len(c["loads"])
    dates = [f"20{20 + i}-01-01" for i in range(n + 1)]
    rows = c["table"]
    gs = {"NAME": "g", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "t",
          "CONSUMERS": [{"NAME": "c", "CATEGORY": "BASE-LOAD", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "LOAD": "S;L"}}]}
    fac = {"NAME": "t", "TYPE": "ELECTRICITY2FUEL", "FILE": "t.csv"}
    data = {
        "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
        "FACILITY_INPUTS": [fac],
        "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": 2}]}],
        "INSTALLATIONS": [{"NAME": "i", "HCEXPORT": 0, "FUEL": "f", "GENERATORSETS": [gs]}],
        "START": dates[0], "END": dates[-1],
    }
    files = {
        "s.csv": ag.csv_text({"DATE": dates[:-1], "L": c["loads"]}),
        "t.csv": ag.csv_text({"POWER": [r[0] for r in c["table"]], "FUEL": [r[1] for r in c["table"]]}),
    }
    run = Run(data, files)
    top = max(r[0] for r in rows)
    want, valid = [], []
    for x in c["loads"]:
        want.append(0.0 if x <= 0 else ag.interp_table(rows, x, min(r[1] for r in rows), max(r[1] for r in rows)))
        valid.append(x <= top)
    g = run.by_name["g"]
    ac.require_list_close(g.energy_usage.values, want, "fuel for the load", 1e-9, 1e-9)
    ac.require_list_close(g.power_capacity_margin.values, [top - x for x in c["loads"]], "capacity margin", 1e-9, 1e-9)
    require(list(g.is_valid.values) == valid, f"validity {g.is_valid.values} expected {valid}")
    # more load never needs less fuel when the table is increasing
    pairs = sorted((x, f) for x, f in zip(c["loads"], g.energy_usage.values))
    require(all(a[1] <= b[1] + 1e-9 for a, b in zip(pairs, pairs[1:])), f"fuel decreases with load: {pairs}")
    lo, hi = min(r[0] for r in rows), top
    ctx.nontrivial(any(lo < x < hi for x in c["loads"]))
    if any(x > hi for x in c["loads"]):
        ctx.label("above")
    if any(0 < x < lo for x in c["loads"]):
        ctx.label("below")


# ---------------------------------------------------------------- settings that make no sense are refused
def refuse_case():
    return st.fixed_dictionaries({
        "what": st.sampled_from(["cable", "max"]), "v": nice(0.01, 0.5, 2), "dated": st.booleans(),
    })


def check_refused(c, ctx: Ctx):
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    gs = {"NAME": "g", "CATEGORY": {"2020-01-01": "TURBINE-GENERATOR"} if c["dated"] else "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "t",
          "CABLE_LOSS" if c["what"] == "cable" else "MAX_USAGE_FROM_SHORE": c["v"],
          "CONSUMERS": [{"NAME": "c", "CATEGORY": "BASE-LOAD", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "LOAD": 1}}]}
    data = {
        "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
        "FACILITY_INPUTS": [{"NAME": "t", "TYPE": "ELECTRICITY2FUEL", "FILE": "t.csv"}],
        "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": 2}]}],
        "INSTALLATIONS": [{"NAME": "i", "HCEXPORT": 0, "FUEL": "f", "GENERATORSETS": [gs]}],
        "START": "2020-01-01", "END": "2021-01-01",
    }
    files = {"s.csv": "DATE,L\n2020-01-01,1\n", "t.csv": "POWER,FUEL\n0,0\n10,10\n"}
    expect_raises(ModelValidationException, lambda: Run(data, files), "power-from-shore settings on a turbine generator")
    ctx.nontrivial()


SUBCHECKS = [
    Sub("balance", ag.asset_specs(gs=(1, 2), fc=(0, 1), ve=(0, 0)), check_balance, 700, rule="a generator set has a positive load"),
    Sub("table", table_case(), check_table, 500, rule="a load strictly inside the table"),
    Sub("refused", refuse_case(), check_refused, 16, thorough=64, rule="always"),
]

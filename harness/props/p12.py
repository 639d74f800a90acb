"""Direct and tabulated consumers: energy usage per time step as documented."""
from hypothesis import strategies as st

from harness import assetcheck as ac
from harness import assetgen as ag
from harness.core import Ctx, Sub, expect_raises, require
from harness.e2e import Run
from harness.gen import nice


def check_consumers(spec, ctx: Ctx):
    data, files = ag.build(spec)
    exp = ag.expect(spec)
    run = Run(data, files)
    ac.check_periods(run, spec)
    models = {}
    for inst in spec["installations"]:
        for c in inst["fuelconsumers"] + [c for g in inst["gensets"] for c in g["consumers"]]:
            models[c["name"]] = c["models"]
    for name, e in exp.items():
        if e["kind"] not in ("electric", "fuel"):
            continue
        ac.check_consumer(run, exp, name, spec)
        used = e["power"] if e["kind"] == "electric" else e["fuel"]
        # the energy usage models, in turn, cover their own time steps
        got = {}
        for m in run.models_of(name):
            for p, v, ok in zip(m.periods, ac.stream_values(m.energy_usage), m.is_valid.values):
                require(p.start not in got, f"{name}: two models at {p}")
                got[p.start] = (v, ok)
        for i, period in enumerate(run.asset.periods):
            if ag.at(models[name], i) is None:
                require(period.start not in got or got[period.start][0] in (0.0,), f"{name}: usage before its first model")
                continue
            v, ok = got[period.start]
            m = ag.at(models[name], i)
            if m.get("plf") is not None:
                continue  # the model itself is reported before the loss
            ac.require_close(v if v == v else 0.0, ac.clean([used[i]])[0], f"{name} model energy usage step {i}")
            require(ok == e["valid"][i], f"{name} model validity step {i}: {ok}")
        ctx.nontrivial(any(u > 0 for u in used))
        for _, m in models[name]:
            ctx.label(m["t"])
            if m.get("cond"):
                ctx.label("condition")
            if m.get("plf") is not None:
                ctx.label("power loss")
        if not all(e["valid"]):
            ctx.label("outside table")


@st.composite
def mismatch_case(draw):
    return {
        "headers": draw(st.sampled_from([["RATE"], ["RATE", "GOR"], ["GOR"]])),
        "vars": draw(st.sampled_from([["RATE"], ["RATE", "GOR"], ["GOR"], ["WC"], ["RATE", "RATE"], []])),
        "fuel": draw(st.booleans()),
    }


def check_mismatch(c, ctx: Ctx):
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    value = "FUEL" if c["fuel"] else "POWER"
    rows = [[x] * len(c["headers"]) + [x * 2.0] for x in range(3)] if len(c["headers"]) == 1 else [
        [x, y, x + y] for x in range(3) for y in range(3)
    ]
    files = {
        "s.csv": "DATE,L\n2020-01-01,1\n",
        "t.csv": ag.csv_text({h: [r[i] for r in rows] for i, h in enumerate(c["headers"] + [value])}),
        "g.csv": "POWER,FUEL\n0,0\n10,10\n",
    }
    consumer = {"NAME": "c", "CATEGORY": "MISCELLANEOUS", "ENERGY_USAGE_MODEL": {
        "TYPE": "TABULATED", "ENERGYFUNCTION": "t", "VARIABLES": [{"NAME": v, "EXPRESSION": 1} for v in c["vars"]]}}
    inst = {"NAME": "i", "HCEXPORT": 0, "FUEL": "f"}
    if c["fuel"]:
        inst["FUELCONSUMERS"] = [consumer]
    else:
        inst["GENERATORSETS"] = [{"NAME": "g", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "g", "CONSUMERS": [consumer]}]
    data = {
        "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
        "FACILITY_INPUTS": [
            {"NAME": "t", "TYPE": "TABULAR", "FILE": "t.csv"}, {"NAME": "g", "TYPE": "ELECTRICITY2FUEL", "FILE": "g.csv"}],
        "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": 1}]}],
        "INSTALLATIONS": [inst],
        "START": "2020-01-01", "END": "2021-01-01",
    }
    match = sorted(c["vars"]) == sorted(c["headers"])
    if match:
        run = Run(data, files)
        ac.require_close(run.by_name["c"].energy_usage.values[0], 2.0, "usage")
        return
    expect_raises(ModelValidationException, lambda: Run(data, files), f"variables {c['vars']} for a table of {c['headers']}")
    ctx.nontrivial()


SUBCHECKS = [
    Sub("consumers", ag.asset_specs(gs=(0, 1), fc=(0, 3), ve=(0, 0), insts=(1, 1), pfs=False), check_consumers, 1000, rule="some usage is positive"),
    Sub("mismatch", mismatch_case(), check_mismatch, 60, thorough=200, rule="variables and table headers differ"),
]

"""Emissions from fuel: fuel use times the factor of the fuel in force."""
from hypothesis import strategies as st

from harness import assetcheck as ac
from harness import assetgen as ag
from harness.core import Ctx, Sub, expect_raises
from harness.e2e import Run
from harness.gen import nice


def check_fuel(spec, ctx: Ctx):
    data, files = ag.build(spec)
    exp = ag.expect(spec)
    run = Run(data, files)
    ac.check_periods(run, spec)
    for name, e in exp.items():
        if e["kind"] not in ("genset", "fuel"):
            continue
        c = run.by_name[name]
        ac.check_fuel(c, e, spec, name)
        ac.check_emissions(c, e, spec, name)
        # as reported: tonnes = kg per fuel unit times fuel / 1000, per calendar day
        for i in range(len(e["reg"])):
            f = ag.at(e["fuel_items"], i)
            fuel = next(x for x in spec["fuels"] if x["name"] == f)
            reported = ac.calendar_values(c.energy_usage)[i]
            if reported != reported:
                continue  # could not be calculated
            for em in fuel["emissions"]:
                got = next(v for k, v in c.emissions.items() if k.lower() == em["name"].lower())
                ac.require_close(got.rate.values[i], reported * ag.val(em["factor"], i) / 1000, f"{name} {em['name']} step {i}")
        if len({v for _, v in e["fuel_items"]}) > 1:
            ctx.label("fuel switch")
        ctx.nontrivial(any(any(r > 0 for r in ac.clean(rs)) for rs in e["emissions"].values()))
    # the fuel view of the same components
    for inst in run.model.get_installations():
        for fc in inst.get_fuel_consumers():
            e = exp[fc.get_name()]
            got = fc.get_fuel_consumption().rate
            ac.require_list_close(ac.clean(ac.calendar_values(got)), ac.calendar(ac.clean(e["fuel"]), e["reg"]), f"{fc.get_name()} fuel consumption")


# ---------------------------------------------------------------- tax/price style expressions in the factor, and refusals
def dup_case():
    return st.fixed_dictionaries({
        "names": st.sampled_from([["co2", "co2"], ["co2", "CO2"], ["CH4", "co2", "ch4"], ["nox", "NOx"]]),
        "factor": nice(0.1, 3, 1),
    })


def check_refused(c, ctx: Ctx):
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    def model(fuels, fuel_ref):
        return {
            "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
            "FUEL_TYPES": fuels,
            "INSTALLATIONS": [{"NAME": "i", "HCEXPORT": 0, "FUEL": fuel_ref, "FUELCONSUMERS": [
                {"NAME": "c", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": 1}}]}],
            "START": "2020-01-01", "END": "2021-01-01",
        }

    files = {"s.csv": "DATE,L\n2020-01-01,1\n"}
    fuel = {"NAME": "f", "EMISSIONS": [{"NAME": n, "FACTOR": c["factor"]} for n in c["names"]]}
    expect_raises(ModelValidationException, lambda: Run(model([fuel], "f"), files), f"duplicate emission names {c['names']}")
    ok = {"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": c["factor"]}]}
    expect_raises(ModelValidationException, lambda: Run(model([ok], "g"), files), "unknown fuel")
    expect_raises(ModelValidationException, lambda: Run(model([ok, dict(ok)], "f"), files), "duplicate fuel names")
    Run(model([ok], "f"), files)
    ctx.nontrivial()


SUBCHECKS = [
    Sub("fuel", ag.asset_specs(gs=(0, 2), fc=(0, 3), ve=(0, 0)), check_fuel, 800, rule="some emission is positive"),
    Sub("refused", dup_case(), check_refused, 16, thorough=60, rule="always"),
]

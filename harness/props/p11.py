"""Venting emitters: given emission rates, or oil rate times factor; condition, unit and rate type respected."""
from hypothesis import strategies as st

from harness import assetcheck as ac
from harness import assetgen as ag
from harness.core import Ctx, Sub, expect_raises, require
from harness.e2e import Run


def check_venting(spec, ctx: Ctx):
    data, files = ag.build(spec)
    exp = ag.expect(spec)
    run = Run(data, files)
    ac.check_periods(run, spec)
    for inst in run.model.get_installations():
        emitters = {e.get_name(): e for e in inst.get_emitters()}
        storage = {s.get_name(): s for s in inst.get_storage_containers()}
        for name, e in exp.items():
            if e["kind"] != "venting" or e["inst"] != inst.get_name():
                continue
            c = run.by_name[name]
            ac.check_emissions(c, e, spec, name)
            require(all(v == 0 for v in c.energy_usage.values), f"{name} uses energy")
            require(c.power is None, f"{name} uses power")
            require(all(c.is_valid.values), f"{name} invalid")
            require(name in emitters, f"{name} is not among the emitters")
            if e["oil"] is not None:
                got = storage[name].get_storage_rates()
                ac.require_list_close(ac.calendar_values(got), ac.calendar(e["oil"], e["reg"]), f"{name} oil rates")
                ctx.label("oil")
            else:
                require(name not in storage, f"{name} has no oil")
                ctx.label("direct")
            ctx.nontrivial(any(any(r > 0 for r in rs) for rs in e["emissions"].values()))


def dup_case():
    return st.fixed_dictionaries({
        "names": st.sampled_from([["co2", "co2"], ["co2", "CO2"], ["CH4", "co2", "ch4"]]),
        "oil": st.booleans(),
    })


def check_refused(c, ctx: Ctx):
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    def model(names, **extra):
        if c["oil"]:
            v = {"NAME": "v", "CATEGORY": "LOADING", "TYPE": "OIL_VOLUME", "VOLUME": {
                "RATE": {"VALUE": 10, **extra}, "EMISSIONS": [{"NAME": n, "EMISSION_FACTOR": 1} for n in names]}}
        else:
            v = {"NAME": "v", "CATEGORY": "COLD-VENTING-FUGITIVE", "TYPE": "DIRECT_EMISSION",
                 "EMISSIONS": [{"NAME": n, "RATE": {"VALUE": 1, **extra}} for n in names]}
        return {
            "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
            "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": 1}]}],
            "INSTALLATIONS": [{"NAME": "i", "HCEXPORT": 0, "FUEL": "f", "VENTING_EMITTERS": [v]}],
            "START": "2020-01-01", "END": "2021-01-01",
        }

    files = {"s.csv": "DATE,L\n2020-01-01,1\n"}
    expect_raises(ModelValidationException, lambda: Run(model(c["names"]), files), f"duplicate emission names {c['names']}")
    bad_unit = "KG_PER_DAY" if c["oil"] else "SM3_PER_DAY"
    expect_raises(ModelValidationException, lambda: Run(model(["co2"], UNIT=bad_unit), files), "a unit that does not fit")
    expect_raises(ModelValidationException, lambda: Run(model(["co2"], CONDITION="S;NOPE > 1"), files), "unknown reference")
    Run(model(["co2", "ch4"]), files)
    ctx.nontrivial()


SUBCHECKS = [
    Sub("venting", ag.asset_specs(gs=(0, 0), fc=(0, 1), ve=(1, 3)), check_venting, 800, rule="some emission is positive"),
    Sub("refused", dup_case(), check_refused, 16, thorough=60, rule="always"),
]

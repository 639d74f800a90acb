"""Compare the result of a whole model with the reference evaluation in assetgen.expect."""
from __future__ import annotations

import math

from harness.core import require, require_close, require_list_close
from harness.gen import days, dt

REL = 1e-9
ABS = 1e-9


def clean(xs):
    """Reported values: what could not be calculated is reported as zero."""
    return [0.0 if math.isnan(x) else x for x in xs]


def lengths(spec):
    ds = [dt(d) for d in spec["dates"]]
    return [days(a, b) for a, b in zip(ds, ds[1:])]


def cum(rates, reg, spec, factor=1.0):
    total, out = 0.0, []
    for r, g, d in zip(rates, reg, lengths(spec)):
        total += r * g * d * factor
        out.append(total)
    return out


def calendar(rates, reg):
    return [r * g for r, g in zip(rates, reg)]


def stream_values(ts):
    """A reported rate per stream day, computed here from what is reported (value, rate type, regularity)."""
    if str(ts.rate_type.value) == "STREAM_DAY":
        return list(ts.values)
    return [v / r if r > 0 else v for v, r in zip(ts.values, ts.regularity)]


def calendar_values(ts):
    if str(ts.rate_type.value) == "CALENDAR_DAY":
        return list(ts.values)
    return [v * r for v, r in zip(ts.values, ts.regularity)]


def check_periods(run, spec):
    got = [(p.start, p.end) for p in run.asset.periods]
    ds = [dt(d) for d in spec["dates"]]
    require(got == list(zip(ds, ds[1:])), f"time steps {got} expected {ds}")


def drop_unknown(values, rates, unknown=None):
    """Where a consumer could not be calculated its value is NaN, and counts as zero in sums; NaN or zero are both fine there."""
    values = list(values)
    for i in range(min(len(values), len(rates))):
        if values[i] != values[i] and (rates[i] != rates[i] or (unknown and unknown[i])):
            values[i] = 0.0 if math.isnan(rates[i]) else rates[i]
    return values


def check_rate(ts, rates, reg, what, unknown=None):
    """`rates` is per stream day."""
    cal = [r * g for r, g in zip(rates, reg)]
    require_list_close(drop_unknown(calendar_values(ts), cal, unknown), calendar(clean(rates), reg), f"{what} per calendar day", REL, ABS)
    if str(ts.rate_type.value) == "STREAM_DAY":
        require_list_close(drop_unknown(ts.values, rates, unknown), clean(rates), f"{what} per stream day", REL, ABS)
    if any(clean(rates)):
        require_list_close(ts.regularity, reg, f"{what} regularity", REL, ABS)


def check_cumulative(ts, rates, reg, spec, what, factor=1.0):
    require_list_close(ts.values, cum(clean(rates), reg, spec, factor), f"{what} cumulative", 1e-8, 1e-8)


def check_emissions(component, exp, spec, what):
    got = {k.lower(): v for k, v in component.emissions.items()}
    require(len(got) == len(component.emissions), f"{what}: emission names {list(component.emissions)}")
    require(set(got) == set(exp["emissions"]), f"{what}: emissions {sorted(got)} expected {sorted(exp['emissions'])}")
    for name, rates in exp["emissions"].items():
        check_rate(got[name].rate, rates, exp["reg"], f"{what} emission {name}", exp.get("unknown"))
        require(got[name].rate.unit.value == "t/d", f"{what} emission unit {got[name].rate.unit}")
        check_cumulative(got[name].cumulative, rates, exp["reg"], spec, f"{what} emission {name}")


def check_power(component, exp, spec, what):
    require(component.power is not None, f"{what} has no power")
    check_rate(component.power, exp["power"], exp["reg"], f"{what} power", exp.get("unknown"))
    require(component.power.unit.value == "MW", f"{what} power unit {component.power.unit}")
    check_cumulative(component.power_cumulative, exp["power"], exp["reg"], spec, f"{what} power [GWh]", 24 / 1000)


def check_fuel(component, exp, spec, what):
    check_rate(component.energy_usage, exp["fuel"], exp["reg"], f"{what} fuel", exp.get("unknown"))
    require(component.energy_usage.unit.value == "Sm3/d", f"{what} fuel unit {component.energy_usage.unit}")
    check_cumulative(component.energy_usage_cumulative, exp["fuel"], exp["reg"], spec, f"{what} fuel")


def check_valid(component, exp, what):
    unknown = exp.get("unknown") or [False] * len(exp["valid"])
    require(
        len(component.is_valid.values) == len(exp["valid"])
        and all(u or a == b for a, b, u in zip(component.is_valid.values, exp["valid"], unknown)),
        f"{what} validity {component.is_valid.values} expected {exp['valid']}",
    )


def check_genset(run, exp, name, spec):
    e, c = exp[name], run.by_name[name]
    check_power(c, e, spec, name)
    check_fuel(c, e, spec, name)
    margin = [m if u else g for g, m, u in zip(c.power_capacity_margin.values, clean(e["margin"]), e["unknown"])]
    require_list_close(margin, clean(e["margin"]), f"{name} power capacity margin", REL, ABS)
    check_valid(c, e, name)


def find_producer(run, name):
    for inst in run.model.get_installations():
        for p in inst.get_electricity_producers():
            if p.get_name() == name:
                return p
    raise KeyError(f"electricity producer {name} is not in the model")


def check_production(run, exp, name):
    """Power taken from the grid or generators, including the loss in the cable, and the maximum."""
    e = exp[name]
    producer = find_producer(run, name)
    require_list_close(drop_unknown(stream_values(producer.get_power_requirement()), e["power"], e["unknown"]), clean(e["power"]), f"{name} power requirement", REL, ABS)
    produced = producer.get_power_production()
    require_list_close(
        drop_unknown(stream_values(produced), e["produced"], e["unknown"]), clean(e["produced"]), f"{name} power production", REL, ABS
    )
    m = producer.get_maximum_power_production()
    if e["max_usage"] is None:
        require(m is None, f"{name} maximum power production {m} although none is given")
    else:
        require_list_close(stream_values(m), e["max_usage"], f"{name} maximum power production", REL, ABS)


def check_consumer(run, exp, name, spec):
    e, c = exp[name], run.by_name[name]
    if e["kind"] == "electric":
        check_power(c, e, spec, name)
        require_list_close(
            drop_unknown(calendar_values(c.energy_usage), calendar(e["power"], e["reg"])), calendar(clean(e["power"]), e["reg"]), f"{name} energy usage", REL, ABS
        )
        require(not c.emissions, f"{name}: an electricity consumer has emissions {c.emissions}")
    else:
        check_fuel(c, e, spec, name)
    check_valid(c, e, name)


def add(*lists):
    return [sum(xs) for xs in zip(*lists)]


def check_installation(run, exp, name, spec):
    e, c = exp[name], run.by_name[name]
    n = len(spec["dates"]) - 1
    reg = e["reg"]
    kids = {k: exp[k] for k in e["children"]}
    fuel = [0.0] * n
    power = [0.0] * n
    has_power = False
    emissions = {}
    for k, x in kids.items():
        if x["kind"] in ("genset", "fuel"):
            fuel = add(fuel, clean(x["fuel"]))
        if x["kind"] == "electric":
            has_power = True
            power = add(power, clean(x["power"]))
        for em, rates in x["emissions"].items():
            emissions[em] = add(emissions.get(em, [0.0] * n), clean(rates))
    unknown = [any(not exp[k]["valid"][i] and exp[k]["kind"] in ("electric", "fuel") for k in kids) for i in range(n)]
    full = dict(reg=reg, unknown=unknown, fuel=fuel, power=power, emissions=emissions, valid=e["valid"], has_power=has_power)
    check_fuel(c, full, spec, name)
    if has_power:
        check_power(c, full, spec, name)
        check_rate(c.power_electrical, power, reg, f"{name} electrical power", unknown)
        check_cumulative(c.power_electrical_cumulative, power, reg, spec, f"{name} electrical power", 24 / 1000)
    for ts in (c.power_mechanical, *([] if has_power else [c.power, c.power_electrical])):
        require(ts is None or all(v == 0 or v != v for v in ts.values), f"{name}: power {ts} although there are no consumers of it")
    check_emissions(c, full, spec, name)
    require(list(c.is_valid.values) == list(e["valid"]), f"{name} validity {c.is_valid.values} expected {e['valid']}")
    require_list_close(calendar_values(c.hydrocarbon_export_rate), e["hcexport"], f"{name} hydrocarbon export", REL, ABS)
    require_list_close(c.regularity.values, reg, f"{name} regularity", REL, ABS)
    return full


def check_asset(run, exp, spec, fulls):
    """fulls: installation name -> what check_installation returned. Everything here per calendar day."""
    n = len(spec["dates"]) - 1
    a = run.asset
    ones = [1.0] * n

    unknown = [any(f["unknown"][i] for f in fulls.values()) for i in range(n)]

    def cv(ts, want):
        return drop_unknown(calendar_values(ts), want, unknown)

    def cal(key):
        return add([0.0] * n, *[calendar(f[key], f["reg"]) for f in fulls.values()])

    emissions = {}
    for f in fulls.values():
        for em, rates in f["emissions"].items():
            emissions[em] = add(emissions.get(em, [0.0] * n), calendar(rates, f["reg"]))
    require_list_close(cv(a.energy_usage, cal("fuel")), cal("fuel"), "asset fuel", REL, ABS)
    check_cumulative(a.energy_usage_cumulative, cal("fuel"), ones, spec, "asset fuel")
    if any(f["has_power"] for f in fulls.values()):
        require_list_close(cv(a.power, cal("power")), cal("power"), "asset power", 1e-8, 1e-8)
        check_cumulative(a.power_cumulative, cal("power"), ones, spec, "asset power", 24 / 1000)
        require_list_close(cv(a.power_electrical, cal("power")), cal("power"), "asset electrical power", 1e-8, 1e-8)
        check_cumulative(a.power_electrical_cumulative, cal("power"), ones, spec, "asset electrical power", 24 / 1000)
    got = {k.lower(): v for k, v in a.emissions.items()}
    require(set(got) == set(emissions) and len(got) == len(a.emissions), f"asset emissions {sorted(got)} expected {sorted(emissions)}")
    for em, rates in emissions.items():
        require_list_close(cv(got[em].rate, rates), rates, f"asset emission {em}", REL, ABS)
        check_cumulative(got[em].cumulative, rates, ones, spec, f"asset emission {em}")
    valid = [all(f["valid"][i] for f in fulls.values()) for i in range(n)]
    require(list(a.is_valid.values) == valid, f"asset validity {a.is_valid.values} expected {valid}")
    hc = add([0.0] * n, *[exp[name]["hcexport"] for name in fulls])
    require_list_close(calendar_values(a.hydrocarbon_export_rate), hc, "asset hydrocarbon export", REL, ABS)


def check_structure(run, exp, spec):
    """Every component is in the result exactly once, below its parent."""
    names = sorted(c.name for c in run.result.sub_components)
    require(names == sorted(exp), f"components in the result {names} expected {sorted(exp)}")
    for c in run.result.sub_components:
        e = exp[c.name]
        parent = "inst" if e["kind"] == "installation" else e["parent"]
        if e["kind"] != "installation":
            require(c.parent == parent, f"{c.name}: parent {c.parent} expected {parent}")
        else:
            require(c.parent == run.asset.name, f"{c.name}: parent {c.parent}")

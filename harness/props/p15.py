"""Turbines driving compressors: from the power the compressor needs to load, efficiency, fuel and capacity."""
import math

from hypothesis import strategies as st

from harness import assetcheck as ac, charts as ch, fakefluid as ff
from harness.core import Ctx, Sub, expect_raises, require, require_close
from harness.e2e import Run, csv_text
from harness.gen import nice

ASSUMPTIONS = ["For trains the NeqSim library (not installed offline) is replaced by an explicit equation of state behind the Java gateway."]
NEAR = 1e-7


@st.composite
def table(draw):
    """A compressor: power by rate."""
    n = draw(st.integers(2, 5))
    rates = sorted(draw(st.sets(st.integers(1, 40), min_size=n, max_size=n)))
    p, values = draw(nice(0.5, 6, 2)), []
    for _ in rates:
        values.append(round(p, 3))
        p += draw(nice(0.2, 6, 2))
    return {"rates": [r * 1e5 for r in rates], "values": values}


@st.composite
def turbine(draw):
    n = draw(st.integers(2, 7))
    loads = [0.0]
    for _ in range(n - 1):
        loads.append(round(loads[-1] + draw(nice(0.5, 8, 2)), 3))
    low = draw(st.sampled_from([0.0, 0.0, 0.05, 0.2]))
    eff = [low] + [draw(nice(0.1, 0.45, 3)) for _ in loads[1:]]
    return {"loads": loads, "eff": eff, "lhv": draw(nice(25, 50, 1)), "adjust": draw(adjust()),
            "order": draw(st.permutations(range(len(loads)))) if draw(st.integers(0, 3)) == 0 else None}


@st.composite
def adjust(draw):
    return [draw(st.sampled_from([1.0, 1.0, 1.1, 0.9, 1.25])), draw(st.sampled_from([0.0, 0.0, 0.5, 2.0]))]


@st.composite
def case(draw):
    c = {"drive": draw(st.sampled_from(["table", "table", "table", "train"])), "table": draw(table()), "turbine": draw(turbine()), "adjust": draw(adjust()),
         "reg": draw(st.sampled_from([1.0, 1.0, 0.9])), "plf": draw(st.sampled_from([None, None, 0.05])),
         "p": draw(nice(5, 40, 1)), "ratio": draw(nice(1.5, 3.5, 2)), "q": draw(nice(500, 6000, 0)), "train_adjust": draw(adjust())}
    c["steps"] = [0.0 if draw(st.integers(0, 7)) == 0 else draw(nice(0.05, 1.1, 3)) for _ in range(draw(st.integers(1, 6)))]
    return c


def yaml_turbine(name, t):
    more = {}
    if t["adjust"] != [1.0, 0.0]:
        more = {"POWER_ADJUSTMENT_FACTOR": t["adjust"][0], "POWER_ADJUSTMENT_CONSTANT": t["adjust"][1]}
    if t.get("order"):
        t = {**t, **{k: [t[k][i] for i in t["order"]] for k in ("loads", "eff")}}
    return {"NAME": name, "TYPE": "TURBINE", "LOWER_HEATING_VALUE": t["lhv"], "TURBINE_LOADS": t["loads"], "TURBINE_EFFICIENCIES": t["eff"], **more}


def model(models, facilities, usage, columns, files, reg):
    n = len(next(iter(columns.values())))
    dates = [f"{2020 + i}-01-01" for i in range(n + 1)]
    return Run({
        "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
        **({"FACILITY_INPUTS": facilities} if facilities else {}), "MODELS": models,
        "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": 2.5}]}],
        "INSTALLATIONS": [{"NAME": "i", "HCEXPORT": 0, "FUEL": "f", "REGULARITY": reg, "FUELCONSUMERS": [{"NAME": "x", "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": usage}]}],
        "START": dates[0], "END": dates[-1],
    }, {**files, "s.csv": csv_text({"DATE": dates[:-1], **columns})})


def interp(x, xs, ys):
    return ch.interp(min(max(x, xs[0]), xs[-1]), xs, ys)


def turbine_load(c, power):
    a, b = c["adjust"]
    ta, tb = c["turbine"]["adjust"]
    x = power * a + b if power > 0 else power
    return (x + tb) / ta if x > 0 else x


def check_turbine(c, ctx: Ctx):
    w = {"NAME": "m", "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": "k", "TURBINE_MODEL": "t",
         "POWER_ADJUSTMENT_FACTOR": c["adjust"][0], "POWER_ADJUSTMENT_CONSTANT": c["adjust"][1]}
    usage = {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "m", "RATE": "S;RATE", "SUCTION_PRESSURE": "S;PS", "DISCHARGE_PRESSURE": "S;PD"}
    if c["plf"]:
        usage["POWERLOSSFACTOR"] = c["plf"]
    if c["drive"] == "table":
        k = c["table"]
        rates = [x * k["rates"][-1] for x in c["steps"]]
        r = model([yaml_turbine("t", c["turbine"]), w], [{"NAME": "k", "TYPE": "COMPRESSOR_TABULAR", "FILE": "k.csv"}], usage,
                  {"RATE": [x * c["reg"] for x in rates], "PS": [20.0] * len(rates), "PD": [100.0] * len(rates)},
                  {"k.csv": csv_text({"RATE": k["rates"], "POWER": k["values"]})}, c["reg"])
        powers = []
        for q in rates:
            if abs(q / k["rates"][-1] - 1) < NEAR:
                powers.append(None)
            elif q > k["rates"][-1]:
                powers.append(math.nan)
            else:
                powers.append(interp(q, k["rates"], k["values"]) if q > 0 else 0.0)
    else:
        from harness.props import p22

        ff.install()
        d = {"comp": {"methane": 0.9, "ethane": 0.1}, "eos": "SRK", "units": ["JOULE_PER_KG", "FRACTION"], "adjust": c["train_adjust"], "calc_max": False, "max_ratio": None}
        stages = [{"t": 303.0, "kind": "input", "eff": 0.7, "point": None}]
        fluid, *models = p22.yaml_train(d, stages, None)
        models[-1]["NAME"] = "k"
        rates = [round(x * c["q"] * c["p"] * 22, 1) for x in c["steps"]]
        r = model([fluid, *models, yaml_turbine("t", c["turbine"]), w], [], usage,
                  {"RATE": [x * c["reg"] for x in rates], "PS": [c["p"]] * len(rates), "PD": [round(c["p"] * c["ratio"], 2)] * len(rates)}, {}, c["reg"])
        sr = r.models_of("x")[0].stage_results[0]
        a, b = c["train_adjust"]
        powers = [p * a + b if p > 0 else 0.0 for p in sr.power.values]
        if any(q > 0 and not p > 0 for q, p in zip(rates, powers)):
            return
    x, m = r.by_name["x"], r.models_of("x")[0]
    t = m.turbine_result
    turb = c["turbine"]
    top = turb["loads"][-1]
    fuel, power = ac.stream_values(x.energy_usage), ac.stream_values(x.power)
    for i, p in enumerate(powers):
        what = f"step {i}: rate {rates[i]}, compressor power {p}"
        if p is None:
            ctx.label("not judged")
            return
        if math.isnan(p):
            require(not x.is_valid.values[i] and not m.is_valid.values[i], f"{what}: valid without a power")
            ctx.label("compressor exceeded")
            continue
        load = turbine_load(c, p)
        if turb["order"] and load > top * (1 - NEAR):  # which efficiency is used beyond the curve is not documented
            require(load < top * (1 + NEAR) or not (t.is_valid.values[i] or x.is_valid.values[i]), f"{what}: load {load} of at most {top} is valid")
            continue
        eff = interp(load, turb["loads"], turb["eff"])
        exp = load * 86400 / turb["lhv"] / eff if load > 0 and eff > 0 else 0.0
        require_close(ac.stream_values(t.load)[i], load, f"{what}: load of the turbine", rel=1e-6, abs_=1e-9)
        require_close(ac.stream_values(t.power)[i], load, f"{what}: power of the turbine", rel=1e-6, abs_=1e-9)
        require_close(t.efficiency.values[i], eff, f"{what}: efficiency at load {load}", rel=1e-5, abs_=1e-9)
        require_close(ac.stream_values(t.fuel_rate)[i], exp, f"{what}: fuel of the turbine at load {load}", rel=1e-5, abs_=1e-6)
        require_close(ac.stream_values(t.energy_usage)[i], exp, f"{what}: energy of the turbine at load {load}", rel=1e-5, abs_=1e-6)
        require_close(ac.stream_values(m.energy_usage)[i], exp, f"{what}: energy of the model", rel=1e-5, abs_=1e-6)
        require_close(ac.stream_values(m.power)[i], load, f"{what}: power of the model", rel=1e-6, abs_=1e-9)
        loss = 1 - (c["plf"] or 0)
        require_close(fuel[i], exp / loss, f"{what}: fuel", rel=1e-5, abs_=1e-6)
        require_close(power[i], load / loss, f"{what}: power", rel=1e-6, abs_=1e-9)
        if abs(load - top) > NEAR * top:
            ok = load <= top
            require(t.exceeds_maximum_load.values[i] == (not ok), f"{what}: load {load} of at most {top}, exceeds_maximum_load is {t.exceeds_maximum_load.values[i]}")
            require(t.is_valid.values[i] == ok, f"{what}: load {load} of at most {top}, turbine valid is {t.is_valid.values[i]}")
            require(m.is_valid.values[i] == ok and x.is_valid.values[i] == ok, f"{what}: load {load} of at most {top}, valid is {m.is_valid.values[i]}, {x.is_valid.values[i]}")
            ctx.label("too high load" if not ok else "off" if load == 0 else "running")
            ctx.nontrivial(load > 0)
    ctx.label(c["drive"])


# ---------------------------------------------------------------- the maximum rate of a compressor with turbine in a system
@st.composite
def system_case(draw):
    c = {"table": draw(table()), "other": draw(table()), "turbine": draw(turbine()), "adjust": draw(adjust()), "reg": 1.0}
    c["top"] = draw(nice(0.2, 1.3, 3))
    c["steps"] = [[draw(nice(0.1, 1.5, 3)), draw(nice(0.1, 0.4, 3))] for _ in range(draw(st.integers(1, 4)))]
    return c


def check_max(c, ctx: Ctx):
    k, o, t = c["table"], c["other"], c["turbine"]
    # the turbine is made to fit the compressor, somewhere between its lowest and highest power
    a, b = c["adjust"]
    ta, tb = t["adjust"]
    lo, hi = k["values"][0], k["values"][-1]
    limit = lo + c["top"] * (hi - lo)
    f = turbine_load(c, limit) / t["loads"][-1]
    t = {**t, "loads": [round(x * f, 5) for x in t["loads"]]}
    c = {**c, "turbine": t}
    limit = ((t["loads"][-1] * ta - tb) - b) / a  # power of the compressor at the highest load of the turbine
    if limit < lo * 1.01 + 0.01:
        return
    most = k["rates"][-1] if limit > hi else interp(limit, k["values"], k["rates"])
    rows = [[x * k["rates"][-1], y * o["rates"][-1]] for x, y in c["steps"]]
    r = model(
        [yaml_turbine("t", t), {"NAME": "m", "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": "k", "TURBINE_MODEL": "t", "POWER_ADJUSTMENT_FACTOR": a, "POWER_ADJUSTMENT_CONSTANT": b},
         {"NAME": "big", "TYPE": "TURBINE", "LOWER_HEATING_VALUE": 40, "TURBINE_LOADS": [0, 1000], "TURBINE_EFFICIENCIES": [0.3, 0.3]},
         {"NAME": "n", "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": "o", "TURBINE_MODEL": "big"}],
        [{"NAME": "k", "TYPE": "COMPRESSOR_TABULAR", "FILE": "k.csv"}, {"NAME": "o", "TYPE": "COMPRESSOR_TABULAR", "FILE": "o.csv"}],
        {"TYPE": "COMPRESSOR_SYSTEM", "COMPRESSORS": [{"NAME": "k1", "COMPRESSOR_MODEL": "m"}, {"NAME": "k2", "COMPRESSOR_MODEL": "n"}],
         "OPERATIONAL_SETTINGS": [{"RATES": ["S;A", "S;B"], "SUCTION_PRESSURE": 20, "DISCHARGE_PRESSURE": 100, "CROSSOVER": [2, 0]}]},
        {"A": [x for x, _ in rows], "B": [y for _, y in rows]},
        {"k.csv": csv_text({"RATE": k["rates"], "POWER": k["values"]}), "o.csv": csv_text({"RATE": o["rates"], "POWER": o["values"]})}, 1.0)
    (m,), (n,) = r.models_of("k1"), r.models_of("k2")
    slope = max((y - x) / (q - p) for x, y, p, q in zip(k["values"], k["values"][1:], k["rates"], k["rates"][1:]))
    flat = min((y - x) / (q - p) for x, y, p, q in zip(k["values"], k["values"][1:], k["rates"], k["rates"][1:]))
    tol = (2e-3 + 1e-4 * hi) / flat + 1e-4 * most  # 1 kW is kept from the limit
    for i, (x, y) in enumerate(rows):
        what = f"step {i}: rates {x} and {y}, the turbine limits the first to {most}"
        got = m.rate.values[i]
        if abs(x - most) < tol:
            ctx.label("not judged")
            continue
        exp = min(x, most)
        require_close(got, exp, f"{what}: rate of the first", abs_=tol if exp == most else 1e-6 * most)
        require(got <= exp + max(1e-6 * most, 1e-9), f"{what}: rate of the first {got}")
        require_close(n.rate.values[i], x + y - got, f"{what}: rate of the second", rel=1e-9)
        require(m.is_valid.values[i], f"{what}: the first is given {got} but that is invalid")
        require(not m.turbine_result.exceeds_maximum_load.values[i], f"{what}: the first is given {got} which exceeds the load of its turbine")
        ctx.label("within" if x < most else "limited by table" if most == k["rates"][-1] else "limited by turbine")
        ctx.nontrivial(x > most and most < k["rates"][-1])


# ---------------------------------------------------------------- what is refused
@st.composite
def bad_case(draw):
    return {"turbine": draw(turbine()), "bad": draw(st.sampled_from(["more loads", "more efficiencies", "above one", "negative"])), "at": draw(st.integers(0, 6)), "x": draw(nice(0.01, 50, 2))}


def check_bad(c, ctx: Ctx):
    c = {**c, "turbine": {**c["turbine"], "order": None}}
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    t = {**c["turbine"], "loads": list(c["turbine"]["loads"]), "eff": list(c["turbine"]["eff"])}
    i = c["at"] % len(t["eff"])
    if c["bad"] == "more loads":
        t["loads"].append(t["loads"][-1] + c["x"])
    elif c["bad"] == "more efficiencies":
        t["eff"].insert(i, min(1.0, c["x"]))
    elif c["bad"] == "above one":
        t["eff"][i] = 1 + c["x"]
    else:
        t["eff"][i] = -c["x"]
    run = lambda: model([yaml_turbine("t", t), {"NAME": "m", "TYPE": "COMPRESSOR_WITH_TURBINE", "COMPRESSOR_MODEL": "k", "TURBINE_MODEL": "t"}],  # noqa: E731
                        [{"NAME": "k", "TYPE": "COMPRESSOR_TABULAR", "FILE": "k.csv"}],
                        {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "m", "RATE": "S;RATE", "SUCTION_PRESSURE": 20, "DISCHARGE_PRESSURE": 100},
                        {"RATE": [1e5]}, {"k.csv": csv_text({"RATE": [1e5, 2e5], "POWER": [1, 2]})}, 1.0)
    expect_raises(ModelValidationException, run, f"turbine with {c['bad']}")
    ctx.nontrivial()
    ctx.label(c["bad"])


SUBCHECKS = [
    Sub("turbine", case(), check_turbine, 500, rule="the turbine runs, inside or above its loads"),
    Sub("maximum", system_case(), check_max, 300, rule="the rate is limited by the load of the turbine"),
    Sub("refused", bad_case(), check_bad, 40, rule="always"),
]

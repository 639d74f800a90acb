"""Pumps: power, recirculation, choking and capacity from the pump chart."""
import numpy as np
from hypothesis import strategies as st

from harness import assetcheck as ac
from harness import charts as ch
from harness.core import Ctx, Sub, expect_raises, require, require_close
from harness.e2e import Run, csv_text, make_model
from harness.gen import nice

REL = 1e-7
GRAVITY = 9.81


def near(a, b, rel=1e-7):
    return abs(a - b) <= rel * max(1.0, abs(a), abs(b))


@st.composite
def operating_points(draw, data, n):
    """(rate m3/h, head J/kg): mostly inside or around the chart."""
    lo, hi = data[0], data[-1]
    out = []
    for _ in range(n):
        kind = draw(st.sampled_from(["box", "box", "box", "curve", "edge", "zero", "far"]))
        if kind == "zero":
            out.append([0.0, draw(nice(0, 3000, 0))])
            continue
        c = draw(st.sampled_from(data))
        a, b = (-0.2, 1.15) if kind in ("box", "curve") else (0, 1) if kind == "edge" else (-1, 2)
        q = lo["rate"][0] + draw(nice(a, b, 3)) * (hi["rate"][-1] - lo["rate"][0])
        h = lo["head"][-1] + draw(nice(a, b, 3)) * (hi["head"][0] - lo["head"][-1])
        if kind == "curve":
            h = ch.interp(q, c["rate"], c["head"]) * (1 + draw(st.sampled_from([-0.03, -1e-3, 1e-3, 0.01, 0.04])))
        if kind == "edge":
            h = ch.max_head(data, q) if draw(st.booleans()) else ch.min_head(data, q)
        out.append([max(round(q, 4), 0.001), max(round(h, 4), 0.0)])
    return out


@st.composite
def pump_case(draw, model=False):
    data = draw(ch.curves(n_max=3))
    n = draw(st.integers(2, 6))
    c = {
        "sorted": data,
        "curves": draw(st.permutations(data)),
        "margin": draw(st.one_of(st.just(0.0), st.just(0.0), nice(1, 400, 1))),
        "density": [draw(st.sampled_from([1000.0, 1025.0, 780.5, 850.0])) for _ in range(n)],
        "ps": [draw(nice(1, 40, 1)) for _ in range(n)],
        "points": draw(operating_points(data, n)),
        "min_flow": draw(st.one_of(st.none(), nice(0, 0.7, 2))),
    }
    if model:
        c["units"] = [draw(st.sampled_from(["M", "KJ_PER_KG", "JOULE_PER_KG"])), draw(st.sampled_from(["FRACTION", "PERCENTAGE"]))]
        c["reg"] = draw(st.one_of(st.just(1.0), nice(0.3, 1, 2)))
        c["plf"] = draw(st.one_of(st.none(), nice(0, 0.5, 2)))
        c["cond"] = [draw(st.sampled_from([1, 1, 1, 0])) for _ in range(n)] if draw(st.booleans()) else None
        c["speed_column"] = draw(st.booleans())
    return c


def expected(ref, q, head, density, margin):
    """None where a limit is too close to call; else (power, valid)."""
    if q <= 0:
        return 0.0, True
    q1 = max(q, ch.min_flow(ref, head))
    low, top = ch.min_head(ref, q1), ch.max_head(ref, q1)
    right = max(c["rate"][-1] for c in ref)
    if near(q1, right):
        return None
    if head < low and not near(head, low) and len(ref) == 1:
        h1, valid = low, q1 < right  # choked down to the required head from the only curve
    elif margin and head > top and not near(head, top) and head < top + margin and not near(head, top + margin):
        h1, valid = top, q1 < right
    else:
        h1 = max(head, low)
        if near(h1, top) or margin and near(h1, top + margin):
            return None
        valid = h1 < top and q1 < right
    eff, ambiguous = ch.efficiency(ref, q1, h1)
    if ambiguous:
        return None
    return density * h1 * q1 / 3600 / 1e6 / eff, valid


def check_legacy(c, ctx: Ctx):
    from libecalc.domain.process.pump.pump import PumpModel

    pump = PumpModel(ch.chart_data(c["curves"]), head_margin=c["margin"])
    pd = [p + h * d / 1e5 for p, (_, h), d in zip(c["ps"], c["points"], c["density"])]
    res = pump.evaluate_rate_ps_pd_density(
        rates=np.array([q * 24 for q, _ in c["points"]]), suction_pressures=np.array(c["ps"]),
        discharge_pressures=np.array(pd), fluid_densities=np.array(c["density"]),
    )
    energy = res.get_energy_result()
    valid = energy.is_valid
    for i, (q, h) in enumerate(c["points"]):
        e = expected(c["sorted"], q, h, c["density"][i], c["margin"])
        best = float(pump.get_max_standard_rate(c["ps"][i], pd[i], c["density"][i]))
        require_close(best, ch.max_rate(c["sorted"], h) * 24, f"maximum rate at head {h}", rel=1e-6)
        if e is None:
            continue
        where = f"pump at {q} m3/h, {h} J/kg"
        require_close(energy.power.values[i], e[0], f"{where}: power", rel=1e-6)
        require(valid[i] == e[1], f"{where}: valid {valid[i]}")
        if q > 0:
            ctx.nontrivial(e[1])
            ctx.label("valid" if e[1] else "outside")
            if e[1] and q < best / 24 * (1 - 1e-6):
                # anything between the rate and the maximum rate can be handled as well
                again = pump.evaluate_rate_ps_pd_density(
                    rates=np.array([(q * 24 + best) / 2]), suction_pressures=np.array([c["ps"][i]]),
                    discharge_pressures=np.array([pd[i]]), fluid_densities=np.array([c["density"][i]]),
                )
                require(again.get_energy_result().is_valid[0], f"{where}: not valid between its rate and the maximum {best}")


def check_process(c, ctx: Ctx):
    """The process pump: the operating point, and mass balance of the streams around it."""
    from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
    from libecalc.process.pump.liquid_stream import LiquidStream
    from libecalc.process.pump.pump import Pump
    from libecalc.process.pump.pump_process_simulation import PumpOperatingInput, PumpProcessSimulation

    ref = c["sorted"]
    left = min(k["rate"][0] for k in ref)
    right = max(k["rate"][-1] for k in ref)
    floor = None if c["min_flow"] is None else round(left + c["min_flow"] * (right - left), 3)
    if floor is not None and c["min_flow"] > 0.01:
        low = left * 0.9
        expect_raises(EcalcValidationException, lambda: Pump(ch.chart_data(c["curves"]), minimum_flow_rate_m3_per_hour=low), f"minimum flow {low} left of the chart")
    else:
        floor = None
    sim = PumpProcessSimulation(Pump(ch.chart_data(c["curves"]), minimum_flow_rate_m3_per_hour=floor))
    pds, inputs = [], []
    for (q, h), d, ps in zip(c["points"], c["density"], c["ps"]):
        pds.append(ps + h * d / 1e5)
        inputs.append(PumpOperatingInput(
            inlet_stream=LiquidStream.from_volumetric_rate(q * 24, ps, d), required_discharge_pressure_bara=pds[-1]))
    results = sim.evaluate(inputs)
    order = [x.get_id() for x in sim.get_process_units()]
    require(len(results) == len(inputs), "one result for each input")
    for i, (q, h) in enumerate(c["points"]):
        r, d, ps, pd = results[i].pump_result, c["density"][i], c["ps"][i], pds[i]
        where = f"process pump at {q} m3/h, {h} J/kg, minimum flow {floor}"
        streams = [results[i].connection_streams[x.get_id()] for x in sim.get_process_unit_connections()]
        for a, b, conn in zip(order, order[1:], sim.get_process_unit_connections()):
            require((conn.get_from_process_unit_id(), conn.get_to_process_unit_id()) == (a, b), "connections follow the units")
        mass = q * d
        require_close(streams[0].mass_rate_kg_per_h, mass, f"{where}: inlet mass rate")
        require_close(streams[-1].mass_rate_kg_per_h, mass, f"{where}: outlet mass rate")
        require_close(streams[3].mass_rate_kg_per_h, mass, f"{where}: mass rate after the splitter")
        if q <= 0:
            require(r.is_valid and r.shaft_power_mw == 0, f"{where}: off")
            require_close(streams[-1].pressure_bara, ps, f"{where}: outlet pressure when off")
            continue
        q1 = max(q, floor or 0.0, left, ch.min_flow(ref, h))
        h1 = max(h, ch.min_head(ref, q1))
        top = ch.max_head(ref, q1)
        require_close(r.required_head_joule_per_kg, h, f"{where}: required head", rel=1e-7, abs_=1e-6)
        require_close(r.operational_volumetric_rate_m3_per_hour, q1, f"{where}: operating rate", rel=1e-7)
        require_close(r.recirculation_rate_m3_per_hour, q1 - q, f"{where}: recirculation", rel=1e-7, abs_=1e-4)
        require_close(r.operational_head_joule_per_kg, h1, f"{where}: operating head", rel=1e-7, abs_=1e-6)
        require_close(streams[1].mass_rate_kg_per_h, q1 * d, f"{where}: mass rate into the pump", rel=1e-7)
        require_close(streams[2].mass_rate_kg_per_h, q1 * d, f"{where}: mass rate out of the pump", rel=1e-7)
        out = ps + h1 * d / 1e5
        for k, p in enumerate([ps, ps, out, out, min(out, pd)]):
            require_close(streams[k].pressure_bara, p, f"{where}: pressure of stream {k}", rel=1e-7)
            require(streams[k].density_kg_per_m3 == d, f"{where}: density of stream {k}")
        require_close(r.choke_pressure_drop_bara, max(out - pd, 0), f"{where}: choke pressure drop", rel=1e-6, abs_=1e-6)
        eff, ambiguous = ch.efficiency(ref, q1, h1)
        if not ambiguous:
            require_close(r.shaft_power_mw, d * h1 * q1 / 3600 / 1e6 / eff, f"{where}: power", rel=1e-6)
        sure = not near(q1, right) and (not near(h1, top) or len(ref) == 1 and h < top and not near(h, top))
        if sure:
            flags = {(False, False): "NO_FAILURE", (True, False): "ABOVE_MAXIMUM_HEAD_AT_RATE", (False, True): "ABOVE_MAXIMUM_PUMP_RATE",
                     (True, True): "ABOVE_MAXIMUM_PUMP_RATE_AND_MAXIMUM_HEAD_AT_RATE"}
            require(r.failure_status.value == flags[h1 > top, q1 > right], f"{where}: status {r.failure_status}")
        if sure and h1 <= top and q1 <= right:
            ctx.nontrivial()
            # the speed is the one whose interpolated curve goes through the operating point
            at = sorted((k["speed"], ch.interp(q1, k["rate"], k["head"])) for k in ref)
            got = r.speed_rpm
            if all(b[1] > a[1] * (1 + 1e-6) for a, b in zip(at, at[1:])):
                require_close(got, ch.interp(h1, [a[1] for a in at], [a[0] for a in at]), f"{where}: speed", rel=1e-6)
            ctx.label("recirculates" if q1 > q else "no recirculation", "chokes" if h1 > h else "no choking")


def check_model(c, ctx: Ctx):
    """The same numbers from a model: chart file and units, HEAD_MARGIN, conditions, calendar day rates, power loss."""
    head_unit, eff_unit = c["units"]
    hf = {"M": 1 / GRAVITY, "KJ_PER_KG": 1e-3, "JOULE_PER_KG": 1.0}[head_unit]
    ef = {"FRACTION": 1.0, "PERCENTAGE": 100.0}[eff_unit]
    rows = [(k["speed"], q, h * hf, e * ef) for k in c["curves"] for q, h, e in zip(k["rate"], k["head"], k["eff"])]
    single = len(c["curves"]) == 1
    cols = {"SPEED": [r[0] for r in rows], "RATE": [r[1] for r in rows], "HEAD": [r[2] for r in rows], "EFFICIENCY": [r[3] for r in rows]}
    if single and not c["speed_column"]:
        del cols["SPEED"]
    n = len(c["points"])
    pd = [p + h * d / 1e5 for p, (_, h), d in zip(c["ps"], c["points"], c["density"])]
    dates = [f"20{20 + i}-01-01" for i in range(n + 1)]
    series = {"DATE": dates[:-1], "Q": [q * 24 * c["reg"] for q, _ in c["points"]], "PS": c["ps"], "PD": pd, "RHO": c["density"]}
    model = {"TYPE": "PUMP", "ENERGYFUNCTION": "p", "RATE": "S;Q", "SUCTION_PRESSURE": "S;PS", "DISCHARGE_PRESSURE": "S;PD", "FLUID_DENSITY": "S;RHO"}
    if c["plf"] is not None:
        model["POWERLOSSFACTOR"] = c["plf"]
    if c["cond"]:
        series["C"] = c["cond"]
        model["CONDITION"] = "S;C > 0"
    chart = {"NAME": "p", "TYPE": "PUMP_CHART_SINGLE_SPEED" if single else "PUMP_CHART_VARIABLE_SPEED", "FILE": "p.csv",
             "UNITS": {"RATE": "AM3_PER_HOUR", "HEAD": head_unit, "EFFICIENCY": eff_unit}}
    legacy = dict(chart)
    if c["margin"]:
        legacy["HEAD_MARGIN"] = c["margin"] / GRAVITY
    data = {
        "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
        "FACILITY_INPUTS": [legacy, {**chart, "NAME": "pp"}, {"NAME": "g", "TYPE": "ELECTRICITY2FUEL", "FILE": "g.csv"}],
        "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": 1}]}],
        "INSTALLATIONS": [{"NAME": "i", "HCEXPORT": 0, "FUEL": "f", "REGULARITY": c["reg"], "GENERATORSETS": [
            {"NAME": "g", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "g",
             "CONSUMERS": [{"NAME": "x", "CATEGORY": "PUMP", "ENERGY_USAGE_MODEL": model}]}]}],
        "PUMP_PROCESS_SIMULATIONS": [{"TYPE": "PUMP", "NAME": "sim", "PUMP_MODEL": {"CHART": "pp"},
                                      "INLET": {"RATE": f"S;Q {{/}} {c['reg']}", "PRESSURE": "S;PS", "DENSITY": "S;RHO"}, "REQUIRED_DISCHARGE_PRESSURE": "S;PD"}],
        "START": dates[0], "END": dates[-1],
    }
    files = {"p.csv": csv_text(cols), "g.csv": csv_text({"POWER": [0, 1e6], "FUEL": [0, 1e6]}), "s.csv": csv_text(series)}
    run = Run(data, files)
    x = run.by_name["x"]
    power = ac.stream_values(x.power)
    ((sim, inputs, periods),) = make_model(data, files).get_pump_process_simulations()
    direct = sim.evaluate(inputs)
    require(len(direct) == n and len(periods) == n, "a pump simulation has one input for each period")
    loss = 1 - (c["plf"] or 0.0)
    pump = run.models_of("x")[0]
    for i, (q, h) in enumerate(c["points"]):
        where = f"pump at {q} m3/h, {h} J/kg in a model, head unit {head_unit}"
        on = not c["cond"] or c["cond"][i] > 0
        running = on and q > 0
        require_close(pump.operational_head.values[i], h if running else 0.0, f"{where}: reported head", rel=1e-6, abs_=1e-6)
        require_close(ac.stream_values(pump.inlet_liquid_rate_m3_per_day)[i], q * 24 if running else 0.0, f"{where}: reported rate", rel=1e-6, abs_=1e-9)
        require_close(pump.inlet_pressure_bar.values[i], c["ps"][i], f"{where}: reported inlet pressure", rel=1e-9)
        require_close(pump.outlet_pressure_bar.values[i], pd[i], f"{where}: reported outlet pressure", rel=1e-9)
        e = expected(c["sorted"], q if on else 0.0, h, c["density"][i], c["margin"])
        if e is not None:
            require_close(power[i], e[0] / loss, f"{where}: power", rel=1e-6, abs_=1e-6)
            require(x.is_valid.values[i] == e[1], f"{where}: valid {x.is_valid.values[i]}")
            ctx.nontrivial(e[0] > 0 and e[1])
            ctx.label("off" if not on else "valid" if e[1] else "outside")
        e = expected(c["sorted"], max(q, min(k["rate"][0] for k in c["sorted"])) if q > 0 else 0.0, h, c["density"][i], 0.0)
        if e is not None:
            require_close(direct[i].pump_result.shaft_power_mw, e[0], f"{where}: process pump power", rel=1e-6, abs_=1e-9)
            require(direct[i].pump_result.is_valid == e[1], f"{where}: process pump valid {direct[i].pump_result.is_valid}")
    ctx.label(head_unit, eff_unit)


SUBCHECKS = [
    Sub("legacy", pump_case(), check_legacy, 2000, rule="a running pump inside its chart"),
    Sub("process", pump_case(), check_process, 2000, rule="a running pump inside its chart"),
    Sub("model", pump_case(model=True), check_model, 500, rule="a running pump inside its chart"),
]

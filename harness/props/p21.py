"""Compressor trains on a common shaft, from the model file to the result."""
from dataclasses import replace

from hypothesis import strategies as st

from harness import compref as cr, fakefluid as ff, trains as tr
from harness.charts import interp, r6
from harness.core import Ctx, Sub, require, require_close, require_list_close, saved
from harness.e2e import Run, csv_text
from harness.gen import nice

ASSUMPTIONS = ["The NeqSim library (not installed offline) is replaced by an explicit equation of state behind the Java gateway."]
CONTROLS = ["DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE", "COMMON_ASV"]
TOO_HIGH, TOO_LOW, FLOW, POWER, OK = "TARGET_DISCHARGE_PRESSURE_TOO_HIGH", "TARGET_DISCHARGE_PRESSURE_TOO_LOW", "ABOVE_MAXIMUM_FLOW_RATE", "ABOVE_MAXIMUM_POWER", "NO_FAILURE"
P_REL, W_REL, S_REL = 1.2e-3, 4e-3, 1.5e-3
NEAR = 4e-3


# ---------------------------------------------------------------- the model file
def with_margin(chart, m):
    """The surge line is moved into the chart by a fraction of each curve's range."""
    if not m:
        return chart
    out = []
    for c in chart:
        q = c["rate"][0] + m * (c["rate"][-1] - c["rate"][0])
        keep = [i for i, x in enumerate(c["rate"]) if x > q]
        out.append({"speed": c["speed"], "rate": [q, *[c["rate"][i] for i in keep]],
                    **{k: [interp(q, c["rate"], c[k]), *[c[k][i] for i in keep]] for k in ("head", "eff")}})
    return out


def yaml_charts(stages, single, units):
    head, eff = units
    kh = {"JOULE_PER_KG": 1.0, "KJ_PER_KG": 1e-3, "M": 1 / 9.81}[head]
    ke = {"FRACTION": 1.0, "PERCENTAGE": 100.0}[eff]
    out = []
    for i, s in enumerate(stages):
        curves = [{"SPEED": c["speed"], "RATE": c["rate"], "HEAD": [h * kh for h in c["head"]], "EFFICIENCY": [e * ke for e in c["eff"]]} for c in s["chart"]]
        out.append({"NAME": f"chart{i}", "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": "SINGLE_SPEED" if single else "VARIABLE_SPEED",
                    **({"CURVE": curves[0]} if single else {"CURVES": curves}), "UNITS": {"RATE": "AM3_PER_HOUR", "HEAD": head, "EFFICIENCY": eff}})
    return out


def yaml_stage(i, s):
    m, unit = s.get("margin", 0.0), s.get("margin_unit", "FRACTION")
    return {"INLET_TEMPERATURE": round(s["t"] - 273.15, 2), "COMPRESSOR_CHART": f"chart{i}", "CONTROL_MARGIN": m if unit == "FRACTION" else round(m * 100, 6),
            "CONTROL_MARGIN_UNIT": unit, **({"PRESSURE_DROP_AHEAD_OF_STAGE": s["dp"]} if s["dp"] else {})}


def yaml_fluid(name, comp, eos):
    return {"NAME": name, "TYPE": "FLUID", "FLUID_MODEL_TYPE": "COMPOSITION", "EOS_MODEL": eos, "COMPOSITION": comp}


def run(models, usage, columns):
    n = len(next(iter(columns.values())))
    columns = {"DATE": [f"20{20 + i}-01-01" for i in range(n)], **columns}
    model = {
        "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
        "FACILITY_INPUTS": [{"NAME": "g", "TYPE": "ELECTRICITY2FUEL", "FILE": "g.csv"}],
        "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": 1}]}],
        "MODELS": models,
        "INSTALLATIONS": [{"NAME": "i", "HCEXPORT": 0, "FUEL": "f", "GENERATORSETS": [
            {"NAME": "e", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "g", "CONSUMERS": [
                {"NAME": "x", "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": usage}]}]}],
        "START": "2020-01-01", "END": f"20{20 + n}-01-01",
    }
    r = Run(model, {"s.csv": csv_text(columns), "g.csv": csv_text({"POWER": [0, 1e6], "FUEL": [0, 1e6]})})
    return r, r.by_name["x"], r.models_of("x")[0]


# ---------------------------------------------------------------- reference
class Ref:
    """One operating point of a train: inlet stream and the stages."""

    def __init__(self, stages, s: cr.S, streams=None, speeds=None):
        self.stages, self.s = stages, s
        self.streams = streams or {}
        self.lo, self.hi = speeds or tr.speed_range(stages)
        self.cache = {}

    def at(self, speed, **kw):
        key = (speed, tuple(sorted(kw.items())))
        if key not in self.cache:
            self.cache[key] = sim(self.stages, self.s, speed, self.streams, **kw)
        return self.cache[key]

    def slowest(self):
        """Lowest speed which handles the flow, None if there is none."""
        if self.at(self.lo).ok:
            return self.lo
        a, b = self.lo, self.hi
        for _ in range(60):
            m = (a + b) / 2
            if self.at(m).ok:
                b = m
            else:
                a = m
        return b


def sim(stages, s, speed, streams=None, asv=None, common=None, p_in=None):
    """Like trains.simulate, with streams in (list of S) and out (Sm3/day) ahead of the stages, and the fraction of the available
    capacity (asv) or a mass rate (common) recirculated around each stage."""
    streams = streams or {}
    if p_in is not None:
        s = s.at(p_in, stages[0]["t"])
    flows, recs, powers, inlets, margin, effs = [], [], [], [], 1.0, []
    for i, stg in enumerate(stages):
        for kind, x in streams.get(i, []):
            if kind == "out":
                s = replace(s, mass=s.mass - x * s.std_density / 24)
        ins = [x for kind, x in streams.get(i, []) if kind == "in"]
        if s.mass < -1e-6:
            return tr.Outcome(False, "negative", i)
        s = replace(s, mass=max(s.mass, 0.0))
        if sum(x.mass for x in ins) > 0:
            s = mix(s, ins, stg["t"])
        s2 = tr.condition(s, {**stg, "dry": True})
        if s2 is None:
            return tr.Outcome(False, "pressure", i)
        lo, hi = cr.speed_limits(stg["chart"], speed)
        rho = s2.props["density"]
        q = s2.mass / rho
        if common is not None:
            q += common / rho
        if asv is not None:
            q += asv * max(0.0, hi - q)
        margin = min(margin, abs(q - hi) / hi)
        q = max(q, lo)
        if q > hi * (1 + 2e-6):
            return tr.Outcome(False, "stonewall", i, flows=tuple([*flows, q]), margin=margin)
        q = min(q, hi)
        head, eff = cr.head_efficiency(stg["chart"], speed, q)
        out = cr.compress(s2, head, eff)
        flows.append(q)
        recs.append(q * rho - s2.mass)
        inlets.append(s2)
        effs.append((head, eff, out))
        powers.append(cr.power_mw(q * rho, head / eff))
        s = out
    return tr.Outcome(True, p=s.p, out=s, flows=tuple(flows), recirc=tuple(recs), powers=tuple(powers), inlets=tuple(inlets), ranges=tuple(effs), margin=margin)


def mix(s, ins, t):
    """Molar mixing at the conditions of the first stream."""
    if s.mass == 0 and len(ins) == 1:
        moles, mass = ins[0].moles, ins[0].mass
    else:
        moles, mass = dict(s.moles), s.mass
        for x in ins:
            for k, v in x.moles.items():
                moles[k] = moles.get(k, 0) + v
            mass += x.mass
    total = sum(moles.values())
    return cr.stream({k: v / total for k, v in moles.items() if v > 0}, s.eos, s.p, s.t, mass=mass)


def controlled(ref: Ref, speed, pd, control, mdp=None, tight=False):
    """At a given speed where the outlet pressure is above pd. -> None (not judged) | ("ok", outcome, outlet pressure) | ("fail", statuses)."""
    o = ref.at(speed)
    if control == "DOWNSTREAM_CHOKE":
        if mdp is not None and abs(o.p / mdp - 1) < NEAR:
            return None
        if mdp is not None and o.p > mdp:
            r = controlled(ref, speed, mdp, "UPSTREAM_CHOKE")
            if r is None or r[0] == "fail":
                return r
            o = r[1]
            if abs(o.p / pd - 1) < NEAR:
                return None
            if o.p < pd:
                return "fail", {TOO_HIGH}
        return "ok", o, pd
    if tight:
        return None
    if control == "UPSTREAM_CHOKE":
        a, b = max(0.35, ref.stages[0]["dp"] * 1.02 + 0.35), ref.s.p
        if a >= b:
            return None
        for _ in range(60):
            m = (a + b) / 2
            x = ref.at(speed, p_in=m)
            if x.ok and x.p > pd:
                b = m
            else:
                a = m
        x = ref.at(speed, p_in=b)
        if abs(x.p / pd - 1) < 1e-6:
            return ("ok", x, pd) if x.margin > 2 * NEAR else None
        return ("fail", None) if x.p > pd * (1 + 5 * NEAR) else None
    if control == "INDIVIDUAL_ASV_RATE":
        x = ref.at(speed, asv=1.0)
        if not x.ok or abs(x.p / pd - 1) < NEAR:
            return None
        if x.p > pd:
            return "fail", {TOO_LOW}
        f = tr.bisect(lambda v: pd - ref.at(speed, asv=v).p, 0.0, 1.0, 50)
        x = ref.at(speed, asv=f)
        return "ok", x, pd
    if control == "INDIVIDUAL_ASV_PRESSURE":
        return asv_pressure(ref, speed, pd)
    if control == "COMMON_ASV":
        if any(ref.streams.values()) or any(k in ref.s.comp for k in ff.HEAVY) or any(k.replace("_", "-") in ff.HEAVY for k in ref.s.comp):  # the documentation does not say what a common recirculation is then
            return None
        return common_asv(ref, speed, pd)
    raise AssertionError(control)


def asv_pressure(ref: Ref, speed, pd):
    ratio = (pd / ref.s.p) ** (1 / len(ref.stages))
    s, flows, powers, inlets, effs, recs = ref.s, [], [], [], [], []
    for i, stg in enumerate(ref.stages):
        target = s.p * ratio
        one = Ref([stg], s, {0: ref.streams.get(i, [])}, (ref.lo, ref.hi))
        o = one.at(speed)
        if not o.ok:
            return None if o.margin < NEAR or o.why != "stonewall" else ("fail", {FLOW})
        if abs(o.p / target - 1) < NEAR:
            return None
        if o.p > target:
            x = one.at(speed, asv=1.0)
            if abs(x.p / target - 1) < NEAR or not x.ok:
                return None
            f = 1.0 if x.p > target else tr.bisect(lambda v: target - one.at(speed, asv=v).p, 0.0, 1.0, 50)
            o = one.at(speed, asv=f)
        s = o.out
        flows += o.flows
        powers += o.powers
        inlets += o.inlets
        effs += o.ranges
        recs += o.recirc
    if abs(s.p / pd - 1) > 2 * NEAR:
        return "fail", {TOO_LOW if s.p > pd else TOO_HIGH}
    if abs(s.p / pd - 1) > 1e-4:
        return None
    return "ok", tr.Outcome(True, p=s.p, out=s, flows=tuple(flows), recirc=tuple(recs), powers=tuple(powers), inlets=tuple(inlets), ranges=tuple(effs)), pd


def common_asv(ref: Ref, speed, pd):
    """Every stage carries the same mass rate, within its limits."""
    def state(extra):
        s = replace(ref.s, mass=ref.s.mass + extra)
        for stg in ref.stages:
            s2 = tr.condition(s, {**stg, "dry": True})
            if s2 is None:
                return "pressure", None
            lo, hi = cr.speed_limits(stg["chart"], speed)
            q = s2.actual
            if q < lo * (1 - 1e-9):
                return "surge", None
            if q > hi * (1 + 1e-9):
                return "stonewall", None
            s = cr.compress(s2, *cr.head_efficiency(stg["chart"], speed, min(max(q, lo), hi)))
        return "ok", s.p

    first = tr.condition(ref.s, {**ref.stages[0], "dry": True})
    top = cr.speed_limits(ref.stages[0]["chart"], speed)[1] * first.props["density"] - first.mass
    if top <= 0:
        return None
    # a scan for a feasible amount, then its two ends
    grid = [top * i / 24 for i in range(25)]
    states = [state(g)[0] for g in grid]
    good = [i for i, x in enumerate(states) if x == "ok"]
    if len(good) < 6 or good != list(range(good[0], good[-1] + 1)):
        return None  # a train which hardly can run with a common recirculation
    a = grid[good[0]] if good[0] == 0 else edge(state, grid[good[0]], grid[good[0] - 1])
    b = grid[good[-1]] if good[-1] == len(grid) - 1 else edge(state, grid[good[-1]], grid[good[-1] + 1])
    pa, pb = state(a)[1], state(b)[1]
    if min(abs(pa / pd - 1), abs(pb / pd - 1)) < 2 * NEAR:
        return None
    if pd > pa:
        return "fail", {TOO_HIGH}
    if pd < pb:
        return "fail", {TOO_LOW, FLOW}
    m = tr.bisect(lambda v: pd - state(v)[1], a, b, 50)
    return "ok", ref.at(speed, common=m), pd


def edge(state, good, bad):
    for _ in range(50):
        m = (good + bad) / 2
        if state(m)[0] == "ok":
            good = m
        else:
            bad = m
    return good


def solve(ref: Ref, pd, control, mdp=None):
    top = ref.at(ref.hi)
    if top.why in ("pressure", "negative"):
        return None
    if not top.ok:
        return ("fail", {FLOW}, None) if top.margin > NEAR or top.flows and top.flows[-1] > cr.speed_limits(ref.stages[top.stage]["chart"], ref.hi)[1] * (1 + NEAR) else None
    if top.margin < NEAR:
        return None
    slow = ref.slowest()
    tight = slow > ref.lo
    low = ref.at(slow)
    if not tight and low.margin < NEAR:
        return None
    if abs(low.p / pd - 1) < NEAR or abs(top.p / pd - 1) < NEAR:
        return None
    if pd > top.p:
        return "fail", {TOO_HIGH}, None
    if pd >= low.p:
        speed = tr.bisect(lambda v: ref.at(v).p - pd, slow, ref.hi, 45)
        o = ref.at(speed)
        return "ok", o, speed, pd
    r = controlled(ref, slow, pd, control, mdp, tight)
    if r is None:
        return None
    return ("ok", r[1], slow, r[2]) if r[0] == "ok" else ("fail", r[1], slow)


# ---------------------------------------------------------------- one stream in, one out
@st.composite
def case(draw):
    c = draw(tr.train(n_max=3, wet=True, speeds_min=1, speeds_max=4))
    if len(c["stages"][0]["chart"]) == 1:
        for s in c["stages"]:
            s["chart"] = [{**s["chart"][0], "speed": 1.0 if draw(st.booleans()) else c["stages"][0]["chart"][0]["speed"]}]
        speed = c["stages"][0]["chart"][0]["speed"]
        for s in c["stages"]:
            s["chart"][0]["speed"] = speed
    for s in c["stages"]:
        s["margin"] = draw(st.sampled_from([0.0, 0.0, 0.1, 0.25]))
        s["margin_unit"] = draw(st.sampled_from(["FRACTION", "PERCENTAGE"]))
    c["control"] = draw(st.sampled_from([None, *CONTROLS]))
    c["mdp"] = draw(st.one_of(st.none(), nice(0.75, 1.1, 3)))
    c["units"] = [draw(st.sampled_from(["KJ_PER_KG", "JOULE_PER_KG", "M"])), draw(st.sampled_from(["FRACTION", "PERCENTAGE"]))]
    c["adjust"] = [draw(st.sampled_from([1.0, 1.0, 1.1, 0.9])), draw(st.sampled_from([0.0, 0.0, 0.5]))]
    c["max_power"] = draw(st.one_of(st.none(), nice(0.5, 1.5, 2)))
    c["steps"] = [[draw(nice(-0.3, 1.15, 3)) if draw(st.integers(0, 7)) else None, draw(nice(0.85, 1.2, 2)),
                   draw(st.sampled_from(["between", "between", "below", "below", "below", "above"])), draw(nice(0.02, 0.98, 3))]
                  for _ in range(draw(st.integers(2, 4)))]
    return c


def check(c, ctx: Ctx):
    ff.install()
    raw = tr.fitted({**c, "stages": [{**s, "dry": True} for s in c["stages"]]})
    if raw is None:
        return
    single = len(raw[0]["chart"]) == 1
    stages = [{**s, "chart": with_margin(s["chart"], s["margin"])} for s in raw]
    lo_speed, hi_speed = tr.speed_range(stages)
    if lo_speed > hi_speed:
        return
    control = c["control"] or "DOWNSTREAM_CHOKE"
    wet = c["comp"] is tr.WET or "water" in c["comp"]
    std_density = ff.standard_density(c["comp"], c["eos"])
    rows, refs = [], []
    qlo, qhi = cr.speed_limits(stages[0]["chart"], lo_speed)[0], cr.speed_limits(stages[0]["chart"], hi_speed)[1]
    for q, f, kind, x in c["steps"]:
        ps = round(c["p"] * f, 2)
        rho = cr.stream(c["comp"], c["eos"], ps, stages[0]["t"], mass=1.0).props["density"]
        rate = 0.0 if q is None else r6(max(qlo + q * (qhi - qlo), 0.1 * qlo) * rho * 24 / std_density)
        ref = Ref(stages, cr.stream(c["comp"], c["eos"], ps, stages[0]["t"], std=rate))
        top = ref.at(hi_speed)
        if top.ok:
            low = ref.at(ref.slowest())
            pd = {"between": low.p + x * (top.p - low.p), "above": top.p * (1 + 0.2 * x), "below": low.p * (1 - 0.4 * x)}[kind]
        else:
            pd = ps * (1.5 + 2 * x)
        rows.append([rate, ps, round(max(pd, ps * 1.02), 4)])
        refs.append(ref)
    mdp = None
    if single and control == "DOWNSTREAM_CHOKE" and c["mdp"]:
        mdp = round(max(r[2] for r in rows) * c["mdp"], 3)
    expected = [None if r[0] == 0 or (wet and control == "COMMON_ASV") else solve(ref, r[2], control, mdp) for r, ref in zip(rows, refs)]
    powers = [sum(e[1].powers) for e in expected if e and e[0] == "ok"]
    limit = round(max(powers) * c["max_power"], 4) if c["max_power"] and powers else None
    train = {
        "NAME": "m", "TYPE": "SINGLE_SPEED_COMPRESSOR_TRAIN" if single else "VARIABLE_SPEED_COMPRESSOR_TRAIN", "FLUID_MODEL": "fluid",
        "COMPRESSOR_TRAIN": {"STAGES": [yaml_stage(i, s) for i, s in enumerate(raw)]},
        **({"PRESSURE_CONTROL": c["control"]} if c["control"] else {}), **({"MAXIMUM_DISCHARGE_PRESSURE": mdp} if mdp else {}),
        **({"MAXIMUM_POWER": limit} if limit else {}), "POWER_ADJUSTMENT_FACTOR": c["adjust"][0], "POWER_ADJUSTMENT_CONSTANT": c["adjust"][1],
    }
    r, comp, m = run([yaml_fluid("fluid", c["comp"], c["eos"]), *yaml_charts(raw, single, c["units"]), train],
                     {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "m", "RATE": "S;RATE", "SUCTION_PRESSURE": "S;PS", "DISCHARGE_PRESSURE": "S;PD"},
                     {k: [row[i] for row in rows] for i, k in enumerate(["RATE", "PS", "PD"])})
    require(list(m.requested_inlet_pressure.values) == [x[1] for x in rows], f"requested inlet pressures {m.requested_inlet_pressure.values}")
    require(list(m.requested_outlet_pressure.values) == [x[2] for x in rows], f"requested outlet pressures {m.requested_outlet_pressure.values}")
    require_list_close(m.rate.values, [x[0] for x in rows], "rate", rel=1e-9)
    for i, (row, e) in enumerate(zip(rows, expected)):
        judge(c, ctx, comp, m, i, row[0], row[1], e, limit, stages, f"step {i} {row} {control} mdp {mdp} limit {limit}", single)


def judge(c, ctx, comp, m, i, rate, ps, e, limit, stages, what, single=False):
    got_power, status, valid = comp.energy_usage.values[i], m.failure_status[i], comp.is_valid.values[i]
    status = getattr(status, "value", status)
    if rate == 0:
        require(got_power == 0 and valid, f"{what}: no flow, but power {got_power}, valid {valid}, {status}")
        ctx.label("no flow")
        return
    if e is None:
        ctx.label("not judged")
        return
    if e[0] == "fail":
        ctx.label(f"fail {sorted(e[1]) if e[1] else str()}")
        ctx.nontrivial()
        require(not valid and status not in (None, OK), f"{what}: reported as valid ({status}), expected {e[1] or 'a failure'}")
        require(e[1] is None or status in e[1], f"{what}: {status}, expected {e[1]}")
        require(not m.is_valid.values[i], f"{what}: model result valid")
        return
    _, o, speed, p_out = e
    ctx.nontrivial()
    ctx.label("ok by speed" if abs(o.p - p_out) < 1e-6 * p_out and speed > tr.speed_range(stages)[0] else f"ok by {c['control']}")
    power = sum(o.powers)
    too_much = limit is not None and power > limit
    if limit is None or abs(power / limit - 1) > 2 * W_REL:
        require(status == (POWER if too_much else OK), f"{what}: {status}, power {power}")
        require(valid == (not too_much), f"{what}: valid is {valid}, power {power}")
        ctx.label("above maximum power" if too_much else "ok")
    for k, sr in enumerate(m.stage_results):
        w = f"{what} stage {k}"
        s_in, (head, eff, s_out) = o.inlets[k], o.ranges[k]
        mass = o.flows[k] * s_in.props["density"]
        exp_speed = speed
        require_close(sr.speed.values[i], exp_speed, f"{w}: speed", rel=S_REL)
        require_close(sr.inlet_stream_condition.pressure.values[i], s_in.p, f"{w}: inlet pressure", rel=P_REL)
        require_close(sr.inlet_stream_condition.temperature_kelvin.values[i], stages[k]["t"], f"{w}: inlet temperature", rel=1e-6)
        require_close(sr.inlet_stream_condition.density_kg_per_m3.values[i], s_in.props["density"], f"{w}: inlet density", rel=P_REL)
        require_close(sr.mass_rate_before_asv_kg_per_hr.values[i], s_in.mass, f"{w}: mass rate", rel=W_REL)
        require_close(sr.mass_rate_kg_per_hr.values[i], mass, f"{w}: mass rate with recirculation", rel=W_REL)
        require_close(sr.inlet_stream_condition.actual_rate_before_asv_m3_per_hr.values[i], s_in.actual, f"{w}: actual rate", rel=W_REL)
        require_close(sr.inlet_stream_condition.actual_rate_m3_per_hr.values[i], o.flows[k], f"{w}: actual rate with recirculation", rel=W_REL)
        require_close(sr.inlet_stream_condition.standard_rate_before_asv_sm3_per_day.values[i], s_in.std, f"{w}: standard rate", rel=W_REL)
        require_close(sr.polytropic_head_kJ_per_kg.values[i], head / 1000, f"{w}: head", rel=W_REL)
        require_close(sr.polytropic_efficiency.values[i], eff, f"{w}: efficiency", rel=W_REL)
        require_close(sr.polytropic_enthalpy_change_kJ_per_kg.values[i], head / eff / 1000, f"{w}: enthalpy change", rel=W_REL)
        require_close(sr.power.values[i], o.powers[k], f"{w}: power", rel=W_REL)
        require_close(sr.asv_recirculation_loss_mw.values[i], cr.power_mw(mass - s_in.mass, head / eff), f"{w}: power lost in recirculation", rel=W_REL, abs_=W_REL * o.powers[k])
        last = k == len(stages) - 1
        require_close(sr.outlet_stream_condition.pressure.values[i], s_out.p, f"{w}: outlet pressure", rel=P_REL)
        require_close(sr.outlet_stream_condition.temperature_kelvin.values[i], s_out.t, f"{w}: outlet temperature", rel=P_REL)
        require(sr.is_valid.values[i], f"{w}: not valid")
        if last:
            require_close(m.outlet_stream_condition.pressure.values[i], p_out, f"{what}: outlet pressure of the train", rel=P_REL)
        require_close(sum(x.power.values[i] for x in m.stage_results), power, f"{what}: power of the stages", rel=W_REL)
    require_close(m.inlet_stream_condition.pressure.values[i], ps, f"{what}: inlet pressure of the train", rel=P_REL)
    a, b = c["adjust"]
    exact = sum(x.power.values[i] for x in m.stage_results) * a + b
    require_close(got_power, exact, f"{what}: power of the consumer against its stages", rel=1e-6)
    require_close(got_power, power * a + b, f"{what}: power", rel=W_REL)


# ---------------------------------------------------------------- maximum rate
@st.composite
def max_case(draw):
    c = draw(case())
    c["max_power"] = draw(st.one_of(st.none(), st.none(), nice(0.4, 1.1, 2)))
    c["steps"] = [[draw(nice(0.02, 0.98, 3)), draw(nice(0.85, 1.2, 2)), draw(st.sampled_from(["reach", "reach", "reach", "low", "high"])), draw(nice(0.02, 0.98, 3))]
                  for _ in range(draw(st.integers(1, 3)))]
    return c


def check_max(c, ctx: Ctx):
    ff.install()
    raw = tr.fitted({**c, "stages": [{**s, "dry": True} for s in c["stages"]]})
    if raw is None:
        return
    single = len(raw[0]["chart"]) == 1
    stages = [{**s, "chart": with_margin(s["chart"], s["margin"])} for s in raw]
    lo_speed, hi_speed = tr.speed_range(stages)
    if lo_speed > hi_speed:
        return
    control = c["control"] or "DOWNSTREAM_CHOKE"
    std_density = ff.standard_density(c["comp"], c["eos"])
    rows, limits = [], []
    for q, f, kind, x in c["steps"]:
        ps = round(c["p"] * f, 2)
        # the flow which is at the surge line of the first compressor at full speed
        s1 = tr.condition(cr.stream(c["comp"], c["eos"], ps, stages[0]["t"], mass=1.0), {**stages[0], "dry": True})
        if s1 is None:
            return
        (qlo, qhi) = cr.speed_limits(stages[0]["chart"], hi_speed)
        base = s1.props["density"] / s1.mass * 24 / std_density
        ref = Ref(stages, cr.stream(c["comp"], c["eos"], ps, stages[0]["t"], std=(qlo + q * (qhi - qlo)) * base))
        top = ref.at(hi_speed)
        p = top.p if top.ok else ps * 2
        pd = {"reach": p, "low": ps + (p - ps) * x, "high": p * (1 + x)}[kind]
        rows.append([r6(0.3 * qlo * base), ps, round(max(pd, ps * 1.02), 4)])
        limits.append((qlo * base, qhi * base))

    def feasible(i, rate, limit=None):
        """True, False, or None where it is too close to call."""
        ref = Ref(stages, cr.stream(c["comp"], c["eos"], rows[i][1], stages[0]["t"], std=rate))
        e = solve(ref, rows[i][2], control)
        if e is None:
            return None
        if e[0] == "fail":
            return False
        if limit:
            w = sum(e[1].powers)
            return None if abs(w / limit - 1) < 2 * W_REL else w < limit
        return True

    def power(i, rate):
        e = solve(Ref(stages, cr.stream(c["comp"], c["eos"], rows[i][1], stages[0]["t"], std=rate)), rows[i][2], control)
        return sum(e[1].powers) if e and e[0] == "ok" else float("nan")

    limit = None
    if c["max_power"]:
        e = [solve(Ref(stages, cr.stream(c["comp"], c["eos"], r[1], stages[0]["t"], std=(a + b) / 2)), r[2], control) for r, (a, b) in zip(rows, limits)]
        e = [sum(x[1].powers) for x in e if x and x[0] == "ok"]
        limit = round(e[0] * c["max_power"], 4) if e else None
    train = {
        "NAME": "m", "TYPE": "SINGLE_SPEED_COMPRESSOR_TRAIN" if single else "VARIABLE_SPEED_COMPRESSOR_TRAIN", "FLUID_MODEL": "fluid",
        "COMPRESSOR_TRAIN": {"STAGES": [yaml_stage(i, s) for i, s in enumerate(raw)]}, "CALCULATE_MAX_RATE": True,
        **({"PRESSURE_CONTROL": c["control"]} if c["control"] else {}), **({"MAXIMUM_POWER": limit} if limit else {}),
    }
    _, comp, m = run([yaml_fluid("fluid", c["comp"], c["eos"]), *yaml_charts(raw, single, c["units"]), train],
                     {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "m", "RATE": "S;RATE", "SUCTION_PRESSURE": "S;PS", "DISCHARGE_PRESSURE": "S;PD"},
                     {k: [row[i] for row in rows] for i, k in enumerate(["RATE", "PS", "PD"])})
    for i, (row, (a, b)) in enumerate(zip(rows, limits)):
        got = m.maximum_rate.values[i]
        what = f"step {i} {row} {control} limit {limit}: maximum rate {got}"
        require(got >= 0 and got <= b * 1.002, f"{what}, the first compressor can not take more than {b}")
        if got > 0:
            less, more = feasible(i, got * 0.98, limit), feasible(i, got * 1.02, limit)
            # less rate may be infeasible where the recirculation is bound by other rules, or power is saved by more rate
            if control not in ("INDIVIDUAL_ASV_PRESSURE", "COMMON_ASV") and (not limit or power(i, got * 0.98) < power(i, got * 0.995)):
                require(less is not False, f"{what}, but 98 % of it is not feasible")
            elif not limit:
                require(less is not False or any(feasible(i, got * f) is not False for f in (0.9999, 0.999, 0.995)), f"{what}, but slightly less is not feasible")
            require(more is not True, f"{what}, but 102 % of it is feasible")
            ctx.nontrivial(less is not None and more is not None)
            ctx.label(f"max rate {less} {more}")
        else:
            r = feasible(i, a * 1.03, limit)
            ctx.label(f"no rate {r}")
            ctx.nontrivial(r is False)
            require(r is not True, f"{what}, but a rate of {a * 1.03} is feasible")


# ---------------------------------------------------------------- several streams, interstage pressure
@st.composite
def streams_case(draw, interstage=False):
    c = draw(tr.train(n_max=3, wet=True, speeds_min=2, speeds_max=4))
    while len(c["stages"]) < 2:
        c["stages"].append({**c["stages"][0], "t": draw(nice(285, 330, 0)), "fit": draw(nice(0.8, 1.2, 2))})
    n = len(c["stages"])
    for s in c["stages"]:
        s["margin"] = draw(st.sampled_from([0.0, 0.0, 0.1]))
        s["margin_unit"] = draw(st.sampled_from(["FRACTION", "PERCENTAGE"]))
    extra = []
    for k in range(n):
        for _ in range(draw(st.sampled_from([0, 0, 1, 1, 2]))):
            kind = "in" if k == 0 or draw(st.booleans()) else "out"
            extra.append([k, kind, draw(st.sampled_from(tr.COMPS)) if kind == "in" else None])
    c["extra"] = extra
    c["order"] = draw(st.permutations(range(len(extra) + 1)))
    c["within"] = [draw(st.permutations(range(sum(1 for e in extra if e[0] == k) + (k == 0)))) for k in range(n)]
    c["controls"] = [draw(st.sampled_from([*CONTROLS, "UPSTREAM_CHOKE", "DOWNSTREAM_CHOKE"])) for _ in range(2)]
    c["control"] = None if interstage else draw(st.sampled_from([None, *CONTROLS[:4]]))
    c["split"] = draw(st.integers(1, n - 1)) if interstage else None
    c["units"] = ["JOULE_PER_KG", "FRACTION"]
    c["adjust"] = [draw(st.sampled_from([1.0, 1.0, 1.1])), draw(st.sampled_from([0.0, 0.0, 0.5]))]
    c["max_power"] = draw(st.one_of(st.none(), st.none(), nice(0.5, 1.5, 2)))
    c["over"] = None
    c["steps"] = [{"rate": draw(nice(-0.2, 1.0, 3)), "p": draw(nice(0.85, 1.2, 2)), "kind": draw(st.sampled_from(["between", "below", "below", "above"] if not interstage else ["between", "between", "between", "below", "above"])), "x": draw(nice(0.02, 0.98, 3)),
                   "kind1": draw(st.sampled_from(["between", "between", "between", "below", "above"])), "x1": draw(nice(0.02, 0.98, 3)),
                   "extra": [0.0 if draw(st.integers(0, 5)) == 0 else draw(nice(0.02, 0.5, 2)) for _ in extra]}
                  for _ in range(draw(st.integers(2, 3)))]
    return c


@st.composite
def offtake_case(draw):
    """More is taken out ahead of one stage than comes in up to it, possibly made up for by what comes in later."""
    c = draw(streams_case())
    n = len(c["stages"])
    k = draw(st.integers(1, n - 1))
    c["extra"] = [*c["extra"], [k, "out", None]]
    if k < n - 1 or draw(st.booleans()):
        c["extra"].append([min(k + 1, n - 1) if k < n - 1 else 0, "in", draw(st.sampled_from(tr.COMPS))])
    c["order"] = draw(st.permutations(range(len(c["extra"]) + 1)))
    c["within"] = [draw(st.permutations(range(sum(1 for e in c["extra"] if e[0] == k) + (k == 0)))) for k in range(n)]
    c["over"] = [k, draw(nice(1.02, 1.6, 2))]
    for s in c["steps"]:
        s["extra"] = [*s["extra"], *[draw(nice(0.3, 1.0, 2)) for _ in c["extra"][len(s["extra"]):]]]
    c["steps"] = c["steps"][:1]
    c["max_power"] = None
    return c


@st.composite
def mismatch_case(draw):
    """The streams of the train, the stages they belong to and the rates given for them do not match."""
    c = draw(streams_case(interstage=draw(st.integers(0, 3)) == 0))
    c["steps"] = c["steps"][:1]
    c["max_power"] = None
    n = len(c["stages"])
    if not any(k > 0 for k, _, _ in c["extra"]):
        c["extra"] = [*c["extra"], [draw(st.integers(1, n - 1)), draw(st.sampled_from(["in", "out"])), draw(st.sampled_from(tr.COMPS))]]
        c["order"] = draw(st.permutations(range(len(c["extra"]) + 1)))
        c["within"] = [draw(st.permutations(range(sum(1 for e in c["extra"] if e[0] == k) + (k == 0)))) for k in range(n)]
        c["steps"][0]["extra"] = [*c["steps"][0]["extra"], 0.2]
    for s in c["steps"]:
        s["extra"] = [x or 0.1 for x in s["extra"]]
    c["breakage"] = draw(st.sampled_from(["twice", "unknown", "no inlet", "rate missing", "rate too many", "first stage"]))
    c["pick"] = [draw(st.integers(0, 5)), draw(st.integers(0, 5))]
    return c


def break_it(c, names, yaml_stages, usage):
    kind, (a, b) = c["breakage"], c["pick"]
    n = len(yaml_stages)
    if kind == "twice":
        at = [k for k, x in enumerate(yaml_stages) if x.get("STREAM")]
        k = at[a % len(at)]
        other = (k + 1 + b % (n - 1)) % n if b != 5 else k
        yaml_stages[other]["STREAM"] = [*yaml_stages[other].get("STREAM", []), yaml_stages[k]["STREAM"][b % len(yaml_stages[k]["STREAM"])]]
    elif kind == "unknown":
        x = yaml_stages[a % n]
        x["STREAM"] = [*x.get("STREAM", []), "no_such_stream"]
    elif kind == "no inlet":
        ins = [x for x, e in zip(names[1:], c["extra"]) if e[1] == "in" and e[0] == 0]
        moved = [x for x in yaml_stages[0]["STREAM"] if x == "main" or x in ins]
        yaml_stages[0]["STREAM"] = [x for x in yaml_stages[0]["STREAM"] if x not in moved]
        if not yaml_stages[0]["STREAM"]:
            del yaml_stages[0]["STREAM"]
        yaml_stages[1]["STREAM"] = [*yaml_stages[1].get("STREAM", []), *moved]
    elif kind == "rate missing":
        usage["RATE_PER_STREAM"] = usage["RATE_PER_STREAM"][:-1] if a % 2 else usage["RATE_PER_STREAM"][1:]
    elif kind == "rate too many":
        usage["RATE_PER_STREAM"] = [*usage["RATE_PER_STREAM"], f"S;{names[a % len(names)]}"]
    else:
        yaml_stages[0]["INTERSTAGE_CONTROL_PRESSURE"] = {"UPSTREAM_PRESSURE_CONTROL": "DOWNSTREAM_CHOKE", "DOWNSTREAM_PRESSURE_CONTROL": "DOWNSTREAM_CHOKE"}
        for x in yaml_stages[1:]:
            x.pop("INTERSTAGE_CONTROL_PRESSURE", None)
        usage["INTERSTAGE_CONTROL_PRESSURE"] = "S;PS"


def target(kind, x, ref, low_limit):
    top = ref.at(ref.hi)
    if not top.ok:
        return round(low_limit * (1.5 + x), 4), None
    low = ref.at(ref.slowest())
    p = {"between": low.p + x * (top.p - low.p), "above": top.p * (1 + 0.2 * x), "below": low.p * (1 - 0.3 * x)}[kind]
    return round(max(p, low_limit * 1.02), 4), top


def check_streams(c, ctx: Ctx):
    ff.install()
    raw = tr.fitted({**c, "stages": [{**s, "dry": True} for s in c["stages"]]})
    if raw is None:
        return
    stages = [{**s, "chart": with_margin(s["chart"], s["margin"])} for s in raw]
    lo_speed, hi_speed = tr.speed_range(stages)
    if lo_speed > hi_speed:
        return
    split, eos = c["split"], c["eos"]
    std_density = ff.standard_density(c["comp"], eos)
    qlo, qhi = cr.speed_limits(stages[0]["chart"], lo_speed)[0], cr.speed_limits(stages[0]["chart"], hi_speed)[1]
    rows, expected, whats = [], [], []
    for step in c["steps"]:
        ps = round(c["p"] * step["p"], 2)
        rho = cr.stream(c["comp"], eos, ps, stages[0]["t"], mass=1.0).props["density"]
        total = max(qlo + step["rate"] * (qhi - qlo), 0.1 * qlo) * rho * 24 / std_density
        at_inlet = [x for (k, _, _), x in zip(c["extra"], step["extra"]) if k == 0]
        main = r6(total * (1 - min(0.9, sum(at_inlet))))
        rates, net = [], 0.9 * main
        for (k, kind, _), x in zip(c["extra"], step["extra"]):
            q = r6(x * (total if kind == "in" else net))
            net += q if kind == "in" else -q
            rates.append(q)
        if c["over"]:
            k, x = c["over"]
            at = max(i for i, e in enumerate(c["extra"]) if e[0] == k and e[1] == "out")
            rates[at] = 0.0
            rates[at] = r6(x * (main + sum(q if e[1] == "in" else -q for e, q in zip(c["extra"], rates) if e[0] <= k)))
        streams = {}
        for (k, kind, comp), q in sorted(zip(c["extra"], rates), key=lambda z: z[0][1] == "in"):
            streams.setdefault(k, []).append((kind, q if kind == "out" else cr.stream(comp, eos, ps, stages[0]["t"], std=q)))
        s = cr.stream(c["comp"], eos, ps, stages[0]["t"], std=main)
        if split is None:
            ref = Ref(stages, s, streams)
            pd, _ = target(step["kind"], step["x"], ref, ps)
            expected.append(solve(ref, pd, c["control"] or "DOWNSTREAM_CHOKE"))
            rows.append([main, *rates, ps, pd])
        else:
            e, pi, pd = interstage_case(stages, s, streams, split, step, c["controls"], (lo_speed, hi_speed))
            expected.append(e)
            rows.append([main, *rates, ps, pi, pd])
    powers = [sum(e[1].powers) for e in expected if e and e[0] == "ok"]
    limit = round(max(powers) * c["max_power"], 4) if c["max_power"] and powers else None
    names = ["main", *[f"s{i}" for i in range(len(c["extra"]))]]
    decl = [{"NAME": "main", "TYPE": "INGOING", "FLUID_MODEL": "fluid"},
            *[{"NAME": n, "TYPE": "INGOING" if kind == "in" else "OUTGOING", **({"FLUID_MODEL": f"fluid_{n}"} if kind == "in" else {})} for n, (k, kind, _) in zip(names[1:], c["extra"])]]
    yaml_stages = [yaml_stage(i, x) for i, x in enumerate(raw)]
    for k, x in enumerate(yaml_stages):
        here = (["main"] if k == 0 else []) + [n for n, e in zip(names[1:], c["extra"]) if e[0] == k]
        if here:
            x["STREAM"] = [here[i] for i in c["within"][k]]
        if k == split:
            x["INTERSTAGE_CONTROL_PRESSURE"] = {"UPSTREAM_PRESSURE_CONTROL": c["controls"][0], "DOWNSTREAM_PRESSURE_CONTROL": c["controls"][1]}
    kind = "VARIABLE_SPEED_COMPRESSOR_TRAIN_MULTIPLE_STREAMS_AND_PRESSURES"
    train = {"NAME": "m", "TYPE": kind, "STREAMS": [decl[i] for i in c["order"]], "STAGES": yaml_stages,
             **({"PRESSURE_CONTROL": c["control"]} if c["control"] else {}), **({"MAXIMUM_POWER": limit} if limit else {}),
             "POWER_ADJUSTMENT_FACTOR": c["adjust"][0], "POWER_ADJUSTMENT_CONSTANT": c["adjust"][1]}
    usage = {"TYPE": kind, "COMPRESSOR_TRAIN_MODEL": "m", "RATE_PER_STREAM": [f"S;{names[i]}" for i in c["order"]], "SUCTION_PRESSURE": "S;PS",
             **({"INTERSTAGE_CONTROL_PRESSURE": "S;PI"} if split else {}), "DISCHARGE_PRESSURE": "S;PD"}
    columns = [*names, "PS", *(["PI"] if split else []), "PD"]
    fluids = [yaml_fluid("fluid", c["comp"], eos), *[yaml_fluid(f"fluid_{n}", e[2], eos) for n, e in zip(names[1:], c["extra"]) if e[1] == "in"]]
    columns_in = {k: [row[i] for row in rows] for i, k in enumerate(columns)}
    if c["over"]:
        models = [*fluids, *yaml_charts(raw, False, c["units"]), train]
        out = names[1 + at]
        run(models, usage, {**columns_in, out: [0.0]})  # nothing is wrong without this stream
        try:
            _, comp, m = run(models, usage, columns_in)
        except Exception as e:
            ctx.label(type(e).__name__)
            ctx.nontrivial()
            return
        ctx.label("invalid")
        ctx.nontrivial()
        require(not m.is_valid.values[0], f"valid although more is taken out ahead of stage {c['over'][0] + 1} than comes in: {columns_in} {c['extra']}")
        return
    if c.get("breakage"):
        from libecalc.common.errors.exceptions import EcalcError
        from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

        models = [*fluids, *yaml_charts(raw, False, c["units"]), train]
        run(models, usage, columns_in)  # nothing is wrong before it is broken
        break_it(c, names, yaml_stages, usage)
        ctx.label(c["breakage"])
        ctx.nontrivial()
        try:
            _, comp, m = run(models, usage, columns_in)
        except (EcalcError, ModelValidationException):
            return
        require(False, f"runs, valid {list(m.is_valid.values)}, with {c['breakage']}: stages {[x.get('STREAM') for x in yaml_stages]} of {train['STREAMS']}, rates {usage['RATE_PER_STREAM']}")
    r, comp, m = run([*fluids, *yaml_charts(raw, False, c["units"]), train], usage, columns_in)
    for i, (row, e) in enumerate(zip(rows, expected)):
        judge(c, ctx, comp, m, i, row[0], row[len(names)], e, limit, stages, f"step {i} {dict(zip(columns, row))} {c['extra']} {c['control'] or c['controls']} limit {limit}")


def interstage_case(stages, s, streams, split, step, controls, speeds):
    first = Ref(stages[:split], s, {k: v for k, v in streams.items() if k < split}, speeds)
    pi, _ = target(step["kind1"], step["x1"], first, s.p)
    e1 = solve(first, pi, "DOWNSTREAM_CHOKE")
    # the composition of the second part does not depend on how the first is operated, unless liquid is removed
    out = first.at(e1[2] if e1 and e1[2] else speeds[1])
    if not out.ok:
        return None, pi, round(pi * 1.5, 4)
    s2 = cr.stream(out.out.comp, s.eos, pi, stages[split]["t"], mass=out.out.mass)
    last = Ref(stages[split:], s2, {k - split: v for k, v in streams.items() if k >= split}, speeds)
    pd, _ = target(step["kind"], step["x"], last, pi)
    e2 = solve(last, pd, "DOWNSTREAM_CHOKE")
    if e1 is None or e2 is None:
        return None, pi, pd
    if (e1[0] == "fail" and e1[2] is None) or (e2[0] == "fail" and e2[2] is None):
        return ("fail", None, None), pi, pd
    v1, v2 = e1[2], e2[2]
    v = max(v1, v2)
    parts = []
    for ref, e, p, control, mine in ((first, e1, pi, controls[0], v1), (last, e2, pd, controls[1], v2)):
        o = ref.at(v)
        if mine == v and o.p <= p * (1 + 1e-5):
            parts.append(("ok", o, p))
            continue
        if abs(o.p / p - 1) < NEAR or (mine == v and v > ref.lo):  # the second: bound by capacity, no pressure control
            return None, pi, pd
        if ref is first and control == "UPSTREAM_CHOKE" and "water" in s.comp:
            return None, pi, pd  # what liquid is removed depends on the choke
        parts.append(controlled(ref, v, p, control))
    if any(x is None for x in parts):
        return None, pi, pd
    if any(x[0] == "fail" for x in parts):
        return ("fail", None, None), pi, pd
    a, b = parts[0][1], parts[1][1]
    o = tr.Outcome(True, p=b.p, out=b.out, flows=a.flows + b.flows, recirc=a.recirc + b.recirc, powers=a.powers + b.powers, inlets=a.inlets + b.inlets, ranges=a.ranges + b.ranges)
    return ("ok", o, v, pd), pi, pd


SUBCHECKS = [
    Sub("train", case(), check, 700, rule="an operating point which is solved or refused, away from the limits", chunk=50),
    Sub("maximum", max_case(), check_max, 200, rule="a maximum rate with feasible rates below and infeasible rates above it", chunk=25, corpus=saved("P21", "maximum")),
    Sub("streams", streams_case(), check_streams, 300, rule="an operating point which is solved or refused, away from the limits", chunk=25),
    Sub("offtake", offtake_case(), check_streams, 60, rule="more is taken out ahead of a stage than comes in up to it", chunk=15),
    Sub("mismatch", mismatch_case(), check_streams, 60, rule="a train which runs until its streams, stages and rates no longer match", chunk=15),
    Sub("interstage", streams_case(interstage=True), check_streams, 300, rule="an operating point which is solved or refused, away from the limits", chunk=25),
]

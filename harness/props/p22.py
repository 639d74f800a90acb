"""Simplified compressor trains (equal pressure ratios, generic charts), from the model file to the result."""
import math

from hypothesis import strategies as st

from harness import charts as ch, compref as cr, fakefluid as ff, trains as tr
from harness.charts import r6
from harness.core import Ctx, Sub, require, require_close
from harness.gen import nice
from harness.props.p21 import OK, POWER, run, yaml_fluid

ASSUMPTIONS = ["The NeqSim library (not installed offline) is replaced by an explicit equation of state behind the Java gateway."]

# The published unified generic chart: rate and head relative to the design point, at 75 and 105 % speed.
HIGH = [(0.878913798, 1.289869247), (0.929112832, 1.271644457), (0.97269818, 1.247344747), (1.038726745, 1.200770298), (1.099463139, 1.148120922),
        (1.158871891, 1.089396618), (1.231463064, 0.99827269), (1.278951663, 0.913223698), (1.323778851, 0.809949924)]
LOW = [(0.498902665, 0.558852888), (0.529285159, 0.546703033), (0.553058057, 0.5325282), (0.612499498, 0.506203512), (0.667962103, 0.46570399),
       (0.70889013, 0.427229447), (0.730015921, 0.409004665)]
W_REL = 4e-3  # the head is iterated to 1e-3
NEAR = 8e-3


def generic(q, h, eff):
    return [{"speed": s, "rate": [a * q for a, _ in pts], "head": [b * h for _, b in pts], "eff": [eff] * len(pts)} for s, pts in ((75, LOW), (105, HIGH))]


@st.composite
def case(draw, kinds=("design", "design", "input"), unknown=True):
    c = {"comp": draw(st.sampled_from([*tr.COMPS, tr.WET])), "eos": draw(st.sampled_from(["SRK", "PR", "GERG_SRK"])), "p": draw(nice(5, 60, 1)),
         "q": draw(nice(500, 9000, 0)), "ratio": draw(nice(1.3, 4.0, 2)), "stages": []}
    unknown = unknown and draw(st.integers(0, 3)) == 0
    for _ in range(1 if unknown else draw(st.integers(1, 3))):
        c["stages"].append({"t": draw(nice(280, 330, 0)), "kind": draw(st.sampled_from(kinds)), "eff": draw(nice(0.6, 0.9, 2)),
                            "dq": draw(nice(0.75, 1.4, 2)), "dh": draw(nice(0.75, 1.8, 2))})
    c["max_ratio"] = draw(nice(1.3, 4.0, 2)) if unknown else None
    c["exact"] = unknown and draw(st.integers(0, 3)) == 0
    c["n"] = draw(st.integers(1, 3)) if unknown else len(c["stages"])
    c["units"] = [draw(st.sampled_from(["JOULE_PER_KG", "KJ_PER_KG", "M"])), draw(st.sampled_from(["FRACTION", "PERCENTAGE"]))]
    c["adjust"] = [draw(st.sampled_from([1.0, 1.0, 1.1, 0.9])), draw(st.sampled_from([0.0, 0.0, 0.5]))]
    c["max_power"] = draw(st.one_of(st.none(), st.none(), nice(0.6, 1.6, 2)))
    c["calc_max"] = draw(st.integers(0, 3)) == 0
    c["steps"] = [[0.0 if draw(st.integers(0, 9)) == 0 else draw(nice(0.2, 1.6, 3)), draw(nice(0.8, 1.25, 2)), draw(nice(0.1, 1.15, 3))]
                  for _ in range(draw(st.integers(1, 5)))]
    return c


def prepared(c):
    """(rows, stages): rate, suction and discharge pressure per step, and stages with their design points."""
    t = c["stages"][0]["t"]
    std = ff.standard_density(c["comp"], c["eos"])
    base = cr.stream(c["comp"], c["eos"], c["p"], t, mass=1.0).props["density"] * c["q"] * 24 / std
    rows = []
    for q, f, x in c["steps"]:
        ps = round(c["p"] * f, 2)
        per_stage = 1 + (c["ratio"] - 1) * x
        rows.append([r6(q * base), ps, round(ps * per_stage ** c["n"], 3)] if q or x > 0.3 else [0.0, 0.0, 0.0])
    if all(row[1] == 0 for row in rows):
        return None
    if c["max_ratio"]:
        if c["exact"]:
            # as many stages as it takes with exactly the maximum pressure ratio
            c["max_ratio"] = max(c["max_ratio"], 1.3)
            ps = min(ps for _, ps, _ in rows if ps)
            rows = [[q, ps and p0, min(pd, round(p0 * c["max_ratio"] ** c["n"] - 0.01, 3))] for (q, ps, pd), p0 in zip(rows, [ps] * len(rows))]
            rows[-1][1:] = [ps, ps * c["max_ratio"] ** c["n"]]
            n = c["n"]
        else:
            x = math.log(max(pd / ps for _, ps, pd in rows if ps)) / math.log(c["max_ratio"])
            if abs(x - round(x)) < 1e-6:
                return None
            n = math.ceil(x)
        stages = [c["stages"][0]] * n
    else:
        n, stages = len(c["stages"]), c["stages"]
    if n > 6 or any(pd > tr.MAX_PRESSURE for _, _, pd in rows):
        return None
    out = []
    s, chart = None, None
    for k, stg in enumerate(stages):
        if stg["kind"] == "design" and (chart is None or not c["max_ratio"]):
            s = cr.stream(c["comp"], c["eos"], c["p"] * c["ratio"] ** k, stg["t"], std=base)
            head, _ = cr.head_for_pressure(s, s.p * (1 + (c["ratio"] - 1) * 0.85), lambda h: stg["eff"])
            chart = [r6(s.actual * stg["dq"]), r6(head * stg["dh"])]
        out.append({**stg, "point": chart if stg["kind"] == "design" else None})
    return rows, out


def yaml_train(c, stages, limit, **more):
    kh = {"JOULE_PER_KG": 1.0, "KJ_PER_KG": 1e-3, "M": 1 / 9.81}[c["units"][0]]
    ke = {"FRACTION": 1.0, "PERCENTAGE": 100.0}[c["units"][1]]
    used = stages[:1] if c["max_ratio"] else stages
    models = []
    for k, s in enumerate(used):
        models.append({"NAME": f"chart{k}", "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": "GENERIC_FROM_DESIGN_POINT" if s["point"] else "GENERIC_FROM_INPUT",
                       "POLYTROPIC_EFFICIENCY": s["eff"] * ke, "UNITS": {"EFFICIENCY": c["units"][1], **({"RATE": "AM3_PER_HOUR", "HEAD": c["units"][0]} if s["point"] else {})},
                       **({"DESIGN_RATE": s["point"][0], "DESIGN_HEAD": s["point"][1] * kh} if s["point"] else {})})
    spec = [{"INLET_TEMPERATURE": round(s["t"] - 273.15, 2), "COMPRESSOR_CHART": f"chart{k}"} for k, s in enumerate(used)]
    train = {"NAME": "m", "TYPE": "SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN", "FLUID_MODEL": "fluid",
             "COMPRESSOR_TRAIN": {**spec[0], "MAXIMUM_PRESSURE_RATIO_PER_STAGE": c["max_ratio"]} if c["max_ratio"] else {"STAGES": spec},
             "POWER_ADJUSTMENT_FACTOR": c["adjust"][0], "POWER_ADJUSTMENT_CONSTANT": c["adjust"][1], **({"CALCULATE_MAX_RATE": True} if c["calc_max"] else {}), **({"MAXIMUM_POWER": limit} if limit else {}), **more}
    return [yaml_fluid("fluid", c["comp"], c["eos"]), *models, train]


def near(a, b):
    return abs(a - b) <= NEAR * max(abs(a), abs(b))


class Point:
    """What one stage should do at one step."""

    def __init__(self, chart, s: cr.S, p_out, eff):
        self.s = s
        self.p_out = p_out
        self.head, _ = cr.head_for_pressure(s, p_out, lambda h: eff)
        self.eff = eff
        q = s.actual
        low = ch.min_flow(chart, self.head)
        self.flow = max(low, q)
        floor = ch.min_head(chart, self.flow)
        self.head_used = max(floor, self.head)
        top_rate, top_head = ch.max_rate(chart, self.head), ch.max_head(chart, q)
        self.recirculates, self.choked = q < low, self.head < floor
        self.rate_exceeded, self.head_exceeded = self.flow > top_rate, self.head_used > top_head
        self.ok = not self.rate_exceeded and not self.head_exceeded
        self.unclear_rate = near(self.flow, top_rate)
        self.unclear_head = near(self.head_used, top_head)
        # clearly outside in one way is clearly outside
        self.unclear = (self.unclear_rate or self.unclear_head) and not (
            self.head_exceeded and not self.unclear_head or self.rate_exceeded and not self.unclear_rate)
        self.unclear_flags = near(q, low) or near(self.head, floor) or self.unclear_rate and not self.recirculates
        self.mass = self.flow * s.props["density"]
        self.power = cr.power_mw(self.mass, self.head_used / eff)
        if self.choked and self.recirculates:
            self.flag = "BELOW_MINIMUM_SPEED_AND_BELOW_MINIMUM_FLOW_RATE"
        elif self.choked and self.rate_exceeded:
            self.flag = "BELOW_MINIMUM_SPEED_AND_ABOVE_MAXIMUM_FLOW_RATE"
        elif self.recirculates:
            self.flag = "BELOW_MINIMUM_FLOW_RATE"
        elif self.rate_exceeded:
            self.flag = "ABOVE_MAXIMUM_FLOW_RATE"
        elif self.choked:
            self.flag = "BELOW_MINIMUM_SPEED"
        elif self.head_exceeded:
            self.flag = "ABOVE_MAXIMUM_SPEED"
        else:
            self.flag = "INTERNAL_POINT"


def reported_chart(sr, eff):
    curves = sorted(sr.chart.curves, key=lambda k: k.speed_rpm)
    return [{"speed": k.speed_rpm, "rate": k.rate_actual_m3_hour, "head": k.polytropic_head_joule_per_kg, "eff": k.efficiency_fraction} for k in curves]


def check_maximum(c, got, stages, charts, row, what, ctx):
    """The rate which the first of the stages can not take more than without choking."""
    _, ps, pd = row
    if ps <= 0:
        require(got == 0, f"{what}: maximum rate {got} without pressure")
        return
    r, p, rates = (pd / ps) ** (1 / len(stages)), ps, []
    for stg, chart in zip(stages, charts):
        s = cr.stream(c["comp"], c["eos"], p, stg["t"], std=1000.0)
        head, _ = cr.head_for_pressure(s, p * r, lambda h: stg["eff"])
        if head > max(chart[-1]["head"]) * (1 - NEAR):
            ctx.label("no maximum rate")
            return
        # the head is iterated until the rate changes by less than 1e-3, which may happen before it settles
        a, b = (ch.max_rate_no_choke(chart, head * f) for f in (0.98, 1.02))
        q = ch.max_rate_no_choke(chart, head)
        rates.append([1000.0 * x / s.actual for x in (min(a, b, q), max(a, b, q))])
        p *= r
    low, high = (min(x[k] for x in rates) for k in (0, 1))
    require(low * 0.99 <= got <= high * 1.01, f"{what}: maximum rate {got}, expected from {low} to {high}")
    ctx.label("maximum rate")


def check_train(c, ctx: Ctx):
    ff.install()
    ready = prepared(c)
    if ready is None:
        return
    rows, stages = ready
    n = len(stages)
    points = {}

    def at(charts, i):
        rate, ps, pd = rows[i]
        r = (pd / ps) ** (1 / n)
        out, p = [], ps
        for k, stg in enumerate(stages):
            s = cr.stream(c["comp"], c["eos"], p, stg["t"], std=rate)
            out.append(Point(charts[k], s, p * r, stg["eff"]))
            p *= r
        return out

    limit = None
    if c["max_power"] and all(s["point"] for s in stages):
        e = [sum(x.power for x in at([generic(*s["point"], s["eff"]) for s in stages], i)) for i in range(len(rows)) if rows[i][0] > 0]
        limit = round(e[0] * c["max_power"], 4) if e else None
    _, comp, m = run(yaml_train(c, stages, limit), {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "m", "RATE": "S;RATE", "SUCTION_PRESSURE": "S;PS", "DISCHARGE_PRESSURE": "S;PD"},
                     {k: [row[i] for row in rows] for i, k in enumerate(["RATE", "PS", "PD"])})
    require(len(m.stage_results) == n, f"{len(m.stage_results)} stages, expected {n} for pressures {rows} with at most {c['max_ratio']} per stage")
    charts = []
    for k, (stg, sr) in enumerate(zip(stages, m.stage_results)):
        got = reported_chart(sr, stg["eff"])
        if stg["point"]:
            exp = generic(*stg["point"], stg["eff"])
        else:
            # scaled from the unified chart, whatever the design point
            q, h = got[-1]["rate"][0] / HIGH[0][0], got[-1]["head"][0] / HIGH[0][1]
            exp = generic(q, h, stg["eff"])
        for g, e in zip(got, exp):
            for key in ("rate", "head", "eff"):
                require(len(g[key]) == len(e[key]), f"stage {k}: chart points")
                for x, y in zip(g[key], e[key]):
                    require_close(x, y, f"stage {k}: {key} of the chart", rel=1e-5)
        q, h = stg["point"] or (q, h)
        require_close(sr.chart.design_rate, q, f"stage {k}: design rate", rel=1e-5)
        require_close(sr.chart.design_head, h, f"stage {k}: design head", rel=1e-5)
        charts.append(exp)
        if not stg["point"]:
            # the design point found from the input: all of it is within the chart, which is not larger than that needs
            running = [i for i in range(len(rows)) if rows[i][0] > 0]
            for i in running:
                require(sr.is_valid.values[i], f"stage {k} step {i}: outside of the chart made for it, {sr.chart_area_flags[i]}")
            if running and len(running) == len(rows):
                small = generic(q * 0.95, h * 0.95, stg["eff"])
                # all of the input should be at or above the stone wall, i.e. need no choke for that
                require(any(x.head > ch.max_head(small, x.s.actual) or x.s.actual > ch.max_rate_no_choke(small, x.head)
                            for x in (at([*charts, *[small] * n][:n], i)[k] for i in running)), f"stage {k}: a chart of 5 % less capacity would be enough")
                ctx.label("chart from input")
    a, b = c["adjust"]
    for i, (rate, ps, pd) in enumerate(rows):
        what = f"step {i} {rows[i]}"
        valid, status = comp.is_valid.values[i], m.failure_status[i]
        status = None if status is None else str(getattr(status, "value", status))
        got_power = m.power.values[i]
        if c["calc_max"] and not limit:
            check_maximum(c, m.maximum_rate.values[i], stages, charts, rows[i], what, ctx)
        if rate <= 0:
            ctx.label("no flow")
            require(got_power == 0 and valid, f"{what}: power {got_power} without flow")
            continue
        pts = at(charts, i)
        if any(x.unclear for x in pts):
            ctx.label("not judged")
            continue
        ctx.nontrivial()
        ok = all(x.ok for x in pts)
        power = sum(x.power for x in pts)
        for k, (x, sr) in enumerate(zip(pts, m.stage_results)):
            w = f"{what} stage {k}"
            s = x.s
            require(sr.is_valid.values[i] == x.ok, f"{w}: valid is {sr.is_valid.values[i]}, {x.flag}")
            require_close(sr.inlet_stream_condition.pressure.values[i], s.p, f"{w}: inlet pressure", rel=1e-6)
            require_close(sr.outlet_stream_condition.pressure.values[i], x.p_out, f"{w}: outlet pressure", rel=1e-6)
            require_close(sr.inlet_stream_condition.temperature_kelvin.values[i], stages[k]["t"], f"{w}: inlet temperature", rel=1e-6)
            require_close(sr.mass_rate_before_asv_kg_per_hr.values[i], s.mass, f"{w}: mass rate", rel=1e-4)
            require_close(sr.inlet_stream_condition.actual_rate_before_asv_m3_per_hr.values[i], s.actual, f"{w}: actual rate", rel=1e-4)
            require_close(sr.mass_rate_kg_per_hr.values[i], x.mass, f"{w}: mass rate with recirculation", rel=W_REL)
            require_close(sr.polytropic_efficiency.values[i], x.eff, f"{w}: efficiency", rel=1e-9)
            require_close(sr.polytropic_head_kJ_per_kg.values[i], x.head_used / 1000, f"{w}: head", rel=W_REL)
            require_close(sr.polytropic_enthalpy_change_kJ_per_kg.values[i], x.head_used / x.eff / 1000, f"{w}: enthalpy change", rel=W_REL)
            require_close(sr.polytropic_enthalpy_change_before_choke_kJ_per_kg.values[i], x.head / x.eff / 1000, f"{w}: enthalpy change before choke", rel=W_REL)
            if x.ok:
                require_close(sr.power.values[i], x.power, f"{w}: power", rel=W_REL)
                t_out = ff.reference(c["comp"], c["eos"], x.p_out, h=s.h + x.head_used / x.eff)["temperature_kelvin"]
                require_close(sr.outlet_stream_condition.temperature_kelvin.values[i], t_out, f"{w}: outlet temperature", rel=2e-3)
            if not x.unclear_flags:
                flag = str(getattr(sr.chart_area_flags[i], "value", sr.chart_area_flags[i]))
                require(flag == x.flag, f"{w}: {flag}, expected {x.flag}")
                require(bool(sr.rate_has_recirculation.values[i]) == x.recirculates, f"{w}: recirculation")
                require(bool(sr.pressure_is_choked.values[i]) == x.choked, f"{w}: choke")
                ctx.label(x.flag + (" HEAD" if x.head_exceeded else "") + (" RATE" if x.rate_exceeded else ""))
            if not x.unclear_rate:
                require(bool(sr.rate_exceeds_maximum.values[i]) == x.rate_exceeded, f"{w}: rate exceeds maximum")
            if not x.unclear_head:
                require(bool(sr.head_exceeds_maximum.values[i]) == x.head_exceeded, f"{w}: head exceeds maximum")
        if not ok:
            require(not valid and not m.is_valid.values[i], f"{what}: outside the capacity, but valid")
            continue
        too_much = limit is not None and power > limit
        if limit is None or abs(power / limit - 1) > 2 * W_REL:
            require(status == (POWER if too_much else OK), f"{what}: {status}, power {power}, limit {limit}")
            require(valid == (not too_much), f"{what}: valid is {valid}, power {power}, limit {limit}")
        exact = sum(x.power.values[i] for x in m.stage_results)
        require_close(got_power, exact * a + b, f"{what}: power of the train against its stages", rel=1e-6)
        require_close(m.inlet_stream_condition.pressure.values[i], ps, f"{what}: inlet pressure", rel=1e-6)
        require_close(m.outlet_stream_condition.pressure.values[i], pd, f"{what}: outlet pressure", rel=1e-6)


# ---------------------------------------------------------------- charts from points
@st.composite
def points_case(draw):
    shape = draw(st.sampled_from(["box", "box", "corner", "line", "curve"]))
    n = draw(st.integers(1, 8))
    q, h = draw(nice(100, 20000, 1)), draw(nice(5000, 200000, 0))
    out = []
    for _ in range(n):
        x, y = draw(nice(0.05, 1.0, 3)), draw(nice(0.05, 1.0, 3))
        if shape == "corner":
            x, y = 0.7 + 0.3 * x, 0.7 + 0.3 * y
        elif shape == "line":
            y = x * x
        elif shape == "curve":  # along the highest curve of a chart, and a bit above
            a, b = HIGH[draw(st.integers(0, len(HIGH) - 1))]
            x, y = a * (1 + 0.03 * x), b * (1 + 0.03 * y)
        out.append([r6(q * x), r6(h * y)])
    return {"points": out, "eff": draw(nice(0.6, 0.9, 2))}


def check_points(c, ctx: Ctx):
    from libecalc.domain.process.value_objects.chart.compressor.chart_creator import CompressorChartCreator

    made = CompressorChartCreator.from_rate_and_head_values(
        actual_volume_rates_m3_per_hour=[q for q, _ in c["points"]], heads_joule_per_kg=[h for _, h in c["points"]], polytropic_efficiency=c["eff"])
    q, h = made.design_rate, made.design_head
    for got, exp in zip(sorted(made.get_original_curves(), key=lambda k: k.speed), generic(q, h, c["eff"])):
        for name, x, y in (("rate", got.rate, exp["rate"]), ("head", got.head, exp["head"]), ("efficiency", got.efficiency, exp["eff"])):
            require(len(x) == len(y), f"points of the chart: {name}")
            for a, b in zip(x, y):
                require_close(a, b, f"chart: {name}", rel=1e-9)

    def outside(chart, rate):
        return [p for p in c["points"] if p[1] > ch.max_head(chart, p[0]) or p[0] > rate(chart, p[1])]

    # no larger than needed to have the points within the chart without choking, but that is not demanded of it
    big = outside(generic(q * (1 + 1e-9), h * (1 + 1e-9), c["eff"]), ch.max_rate)
    require(not big, f"design point {q}, {h}: {big} are outside of the chart made for them")
    require(outside(generic(q * 0.95, h * 0.95, c["eff"]), ch.max_rate_no_choke), f"design point {q}, {h}: a chart of 5 % less capacity would be enough for {c['points']}")
    ctx.nontrivial(len(c["points"]) > 1)
    ctx.label("one point" if len(c["points"]) == 1 else "several points")


SUBCHECKS = [
    Sub("points", points_case(), check_points, 600, rule="several points"),
    Sub("train", case(), check_train, 500, rule="a point clearly inside or outside the charts"),
]

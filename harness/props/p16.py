"""A chart answers every question about capacity, head, speed and efficiency from its curves as documented."""
import math

from hypothesis import strategies as st

from harness import charts as ch
from harness.core import Ctx, Sub, fail, require, require_close
from harness.gen import nice

REL = 1e-9


@st.composite
def chart_case(draw, n_min=1, points=6):
    data = draw(ch.curves(n_min=n_min))
    margin = draw(st.one_of(st.none(), st.just(0.0), nice(0.01, 0.6, 2)))
    lo, hi = data[0], data[-1]
    pts = []
    for _ in range(draw(st.integers(1, points))):
        c = draw(st.sampled_from(data))
        k = draw(st.integers(0, len(c["rate"]) - 1))
        kind = draw(st.sampled_from(["point", "curve", "box", "box", "far"]))
        if kind == "point":
            pts.append([c["rate"][k], c["head"][k]])
        elif kind == "curve":
            q = c["rate"][0] + draw(nice(0, 1, 3)) * (c["rate"][-1] - c["rate"][0])
            pts.append([q, ch.interp(q, c["rate"], c["head"])])
        else:
            a, b = (-0.2, 1.2) if kind == "box" else (-1, 3)
            q = lo["rate"][0] + draw(nice(a, b, 3)) * (hi["rate"][-1] - lo["rate"][0])
            h = lo["head"][-1] + draw(nice(a, b, 3)) * (hi["head"][0] - lo["head"][-1])
            pts.append([max(q, 0.0), max(h, 0.0)])
    return {"curves": draw(st.permutations(data)), "sorted": data, "margin": margin, "points": pts}


def near(a, b, rel=1e-7):
    return abs(a - b) <= rel * max(1.0, abs(a), abs(b))


def check_envelope(c, ctx: Ctx):
    """Limits of the working area, with points in any order, after the control margin."""
    from libecalc.domain.process.value_objects.chart import Chart

    shuffled = []
    for i, k in enumerate(c["curves"]):  # points of a curve may come in any order as well
        rows = list(zip(k["rate"], k["head"], k["eff"]))
        rows = rows[::-1] if i % 2 else rows
        shuffled.append(dict(speed=k["speed"], rate=[r[0] for r in rows], head=[r[1] for r in rows], eff=[r[2] for r in rows]))
    chart = Chart(ch.chart_data(shuffled, c["margin"]))
    ref = ch.adjusted(c["sorted"], c["margin"])
    require_close(chart.minimum_rate, min(k["rate"][0] for k in ref), "lowest rate")
    require_close(chart.maximum_rate, max(k["rate"][-1] for k in ref), "highest rate")
    require_close(chart.minimum_speed, ref[0]["speed"], "lowest speed")
    require_close(chart.maximum_speed, ref[-1]["speed"], "highest speed")
    require(len(chart.curves) == len(ref), "number of curves")
    for got, exp in zip(chart.curves, ref):
        require_close(got.speed, exp["speed"], "speed of curve")
        for q, _ in c["points"]:
            require_close(got.head_as_function_of_rate(q), ch.interp(q, exp["rate"], exp["head"]), f"head at {q} at speed {exp['speed']}")
            require_close(got.efficiency_as_function_of_rate(q), ch.interp(q, exp["rate"], exp["eff"]), f"efficiency at {q} at speed {exp['speed']}")
        require_close(got.minimum_rate, exp["rate"][0], "minimum rate at speed")
        require_close(got.maximum_rate, exp["rate"][-1], "maximum rate at speed")
    for q, h in c["points"]:
        require_close(chart.maximum_head_as_function_of_rate(q), ch.max_head(ref, q), f"maximum head at rate {q}")
        require_close(chart.minimum_head_as_function_of_rate(q), ch.min_head(ref, q), f"minimum head at rate {q}")
        got = float(chart.minimum_rate_as_function_of_head(h))
        if not math.isnan(got) or len(ref) > 1:
            require_close(got, ch.min_flow(ref, h), f"minimum flow at head {h}", rel=1e-8)
        require_close(chart.minimum_rate_as_function_of_head_no_choking(h), ch.min_flow_no_choke(ref, h), f"minimum flow without choking at head {h}", rel=1e-8)
        require_close(chart.maximum_rate_as_function_of_head(h), ch.max_rate(ref, h), f"maximum rate at head {h}", rel=1e-8)
        require_close(chart.maximum_rate_as_function_of_head_no_choking(h), ch.max_rate_no_choke(ref, h), f"maximum rate without choking at head {h}", rel=1e-8)
        if ref[0]["rate"][0] < q < ref[-1]["rate"][-1]:
            ctx.nontrivial()
    if c["margin"]:
        ctx.label("control margin")
    if len(ref) > 1:
        ctx.label("variable speed")


def check_capacity(c, ctx: Ctx):
    """Recirculation, choking and capacity of operating points."""
    from libecalc.domain.process.value_objects.chart.compressor.compressor_chart import CompressorChart

    chart = CompressorChart(ch.chart_data(c["curves"], c["margin"]))
    ref = ch.adjusted(c["sorted"], c["margin"])
    import numpy as np

    for choke in (True, False):
        mf = ch.min_flow if choke else ch.min_flow_no_choke
        mr = ch.max_rate if choke else ch.max_rate_no_choke
        got = chart.evaluate_capacity_and_extrapolate_below_minimum(
            np.array([p[0] for p in c["points"]]), np.array([p[1] for p in c["points"]]), extrapolate_heads_below_minimum=choke
        )
        limits = chart.get_maximum_rate(np.array([p[1] for p in c["points"]]), extrapolate_heads_below_minimum=choke)
        for i, (q, h) in enumerate(c["points"]):
            where = f"point ({q}, {h}) choking={choke}"
            if choke and len(ref) == 1 and h == ref[0]["head"][0]:
                continue
            require_close(limits[i], mr(ref, h), f"{where}: maximum rate", rel=1e-8)
            lo = mf(ref, h)
            q1 = max(q, lo)
            require_close(got.asv_corrected_rates[i], q1, f"{where}: rate with recirculation", rel=1e-8)
            if not near(q, lo):
                require(bool(got.rate_has_recirc[i]) == (q < lo), f"{where}: recirculation flag, minimum flow is {lo}")
            hmin = ch.min_head(ref, q1)
            h1 = max(h, hmin) if choke else h
            require_close(got.choke_corrected_heads[i], h1, f"{where}: head with choking", rel=1e-7)
            sure = not near(h, hmin)
            if sure:
                require(bool(got.pressure_is_choked[i]) == (choke and h < hmin), f"{where}: choking flag, minimum head is {hmin}")
            sure_rate = not near(q1, mr(ref, h))
            too_high_rate = q1 > mr(ref, h)
            if sure_rate:
                require(bool(got.rate_exceeds_maximum[i]) == too_high_rate, f"{where}: rate above maximum {mr(ref, h)}")
            hmax = ch.max_head(ref, q)
            sure_head = not near(h1, hmax)
            if sure_head:
                require(bool(got.head_exceeds_maximum[i]) == (h1 > hmax), f"{where}: head above maximum {hmax}")
            if sure and sure_rate and sure_head:
                bad = too_high_rate or h1 > hmax or (not choke and h < hmin)
                require(bool(got.exceeds_capacity[i]) == bad, f"{where}: outside capacity")
                if not bad:
                    ctx.nontrivial()
                ctx.label("outside" if bad else "recirculated" if q < lo else "choked" if choke and h < hmin else "inside")


def check_efficiency(c, ctx: Ctx):
    """Efficiency between curves, and its independence of the units the chart is scaled with."""
    import numpy as np
    from libecalc.domain.process.value_objects.chart import Chart

    data = ch.adjusted(c["sorted"], c["margin"])
    chart = Chart(ch.chart_data(c["curves"], c["margin"]))
    q = np.array([p[0] for p in c["points"]])
    h = np.array([p[1] for p in c["points"]])
    got = np.asarray(chart.efficiency_as_function_of_rate_and_head(rates=q, heads=h), dtype=float)
    lo, hi = min(e for k in data for e in k["eff"]), max(e for k in data for e in k["eff"])
    scaled = [dict(k, rate=[x * 24 for x in k["rate"]], head=[x / 1000 for x in k["head"]]) for k in c["sorted"]]
    other = np.asarray(
        Chart(ch.chart_data(scaled, c["margin"])).efficiency_as_function_of_rate_and_head(rates=q * 24, heads=h / 1000), dtype=float
    )
    for i, (a, b) in enumerate(zip(q, h)):
        require(lo - 1e-9 <= got[i] <= hi + 1e-9, f"efficiency {got[i]} at ({a}, {b}) outside the {lo}..{hi} of the chart")
        exp, ambiguous = ch.efficiency(data, float(a), float(b))
        if ambiguous:
            ctx.label("point on the level of a curve end")
            continue
        require_close(got[i], exp, f"efficiency at ({a}, {b})", rel=1e-6)
        require_close(other[i], got[i], f"efficiency at ({a}, {b}) depends on the units of the chart", rel=1e-6)
        if hi > lo:
            ctx.nontrivial()


# ---------------------------------------------------------------- head and efficiency from speed and rate
@st.composite
def speed_case(draw):
    case = draw(chart_case(points=1))
    data = ch.adjusted(case["sorted"], case["margin"])
    a, b = data[0]["speed"], data[-1]["speed"]
    case["speed"] = draw(st.one_of(st.sampled_from([k["speed"] for k in data]), nice(0, 1).map(lambda t: a + t * (b - a)), nice(0.5, 1.5, 2).map(lambda t: t * b)))
    case["share"] = draw(st.one_of(nice(0, 1), nice(-0.5, 1.5), st.sampled_from([0.0, 1.0])))
    case["choke"] = draw(st.booleans())
    case["asv"] = draw(st.sampled_from([True, True, False]))
    return case


def at_speed(data, speed):
    """[(rate, head, eff) as function of the share of the rate range, min rate, max rate] at a speed within range."""
    if len(data) == 1:
        below = above = data[0]
        w = 0.0
    else:
        i = max(j for j in range(len(data)) if data[j]["speed"] <= speed)
        below, above = data[i], data[min(i + 1, len(data) - 1)]
        w = 0.0 if above is below else (speed - below["speed"]) / (above["speed"] - below["speed"])

    def mix(x, y):
        return x + w * (y - x)

    def value(share, key):
        out = []
        for k in (below, above):
            q = k["rate"][0] + share * (k["rate"][-1] - k["rate"][0])
            out.append(ch.interp(q, k["rate"], k[key]))
        return mix(*out)

    return value, mix(below["rate"][0], above["rate"][0]), mix(below["rate"][-1], above["rate"][-1])


def check_speed(c, ctx: Ctx):
    from libecalc.domain.process.value_objects.chart.compressor.compressor_chart import CompressorChart

    chart = CompressorChart(ch.chart_data(c["curves"], c["margin"]))
    data = ch.adjusted(c["sorted"], c["margin"])
    speed = c["speed"]
    inside = data[0]["speed"] <= speed <= data[-1]["speed"]
    used = data[0]["speed"] if speed < data[0]["speed"] else min(speed, data[-1]["speed"])
    value, qmin, qmax = at_speed(data, used)
    rate = qmin + c["share"] * (qmax - qmin)
    if rate <= 1e-3:
        return
    got = chart.calculate_polytropic_head_and_efficiency_single_point(
        speed=speed, actual_rate_m3_per_hour=rate, increase_speed_below_assuming_choke=c["choke"],
        increase_rate_left_of_minimum_flow_assuming_asv=c["asv"],
    )
    require_close(chart.minimum_rate_as_function_of_speed(used), qmin, "minimum rate at speed")
    require_close(chart.maximum_rate_as_function_of_speed(used), qmax, "maximum rate at speed")
    edge = near(rate, qmin) or near(rate, qmax)
    valid = inside or (speed < data[0]["speed"] and c["choke"])
    left, right = rate < qmin, rate > qmax
    if not edge:
        valid = valid and not right and (not left or c["asv"])
        require(got.is_valid == valid, f"validity of speed {speed} rate {rate}: {got.is_valid}, range of rates {qmin}..{qmax}")
    if got.is_valid or valid:
        share = min(1.0, max(0.0, c["share"]))
        require_close(got.polytropic_head, value(share, "head"), f"head at speed {speed} rate {rate}", rel=1e-6)
        require_close(got.polytropic_efficiency, value(share, "eff"), f"efficiency at speed {speed} rate {rate}", rel=1e-6)
        ctx.nontrivial()
    if not edge:
        flag = got.chart_area_flag.value
        if inside and not left and not right:
            require(flag == "INTERNAL_POINT", f"flag of a point inside: {flag}")
        if inside and left:
            require(flag == "BELOW_MINIMUM_FLOW_RATE", f"flag of a point left of minimum flow: {flag}")
        if inside and right:
            require(flag == "ABOVE_MAXIMUM_FLOW_RATE", f"flag of a point right of the stone wall: {flag}")
        ctx.label(flag)


# ---------------------------------------------------------------- generated charts
@st.composite
def generated_case(draw):
    n = draw(st.integers(1, 8))
    q0, h0 = draw(nice(100, 5000, 0)), draw(nice(1000, 100000, 0))
    spread = draw(st.sampled_from([0.05, 0.5, 3.0]))
    return {
        "rate": [round(q0 * (1 + spread * draw(nice(0, 1))), 3) for _ in range(n)],
        "head": [round(h0 * (1 + spread * draw(nice(0, 1))), 3) for _ in range(n)],
        "eff": draw(nice(0.4, 0.95, 2)),
    }


def check_generated(c, ctx: Ctx):
    import numpy as np
    from libecalc.domain.process.value_objects.chart.compressor.chart_creator import CompressorChartCreator
    from libecalc.domain.process.value_objects.chart.compressor.compressor_chart import CompressorChart

    data = CompressorChartCreator.from_rate_and_head_values(
        actual_volume_rates_m3_per_hour=c["rate"], heads_joule_per_kg=c["head"], polytropic_efficiency=c["eff"]
    )
    chart = CompressorChart(data)
    q, h = np.array(c["rate"]), np.array(c["head"])
    inner = chart.evaluate_capacity_and_extrapolate_below_minimum(q / (1 + 1e-6), h / (1 + 1e-6), True)
    for i in range(len(q)):
        require(not inner.exceeds_capacity[i], f"point ({q[i]}, {h[i]}) is outside the chart made to contain it")
    outer = chart.evaluate_capacity_and_extrapolate_below_minimum(q * 2, h * 2, True)
    require(any(bool(x) for x in outer.exceeds_capacity), "the chart is more than twice as large as the points need")
    for k in chart.curves:
        require(all(abs(e - c["eff"]) < 1e-12 for e in k.efficiency), "efficiency of generated curves")
    # scaling all points scales the chart
    s = CompressorChart(
        CompressorChartCreator.from_rate_and_head_values(
            actual_volume_rates_m3_per_hour=[2 * x for x in c["rate"]], heads_joule_per_kg=[3 * x for x in c["head"]], polytropic_efficiency=c["eff"]
        )
    )
    for a, b in zip(chart.curves, s.curves):
        for x, y in zip(a.rate, b.rate):
            require_close(y, 2 * x, "rates of the chart for doubled rates", rel=1e-6)
        for x, y in zip(a.head, b.head):
            require_close(y, 3 * x, "heads of the chart for tripled heads", rel=1e-6)
    ctx.nontrivial(len(q) > 1)


@st.composite
def design_case(draw):
    return {"rate": draw(nice(10, 20000, 1)), "head": draw(nice(500, 200000, 0)), "eff": draw(nice(0.3, 1, 2))}


def check_design(c, ctx: Ctx):
    """A chart from a design point is the same shape whatever the point, and contains it."""
    import numpy as np
    from libecalc.domain.process.value_objects.chart.compressor.chart_creator import CompressorChartCreator
    from libecalc.domain.process.value_objects.chart.compressor.compressor_chart import CompressorChart

    def make(q, h):
        return CompressorChart(
            CompressorChartCreator.from_rate_and_head_design_point(
                design_actual_rate_m3_per_hour=q, design_head_joule_per_kg=h, polytropic_efficiency=c["eff"]
            )
        )

    a, unit = make(c["rate"], c["head"]), make(1.0, 1.0)
    require(len(a.curves) == len(unit.curves) == 2, "a generic chart has a lowest and a highest speed curve")
    for x, y in zip(a.curves, unit.curves):
        for p, r in zip(x.rate, y.rate):
            require_close(p, r * c["rate"], "rate of the generic chart", rel=1e-9)
        for p, r in zip(x.head, y.head):
            require_close(p, r * c["head"], "head of the generic chart", rel=1e-9)
        require_close(x.speed, y.speed, "speed")
        require(all(abs(e - c["eff"]) < 1e-12 for e in x.efficiency), "efficiency")
    got = a.evaluate_capacity_and_extrapolate_below_minimum(np.array([c["rate"] * (1 - 1e-9)]), np.array([c["head"] * (1 - 1e-9)]), False)
    require(not got.exceeds_capacity[0], "the design point is outside its chart")
    ctx.nontrivial()


SUBCHECKS = [
    Sub("envelope", chart_case(), check_envelope, 1500, rule="a point between the lowest and the highest rate"),
    Sub("capacity", chart_case(), check_capacity, 1500, rule="a point within capacity"),
    Sub("efficiency", chart_case(), check_efficiency, 800, rule="efficiency varies over the chart"),
    Sub("speed", speed_case(), check_speed, 2500, rule="a point within the chart"),
    Sub("generated", generated_case(), check_generated, 1200, rule="at least two points"),
    Sub("design_point", design_case(), check_design, 300, rule="every case"),
]

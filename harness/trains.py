"""Random compressor trains (several charts on one shaft) and a reference simulation of them."""
from __future__ import annotations

from dataclasses import dataclass, replace

from hypothesis import strategies as st

from harness import charts, compref as cr, fakefluid as ff
from harness.gen import nice

COMPS = [
    {"methane": 1.0},
    {"nitrogen": 0.01, "CO2": 0.02, "methane": 0.85, "ethane": 0.08, "propane": 0.04},
    {"methane": 0.6, "ethane": 0.2, "propane": 0.15, "CO2": 0.05},
]
WET = {"methane": 0.85, "ethane": 0.1, "n_pentane": 0.03, "water": 0.02}


@st.composite
def train(draw, n_max=3, wet=True, speeds_min=2, speeds_max=4, dp=True, same_speeds=False, head=(15000, 45000)):
    """{"stages": [{"chart", "t", "dp", "dry"}], "comp", "eos", "p"}; the rates of later charts fit the flow they get."""
    n_speeds = draw(st.integers(speeds_min, speeds_max))
    speeds, s = [], draw(st.sampled_from([3000.0, 7500.0, 10000.0]))
    for _ in range(n_speeds):
        speeds.append(round(s, 1))
        s *= draw(nice(1.06, 1.3, 2))
    stages = []
    for _ in range(draw(st.integers(1, n_max))):
        points = draw(st.integers(2, 4))
        span = draw(nice(0.4, 1.2, 2))
        q0 = draw(nice(500, 5000, 0))
        h0 = draw(nice(*head, 0))
        drop = draw(nice(0.2, 0.7, 2))
        eff0 = draw(nice(0.6, 0.8, 2))
        bend = draw(nice(-0.15, 0.15, 2))
        mine = list(speeds)
        if not same_speeds and draw(st.integers(0, 3)) == 0:
            mine[0] = round(mine[0] * draw(nice(0.93, 1.03, 2)), 1)
            mine[-1] = round(mine[-1] * draw(nice(0.98, 1.05, 2)), 1)
        curves = []
        for sp in mine:
            f = sp / speeds[0]
            xs = [i / (points - 1) for i in range(points)]
            curves.append({
                "speed": sp,
                "rate": [charts.r6(q0 * f * (1 + span * x)) for x in xs],
                "head": [charts.r6(h0 * f * f * (1 - drop * (0.6 * x + 0.4 * x * x))) for x in xs],
                "eff": [round(eff0 + bend * x, 4) for x in xs],
            })
        stages.append({
            "chart": curves, "t": draw(nice(285, 330, 0)), "dp": draw(st.sampled_from([0.0, 0.0, 0.5, 1.5])) if dp else 0.0,
            "dry": draw(st.booleans()), "fit": draw(nice(0.75, 1.25, 2)),
        })
    comp = draw(st.sampled_from([*COMPS, WET] if wet else COMPS))
    if comp is WET:
        for s_ in stages:
            s_["dry"] = True
    return {"stages": stages, "comp": comp, "eos": draw(st.sampled_from(["SRK", "PR", "GERG_SRK"])), "p": draw(nice(10, 40, 1))}


MAX_PRESSURE = 1200  # bara


def fitted(c):
    """The stages with charts scaled so that mid flow of stage 1 is roughly mid flow of the next ones."""
    out = []
    s = cr.stream(c["comp"], c["eos"], c["p"], c["stages"][0]["t"], mass=1.0)
    for i, stg in enumerate(c["stages"]):
        s = condition(s, stg)
        if s is None:
            return None
        ch = stg["chart"]
        mid = ch[len(ch) // 2]
        qm = (mid["rate"][0] + mid["rate"][-1]) / 2
        if i == 0:
            s = replace(s, mass=qm * s.props["density"])
            scale = 1.0
        else:
            scale = s.actual / qm * stg["fit"]
        ch = [{**k, "rate": [charts.r6(q * scale) for q in k["rate"]]} for k in ch]
        mid = ch[len(ch) // 2]
        q = min(max(s.actual, mid["rate"][0]), mid["rate"][-1])
        s = cr.compress(s, charts.interp(q, mid["rate"], mid["head"]), charts.interp(q, mid["rate"], mid["eff"]))
        out.append({**stg, "chart": ch})
    # the highest pressure which any speed and flow can give: no fluid model is asked about thousands of bar
    s = cr.stream(c["comp"], c["eos"], c["p"] * 1.2, c["stages"][0]["t"], mass=1.0)
    for stg in out:
        s = cr.compress(s.at(s.p, stg["t"]), max(h for k in stg["chart"] for h in k["head"]), max(e for k in stg["chart"] for e in k["eff"]))
        if s.p > MAX_PRESSURE:
            return None
    return out


def condition(s: cr.S, stg):
    """Ahead of the compressor: temperature, pressure drop, liquid removal."""
    if s.p - stg["dp"] <= 0.3:
        return None
    s = s.at(s.p - stg["dp"], stg["t"])
    return dry(s) if stg["dry"] else s


def dry(s: cr.S):
    pr = s.props
    v = pr["vapor_fraction_molar"]
    if v >= 0.9999:
        return s
    gas = pr["system"].phaseToSystem("gas")
    comp = {n.replace("-", "_"): x for n, x in gas.fractions().items() if x > 0}
    return cr.stream(comp, s.eos, s.p, pr["temperature_kelvin"], mass=s.mass * v * gas.getMolarMass() / pr["molar_mass"])


@dataclass
class Outcome:
    ok: bool
    why: str = ""  # surge, stonewall, pressure, liquid
    stage: int = -1
    p: float = 0.0
    out: cr.S | None = None
    flows: tuple = ()  # actual rate through each compressor
    recirc: tuple = ()  # kg/h recirculated around each compressor
    ranges: tuple = ()  # (min, max) kg/h which can be recirculated
    powers: tuple = ()  # MW
    inlets: tuple = ()
    margin: float = 1.0  # smallest relative distance of a flow from the end of the chart


def simulate(stages, s: cr.S, speed, recirc="min", common=None, fraction=None):
    """Run through the stages. recirc: "min" (per stage), list of kg/h per stage, or fraction of the range per stage;
    common: kg/h around the whole train (no recirculation of its own per stage)."""
    flows, recs, ranges, powers, inlets, margin = [], [], [], [], [], 1.0
    if common is not None:
        s = replace(s, mass=s.mass + common)
    for i, stg in enumerate(stages):
        s2 = condition(s, stg)
        if s2 is None:
            return Outcome(False, "pressure", i)
        if s2.props["vapor_fraction_molar"] < 0.9999:
            return Outcome(False, "liquid", i)
        lo, hi = cr.speed_limits(stg["chart"], speed)
        rho = s2.props["density"]
        q = s2.mass / rho
        rng = (max(0.0, lo * rho - s2.mass), max(0.0, hi * rho - s2.mass))
        ranges.append(rng)
        if common is not None:
            r = 0.0
        elif fraction is not None:
            r = rng[0] + fraction * (rng[1] - rng[0])
        elif recirc == "min":
            r = rng[0]
        else:
            r = recirc[i]
        q = (s2.mass + r) / rho
        eps = 2e-6 * hi
        margin = min(margin, abs(q - lo) / hi, abs(hi - q) / hi)
        if q > hi + eps:
            return Outcome(False, "stonewall", i, flows=tuple([*flows, q]), ranges=tuple(ranges), margin=margin)
        if q < lo - eps:
            return Outcome(False, "surge", i, flows=tuple([*flows, q]), ranges=tuple(ranges), margin=margin)
        q = min(max(q, lo), hi)
        head, eff = cr.head_efficiency(stg["chart"], speed, q)
        out = cr.compress(s2, head, eff)
        flows.append(q)
        recs.append(r)
        inlets.append(s2)
        powers.append(cr.power_mw(q * rho, head / eff))
        s = out
    return Outcome(True, p=s.p, out=replace(s, mass=s.mass - (common or 0.0)), flows=tuple(flows), recirc=tuple(recs), ranges=tuple(ranges), powers=tuple(powers),
                   inlets=tuple(inlets), margin=margin)


def simulate_common(stages, s, speed):
    """Smallest common recirculation which keeps every compressor above minimum flow."""
    o = simulate(stages, s, speed, common=0.0)
    if o.ok or o.why != "surge":
        return o, 0.0
    lo = 0.0
    first = condition(s, stages[0])
    hi = cr.speed_limits(stages[0]["chart"], speed)[1] * first.props["density"] - first.mass
    if hi <= 0:
        return Outcome(False, "surge"), 0.0
    best = None
    for _ in range(60):
        mid = (lo + hi) / 2
        o = simulate(stages, s, speed, common=mid)
        if o.ok:
            best, hi = (o, mid), mid
        elif o.why == "surge":
            lo = mid
        else:
            hi = mid
    return best or (Outcome(False, "none"), 0.0)


def bisect(f, lo, hi, n=80):
    """f increasing, f(lo) <= 0 <= f(hi)."""
    for _ in range(n):
        mid = (lo + hi) / 2
        if f(mid) <= 0:
            lo = mid
        else:
            hi = mid
    return (lo + hi) / 2


def speed_range(stages):
    return max(s["chart"][0]["speed"] for s in stages), min(s["chart"][-1]["speed"] for s in stages)

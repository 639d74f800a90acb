"""Unit conversions: one physical meaning per pair, exact inverses, same for scalars, lists and series."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Ctx, Sub, expect_raises, require, require_close, require_list_close
from harness.gen import date_list, nice, periods_of, rates

from libecalc.common.units import Unit
from libecalc.common.utils.rates import RateType, TimeSeriesFloat, TimeSeriesRate, TimeSeriesVolumes

G = 9.81
BOE = 6.29
# (dimension, unit) -> (scale, offset) to the base unit of the dimension
BASE = {
    "massrate": {Unit.TONS_PER_DAY: (1000, 0), Unit.KILO_PER_DAY: (1, 0)},
    "mass": {Unit.TONS: (1000, 0), Unit.KILO: (1, 0)},
    "volume": {Unit.STANDARD_CUBIC_METER: (1000, 0), Unit.LITRES: (1, 0)},
    "oil": {Unit.STANDARD_CUBIC_METER: (BOE, 0), Unit.BOE: (1, 0)},
    "temperature": {Unit.CELSIUS: (1, 273.15), Unit.KELVIN: (1, 0)},
    "pressure": {Unit.BARA: (1e5, 0), Unit.PASCAL: (1, 0)},
    "pressure2": {Unit.BARA: (100, 0), Unit.KILO_PASCAL: (1, 0)},
    "fraction": {Unit.PERCENTAGE: (0.01, 0), Unit.FRACTION: (1, 0)},
    "head": {
        Unit.POLYTROPIC_HEAD_JOULE_PER_KG: (1, 0),
        Unit.POLYTROPIC_HEAD_KILO_JOULE_PER_KG: (1000, 0),
        Unit.POLYTROPIC_HEAD_METER_LIQUID_COLUMN: (G, 0),
    },
    "intensity": {Unit.KG_BOE: (BOE, 0), Unit.KG_SM3: (1, 0)},
}
PAIRS = [(a, b, m[a], m[b]) for m in BASE.values() for a in m for b in m if a != b]
PAIRS.append((Unit.MEGA_WATT_DAYS, Unit.GIGA_WATT_HOURS, (0.024, 0), (1, 0)))

values = st.one_of(nice(-1000, 1e5), st.floats(-1e9, 1e9, allow_nan=False), st.just(0.0))


def check_pair(c, ctx: Ctx):
    a, b, (sa, oa), (sb, ob) = PAIRS[c["pair"] % len(PAIRS)]
    xs = c["values"]
    conv = a.to(b)
    expected = [(x * sa + oa - ob) / sb for x in xs]
    tol = [max(1e-12 * abs(e), 1e-9 * (oa != ob) + 1e-12) for e in expected]
    for x, e, t in zip(xs, expected, tol):
        require_close(conv(x), e, f"{a} -> {b} of {x}", rel=1e-12, abs_=max(t, 1e-7 if oa != ob else t))
        require_close(a.to(a)(x), x, "same unit", rel=0, abs_=0)
    require_list_close(conv(list(xs)), expected, f"{a} -> {b} of a list", rel=1e-12, abs_=1e-7 if oa != ob else 1e-12)
    require(isinstance(conv(list(xs)), list), "converting a list gives a list")
    require_list_close(conv(np.asarray(xs, float)), expected, f"{a} -> {b} of an array", rel=1e-12, abs_=1e-7 if oa != ob else 1e-12)
    if b != Unit.GIGA_WATT_HOURS:
        for x in xs:
            require_close(b.to(a)(conv(x)), x, f"{a} -> {b} -> {a}", rel=1e-12, abs_=1e-6 if oa != ob else 1e-12)
    ctx.nontrivial(any(x != 0 for x in xs))


@st.composite
def series_case(draw):
    dates = draw(date_list(max_size=6))
    n = len(dates) - 1
    return {
        "dates": dates,
        "values": draw(st.lists(rates(), min_size=n, max_size=n)),
        "reg": draw(st.lists(nice(0.1, 1), min_size=n, max_size=n)),
        "kind": draw(st.sampled_from(["rate", "volume", "power", "float"])),
    }


def check_series(c, ctx: Ctx):
    p = periods_of(c["dates"])
    if c["kind"] == "rate":
        ts = TimeSeriesRate(periods=p, values=c["values"], unit=Unit.KILO_PER_DAY, rate_type=RateType.STREAM_DAY, regularity=c["reg"])
        out = ts.to_unit(Unit.TONS_PER_DAY)
        require_list_close(out.values, [v / 1000 for v in c["values"]], "kg/d -> t/d")
        require_list_close(out.regularity, c["reg"], "regularity kept")
        require(out.unit == Unit.TONS_PER_DAY and out.periods == p, "unit label")
        require(ts.unit == Unit.KILO_PER_DAY and list(ts.values) == c["values"], "conversion changed its input")
        # volume in the new unit is the converted volume
        require_list_close(
            out.to_volumes().values, ts.to_volumes().to_unit(Unit.TONS).values, "unit conversion commutes with volumes", rel=1e-9
        )
    elif c["kind"] == "volume":
        ts = TimeSeriesVolumes(periods=p, values=c["values"], unit=Unit.STANDARD_CUBIC_METER)
        require_list_close(ts.to_unit(Unit.BOE).values, [v * BOE for v in c["values"]], "Sm3 -> BOE")
        require_list_close(
            ts.to_unit(Unit.LITRES).cumulative().values, ts.cumulative().to_unit(Unit.LITRES).values, "commutes with cumulative", rel=1e-9
        )
    elif c["kind"] == "power":
        ts = TimeSeriesRate(periods=p, values=c["values"], unit=Unit.MEGA_WATT, rate_type=RateType.STREAM_DAY, regularity=c["reg"])
        gwh = ts.to_volumes().to_unit(Unit.GIGA_WATT_HOURS)
        exp = [v * r * (q.end - q.start).total_seconds() / 3600 / 1000 for v, r, q in zip(c["values"], c["reg"], p)]
        require_list_close(gwh.values, exp, "MW -> GWh", rel=1e-9)
    else:
        ts = TimeSeriesFloat(periods=p, values=c["values"], unit=Unit.KELVIN)
        require_list_close(ts.to_unit(Unit.CELSIUS).values, [v - 273.15 for v in c["values"]], "K -> C")
    ctx.nontrivial(any(c["values"]))


RATE_VOL = {
    Unit.STANDARD_CUBIC_METER_PER_DAY: Unit.STANDARD_CUBIC_METER,
    Unit.MEGA_WATT: Unit.MEGA_WATT_DAYS,
    Unit.TONS_PER_DAY: Unit.TONS,
    Unit.KILO_PER_DAY: Unit.KILO,
    Unit.LITRES_PER_DAY: Unit.LITRES,
}


def check_labels(c, ctx: Ctx):
    """Every pair of units: either a known meaning or a refusal, never a silent pass-through."""
    a, b = list(Unit)[c["a"] % len(Unit)], list(Unit)[c["b"] % len(Unit)]
    known = {(x, y) for x, y, _, _ in PAIRS} | {(u, u) for u in Unit}
    if (a, b) in known:
        a.to(b)(1.0)
    elif c["strict"]:
        pass
    else:
        expect_raises(NotImplementedError, lambda: a.to(b)(1.0), f"conversion {a} -> {b} has no meaning")
        ctx.nontrivial()
    if a in RATE_VOL:
        require(a.rate_to_volume() == RATE_VOL[a] and RATE_VOL[a].volume_to_rate() == a, f"rate/volume unit of {a}")
    elif a in RATE_VOL.values():
        pass
    else:
        expect_raises(NotImplementedError, a.rate_to_volume, f"volume unit of {a}")


def check_stream_units(c, ctx: Ctx):
    """Standard rate and mass rate of a fluid stream are the same stream."""
    from harness.fakefluid import make_stream, standard_density

    s = make_stream(rate_sm3_d=c["rate"], p=c["p"], t=c["t"], comp=c["comp"])
    rho = standard_density(c["comp"])
    require_close(s.mass_rate_kg_per_h, c["rate"] * rho / 24.0, "mass rate", rel=1e-9)
    require_close(s.standard_rate_sm3_per_day, c["rate"], "standard rate", rel=1e-9)
    require_close(s.volumetric_rate_m3_per_hour, c["rate"] * rho / 24.0 / s.density, "actual volume rate", rel=1e-9)
    ctx.nontrivial(c["rate"] > 0)


SUBCHECKS = [
    Sub("pairs", lambda: st.fixed_dictionaries({"pair": st.integers(0, len(PAIRS) - 1), "values": st.lists(values, min_size=1, max_size=4)}),
        check_pair, 1500, rule="every registered pair x random values against the physical definition; non-trivial: a non-zero value"),
    Sub("series", series_case, check_series, 800, rule="unit conversion of time series; non-trivial: a non-zero value"),
    Sub("labels", lambda: st.fixed_dictionaries({"a": st.integers(0, 40), "b": st.integers(0, 40), "strict": st.just(False)}),
        check_labels, 1200, rule="random unit pairs; non-trivial: a pair without physical meaning"),
]

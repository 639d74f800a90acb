"""Reporting at another frequency conserves totals and never invents or loses observations."""
from datetime import datetime, timedelta

from hypothesis import strategies as st

from harness.core import Ctx, Sub, fail, require, require_close, require_list_close
from harness.gen import date_list, days, dt, nice, periods_of, rates, regularities

from libecalc.common.time_utils import Frequency
from libecalc.common.units import Unit
from libecalc.common.utils.rates import (
    RateType,
    Rates,
    TimeSeriesBoolean,
    TimeSeriesCalendarDayRate,
    TimeSeriesFloat,
    TimeSeriesInt,
    TimeSeriesRate,
    TimeSeriesStreamDayRate,
    TimeSeriesString,
    TimeSeriesVolumes,
    TimeSeriesVolumesCumulative,
)

FREQ = {"Y": Frequency.YEAR, "M": Frequency.MONTH, "D": Frequency.DAY, "N": Frequency.NONE}


def boundaries(start: datetime, end: datetime, freq: str) -> list[datetime]:
    """All dates of the frequency strictly between start and end."""
    out = []
    d = start + timedelta(days=1)
    while d < end:
        if freq == "D" or (freq == "M" and d.day == 1) or (freq == "Y" and d.day == 1 and d.month == 1):
            out.append(d)
        d += timedelta(days=1)
    return out


def integral(dates, rate_values, a, b) -> float:
    """Integral over [a, b] of the piecewise constant rate."""
    total = 0.0
    for s, e, r in zip(dates, dates[1:], rate_values):
        lo, hi = max(s, a), min(e, b)
        if hi > lo:
            total += r * days(lo, hi)
    return total


@st.composite
def series(draw, value, max_gap=500):
    freq = draw(st.sampled_from(["Y", "M", "Y", "M", "D"]))
    dates = draw(date_list(max_gap=60 if freq == "D" else max_gap))
    if freq == "D" and days(dt(dates[0]), dt(dates[-1])) > 800:
        freq = "M"
    n = len(dates) - 1
    return {
        "dates": dates,
        "values": draw(st.lists(value, min_size=n, max_size=n)),
        "freq": freq,
        "start": draw(st.booleans()) or draw(st.booleans()),
        "end": draw(st.booleans()) or draw(st.booleans()),
    }


@st.composite
def rate_case(draw):
    c = draw(series(rates()))
    n = len(c["values"])
    c["regularity"] = draw(
        st.one_of(
            st.lists(regularities, min_size=n, max_size=n),
            regularities.map(lambda r: [r] * n),
        )
    )
    c["type"] = draw(st.sampled_from(["STREAM_DAY", "CALENDAR_DAY"]))
    c["unit"] = draw(st.sampled_from(["STANDARD_CUBIC_METER_PER_DAY", "MEGA_WATT", "TONS_PER_DAY", "KILO_PER_DAY"]))
    return c


def check_periods(c, new_periods, ctx):
    dates = [dt(d) for d in c["dates"]]
    expected = boundaries(dates[0], dates[-1], c["freq"])
    if c["start"]:
        expected = [dates[0]] + expected
    if c["end"]:
        expected = expected + [dates[-1]]
    got = [p.start for p in new_periods] + [new_periods.periods[-1].end]
    require(got == expected, f"reporting dates {got} expected {expected}")
    for p, q in zip(new_periods.periods, new_periods.periods[1:]):
        require(p.end == q.start, f"reporting periods have a gap or overlap at {p.end}")
    if len(expected) > 2 and expected[1:-1] != dates[1:-1]:
        ctx.nontrivial()


def usable(c) -> bool:
    dates = [dt(d) for d in c["dates"]]
    return len(boundaries(dates[0], dates[-1], c["freq"])) + c["start"] + c["end"] >= 2


def check_rate(c, ctx: Ctx):
    if not usable(c):
        return
    dates = [dt(d) for d in c["dates"]]
    ts = TimeSeriesRate(
        periods=periods_of(dates),
        values=c["values"],
        unit=Unit[c["unit"]],
        rate_type=RateType[c["type"]],
        regularity=c["regularity"],
    )
    cal = [v * r if c["type"] == "STREAM_DAY" else v for v, r in zip(c["values"], c["regularity"])]
    stream = [v if c["type"] == "STREAM_DAY" else v / r for v, r in zip(c["values"], c["regularity"])]
    before = (list(ts.values), list(ts.regularity))
    out = ts.resample(FREQ[c["freq"]], include_start_date=c["start"], include_end_date=c["end"])
    require((list(ts.values), list(ts.regularity)) == before, "resampling changed the series it was given")
    check_periods(c, out.periods, ctx)
    require(out.unit == ts.unit and out.rate_type == ts.rate_type, "resampling changed the unit or the rate type")
    scale = max(map(abs, cal + stream), default=0.0) + 1e-9
    for p, v, reg in zip(out.periods, out.values, out.regularity):
        d = days(p.start, p.end)
        cal_v = integral(dates, cal, p.start, p.end)
        str_v = integral(dates, stream, p.start, p.end)
        tol = 1e-9 * scale
        expected = cal_v / d if c["type"] == "CALENDAR_DAY" else str_v / d
        require_close(v, expected, f"average rate in {p}", rel=1e-6, abs_=tol * 100)
        if str_v > scale * d * 1e-4:
            require_close(reg, cal_v / str_v, f"regularity in {p}", rel=1e-6)
    # volumes, as reported
    vol = out.to_volumes()
    for p, v in zip(vol.periods, vol.values):
        require_close(
            v, integral(dates, cal, p.start, p.end), f"volume in {p}", rel=1e-6, abs_=1e-7 * scale * days(p.start, p.end)
        )
    cum = vol.cumulative()
    require_close(
        cum.values[-1],
        integral(dates, cal, out.periods.first_date, out.periods.last_date),
        "total volume after resampling",
        rel=1e-6,
        abs_=1e-6 * scale,
    )


def check_volume(c, ctx: Ctx):
    """Volumes and cumulative volumes: linear between dates, total kept."""
    if not usable(c):
        return
    dates = [dt(d) for d in c["dates"]]
    rate = c["values"]
    vol = [r * days(a, b) for r, a, b in zip(rate, dates, dates[1:])]
    unit = Unit.STANDARD_CUBIC_METER
    ts = TimeSeriesVolumes(periods=periods_of(dates), values=vol, unit=unit)
    scale = max(map(abs, rate), default=0.0) + 1e-9
    out = ts.resample(FREQ[c["freq"]], include_start_date=c["start"], include_end_date=c["end"])
    check_periods(c, out.periods, ctx)
    for p, v in zip(out.periods, out.values):
        require_close(
            v, integral(dates, rate, p.start, p.end), f"volume in {p}", rel=1e-6, abs_=1e-7 * scale * days(dates[0], dates[-1])
        )
    cum = ts.cumulative()
    running, acc = [], 0.0
    for v in vol:
        acc += v
        running.append(acc)
    require_list_close(cum.values, running, "cumulative", rel=1e-9, abs_=1e-9)
    require_list_close(cum.to_volumes().values, vol, "cumulative -> volumes", rel=1e-6, abs_=1e-7 * scale * 1000)
    cout = cum.resample(FREQ[c["freq"]], include_start_date=c["start"], include_end_date=c["end"])
    require(cout.periods == out.periods, "cumulative and volumes resample to different periods")
    first = cout.periods.first_date
    for p, v in zip(cout.periods, cout.values):
        require_close(
            v, integral(dates, rate, first, p.end), f"cumulative at {p.end}", rel=1e-6, abs_=1e-7 * scale * days(dates[0], dates[-1])
        )
    # rate <-> volume
    back = ts.to_rate(regularity=[1.0] * len(vol))
    require_list_close(back.values, rate, "volume -> rate", rel=1e-9, abs_=1e-12 * scale)
    require_list_close(
        Rates.to_volumes(rate, periods_of(dates)), vol, "rate -> volume", rel=1e-12, abs_=1e-12
    )
    require_list_close(
        Rates.compute_cumulative_volumes_from_daily_rates(rate, periods_of(dates)), running, "rate -> cumulative"
    )


KINDS = {
    "float": (TimeSeriesFloat, Unit.BARA),
    "streamday": (TimeSeriesStreamDayRate, Unit.MEGA_WATT),
    "calendar": (TimeSeriesCalendarDayRate, Unit.KG_SM3),
    "int": (TimeSeriesInt, Unit.NONE),
    "string": (TimeSeriesString, Unit.NONE),
}


@st.composite
def point_case(draw):
    kind = draw(st.sampled_from(sorted(KINDS)))
    value = {
        "int": st.integers(0, 20),
        "string": st.text("abc", min_size=1, max_size=3),
    }.get(kind, nice(-100, 500))
    c = draw(series(value))
    c["kind"] = kind
    return c


def check_point(c, ctx: Ctx):
    """A point value holds until the next observation."""
    if not usable(c):
        return
    cls, unit = KINDS[c["kind"]]
    dates = [dt(d) for d in c["dates"]]
    ts = cls(periods=periods_of(dates), values=c["values"], unit=unit)
    out = ts.resample(FREQ[c["freq"]], include_start_date=c["start"], include_end_date=c["end"])
    check_periods(c, out.periods, ctx)
    for p, v in zip(out.periods, out.values):
        expected = [x for d, x in zip(dates, c["values"]) if d <= p.start][-1]
        require(v == expected, f"value reported for {p}: {v!r}, but {expected!r} is in force (dates {c['dates']})")


def check_bool(c, ctx: Ctx):
    """A reported period is valid only if everything in it was valid."""
    if not usable(c):
        return
    dates = [dt(d) for d in c["dates"]]
    ts = TimeSeriesBoolean(periods=periods_of(dates), values=c["values"], unit=Unit.NONE)
    out = ts.resample(FREQ[c["freq"]], include_start_date=c["start"], include_end_date=c["end"])
    check_periods(c, out.periods, ctx)
    for p, v in zip(out.periods, out.values):
        expected = all(x for a, b, x in zip(dates, dates[1:], c["values"]) if a < p.end and b > p.start)
        require(v is expected or v == expected, f"validity reported for {p}: {v}, expected {expected}")


def check_chain(c, ctx: Ctx):
    """Year directly == month then year; day then month == month (totals are path independent)."""
    dates = [dt(d) for d in c["dates"]]
    ts = TimeSeriesRate(
        periods=periods_of(dates),
        values=c["values"],
        unit=Unit[c["unit"]],
        rate_type=RateType[c["type"]],
        regularity=c["regularity"],
    )
    fine, coarse = (Frequency.MONTH, Frequency.YEAR)
    if days(dates[0], dates[-1]) < 800 and c["freq"] == "D":
        fine, coarse = (Frequency.DAY, Frequency.MONTH)
    one = ts.resample(coarse)
    two = ts.resample(fine).resample(coarse)
    require(one.periods == two.periods, "two-step resampling gives other periods")
    scale = max(c["values"] + [1e-6])
    require_list_close(two.to_volumes().values, one.to_volumes().values, "two-step volumes", rel=1e-6, abs_=1e-6 * scale)
    same = ts.resample(Frequency.NONE)
    require(same.periods == ts.periods and list(same.values) == list(ts.values), "frequency NONE changed the series")
    ctx.nontrivial(len(one.periods) > 1)


SUBCHECKS = [
    Sub("rate", rate_case, check_rate, 1600,
        rule="random rate series with random dates/regularity resampled to Y/M/D; non-trivial: more than one reporting period and reporting dates differ from the input dates"),
    Sub("volume", lambda: series(rates()), check_volume, 1000, rule="as rate, for volumes and cumulative volumes"),
    Sub("point", point_case, check_point, 1200, rule="as rate, for values in force (float/int/string/stream-day)"),
    Sub("validity", lambda: series(st.booleans() | st.just(True)), check_bool, 800, rule="as rate, for booleans"),
    Sub("chain", rate_case, check_chain, 500, rule="two-step resampling; non-trivial: more than one coarse period"),
]

"""Stream-day and calendar-day rates stay consistent through regularity, in every operation on rate series."""
import math

from hypothesis import strategies as st

from harness.core import Ctx, Sub, expect_raises, require, require_close, require_list_close
from harness.gen import date_list, days, dt, iso, nice, periods_of, rates, regularities

from libecalc.common.time_utils import Period, Periods
from libecalc.common.units import Unit
from libecalc.common.utils.rates import (
    RateType,
    Rates,
    TimeSeriesBoolean,
    TimeSeriesFloat,
    TimeSeriesInt,
    TimeSeriesRate,
    TimeSeriesStreamDayRate,
)

reg0 = st.one_of(st.just(0.0), regularities, regularities)


def mk(dates, values, regularity, rate_type, unit="MEGA_WATT"):
    return TimeSeriesRate(
        periods=periods_of(dates), values=values, unit=Unit[unit], rate_type=RateType[rate_type], regularity=regularity
    )


@st.composite
def two_series(draw):
    dates = draw(date_list())
    n = len(dates) - 1
    vs = lambda s: draw(st.lists(s, min_size=n, max_size=n))  # noqa: E731
    return {
        "dates": dates,
        "a": vs(rates()),
        "b": vs(rates()),
        "ra": vs(reg0),
        "rb": draw(st.one_of(st.lists(reg0, min_size=n, max_size=n), st.none())),
        "type": draw(st.sampled_from(["STREAM_DAY", "CALENDAR_DAY"])),
        "i": draw(st.integers(0, n - 1)),
        "j": draw(st.integers(0, n - 1)),
    }


def cal_of(values, reg, rate_type):
    return [v * r if rate_type == "STREAM_DAY" else v for v, r in zip(values, reg)]


def stream_of(values, reg, rate_type):
    return [v if rate_type == "STREAM_DAY" else (v / r if r != 0 else 0.0) for v, r in zip(values, reg)]


def check_convert(c, ctx: Ctx):
    a = mk(c["dates"], c["a"], c["ra"], c["type"])
    cal, stream = a.to_calendar_day(), a.to_stream_day()
    require_list_close(cal.values, cal_of(c["a"], c["ra"], c["type"]), "calendar-day rate")
    require_list_close(stream.values, stream_of(c["a"], c["ra"], c["type"]), "stream-day rate")
    require(cal.rate_type == RateType.CALENDAR_DAY and stream.rate_type == RateType.STREAM_DAY, "rate type label")
    for s in (cal, stream):
        require_list_close(s.regularity, c["ra"], "regularity kept by conversion")
        require(s.periods == a.periods and s.unit == a.unit, "periods/unit kept by conversion")
    back = cal.to_stream_day() if c["type"] == "STREAM_DAY" else stream.to_calendar_day()
    for v, r, w in zip(c["a"], c["ra"], back.values):
        if r > 0:
            require_close(w, v, "there and back", rel=1e-9)
    expected = [v * days(p.start, p.end) for v, p in zip(cal_of(c["a"], c["ra"], c["type"]), a.periods)]
    require_list_close(a.to_volumes().values, expected, "volume comes from the calendar-day rate")
    require_list_close(cal.to_volumes().values, expected, "volume of the calendar-day series")
    if all(r > 0 for r in c["ra"]):
        require_list_close(stream.to_volumes().values, expected, "volume of the stream-day series", rel=1e-9, abs_=1e-9)
    import numpy as np

    require_list_close(
        Rates.to_calendar_day(np.asarray(c["a"], float), c["ra"]), [v * r for v, r in zip(c["a"], c["ra"])], "to_calendar_day"
    )
    require_list_close(
        Rates.to_stream_day(np.asarray(c["a"], float), c["ra"]),
        [v / r if r else 0.0 for v, r in zip(c["a"], c["ra"])],
        "to_stream_day",
    )
    sd = TimeSeriesStreamDayRate(periods=a.periods, values=c["a"], unit=a.unit)
    reg = TimeSeriesFloat(periods=a.periods, values=c["ra"], unit=Unit.NONE)
    made = TimeSeriesRate.from_timeseries_stream_day_rate(sd, reg)
    require_list_close(made.to_calendar_day().values, [v * r for v, r in zip(c["a"], c["ra"])], "stream-day series with regularity")
    require_list_close(a.to_stream_day_timeseries().values, stream.values, "stream-day series")
    ctx.nontrivial(any(0 < r < 1 for r in c["ra"]) and any(v > 0 for v in c["a"]))


def check_add(c, ctx: Ctx):
    rb = c["rb"] if c["rb"] is not None else c["ra"]
    a, b = mk(c["dates"], c["a"], c["ra"], c["type"]), mk(c["dates"], c["b"], rb, c["type"])
    s = a + b
    require_list_close(s.values, [x + y for x, y in zip(c["a"], c["b"])], "sum of rates")
    require(s.unit == a.unit and s.rate_type == a.rate_type and s.periods == a.periods, "sum keeps unit, type, periods")
    ca, cb = cal_of(c["a"], c["ra"], c["type"]), cal_of(c["b"], rb, c["type"])
    sa, sb = stream_of(c["a"], c["ra"], c["type"]), stream_of(c["b"], rb, c["type"])
    for i, (x, y) in enumerate(zip(s.to_calendar_day().values, (p + q for p, q in zip(ca, cb)))):
        require_close(x, y, f"calendar-day rate of the sum [{i}]", rel=1e-9)
    for i in range(len(ca)):
        if sa[i] + sb[i] > 0 and ca[i] + cb[i] > 0 and (c["type"] == "STREAM_DAY" or (c["ra"][i] > 0 and rb[i] > 0)):
            require_close(s.to_stream_day().values[i], sa[i] + sb[i], "stream-day rate of the sum", rel=1e-9)
    require_list_close((b + a).values, s.values, "addition commutes")
    other = mk(c["dates"], c["b"], rb, "CALENDAR_DAY" if c["type"] == "STREAM_DAY" else "STREAM_DAY")
    expect_raises(ValueError, lambda: a + other, "adding stream-day to calendar-day rates")
    other = mk(c["dates"], c["b"], rb, c["type"], unit="TONS_PER_DAY")
    expect_raises(ValueError, lambda: a + other, "adding rates of different units")
    x = TimeSeriesStreamDayRate(periods=a.periods, values=c["a"], unit=a.unit)
    y = TimeSeriesStreamDayRate(periods=a.periods, values=c["b"], unit=a.unit)
    require_list_close((x + y).values, [p + q for p, q in zip(c["a"], c["b"])], "sum of stream-day series")
    bx = TimeSeriesBoolean(periods=a.periods, values=[v > 5 for v in c["a"]], unit=Unit.NONE)
    by = TimeSeriesBoolean(periods=a.periods, values=[v > 5 for v in c["b"]], unit=Unit.NONE)
    require((bx * by).values == [p > 5 and q > 5 for p, q in zip(c["a"], c["b"])], "product of booleans is AND")
    ctx.nontrivial(c["rb"] is not None and c["rb"] != c["ra"])


def check_slice(c, ctx: Ctx):
    """Cutting and joining keep each value and regularity on its own period."""
    lo, hi = min(c["i"], c["j"]), max(c["i"], c["j"]) + 1
    dates = [dt(d) for d in c["dates"]]
    n = len(dates) - 1
    a = mk(c["dates"], c["a"], c["ra"], c["type"])
    rows = list(zip(periods_of(dates).periods, c["a"], c["ra"]))

    def same(ts, expected, what):
        got = list(zip(ts.periods.periods, ts.values, ts.regularity))
        require(got == expected, f"{what}: {got} expected {expected}")
        require(ts.unit == a.unit and ts.rate_type == a.rate_type, f"{what}: unit/type")

    same(a[lo:hi], rows[lo:hi], "slice")
    same(a[c["i"]], [rows[c["i"]]], "index")
    same(a[[c["i"], c["j"]]], [rows[c["i"]], rows[c["j"]]], "index list")
    same(a.for_period(Period(dates[lo], dates[hi])), rows[lo:hi], "for_period")
    require([(p, v) for p, v in a.datapoints()] == [r[:2] for r in rows], "datapoints")
    f = TimeSeriesFloat(periods=a.periods, values=c["a"], unit=Unit.BARA)
    g = f.for_period(Period(dates[lo], dates[hi]))
    require(list(zip(g.periods.periods, g.values)) == [r[:2] for r in rows[lo:hi]], "for_period (float)")
    g = f.for_periods(Periods(a.periods.periods[lo:hi]))
    require(list(zip(g.periods.periods, g.values)) == [r[:2] for r in rows[lo:hi]], "for_periods (float)")
    if 0 < lo < n:
        left, right = a[0:lo], a[lo:n]
        same(left.extend(right), rows, "extend")
        same(left.merge(right), rows, "merge")
        same(right.merge(left), rows, "merge, other order")
        fl, fr = f[0:lo], f[lo:n]
        for joined, what in ((fl.extend(fr), "extend"), (fr.extend(fl), "extend, other order"), (fl.merge(fr), "merge"), (fr.merge(fl), "merge, other order")):
            require(list(zip(joined.periods.periods, joined.values)) == [r[:2] for r in rows], f"{what} (float)")
        ctx.nontrivial(n > 2)
        if lo + 1 < n:
            expect_raises(ValueError, lambda: left.merge(a[lo + 1 : n]), "merging across a gap")
            expect_raises(ValueError, lambda: fl.extend(f[lo + 1 : n]), "extending across a gap")
            expect_raises(ValueError, lambda: a[0 : lo + 1].merge(right), "merging overlapping series")
    # fill to a larger set of periods
    filled = f[lo:hi].fill_values_for_new_periods(a.periods, fillna=-7.0)
    require(
        filled.values == [c["a"][k] if lo <= k < hi else -7.0 for k in range(n)] and filled.periods == a.periods,
        f"fill_values_for_new_periods: {filled.values}",
    )
    ints = TimeSeriesInt(periods=a.periods, values=[int(v) for v in c["a"]], unit=Unit.NONE)
    require(ints[lo:hi].fill_values_for_new_periods(a.periods, fillna=-1).values
            == [int(c["a"][k]) if lo <= k < hi else -1 for k in range(n)], "fill (int)")


@st.composite
def model_case(draw):
    n = draw(st.integers(1, 4))
    return {
        "dates": [f"{2020 + i}-01-01" for i in range(n + 1)],
        "reg": draw(st.lists(st.one_of(st.just(0), st.just(1), nice(0, 1, 2)), min_size=n, max_size=n)),
        "form": draw(st.sampled_from(["constant", "string", "temporal", "series"])),
        "load": draw(nice(0, 20, 2)),
        "fuel": draw(nice(0, 1000, 1)),
        "load_type": draw(st.sampled_from(["STREAM_DAY", "CALENDAR_DAY", None])),
        "fuel_type": draw(st.sampled_from(["STREAM_DAY", "CALENDAR_DAY", None])),
        "hc": draw(nice(0, 1000, 1)),
    }


def check_model(c, ctx: Ctx):
    """REGULARITY in a model scales what is reported per calendar day, and nothing else."""
    from harness.e2e import Run, csv_text

    n = len(c["reg"])
    reg = c["reg"] if c["form"] in ("temporal", "series") else [c["reg"][0]] * n
    reg_yaml = {
        "constant": lambda: c["reg"][0],
        "string": lambda: str(c["reg"][0]),
        "temporal": lambda: dict(zip(c["dates"], c["reg"])),
        "series": lambda: "SIM;REG",
    }[c["form"]]()
    direct_load = {"TYPE": "DIRECT", "LOAD": c["load"]}
    direct_fuel = {"TYPE": "DIRECT", "FUELRATE": c["fuel"]}
    if c["load_type"]:
        direct_load["CONSUMPTION_RATE_TYPE"] = c["load_type"]
    if c["fuel_type"]:
        direct_fuel["CONSUMPTION_RATE_TYPE"] = c["fuel_type"]
    model = {
        "START": c["dates"][0],
        "END": c["dates"][-1],
        "TIME_SERIES": [{"NAME": "SIM", "FILE": "sim.csv", "TYPE": "DEFAULT"}],
        "FACILITY_INPUTS": [{"NAME": "genset", "FILE": "genset.csv", "TYPE": "ELECTRICITY2FUEL"}],
        "FUEL_TYPES": [{"NAME": "fuel", "EMISSIONS": [{"NAME": "CO2", "FACTOR": 2.0}]}],
        "INSTALLATIONS": [
            {
                "NAME": "A",
                "HCEXPORT": c["hc"],
                "FUEL": "fuel",
                "REGULARITY": reg_yaml,
                "GENERATORSETS": [
                    {
                        "NAME": "G",
                        "ELECTRICITY2FUEL": "genset",
                        "CATEGORY": "TURBINE-GENERATOR",
                        "CONSUMERS": [{"NAME": "load", "CATEGORY": "BASE-LOAD", "ENERGY_USAGE_MODEL": direct_load}],
                    }
                ],
                "FUELCONSUMERS": [{"NAME": "flare", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": direct_fuel}],
            }
        ],
    }
    resources = {
        "sim.csv": csv_text({"DATE": c["dates"][:-1], "REG": c["reg"]}),
        "genset.csv": "POWER,FUEL\n0,0\n1000,100000\n",
    }
    run = Run(model, resources)
    stream_load = [(c["load"] / r if r else 0.0) if c["load_type"] == "CALENDAR_DAY" else c["load"] for r in reg]
    stream_fuel = [(c["fuel"] / r if r else 0.0) if c["fuel_type"] == "CALENDAR_DAY" else c["fuel"] for r in reg]
    load, gen, flare, inst = (run.by_name[k] for k in ("load", "G", "flare", "A"))
    require_list_close(inst.regularity.values, reg, "reported regularity")
    require_list_close(load.power.to_stream_day().values, stream_load, "stream-day power")
    require_list_close(load.power.to_calendar_day().values, [v * r for v, r in zip(stream_load, reg)], "calendar-day power")
    require_list_close(gen.power.to_stream_day().values, stream_load, "genset power")
    require_list_close(gen.energy_usage.to_calendar_day().values, [100 * v * r for v, r in zip(stream_load, reg)], "genset fuel")
    require_list_close(flare.energy_usage.to_calendar_day().values, [v * r for v, r in zip(stream_fuel, reg)], "flare fuel")
    total = [(100 * p + f) * r for p, f, r in zip(stream_load, stream_fuel, reg)]
    require_list_close(inst.energy_usage.to_calendar_day().values, total, "installation fuel")
    require_list_close(run.asset.energy_usage.to_calendar_day().values, total, "asset fuel")
    require_list_close(
        next(iter(run.asset.emissions.values())).rate.to_calendar_day().values, [2.0 * v / 1000 for v in total], "asset emissions"
    )
    require_list_close(
        run.asset.hydrocarbon_export_rate.to_calendar_day().values, [c["hc"]] * n, "hydrocarbon export is a calendar-day rate"
    )
    ds = [dt(d) for d in c["dates"]]
    acc, cum = 0.0, []
    for v, a, b in zip(total, ds, ds[1:]):
        acc += v * days(a, b)
        cum.append(acc)
    require_list_close(run.asset.energy_usage_cumulative.values, cum, "cumulative fuel", rel=1e-9)
    ctx.nontrivial(any(0 < r < 1 for r in reg) and c["load"] + c["fuel"] > 0)
    ctx.label(c["form"])


BAD_REG = st.one_of(nice(1.001, 5), nice(-5, -0.001), st.just(100))


def check_bad_regularity(c, ctx: Ctx):
    from libecalc.common.variables import VariablesMap
    from libecalc.domain.regularity import InvalidRegularity, Regularity

    periods = periods_of(c["dates"])
    vm = VariablesMap(periods=periods, variables={"S;R": c["values"]})
    ok = all(0 <= v <= 1 for v in c["values"])
    make = lambda: Regularity(expression_evaluator=vm, target_period=periods.period, expression_input="S;R")  # noqa: E731
    if ok:
        require_list_close(make().values, c["values"], "regularity values")
    else:
        expect_raises(InvalidRegularity, make, "regularity outside 0..1")
        ctx.nontrivial()


@st.composite
def bad_case(draw):
    dates = draw(date_list(max_size=5))
    n = len(dates) - 1
    return {"dates": dates, "values": draw(st.lists(st.one_of(nice(0, 1), nice(0, 1), BAD_REG), min_size=n, max_size=n))}


SUBCHECKS = [
    Sub("convert", two_series, check_convert, 1200, rule="random rates/regularities (0..1); non-trivial: some regularity strictly between 0 and 1 and some rate > 0"),
    Sub("add", two_series, check_add, 1000, rule="two series; non-trivial: different regularities"),
    Sub("slice", two_series, check_slice, 800, rule="cut/join at random positions; non-trivial: a join inside a series of more than 2 periods"),
    Sub("model", model_case, check_model, 400, rule="whole models with REGULARITY as constant/string/temporal/series; non-trivial: regularity strictly between 0 and 1 and some consumption"),
    Sub("bounds", bad_case, check_bad_regularity, 300, rule="regularity values in and out of 0..1; non-trivial: some value out of range"),
]

"""Dated settings: each time step uses the definition whose date is the latest not after it, and only that one."""
from datetime import datetime, timedelta

from hypothesis import strategies as st

from harness.core import Ctx, Sub, expect_raises, require, require_list_close
from harness.e2e import Run, make_model
from harness.gen import BASE, date_list, dt, iso, nice, periods_of

from libecalc.common.temporal_model import InvalidTemporalModel, TemporalModel
from libecalc.common.time_utils import Period, Periods, define_time_model_for_period
from libecalc.common.variables import VariablesMap
from libecalc.expression import Expression

DAY = timedelta(days=1)
day = st.integers(0, 60)


# ---------------------------------------------------------------- periods as sets of days
@st.composite
def period_case(draw):
    a, b = sorted(draw(st.lists(day, min_size=2, max_size=2, unique=True)))
    c, d = sorted(draw(st.lists(day, min_size=2, max_size=2, unique=True)))
    return [a, b, c, d]


def check_periods(c, ctx: Ctx):
    a, b, x, y = (BASE + i * DAY for i in c)
    p, q = Period(a, b), Period(x, y)
    dp, dq = set(range(c[0], c[1])), set(range(c[2], c[3]))
    require(Period.intersects(p, q) == bool(dp & dq) == Period.intersects(q, p), f"intersects {p} {q}")
    inter = Period.intersection(p, q)
    if dp & dq:
        require((inter.start, inter.end) == (BASE + min(dp & dq) * DAY, BASE + (max(dp & dq) + 1) * DAY), f"intersection {inter}")
    else:
        require(inter is None, f"intersection of disjoint periods {inter}")
    require((q in p) == (dq <= dp), f"{q} in {p}")
    for i in range(-1, 62):
        require(((BASE + i * DAY) in p) == (i in dp), f"day {i} in {p}")
    require(p.duration == (c[1] - c[0]) * DAY, "duration")
    ctx.nontrivial(bool(dp & dq) and dp != dq)


# ---------------------------------------------------------------- temporal models
@st.composite
def temporal_case(draw):
    keys = sorted(draw(st.lists(day, min_size=1, max_size=5, unique=True)))
    s, e = sorted(draw(st.lists(day, min_size=2, max_size=2, unique=True)))
    steps = draw(st.lists(day, max_size=6))
    return {"keys": keys, "start": s, "end": e, "steps": steps}


def check_temporal(c, ctx: Ctx):
    at = lambda i: BASE + i * DAY  # noqa: E731
    data = {at(k): f"m{k}" for k in c["keys"]}
    target = Period(at(c["start"]), at(c["end"]))

    def expected(i):
        started = [k for k in c["keys"] if k <= i]
        return f"m{started[-1]}" if started else None

    tm = TemporalModel.create(data, target)
    got = {}
    for period, model in tm.items():
        require(period in target or period == target, f"period {period} outside {target}")
        i = (period.start - BASE).days
        for j in range(i, (period.end - BASE).days):
            require(j not in got, f"day {j} has two models")
            got[j] = model
    want = {j: expected(j) for j in range(c["start"], c["end"]) if expected(j)}
    require(got == want, f"models by day {got} expected {want}")
    for j in range(c["start"], c["end"]):
        if expected(j):
            require(tm.get_model(at(j)) == expected(j), f"get_model({j})")
            require(tm.get_model(Period(at(j), at(j + 1))) == expected(j), f"get_model(period {j})")
        else:
            expect_raises(ValueError, lambda: tm.get_model(at(j)), "no model yet")
    if want:
        p = tm.get_period()
        require((p.start, p.end) == (at(min(want)), at(max(want) + 1)), "get_period spans the models")
    single = define_time_model_for_period("x", target)
    require(single == {target: "x"}, "a constant setting holds for the whole period")
    if len(c["keys"]) > 1:
        shuffled = {at(k): f"m{k}" for k in reversed(c["keys"])}
        expect_raises(InvalidTemporalModel, lambda: TemporalModel(shuffled), "dates out of order")
    # evaluation of a dated expression on a time vector holding all the dates
    dates = sorted({c["start"], c["end"], *(k for k in c["keys"] if c["start"] < k < c["end"]), *(s for s in c["steps"] if c["start"] < s < c["end"])})
    periods = periods_of([at(d) for d in dates])
    n = len(dates) - 1
    series = [float(10 * (i + 1)) for i in range(n)]
    vm = VariablesMap(periods=periods, variables={"S;A": series})
    exprs = TemporalModel.create({at(k): Expression.setup_from_expression(f"{k} {{+}} S;A") for k in c["keys"]}, target)
    values = vm.evaluate(exprs)
    require_list_close(
        values,
        [int(expected(d)[1:]) + s if expected(d) else 0.0 for d, s in zip(dates, series)],
        "dated expression",
    )
    for i in range(n):
        for j in range(i + 1, n + 1):
            sub = vm.get_subset_for_period(Period(at(dates[i]), at(dates[j])))
            require(sub.variables["S;A"] == series[i:j] and list(sub.get_periods()) == list(periods)[i:j], f"subset {i}:{j}")
    outside = vm.get_subset_for_period(Period(at(c["start"] - 40), at(c["end"] + 40)))
    require(outside.variables["S;A"] == series, "subset for a period reaching outside")
    ctx.nontrivial(len({v for v in want.values()}) > 1)


# ---------------------------------------------------------------- whole models
@st.composite
def model_case(draw):
    dates = draw(date_list(min_size=2, max_size=5, max_gap=300))
    start, end = dt(dates[0]), dt(dates[-1])
    span = (end - start).days
    offset = st.one_of(st.integers(-200, span + 200), st.just(0), st.integers(0, span))

    def dated(values, from_start=False):
        k = draw(st.integers(1, 3))
        offs = sorted(set(draw(st.lists(offset, min_size=k, max_size=k))) | ({-1} if from_start else set()))
        return [[o, draw(values)] for o in offs]

    return {
        "dates": dates,
        "hc": dated(nice(0, 100, 1)),
        "reg": dated(nice(0.1, 1, 2), True),
        "fuel": dated(st.sampled_from(["f1", "f2", "f3"]), True),
        "flare": dated(nice(0, 100, 1)),
        "load": dated(nice(0, 9, 1)),
        "e2f": dated(st.sampled_from(["g1", "g2"]), draw(st.booleans())),
        "use": draw(st.lists(st.sampled_from(["hc", "reg", "fuel", "flare", "load", "e2f"]), min_size=1, unique=True)),
    }


FACTORS = {"f1": 1.0, "f2": 2.5, "f3": 4.0}
SLOPES = {"g1": 10.0, "g2": 35.0}


def check_model(c, ctx: Ctx):
    start = dt(c["dates"][0])
    end = dt(c["dates"][-1])

    def yaml_of(key, default, wrap=lambda v: v):
        if key not in c["use"]:
            return wrap(default)
        return {iso(start + o * DAY): wrap(v) for o, v in c[key]}

    def value(key, t, default, missing):
        if key not in c["use"]:
            return default
        started = [v for o, v in c[key] if start + o * DAY <= t]
        return started[-1] if started else missing

    model = {
        "START": iso(start),
        "END": iso(end),
        "TIME_SERIES": [{"NAME": "S", "FILE": "s.csv", "TYPE": "DEFAULT"}],
        "FACILITY_INPUTS": [{"NAME": g, "FILE": f"{g}.csv", "TYPE": "ELECTRICITY2FUEL"} for g in SLOPES],
        "FUEL_TYPES": [{"NAME": f, "EMISSIONS": [{"NAME": "CO2", "FACTOR": x}]} for f, x in FACTORS.items()],
        "INSTALLATIONS": [
            {
                "NAME": "A",
                "HCEXPORT": yaml_of("hc", 7.0),
                "REGULARITY": yaml_of("reg", 1.0),
                "FUEL": yaml_of("fuel", "f2"),
                "GENERATORSETS": [
                    {
                        "NAME": "G",
                        "CATEGORY": "TURBINE-GENERATOR",
                        "ELECTRICITY2FUEL": yaml_of("e2f", "g2"),
                        "CONSUMERS": [
                            {
                                "NAME": "load",
                                "CATEGORY": "BASE-LOAD",
                                "ENERGY_USAGE_MODEL": yaml_of("load", 3.0, lambda v: {"TYPE": "DIRECT", "LOAD": v}),
                            },
                            {"NAME": "always", "CATEGORY": "MISCELLANEOUS", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "LOAD": 0.5}},
                        ],
                    }
                ],
                "FUELCONSUMERS": [
                    {
                        "NAME": "flare",
                        "CATEGORY": "FLARE",
                        "ENERGY_USAGE_MODEL": yaml_of("flare", 12.0, lambda v: {"TYPE": "DIRECT", "FUELRATE": v}),
                    },
                    {"NAME": "other", "CATEGORY": "MISCELLANEOUS", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": 1}},
                ],
            }
        ],
    }
    resources = {
        "s.csv": "DATE,X\n" + "\n".join(f"{d[:10]},1" for d in c["dates"][:-1]) + "\n",
        **{f"{g}.csv": f"POWER,FUEL\n0,0\n100,{100 * s}\n" for g, s in SLOPES.items()},
    }
    if "e2f" in c["use"] and all(start + o * DAY >= end for o, _ in c["e2f"]):
        from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

        expect_raises(ModelValidationException, lambda: Run(model, resources), "generator set only defined after END")
        return
    run = Run(model, resources)
    steps = sorted(
        {dt(d) for d in c["dates"]}
        | {start + o * DAY for k in c["use"] for o, _ in c[k] if start < start + o * DAY < end}
    )
    periods = list(zip(steps, steps[1:]))
    require([(p.start, p.end) for p in run.asset.periods] == periods, f"time steps {run.asset.periods}")
    reg = [value("reg", t, 1.0, 1.0) for t, _ in periods]
    hc = [value("hc", t, 7.0, 0.0) for t, _ in periods]
    flare = [value("flare", t, 12.0, 0.0) for t, _ in periods]
    load = [value("load", t, 3.0, 0.0) for t, _ in periods]
    e2f = [SLOPES.get(value("e2f", t, "g2", None), 0.0) for t, _ in periods]
    factor = [FACTORS[value("fuel", t, "f2", None)] for t, _ in periods]

    def series(name, attr="energy_usage"):
        comp = run.by_name.get(name)
        if comp is None:  # no definition at all inside the model period
            return [0.0] * len(periods)
        ts = getattr(comp, attr).to_stream_day()
        require([(p.start, p.end) for p in ts.periods] == periods, f"periods of {name}")
        return ts.values

    if "flare" in c["use"] and all(start + o * DAY >= end for o, _ in c["flare"]):
        require("flare" not in run.by_name, "a consumer that only exists after END is left out")
    require_list_close(run.by_name["A"].regularity.values, reg, "regularity")
    require_list_close(run.by_name["A"].hydrocarbon_export_rate.to_calendar_day().values, hc, "hydrocarbon export")
    require_list_close(series("flare"), flare, "flare fuel rate")
    require_list_close(series("load", "power") if "load" in run.by_name else load, load, "load")
    fuel_gen = [s * (l + 0.5) for s, l in zip(e2f, load)]
    require_list_close(series("G"), fuel_gen, "generator set fuel")
    total = [(g + f + 1.0) * r for g, f, r in zip(fuel_gen, flare, reg)]
    require_list_close(run.asset.energy_usage.to_calendar_day().values, total, "asset fuel")
    co2 = [t * f / 1000 for t, f in zip(total, factor)]
    got = next(iter(run.asset.emissions.values())).rate.to_calendar_day().values
    require_list_close(got, co2, "asset emissions follow the fuel in use")
    switches = sum(len([o for o, _ in c[k] if 0 < o < (end - start).days]) for k in c["use"])
    ctx.nontrivial(switches >= 1)
    ctx.label(*c["use"])


def check_unsorted(c, ctx: Ctx):
    """Dates out of order are refused (never silently mis-applied)."""
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    where, values = c["where"], c["days"]
    def dated(v):
        return {iso(BASE + d * DAY): v for d in values}

    inst = {
        "NAME": "A", "HCEXPORT": 1, "REGULARITY": 1, "FUEL": "f",
        "FUELCONSUMERS": [{"NAME": "c", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": 1}}],
        "GENERATORSETS": [{"NAME": "G", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "g",
                           "CONSUMERS": [{"NAME": "l", "CATEGORY": "BASE-LOAD", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "LOAD": 1}}]}],
    }
    target = {"HCEXPORT": inst, "REGULARITY": inst, "FUEL": inst, "ELECTRICITY2FUEL": inst["GENERATORSETS"][0],
              "FUELRATE": inst["FUELCONSUMERS"][0], "LOAD": inst["GENERATORSETS"][0]["CONSUMERS"][0], "CATEGORY": inst["FUELCONSUMERS"][0]}[where]
    key = "ENERGY_USAGE_MODEL" if where in ("FUELRATE", "LOAD") else where
    target[key] = dated(target[key])
    model = {"START": iso(BASE), "END": iso(BASE + 61 * DAY),
             "FACILITY_INPUTS": [{"NAME": "g", "FILE": "g.csv", "TYPE": "ELECTRICITY2FUEL"}],
             "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "CO2", "FACTOR": 1}]}], "INSTALLATIONS": [inst]}
    res = {"g.csv": "POWER,FUEL\n0,0\n10,100\n"}
    if values == sorted(values):
        if where == "FUEL" and values[0] > 0:
            return
        Run(model, res)
        return
    expect_raises(ModelValidationException, lambda: Run(model, res), f"dates out of order in {where}")
    ctx.nontrivial()


@st.composite
def unsorted_case(draw):
    return {"where": draw(st.sampled_from(["HCEXPORT", "REGULARITY", "FUEL", "ELECTRICITY2FUEL", "FUELRATE", "LOAD", "CATEGORY"])),
            "days": draw(st.lists(st.integers(0, 60), min_size=1, max_size=3, unique=True))}


SUBCHECKS = [
    Sub("periods", period_case, check_periods, 1200, rule="two periods compared with sets of days; non-trivial: overlapping and different"),
    Sub("temporal", temporal_case, check_temporal, 600, rule="1-5 dated definitions against a target period and a time vector; non-trivial: more than one definition in use"),
    Sub("model", model_case, check_model, 500, rule="whole models with HCEXPORT, REGULARITY, FUEL, ENERGY_USAGE_MODEL, ELECTRICITY2FUEL dated; non-trivial: a switch strictly inside the model period"),
    Sub("unsorted", unsorted_case, check_unsorted, 150, rule="dates in any order; non-trivial: out of order"),
]

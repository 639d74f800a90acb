"""Time series files: every time step of the model sees the documented value of every column."""
from datetime import datetime, timedelta

from hypothesis import strategies as st

from harness.core import Ctx, Sub, expect_raises, require, require_close, require_list_close
from harness.e2e import Run, csv_text, make_model
from harness.gen import BASE, date_list, dt, iso, nice, rates

DAY = timedelta(days=1)


@st.composite
def case(draw):
    k = draw(st.integers(1, 3))
    series = []
    for i in range(k):
        dates = draw(date_list(min_size=1, max_size=6, max_gap=700))
        typ = draw(st.sampled_from(["DEFAULT", "MISCELLANEOUS", "MISCELLANEOUS"]))
        n = len(dates)
        series.append(
            {
                "dates": dates,
                "order": draw(st.permutations(range(n))),
                "cols": [draw(st.lists(rates(1000), min_size=n, max_size=n)) for _ in range(draw(st.integers(1, 2)))],
                "type": typ,
                "interp": draw(st.sampled_from(["LEFT", "RIGHT", "LINEAR"])) if typ == "MISCELLANEOUS" else None,
                "extrap": draw(st.sampled_from([True, False, None])) if typ == "MISCELLANEOUS" else None,
                "influence": draw(st.sampled_from([True, True, False, None])),
                "format": draw(st.sampled_from(["iso", "eu", "eu.", "eu/", "isodt", "isoT", "eudt", "year"])),
                "header": draw(st.sampled_from(["DATE", "DATES", "time"])),
                "date_pos": draw(st.integers(0, 2)),
            }
        )
        if series[-1]["format"] == "year":
            first = 2018 + draw(st.integers(0, 3))
            gaps = draw(st.lists(st.integers(1, 2), min_size=n, max_size=n))
            series[-1]["dates"] = [iso(datetime(first + sum(gaps[:j]), 1, 1)) for j in range(n)]
    anchor = draw(st.sampled_from([d for s in series for d in s["dates"]]))
    start = draw(st.one_of(st.none(), st.just(anchor), st.integers(-400, 800).map(lambda x: iso(BASE + x * DAY))))
    return {
        "series": series,
        "start": start,
        "end_days": draw(st.integers(1, 4000)),
        "temporal": draw(st.lists(st.integers(-400, 3000), max_size=2, unique=True)),
    }


def fmt(d: datetime, f: str) -> str:
    if f == "iso":
        return d.strftime("%Y-%m-%d")
    if f == "isodt":
        return d.strftime("%Y-%m-%d %H:%M:%S")
    if f == "isoT":
        return d.strftime("%Y-%m-%dT%H:%M:%S")
    if f == "eu":
        return d.strftime("%d-%m-%Y")
    if f == "eu.":
        return d.strftime("%d.%m.%Y")
    if f == "eu/":
        return f"{d.day}/{d.month}/{d.year}"
    if f == "eudt":
        return d.strftime("%d.%m.%Y %H:%M:%S")
    return str(d.year)


def csv_of(s):
    rows = s["order"]
    dates = [fmt(dt(s["dates"][i]), s["format"]) for i in rows]
    cols = [(f"C{j}", [c[i] for i in rows]) for j, c in enumerate(s["cols"])]
    pos = 0 if s["header"] == "time" else min(s["date_pos"], len(cols))
    cols.insert(pos, (s["header"], dates))
    return csv_text(dict(cols))


def value_at(s, j, t: datetime) -> float:
    """Reference: value of column j at time t."""
    pts = sorted((dt(d), v) for d, v in zip(s["dates"], s["cols"][j]))
    if t < pts[0][0]:
        return 0.0
    if t > pts[-1][0]:
        return pts[-1][1] if s["extrap"] else 0.0
    for d, v in pts:
        if d == t:
            return v
    (d0, v0), (d1, v1) = next((a, b) for a, b in zip(pts, pts[1:]) if a[0] < t < b[0])
    kind = s["interp"] or "RIGHT"
    if kind == "RIGHT":
        return v0
    if kind == "LEFT":
        return v1
    w = (t - d0).total_seconds() / (d1 - d0).total_seconds()
    return v0 + w * (v1 - v0)


def build(c):
    influencing = sorted({dt(d) for s in c["series"] if s["influence"] is not False for d in s["dates"]})
    start = dt(c["start"]) if c["start"] else (influencing[0] if influencing else None)
    ref = start or BASE
    end = ref + c["end_days"] * DAY
    temporal = sorted({BASE + x * DAY for x in c["temporal"]})
    collections = []
    for i, s in enumerate(c["series"]):
        e = {"NAME": f"S{i}", "FILE": f"s{i}.csv", "TYPE": s["type"]}
        if s["interp"]:
            e["INTERPOLATION_TYPE"] = s["interp"]
        if s["extrap"] is not None:
            e["EXTRAPOLATION"] = s["extrap"]
        if s["influence"] is not None:
            e["INFLUENCE_TIME_VECTOR"] = s["influence"]
        collections.append(e)
    consumers = [
        {"NAME": f"c{i}_{j}", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": f"S{i};C{j}"}}
        for i, s in enumerate(c["series"])
        for j in range(len(s["cols"]))
    ]
    model = {
        "END": iso(end),
        "TIME_SERIES": collections,
        "FUEL_TYPES": [{"NAME": "fuel", "EMISSIONS": [{"NAME": "CO2", "FACTOR": 2.0}]}],
        "INSTALLATIONS": [{"NAME": "A", "HCEXPORT": 0, "FUEL": "fuel", "FUELCONSUMERS": consumers}],
    }
    if temporal:
        model["VARIABLES"] = {"unused": {iso(d): {"VALUE": 1} for d in temporal}}
    if c["start"]:
        model["START"] = c["start"]
    return model, {f"s{i}.csv": csv_of(s) for i, s in enumerate(c["series"])}, influencing, start, end, temporal


def check(c, ctx: Ctx):
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    model, resources, influencing, start, end, temporal = build(c)
    if start is None:
        expect_raises(
            ModelValidationException,
            lambda: make_model(model, resources).validate_for_run(),
            "no START and no time series that influences the time vector",
        )
        ctx.label("no start")
        return
    run = Run(model, resources)
    vector = sorted({t for t in (*influencing, *temporal, start, end) if start <= t <= end})
    periods = [(p.start, p.end) for p in run.asset.periods]
    require(
        periods == list(zip(vector, vector[1:])),
        f"time steps of the model: got {[str(p[0].date()) for p in periods]}, expected {[str(t) for t in vector]}",
    )
    interpolated = False
    for i, s in enumerate(c["series"]):
        for j in range(len(s["cols"])):
            got = run.by_name[f"c{i}_{j}"].energy_usage.values
            want = [value_at(s, j, t) for t in vector[:-1]]
            require_list_close(got, want, f"column C{j} of series {i} ({s['interp']}, {s['extrap']})", 1e-9, 1e-9)
        ds = [dt(d) for d in s["dates"]]
        interpolated |= any(min(ds) < t < max(ds) and t not in ds for t in vector[:-1])
    ctx.nontrivial(interpolated)
    ctx.label(*(s["interp"] or "DEFAULT" for s in c["series"]))


@st.composite
def bad_end(draw):
    return {"start": draw(date_list(min_size=1, max_size=1))[0], "back": draw(st.integers(0, 900)), "with_start": draw(st.booleans())}


def check_bad_end(c, ctx: Ctx):
    """An END that is not after the start is refused."""
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    start = dt(c["start"])
    model = {
        "END": iso(start - c["back"] * DAY),
        "TIME_SERIES": [{"NAME": "S", "FILE": "s.csv", "TYPE": "DEFAULT"}],
        "FUEL_TYPES": [{"NAME": "fuel", "EMISSIONS": [{"NAME": "CO2", "FACTOR": 2.0}]}],
        "INSTALLATIONS": [
            {
                "NAME": "A",
                "HCEXPORT": 0,
                "FUEL": "fuel",
                "FUELCONSUMERS": [
                    {"NAME": "c", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": "S;C"}}
                ],
            }
        ],
    }
    if c["with_start"]:
        model["START"] = c["start"]
    res = {"s.csv": csv_text({"DATE": [c["start"][:10]], "C": [1]})}
    expect_raises(ModelValidationException, lambda: make_model(model, res).validate_for_run(), "END not after the start")
    ctx.nontrivial()


@st.composite
def bad_file(draw):
    n = draw(st.integers(2, 5))
    dates = draw(date_list(min_size=n, max_size=n))
    return {
        "dates": dates,
        "values": draw(st.lists(rates(), min_size=n, max_size=n)),
        "fault": draw(st.sampled_from(["duplicate", "mixed", "us", "text", "short-row", "empty", "bad-header", "ampm", "no-columns", "nonsense"])),
        "at": draw(st.integers(0, n - 1)),
    }


def check_bad_file(c, ctx: Ctx):
    """A file that cannot be read unambiguously is refused, never guessed at."""
    from libecalc.common.errors.exceptions import InvalidResourceException
    from libecalc.presentation.yaml.domain.time_series_resource import TimeSeriesResource
    from libecalc.presentation.yaml.yaml_entities import MemoryResource

    ds = [dt(d) for d in c["dates"]]
    iso_dates = [fmt(d, "iso") for d in ds]
    values = [str(v) for v in c["values"]]
    header = "DATE,A"
    at, f = c["at"], c["fault"]
    if f == "duplicate":
        iso_dates[at] = iso_dates[at - 1]
    elif f == "mixed":
        iso_dates[at] = fmt(ds[at], "eu")
    elif f == "us":
        iso_dates = [fmt(d, "eu") for d in ds]
        iso_dates[at] = f"12-{13 + at}-2020"
    elif f == "text":
        values[at] = "abc"
    elif f == "short-row":
        values[at] = values[at] + ",7"
        iso_dates[at] = iso_dates[at] + ",3"
    elif f == "empty":
        iso_dates, values = [], []
    elif f == "bad-header":
        header = "DATE,1A"
    elif f == "ampm":
        iso_dates[at] = iso_dates[at] + " 10:00:00 AM"
    elif f == "no-columns":
        header, values = "DATE", None
    elif f == "nonsense":
        iso_dates[at] = "2020-13-45"
    rows = iso_dates if values is None else [f"{d},{v}" for d, v in zip(iso_dates, values)]
    text = "\n".join([header, *rows]) + "\n"
    expect_raises(
        InvalidResourceException,
        lambda: TimeSeriesResource(MemoryResource.from_string(text, allow_nans=True)).validate().get_time_vector(),
        f"file with fault {f}: {text!r}",
    )
    # the same file without the fault is read back exactly
    good = "\n".join(["DATE,A", *[f"{fmt(d, 'iso')},{v}" for d, v in zip(ds, c["values"])]]) + "\n"
    r = TimeSeriesResource(MemoryResource.from_string(good, allow_nans=True)).validate()
    require(r.get_time_vector() == ds, "time vector read back")
    require_list_close(r.get_column("A"), c["values"], "column read back", 0, 0)
    ctx.nontrivial()
    ctx.label(f)


@st.composite
def fit_case(draw):
    s = draw(case())["series"][0]
    targets = draw(st.lists(st.integers(-50, 3000 * 24), min_size=1, max_size=8, unique=True))
    return {"s": s, "targets": sorted(targets)}


def check_fit(c, ctx: Ctx):
    """Hour resolution: values at arbitrary times, from rows in any order."""
    from libecalc.dto.types import InterpolationType
    from libecalc.presentation.yaml.domain.time_series import TimeSeries

    s = c["s"]
    times = sorted({BASE + timedelta(hours=h) for h in c["targets"]} | {dt(s["dates"][0])})
    for kind in ("LEFT", "RIGHT", "LINEAR"):
        for extrapolate in (True, False):
            ref = {**s, "interp": kind, "extrap": extrapolate}
            ts = TimeSeries(
                reference_id="S;C0",
                time_vector=[dt(s["dates"][i]) for i in s["order"]],
                series=[s["cols"][0][i] for i in s["order"]],
                extrapolate=extrapolate,
                interpolation_type=InterpolationType[kind],
            ).sort()
            fitted = ts.fit_to_time_vector(times)
            require(fitted.time_vector == times and fitted.reference_id == "S;C0", "fitted time vector")
            for t, got in zip(times, fitted.series):
                require_close(got, value_at(ref, 0, t), f"{kind}, extrapolate={extrapolate} at {t}", 1e-9, 1e-9)
    ctx.nontrivial(len(s["dates"]) > 1)


SUBCHECKS = [
    Sub("model", case, check, 900, rule="1-3 time series files (all types, interpolations, date formats, row orders) in a model with/without START and with dated settings; non-trivial: some time step lies strictly between rows of a file"),
    Sub("fit", fit_case, check_fit, 400, rule="arbitrary target times; non-trivial: more than one row"),
    Sub("bad_end", bad_end, check_bad_end, 60, rule="END on or before the start; all non-trivial"),
    Sub("bad_file", bad_file, check_bad_file, 300, rule="one injected fault per file; all non-trivial"),
]

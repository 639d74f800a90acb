"""What a run writes to files is what was calculated: CSV, JSON and the simple JSON, at every frequency and date format."""
from __future__ import annotations

import csv
import io
import json
import math
from datetime import datetime
from enum import Enum

from hypothesis import strategies as st

from harness import assetgen as ag
from harness.cli import run_cli
from harness.core import Ctx, Sub, require
from harness.e2e import Run
from harness.gen import days, dt, nice
from harness.props.p25 import boundaries, driven, tolerance

ASSUMPTIONS = ["The command line program is run in process, in a scratch directory, on models without fluids; starting the Java library is left out."]
FORMATS = ["%Y-%m-%d %H:%M:%S", "%Y%m%d %H:%M:%S", "%d.%m.%Y %H:%M:%S"]


@st.composite
def specs(draw, **kw):
    args = dict(gs=(0, 2), fc=(0, 2), ve=(0, 1), insts=(1, 2), steps=(1, 4), zero_reg=True)
    args.update(kw)
    spec = draw(ag.asset_specs(**args))
    n = len(spec["dates"]) - 1
    for inst in spec["installations"]:
        for c in inst["fuelconsumers"]:
            if draw(st.integers(0, 2)) == 0:
                c["models"] = [[None, draw(driven(n))]]
                c["category"] = "GAS-DRIVEN-COMPRESSOR"
        inst["hcexport"] = draw(ag.num(n, st.one_of(nice(0, 1000, 1), nice(0, 3e6, 0), st.just(0.0))))
    return spec


@st.composite
def case(draw):
    freq = draw(st.sampled_from(["NONE", "YEAR", "MONTH"]))
    return {
        "spec": draw(specs()), "freq": freq, "csv": draw(st.sampled_from([True, True, False])), "json": draw(st.booleans()),
        "detailed": draw(st.booleans()), "fmt": draw(st.integers(0, 2)), "ltp": draw(st.booleans()), "stp": draw(st.booleans()),
        "prefix": draw(st.sampled_from([None, None, "run", "v1.2", "a.b.c", "with space"])),
        "folder": draw(st.sampled_from([None, "output", "elsewhere"])),
        "stale": draw(st.booleans()),
    }


def arguments(c):
    args = ["--output-frequency", c["freq"], "--date-format-option", str(c["fmt"]), "--csv" if c["csv"] else "--no-csv"]
    args += ["--json"] * c["json"] + ["--detailed-output"] * c["detailed"] + ["--ltp-export"] * c["ltp"] + ["--stp-export"] * c["stp"]
    if c["prefix"] is not None:
        args += ["--name-prefix", c["prefix"]]
    return args


def expected_files(c):
    folder = c["folder"] or "output"
    name = c["prefix"] or "model"
    out = []
    if c["csv"]:
        out += [f"{name}.csv", f"{name}_intensity.csv"]
    if c["json"]:
        out += [f"{name}_v3.json", f"{name}_run_info.json", f"{name}_intensity.json"]
    for flag, kind in (("ltp", "ltp"), ("stp", "stp")):
        if c[flag]:
            out += [f"{name}.{i['name']}.{kind}.tsv" for i in c["spec"]["installations"]]
    return folder, sorted(f"{folder}/{f}" for f in out)


def near(got, want, extra=0.0):
    if want is None or math.isnan(want):
        return got is None or (isinstance(got, float) and math.isnan(got))
    if got is None:
        return False
    return abs(got - want) <= tolerance(want) + extra


def series_of(component):
    """(column name, series) of everything that varies with time in a component, by attribute."""
    from libecalc.common.utils.rates import TimeSeries

    out = []
    for attr, v in component.__dict__.items():
        if isinstance(v, TimeSeries):
            out.append((attr, v))
        elif isinstance(v, dict):
            for e in v.values():
                if hasattr(e, "rate") and hasattr(e, "cumulative"):
                    out += [(f"{e.name}.rate", e.rate), (f"{e.name}.cumulative", e.cumulative)]
    return out


def unit_text(ts):
    from libecalc.common.utils.rates import TimeSeriesRate, TimeSeriesVolumesCumulative

    unit = ts.unit.value
    if isinstance(ts, TimeSeriesRate):
        per = "sd" if ts.rate_type.value == "STREAM_DAY" else "cd"
        return f"MW ({per})" if unit == "MW" else unit.replace("/d", f"/{per}")
    if isinstance(ts, TimeSeriesVolumesCumulative):
        return f"{unit} (cd)"
    return unit


def check_csv(text, result, bounds, fmt):
    rows = list(csv.reader(io.StringIO(text)))
    head, body = rows[0], rows[1:]
    require(head[0] == "timesteps", f"csv header {head[:2]}")
    require([r[0] for r in body] == [b.strftime(fmt) for b in bounds[:-1]], f"csv time steps {[r[0] for r in body]} expected {bounds}")
    want = {}
    for c in result.components:
        for attr, ts in series_of(c):
            want[f"{c.name}.{attr}[{unit_text(ts)}]"] = ts.values
    require(len(set(head)) == len(head), "a column is in the csv twice")
    require(sorted(head[1:]) == sorted(want), f"csv columns missing or too many: {sorted(set(head[1:]) ^ set(want))}")
    for j, col in enumerate(head[1:], start=1):
        got = [float(r[j]) for r in body]
        require(
            len(got) == len(want[col]) and all(near(g, float(w), 0.5001e-5) for g, w in zip(got, want[col])),
            f"csv {col}: {got} expected {want[col]}",
        )
    return want


def same(got, want, where, fmt):
    """JSON text against the object it was written from."""
    if isinstance(want, Enum):
        want = want.value
    if isinstance(want, dict):
        want = {str(k.value if isinstance(k, Enum) else k): v for k, v in want.items()}
        require(isinstance(got, dict), f"json {where}: {got!r}")
        extra = set(got) - set(want) - {"timesteps"}
        require(not extra and not set(want) - set(got), f"json {where}: keys {sorted(set(got) ^ set(want))}")
        for k, v in want.items():
            same(got[k], v, f"{where}.{k}", fmt)
        if "timesteps" in got:
            require(got["timesteps"] == [p["start"].strftime(fmt) for p in want["periods"]], f"json {where}: time steps {got['timesteps']}")
    elif isinstance(want, list | tuple):
        require(isinstance(got, list) and len(got) == len(want), f"json {where}: {got!r} expected {want!r}")
        for i, (g, w) in enumerate(zip(got, want)):
            same(g, w, f"{where}[{i}]", fmt)
    elif isinstance(want, bool) or want is None or isinstance(want, str):
        require(got == want, f"json {where}: {got!r} expected {want!r}")
    elif isinstance(want, datetime):
        require(got == want.strftime(fmt), f"json {where}: {got!r} expected {want!r}")
    else:
        require(got is None or isinstance(got, int | float), f"json {where}: {got!r}")
        require(near(got, float(want)), f"json {where}: {got!r} expected {want!r}")


def check_simple(data, result, fmt):
    """The short JSON: energy, power, emission rates and validity of every component."""
    require([c["name"] for c in data["components"]] == [c.name for c in result.components], "components in the short json")
    for g, c in zip(data["components"], result.components):
        where = f"json {c.name}"
        require(g["componentType"] == c.componentType.value and g.get("parent") == c.parent, f"{where}: type or parent")
        require([p["start"] for p in g["periods"]["periods"]] == [p.start.strftime(fmt) for p in c.periods], f"{where}: time steps")
        require(g["is_valid"] == [int(v) for v in c.is_valid.values], f"{where}: validity {g['is_valid']}")
        pairs = [("energy_usage", g["energy_usage"], c.energy_usage.values)]
        require(g["energy_usage_unit"] == c.energy_usage.unit.value, f"{where}: unit {g['energy_usage_unit']}")
        require(("power" in g) == (c.power is not None), f"{where}: power is {g.get('power')}")
        if c.power is not None:
            pairs.append(("power", g["power"], c.power.values))
        require(sorted(g["emissions"]) == sorted(c.emissions), f"{where}: emissions {sorted(g['emissions'])}")
        for k, e in c.emissions.items():
            pairs.append((k, g["emissions"][k]["rate"], e.rate.values))
        for what, xs, ys in pairs:
            require(len(xs) == len(ys) and all(near(x, y) for x, y in zip(xs, ys)), f"{where} {what}: {xs} expected {ys}")


def cumulative_at(spec, rates, reg, bounds):
    ds = [dt(d) for d in spec["dates"]]
    out = []
    for b in bounds[1:]:
        total = 0.0
        for x, y, r, g in zip(ds, ds[1:], rates, reg):
            if b > x and not math.isnan(r):
                total += r * g * days(x, min(b, y))
        out.append(total)
    return out


def check_totals(columns, spec, exp, bounds):
    """What has been used at the end of each reported step, straight from the model."""
    n = 0
    for name, e in exp.items():
        if e["kind"] in ("genset", "fuel"):
            want = {"energy_usage_cumulative[Sm3 (cd)]": cumulative_at(spec, e["fuel"], e["reg"], bounds)}
            for em, rates in e["emissions"].items():
                want[f"{em}.cumulative[t (cd)]"] = cumulative_at(spec, rates, e["reg"], bounds)
        elif e["kind"] == "electric":
            want = {"power_cumulative[GWh (cd)]": [x * 24 / 1000 for x in cumulative_at(spec, e["power"], e["reg"], bounds)]}
        else:
            continue
        if any(e.get("unknown") or []):
            continue
        lower = {k.lower(): v for k, v in columns.items()}
        for col, values in want.items():
            got = lower[f"{name}.{col}".lower()]
            require(
                len(got) == len(values) and all(abs(g - v) <= 1e-6 + abs(v) * 1e-7 for g, v in zip(got, values)),
                f"{name} {col}: {got} expected {values}",
            )
            n += any(values)
    return n


def check(c, ctx: Ctx):
    from libecalc.common.time_utils import Frequency

    spec, fmt = c["spec"], FORMATS[c["fmt"]]
    data, files = ag.build(spec)
    folder, want_files = expected_files(c)
    existing = {f: "left by an earlier run\n" * 50 for f in want_files} if c["stale"] and c["folder"] is None else {}
    r = run_cli(data, files, arguments(c), folder=c["folder"], existing=existing)
    require(r.exception is None and r.code == 0, f"run failed: {r.exception!r} {r.output[-300:]}")
    require(sorted(r.files) == want_files, f"files {sorted(r.files)} expected {want_files}")
    run = Run(data, files)
    result = run.result.resample(Frequency[c["freq"]])
    bounds = boundaries(spec["dates"], c["freq"])
    columns = {f"{x.name}.{a}[{unit_text(ts)}]": ts.values for x in result.components for a, ts in series_of(x)}
    name = f"{folder}/{c['prefix'] or 'model'}"
    if c["csv"]:
        check_csv(r.files[f"{name}.csv"], result, bounds, fmt)
        ctx.label("csv")
    if c["json"]:
        got = json.loads(r.files[f"{name}_v3.json"])
        if c["detailed"]:
            same(got, result.model_dump(exclude_none=True), "", fmt)
            ctx.label("detailed json")
        else:
            check_simple(got, result, fmt)
            ctx.label("short json")
        require("version" in json.loads(r.files[f"{name}_run_info.json"]), "run info without version")
    n = check_totals(columns, spec, ag.expect(spec), bounds)
    ctx.label(c["freq"])
    ctx.nontrivial((c["csv"] or c["json"]) and n > 0)


# ---------------------------------------------------------------- rounding


def number_case():
    return st.fixed_dictionaries({
        "x": st.one_of(
            st.floats(allow_nan=False, allow_infinity=False, min_value=-1e15, max_value=1e15), nice(-1000, 1000, 9), nice(-1e-5, 1e-5, 9),
            st.integers(-(10**9), 10**9).map(float), st.builds(lambda m, e: m * 10.0**e, st.integers(-9999999, 9999999), st.integers(-14, 8)),
        ),
        "p": st.sampled_from([6, 6, 6, 0, 1, 2, 3, 4]),
    })


def check_number(c, ctx: Ctx):
    from libecalc.common.math.numbers import Numbers

    x, p = c["x"], c["p"]
    text = Numbers.format_to_precision(x, p)
    require("e" not in text.lower(), f"{x!r} formatted as {text!r}")
    got = float(text)
    digits = math.floor(math.log10(abs(x))) if x else 0
    unit = 10.0 ** -(p if abs(x) < 1 else max(0, p - digits))
    require(abs(got - x) <= 0.5 * unit * (1 + 1e-9) + abs(x) * 1e-12, f"{x!r} with {p} decimals formatted as {text!r}")
    if "." in text:
        require(not text.endswith("0") and not text.endswith("."), f"{x!r} formatted as {text!r}")
        require(len(text.split(".")[1]) <= p, f"{x!r} has more than {p} decimals: {text!r}")
    if x == int(x) and abs(x) < 1e15:
        require(got == x, f"whole number {x!r} formatted as {text!r}")
    require(got == 0 or (got > 0) == (x > 0), f"sign of {x!r} in {text!r}")
    again = Numbers.format_to_precision(got, p)
    require(float(again) == got, f"{text!r} formatted again is {again!r}")
    ctx.nontrivial(got != x)


SUBCHECKS = [
    Sub("files", case(), check, quick=130, thorough=2000, rule="CSV or JSON of a model with consumption is written"),
    Sub("rounding", number_case(), check_number, quick=600, thorough=30000, rule="the number is changed by rounding"),
]

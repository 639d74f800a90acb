"""Emission intensity: CO2 per exported hydrocarbon, accumulated and per year, as written by `ecalc run`."""
from __future__ import annotations

import csv
import io
import json
import math

from hypothesis import strategies as st

from harness import assetgen as ag
from harness.cli import run_cli
from harness.core import Ctx, Sub, require
from harness.gen import days, dt, nice
from harness.props.p24 import FORMATS
from harness.props.p25 import boundaries, resample_volumes, tolerance

BOE_PER_SM3 = 6.29


@st.composite
def case(draw):
    spec = draw(ag.asset_specs(gs=(0, 2), fc=(0, 2), ve=(0, 2), insts=(1, 2), steps=(2, 6), zero_reg=True))
    n = len(spec["dates"]) - 1
    if draw(st.integers(0, 7)) > 0:
        for f in spec["fuels"]:
            f["emissions"] = [e for e in f["emissions"] if e["name"].lower() != "co2"]
            f["emissions"].append({"name": draw(st.sampled_from(["co2", "CO2", "Co2", "cO2"])), "factor": draw(ag.num(n, nice(0.1, 4, 2)))})
        for inst in spec["installations"]:
            if draw(st.booleans()):
                rate = {"t": "D", "v": draw(ag.num(n, nice(10, 5000, 1)))}
                inst["fuelconsumers"].append({"name": f"{inst['name']}base", "models": [[None, rate]]})
    idle = draw(st.sampled_from([0, 0, 0, 1, n]))  # steps without export at the start
    for inst in spec["installations"]:
        v = draw(ag.num(n, st.one_of(nice(1, 1000, 1), nice(1, 3e6, 0), nice(0, 100, 1), st.just(0.0))))
        if idle:
            v = [0.0 if i < idle else ag.val(v, i) for i in range(n)]
        inst["hcexport"] = v
    return {"spec": spec, "freq": draw(st.sampled_from(["NONE", "YEAR", "YEAR", "MONTH"])), "fmt": draw(st.integers(0, 2))}


def reference(spec, freq):
    """name -> column -> values (None where nothing is exported); None without CO2."""
    exp = ag.expect(spec)
    n = len(spec["dates"]) - 1
    length = [days(dt(a), dt(b)) for a, b in zip(spec["dates"], spec["dates"][1:])]
    co2, export, seen = [0.0] * n, [0.0] * n, False
    for e in exp.values():
        if e["kind"] == "installation":
            export = [t + x * k for t, x, k in zip(export, e["hcexport"], length)]  # given per calendar day
        elif "co2" in e["emissions"]:
            seen = True
            for i, x in enumerate(e["emissions"]["co2"]):
                co2[i] += 0.0 if math.isnan(x) else x * 1000.0 * e["reg"][i] * length[i]
    if not seen:
        return None
    bounds = boundaries(spec["dates"], freq)
    mass, volume = resample_volumes(spec["dates"], co2, bounds), resample_volumes(spec["dates"], export, bounds)

    def accumulate(xs):
        out, t = [], 0.0
        for x in xs:
            t += x
            out.append(t)
        return out

    def ratio(a, b):
        return [x / y if y != 0 else None for x, y in zip(a, b)]

    cum = ratio(accumulate(mass), accumulate(volume))
    per = ratio(mass, volume) if freq == "YEAR" else None
    boe = lambda xs: None if xs is None else [None if x is None else x / BOE_PER_SM3 for x in xs]  # noqa: E731
    return {"intensity_sm3": cum, "intensity_boe": boe(cum), "intensity_yearly_sm3": per, "intensity_yearly_boe": boe(per)}


UNITS = {"sm3": "kg/Sm3", "boe": "kg/BOE"}


def compare(got, want, where, extra=0.0):
    require(len(got) == len(want), f"{where}: {got} expected {want}")
    for g, w in zip(got, want):
        none = g is None or math.isnan(g)
        ok = none if w is None else not none and abs(g - w) <= tolerance(w) + 1e-6 * abs(w) + extra
        require(ok, f"{where}: {got} expected {want}")


def check(c, ctx: Ctx):
    spec, fmt = c["spec"], FORMATS[c["fmt"]]
    data, files = ag.build(spec)
    r = run_cli(data, files, ["--csv", "--json", "--output-frequency", c["freq"], "--date-format-option", str(c["fmt"])])
    require(r.exception is None and r.code == 0, f"run failed: {r.exception!r} {r.output[-300:]}")
    bounds = boundaries(spec["dates"], c["freq"])
    starts = [b.strftime(fmt) for b in bounds[:-1]]
    want = reference(spec, c["freq"])
    written = json.loads(r.files["output/model_intensity.json"])
    rows = list(csv.reader(io.StringIO(r.files["output/model_intensity.csv"])))
    if want is None:
        require(written["results"] == [], f"intensity without CO2 in the model: {written}")
        require(len([x for x in rows if any(x)]) <= 1, f"intensity without CO2 in the model: {rows}")
        ctx.label("no CO2")
        return
    want = {k: v for k, v in want.items() if v is not None}
    require(len(written["results"]) == 1, f"{len(written['results'])} intensities")
    result = written["results"][0]
    require(result["name"].lower() == "co2", f"intensity of {result['name']}")
    given = {k: v for k, v in result.items() if k.startswith("intensity") and v is not None}
    require(sorted(given) == sorted(want), f"json intensities {sorted(given)} expected {sorted(want)}")
    for k, v in want.items():
        require([p["start"] for p in given[k]["periods"]["periods"]] == starts, f"json {k}: time steps {given[k]['periods']}")
        require(given[k]["unit"] == UNITS[k[-3:]], f"json {k}: unit {given[k]['unit']}")
        compare(given[k]["values"], v, f"json {k}")
    head, body = rows[0], rows[1:]
    columns = {f"{result['name']}.{k}[{UNITS[k[-3:]]}]": v for k, v in want.items()}
    require(sorted(head[1:]) == sorted(columns), f"csv columns {head} expected {sorted(columns)}")
    require([x[0] for x in body] == starts, f"csv time steps {[x[0] for x in body]} expected {starts}")
    for j, name in enumerate(head[1:], start=1):
        compare([float(x[j]) for x in body], columns[name], f"csv {name}", 0.5001e-5)
    ctx.label(c["freq"])
    values = [x for v in want.values() for x in v]
    if any(x is None for x in values):
        ctx.label("no export at first")
    ctx.nontrivial(len(bounds) > 2 and len({x for x in values if x}) >= 2)


SUBCHECKS = [Sub("intensity", case(), check, quick=150, thorough=2500, rule="several periods with emission and export")]

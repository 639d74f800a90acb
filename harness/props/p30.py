"""Whole models: order of declaration, splitting of time steps, a shorter horizon, and unrelated additions change no result."""
from __future__ import annotations

import copy
import csv
import io
import math
import random
from collections import Counter
from datetime import datetime, timedelta

from hypothesis import strategies as st

from harness import assetgen as ag
from harness import fakefluid as ff
from harness.core import Ctx, Sub, require
from harness.e2e import Run, csv_text
from harness.gen import nice
from harness.props import p13, p14, p17, p21, p22

ASSUMPTIONS = ["Charts made from the input and numbers of stages found from the input depend on the whole input; they are left out where the input is cut."]


# ---------------------------------------------------------------- models: those of the other properties


class Captured(Exception):
    pass


def capture(module, check, case):
    """The model and files that a check of another property would run."""
    got = {}

    def record(data, files, *a, **k):
        got["model"] = (data, files)
        raise Captured

    old, module.Run = module.Run, record
    try:
        check(case, Ctx())
    except Captured:
        pass
    finally:
        module.Run = old
    return got.get("model")


SOURCES = {
    "asset": lambda c: ag.build(c),
    "system": lambda c: p13.build(c),
    "tabulated": lambda c: capture(p14, p14.check_table, c),
    "pump": lambda c: capture(p17, p17.check_model, c),
    "train": lambda c: capture(p21, p21.check, c),
    "streams": lambda c: capture(p21, p21.check_streams, c),
    "simplified": lambda c: capture(p21, p22.check_train, c),
}
CASES = {
    "asset": ag.asset_specs(gs=(0, 2), fc=(0, 2), ve=(0, 1), insts=(1, 3), steps=(2, 5)),
    "system": p13.system_case(),
    "tabulated": p14.table_case(),
    "pump": p17.pump_case(model=True),
    "train": p21.case(),
    "streams": p21.streams_case(),
    "simplified": p22.case(kinds=("design",), unknown=False),
}
CHANGES = ["order", "split", "end", "start", "copy"]


@st.composite
def case(draw):
    kind = draw(st.sampled_from([*["asset"] * 6, *["system"] * 2, "tabulated", "pump", "train", "train", "streams", "simplified"]))
    return {"kind": kind, "model": draw(CASES[kind]), "change": draw(st.sampled_from(CHANGES)), "seed": draw(st.integers(0, 10**6)), "at": draw(nice(0, 1, 2))}


# ---------------------------------------------------------------- results by name


def leaves(obj, path, out):
    from pydantic import BaseModel

    from libecalc.common.utils.rates import TimeSeries

    if isinstance(obj, TimeSeries):
        out[path] = obj
    elif isinstance(obj, BaseModel):
        for k, v in obj.__dict__.items():
            leaves(v, f"{path}.{k}", out)
    elif isinstance(obj, dict):
        for k, v in obj.items():
            leaves(v, f"{path}[{k}]", out)
    elif isinstance(obj, list):
        for i, v in enumerate(obj):
            if isinstance(v, BaseModel):
                leaves(v, f"{path}[{getattr(v, 'name', i)}]", out)


def results(model):
    run = Run(*model)
    out = {}
    for c in run.result.components:
        leaves(c, c.name, out)
    for m in run.result.models:
        index = [x is m for x in run.models_of(m.name)].index(True)
        leaves(m, f"{m.name} model {index}", out)
    return out, run


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float | int) and isinstance(b, float | int) and not isinstance(a, bool):
        return (math.isnan(a) and math.isnan(b)) or a == b or abs(a - b) <= 1e-9 + 1e-7 * max(abs(a), abs(b))
    return a == b or (a is None and isinstance(b, float) and math.isnan(b)) or (b is None and isinstance(a, float) and math.isnan(a))


def cumulative(path):
    return "cumulative" in path.rsplit(".", 1)[-1]


# ---------------------------------------------------------------- changes of the model


def shuffled(model, rng):
    data, files = copy.deepcopy(model[0]), dict(model[1])

    def shuffle(x, key=""):
        if isinstance(x, dict):
            items = [(k, shuffle(v, k)) for k, v in x.items()]
            if not any(str(k)[:2] == "20" for k in x):  # dates are to be in order
                rng.shuffle(items)
            return dict(items)
        if isinstance(x, list):
            out = [shuffle(v) for v in x]
            if key in ("INSTALLATIONS", "GENERATORSETS", "CONSUMERS", "FUELCONSUMERS", "VENTING_EMITTERS", "FUEL_TYPES", "FACILITY_INPUTS", "MODELS", "EMISSIONS", "CONDITIONS", "VARIABLES"):
                rng.shuffle(out)
            return out
        return x

    data = shuffle(data)
    for ts in data["TIME_SERIES"]:
        rows = list(csv.reader(io.StringIO(files[ts["FILE"]])))
        order = list(range(1, len(rows[0])))
        rng.shuffle(order)
        body = rows[1:]
        rng.shuffle(body)
        files[ts["FILE"]] = "\n".join(",".join([r[0], *(r[j] for j in order)]) for r in [rows[0], *body]) + "\n"
    for f in data.get("FACILITY_INPUTS", []):
        rows = list(csv.reader(io.StringIO(files[f["FILE"]])))
        order = list(range(len(rows[0])))
        rng.shuffle(order)
        files[f["FILE"]] = "\n".join(",".join(r[j] for j in order) for r in rows) + "\n"
    return data, files


def parse(text):
    return datetime.fromisoformat(text)


def split(model, rng, fraction):
    """Further dates, with the same values as the step they are in."""
    data, files = copy.deepcopy(model[0]), dict(model[1])
    (ts,) = data["TIME_SERIES"]
    rows = list(csv.reader(io.StringIO(files[ts["FILE"]])))
    head, body = rows[0], rows[1:]
    starts = [parse(r[0]) for r in body]
    ends = [*starts[1:], parse(str(data["END"]))]
    out, owner = [head], []
    for i, (r, a, b) in enumerate(zip(body, starts, ends)):
        cuts = [a]
        if (b - a).days >= 2 and (rng.random() < 0.7 or len(body) == 1):
            cuts += sorted({a + timedelta(days=rng.randrange(1, (b - a).days)) for _ in range(rng.randrange(1, 3))})
        for c in cuts:
            out.append([c.isoformat(sep=" "), *r[1:]])
            owner.append(i)
    files[ts["FILE"]] = "\n".join(",".join(r) for r in out) + "\n"
    return (data, files), owner


def copied(model, names):
    """Every installation once more, under other names, using the same fuels, facilities and models."""
    data, files = copy.deepcopy(model[0]), dict(model[1])

    def renamed(x, key=""):
        if isinstance(x, dict):
            skip = key in ("VARIABLES", "EMISSIONS")
            return {k: (f"{v} again" if k == "NAME" and v in names and not skip else renamed(v, k)) for k, v in x.items()}
        if isinstance(x, list):
            return [renamed(v, key) for v in x]
        return x

    data["INSTALLATIONS"] = [*data["INSTALLATIONS"], *(renamed(copy.deepcopy(i)) for i in data["INSTALLATIONS"])]
    return data, files


def dated(x):
    """First dates of everything given by date."""
    if isinstance(x, dict):
        first = str(next(iter(x), ""))
        if len(first) > 4 and first[:2] == "20":
            yield parse(first)
        for v in x.values():
            yield from dated(v)
    elif isinstance(x, list):
        for v in x:
            yield from dated(v)


def check(c, ctx: Ctx):
    ff.install()
    model = SOURCES[c["kind"]](c["model"])
    if model is None:
        return
    rng = random.Random(c["seed"])
    model[0].pop("PUMP_PROCESS_SIMULATIONS", None)
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    try:
        before, run = results(model)
    except ModelValidationException:
        return  # whether a model is accepted is decided by other properties
    n = len(run.asset.periods)
    several = Counter(m.name for m in run.result.models)
    change = c["change"]
    last = n - 1
    if change == "order":
        after, _ = results(shuffled(model, rng))
        require(sorted(after) == sorted(before), f"other results after shuffling: {sorted(set(after) ^ set(before))[:5]}")
        for k, ts in before.items():
            require(same(after[k].values, ts.values), f"{k} in another order of declaration: {after[k].values} was {ts.values}")
            require(after[k].unit == ts.unit, f"unit of {k} in another order of declaration")
    elif change == "split":
        other, owner = split(model, rng, c["at"])
        after, _ = results(other)
        require(sorted(after) == sorted(before), f"other results after splitting: {sorted(set(after) ^ set(before))[:5]}")
        ctx.label("several parts" if len(owner) > n else "no step to split")
        for k, ts in before.items():
            got = after[k]
            pairs = [(j, i) for j, q in enumerate(got.periods) for i, p in enumerate(ts.periods) if p.start <= q.start < p.end]
            require(len(pairs) == len(got.values) == len(list(got.periods)), f"{k}: steps {got.periods} of {ts.periods}")
            require({i for _, i in pairs} == set(range(len(ts.values))), f"{k}: steps {got.periods} of {ts.periods}")
            if cumulative(k):
                ends = [j for (j, i), nxt in zip(pairs, [*pairs[1:], (None, None)]) if nxt[1] != i]
                require(same([got.values[j] for j in ends], ts.values), f"{k} with split steps: {got.values} was {ts.values}")
            else:
                want = [ts.values[i] for _, i in pairs]
                require(same(got.values, want), f"{k} with split steps: {got.values} expected {want}")
    elif change in ("end", "start"):
        if n < 2 or c["kind"] == "simplified":
            return
        k0 = 1 + int(c["at"] * (n - 1) * 0.999)
        cut = list(run.asset.periods)[k0].start
        if change == "end" and any(d >= cut for d in dated(model[0])):
            return  # a consumer which is not used at all
        data = copy.deepcopy(model[0])
        data["END" if change == "end" else "START"] = cut.isoformat(sep=" ")
        after, _ = results((data, model[1]))
        for k, ts in before.items():
            inside = [i for i, p in enumerate(ts.periods) if (p.start < cut) == (change == "end")]
            if not inside or (" model " in k and (several[k.split(" model ")[0]] > 1 or inside[0] > 0 and list(ts.periods)[0].start > run.asset.periods.periods[0].start)):
                continue  # models which are only used in a part
            if "emissions[" in k and k not in after:
                base = ts.values[inside[0] - 1] if cumulative(k) and inside[0] > 0 else 0.0
                require(all(ts.values[i] == base for i in inside), f"{k} is missing when the model {change}s at {cut}")
                continue
            require(k in after, f"{k} is missing when the model {change}s at {cut}")
            got, was = after[k].values, [ts.values[i] for i in inside]
            if "emissions[" in k:  # a sum of one unknown emission is unknown, one of several counts it as nothing
                got, was = ([0.0 if v is None or math.isnan(v) else v for v in x] for x in (got, was))
            if not cumulative(k) or change == "end":
                require(same(got, was), f"{k} when the model {change}s at {cut}: {got} was {was}")
            else:
                base = ts.values[inside[0] - 1] if inside[0] > 0 else 0.0
                want = [v - base for v in was]
                require(
                    len(got) == len(want) and all(abs(g - w) <= 1e-6 + 1e-9 * abs(base) + 1e-7 * abs(w) or math.isnan(w) for g, w in zip(got, want)),
                    f"{k} when the model starts at {cut}: {got} expected {want}",
                )
    else:
        names = {x.name for x in run.result.components} - {run.asset.name}
        names |= {x.name for x in run.result.models}
        after, twice = results(copied(model, names))
        for k, ts in before.items():
            if k.startswith(run.asset.name + "."):
                continue
            require(k in after, f"{k} is missing when the installation is there twice")
            require(same(after[k].values, ts.values), f"{k} with another installation: {after[k].values} was {ts.values}")
        for x in run.result.components:
            if x.name == run.asset.name:
                continue
            other = twice.by_name[f"{x.name} again"]
            a, b = {}, {}
            leaves(x, "", a)
            leaves(other, "", b)
            require(sorted(a) == sorted(b), f"{x.name}: a copy has other results {sorted(set(a) ^ set(b))[:5]}")
            for k, ts in a.items():
                require(same(b[k].values, ts.values), f"{x.name}{k}: {ts.values}, and {b[k].values} for an equal component")
        a, b = {}, {}
        leaves(run.asset, "", a)
        leaves(twice.asset, "", b)
        for k, ts in a.items():
            if ts.__class__.__name__ in ("TimeSeriesRate", "TimeSeriesVolumesCumulative") or cumulative(k):
                pairs = [(g, 2 * v) for g, v in zip(b[k].values, ts.values) if not math.isnan(v)]
                require(same([x for x, _ in pairs], [x for _, x in pairs]), f"asset{k} with every installation twice: {b[k].values} was {ts.values}")
    ctx.label(f"{c['kind']} {change}")
    ctx.nontrivial(any(isinstance(v, float) and v > 0 and not math.isnan(v) for k, ts in before.items() if "energy_usage" in k for v in ts.values) and last >= 0)


SUBCHECKS = [Sub("metamorphic", case(), check, quick=400, thorough=8000, chunk=25, rule="a model with energy use, changed")]

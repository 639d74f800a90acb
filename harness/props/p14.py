"""Tabulated compressors: interpolation inside the data, recirculation/choking outside it, refusal of unusable data."""
import itertools
import math

import numpy as np
from hypothesis import strategies as st

from harness import assetcheck as ac
from harness.core import Ctx, Sub, expect_raises, require, require_close
from harness.e2e import Run, csv_text
from harness.gen import nice

NAMES = ["RATE", "SUCTION_PRESSURE", "DISCHARGE_PRESSURE"]
BOX = [(1e5, 4e6), (1.0, 20.0), (40.0, 200.0)]  # rate, ps, pd
F = (20.0, 3e-6, -0.1, 0.05)  # energy: more for higher rate, lower suction and higher discharge pressure


def f(p, dims):
    return F[0] + sum(F[1 + d] * x for d, x in zip(dims, p))


# ---------------------------------------------------------------- reference, two variables
def lower(points):
    """Lower envelope y(x) of the convex hull of points."""
    h = []
    for p in sorted(set(points)):
        while len(h) > 1 and (h[-1][0] - h[-2][0]) * (p[1] - h[-2][1]) - (h[-1][1] - h[-2][1]) * (p[0] - h[-2][0]) <= 0:
            h.pop()
        h.append(p)
    d = {}
    for x, y in h:
        d[x] = min(y, d.get(x, y))
    return sorted(d.items())


def at(env, x):
    return float(np.interp(x, [e[0] for e in env], [e[1] for e in env]))


def project2(pts, dims, a, b):
    """Where the point is moved to by recirculation (rate up), choking upstream (ps down) and downstream (pd up)."""
    swapped = [(y, x) for x, y in pts]
    if dims == [0, 2]:
        a = max(a, at(lower(swapped), b))
        b = max(b, at(lower(pts), a))
    elif dims == [0, 1]:
        a = max(a, at(lower(swapped), b))
        b = min(b, -at(lower([(x, -y) for x, y in pts]), a))
    else:
        b = max(b, at(lower(pts), a))
        a = min(a, -at(lower([(y, -x) for x, y in pts]), b))
    return a, b


def outside2(pts, a, b):
    """How far outside the hull of the points, relative to its extent (negative: inside)."""
    xs, ys = [p[0] for p in pts], [p[1] for p in pts]
    lo, hi = at(lower(pts), a), -at(lower([(x, -y) for x, y in pts]), a)
    return max(
        (min(xs) - a) / (max(xs) - min(xs)), (a - max(xs)) / (max(xs) - min(xs)),
        (lo - b) / (max(ys) - min(ys)), (b - hi) / (max(ys) - min(ys)),
    )


# ---------------------------------------------------------------- reference, three variables
def minimum3(pts, q, slack):
    """Least energy of the points in the hull that can serve q: rate at least, suction at most, discharge at least."""
    from scipy.optimize import linprog

    p = np.array(pts)
    ext = np.ptp(p, axis=0)
    n = len(pts)
    res = linprog(
        [f(x, [0, 1, 2]) for x in pts],
        A_ub=np.array([-p[:, 0] / ext[0], p[:, 1] / ext[1], -p[:, 2] / ext[2]]),
        b_ub=[-q[0] / ext[0] + slack, q[1] / ext[1] + slack, -q[2] / ext[2] + slack],
        A_eq=[np.ones(n)], b_eq=[1], bounds=(0, None),
    )
    return res.fun if res.status == 0 else None


def inside3(pts, q):
    from scipy.optimize import linprog

    p = np.array(pts)
    ext = np.ptp(p, axis=0)
    n = len(pts)
    res = linprog(np.zeros(n), A_eq=np.vstack([np.ones(n), (p / ext).T]), b_eq=[1, *(np.array(q) / ext)], bounds=(0, None))
    return res.status == 0


def expected(c, q):
    """(kind, value): value is math.nan where no solution exists, None where not judged. q: rate, ps, pd."""
    if q[0] <= 0:
        return "off", 0.0
    for d, x in c["const"]:
        if q[d] == x or abs(q[d] - x) < 1e-6 * x:
            return "border", None
        if (q[d] < x) if d == 1 else (q[d] > x):
            return "outside", math.nan
    dims, pts = c["dims"], [tuple(p) for p in c["points"]]
    x = [q[d] for d in dims]
    if len(dims) == 1:
        xs, ys = zip(*sorted(zip([p[0] for p in pts], c["values"])))
        too_low, too_high = x[0] < xs[0], x[0] > xs[-1]
        if dims[0] == 1 and too_low or dims[0] != 1 and too_high:
            return "outside", math.nan
        return "clamped" if too_low or too_high else "inside", float(np.interp(x[0], xs, ys))
    if len(dims) == 2:
        a, b = project2(pts, dims, *x)
        out = outside2(pts, a, b)
        if abs(out) <= 1e-7:
            # on the edge of the data: a solution if the point itself was given or moved there
            return "edge", f((a, b), dims)
        return ("outside", math.nan) if out > 0 else ("inside" if (a, b) == tuple(x) else "moved", f((a, b), dims))
    tight, loose = minimum3(pts, x, -1e-6), minimum3(pts, x, 1e-6)
    if (tight is None) != (loose is None):
        return "border", None
    if tight is None:
        return "outside", math.nan
    if inside3(pts, x):
        return "inside", f(x, dims)
    return "moved", (minimum3(pts, x, 0.0), c["grid"])


# ---------------------------------------------------------------- cases
@st.composite
def data_points(draw, dims):
    """(points, is a full grid)"""
    kind = draw(st.sampled_from(["grid", "cloud", "skew"])) if len(dims) > 1 else "line"

    def value(d):
        lo, hi = BOX[d]
        return round(lo + draw(nice(0, 1, 2)) * (hi - lo), 2)

    def axis(d, low, high):
        return sorted(draw(st.sets(st.integers(0, 20), min_size=low, max_size=high).map(lambda s: [round(BOX[d][0] + k / 20 * (BOX[d][1] - BOX[d][0]), 2) for k in s])))

    if kind == "line":
        return [[x] for x in axis(dims[0], 2, 6)], True
    if kind == "grid":
        return [list(p) for p in itertools.product(*[axis(d, 2, 3) for d in dims])], True
    if kind == "skew" and 0 in dims:
        # minimum and maximum rate depend on the pressures, as in real tables
        rest = [axis(d, 2, 3) for d in dims[1:]]
        a, b, low = draw(nice(0, 0.1, 2)), draw(nice(0, 0.004, 3)), draw(nice(0.2, 0.6, 1))
        out = []
        for p in itertools.product(*rest):
            high = 3e6 + sum((a if d == 1 else -b) * 1e6 * x for d, x in zip(dims[1:], p))
            out += [[round(high * low, 1), *p], [round(high, 1), *p]]
            if draw(st.booleans()):
                out.append([round(high * (1 + low) / 2, 1), *p])
        return out, False
    n = draw(st.integers(len(dims) + 2, 10 if len(dims) == 2 else 14))
    pts = {tuple(value(d) for d in dims) for _ in range(n)}
    return [list(p) for p in sorted(pts)], False


def spans(pts, dims):
    ext = np.ptp(np.array(pts), axis=0)
    if (ext == 0).any():
        return False
    p = (np.array(pts) - np.array(pts).min(axis=0)) / ext
    return np.linalg.matrix_rank(p[1:] - p[0], tol=1e-3) == len(dims)


@st.composite
def table_case(draw):
    dims = draw(st.sampled_from([[0], [1], [2], [0, 2], [0, 2], [0, 1], [1, 2], [0, 1, 2], [0, 1, 2], [0, 1, 2]]))
    for _ in range(5):
        pts, grid = draw(data_points(dims))
        if spans(pts, dims):
            break
    else:
        pts, grid = [list(p) for p in itertools.product(*[BOX[d] for d in dims])], True
    const = [(d, round(draw(nice(0.3, 0.9, 2)) * BOX[d][1], 2)) for d in range(3) if d not in dims and draw(st.integers(0, 2)) == 0]
    c = {
        "dims": dims, "points": draw(st.permutations(pts)), "grid": grid, "const": const,
        "energy": draw(st.sampled_from(["POWER", "FUEL", "BOTH"])),
        "plf": draw(st.sampled_from([None, 0.1])),
    }
    if len(dims) == 1:
        c["values"] = [draw(nice(1, 50, 1)) for _ in pts]
        if c["energy"] == "BOTH":
            c["energy"] = "FUEL"
    queries = []
    for _ in range(draw(st.integers(2, 6))):
        q = []
        for d in range(3):
            lo, hi = BOX[d]
            if d in dims:
                col = [p[dims.index(d)] for p in pts]
                lo, hi = min(col), max(col)
            kind = draw(st.sampled_from(["in", "in", "around", "data"]))
            u = draw(nice(0, 1, 3)) if kind != "around" else draw(nice(-0.5, 1.3, 3))
            x = round(lo + u * (hi - lo), 3)
            if kind == "data" and d in dims:
                x = draw(st.sampled_from(col))
            q.append(max(x, 0.5))
        q[2] = max(q[2], q[1])
        if draw(st.integers(0, 15)) == 0:
            q[0] = 0.0
        queries.append(q)
    if draw(st.booleans()):
        queries.append([0, 0, 0])
        p = draw(st.sampled_from(pts))
        queries[-1] = [p[dims.index(d)] if d in dims else (BOX[d][0] if d != 1 else BOX[d][1]) for d in range(3)]
    c["queries"] = queries
    return c


def columns(c):
    cols = {}
    for d in range(3):
        if d in c["dims"]:
            cols[NAMES[d]] = [p[c["dims"].index(d)] for p in c["points"]]
    for d, x in c["const"]:
        cols[NAMES[d]] = [x] * len(c["points"])
    v = c["values"] if len(c["dims"]) == 1 else [f(p, c["dims"]) for p in c["points"]]
    if c["energy"] == "POWER":
        cols["POWER"] = v
    else:
        cols["FUEL"] = v
        if c["energy"] == "BOTH":
            cols["POWER"] = [2 + 0.5 * x for x in v]
    return cols


def system(cols, queries, fuel, plf=None):
    n = len(queries)
    dates = [f"{2000 + i}-01-01" for i in range(n + 1)]
    model = {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "t", "RATE": "S;R", "SUCTION_PRESSURE": "S;PS", "DISCHARGE_PRESSURE": "S;PD"}
    if plf is not None:
        model["POWERLOSSFACTOR"] = plf
    consumer = {"NAME": "x", "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": model}
    inst = {"NAME": "i", "HCEXPORT": 0, "FUEL": "f"}
    if fuel:
        inst["FUELCONSUMERS"] = [consumer]
    else:
        inst["GENERATORSETS"] = [{"NAME": "g", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "g", "CONSUMERS": [consumer]}]
    data = {
        "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
        "FACILITY_INPUTS": [{"NAME": "t", "TYPE": "COMPRESSOR_TABULAR", "FILE": "t.csv"}, {"NAME": "g", "TYPE": "ELECTRICITY2FUEL", "FILE": "g.csv"}],
        "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": 1}]}],
        "INSTALLATIONS": [inst], "START": dates[0], "END": dates[-1],
    }
    return data, {
        "t.csv": csv_text(cols), "g.csv": csv_text({"POWER": [0, 1e6], "FUEL": [0, 1e6]}),
        "s.csv": csv_text({"DATE": dates[:-1], "R": [q[0] for q in queries], "PS": [q[1] for q in queries], "PD": [q[2] for q in queries]}),
    }


def check_table(c, ctx: Ctx):
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    try:
        run = Run(*system(columns(c), c["queries"], c["energy"] != "POWER", c["plf"]))
    except ModelValidationException as e:
        # data without any part limiting the rate can not be used in all three variables
        require(len(c["dims"]) == 3 and not c["grid"], f"data refused: {e}")
        ctx.label("refused")
        return
    x = run.by_name["x"]
    (mod,) = run.models_of("x")
    loss = 1 - (c["plf"] or 0.0)
    energy, model_energy = ac.stream_values(x.energy_usage), ac.stream_values(mod.energy_usage)
    for i, q in enumerate(c["queries"]):
        kind, e = expected(c, q)
        ctx.label(kind)
        if e is None:
            continue
        where = f"{[NAMES[d] for d in c['dims']]} table at rate {q[0]}, suction {q[1]}, discharge {q[2]} ({kind})"
        if isinstance(e, tuple):
            least, exact = e
            require(mod.is_valid.values[i], f"{where}: there is a solution using {least}, but it is not valid")
            got = model_energy[i]
            require(got >= least * (1 - 1e-6), f"{where}: energy {got} less than the least possible {least}")
            if exact:
                require_close(got, least, f"{where}: energy", rel=1e-6)
            ctx.nontrivial()
            continue
        if math.isnan(e):
            require(not mod.is_valid.values[i], f"{where}: valid, with energy {model_energy[i]}")
            require(not x.is_valid.values[i], f"{where}: consumer valid")
            continue
        require(mod.is_valid.values[i], f"{where}: not valid")
        require_close(model_energy[i], e, f"{where}: energy", rel=1e-6)
        require_close(energy[i], e / loss, f"{where}: energy of the consumer", rel=1e-6)
        if c["energy"] == "BOTH" and e > 0:
            require_close(ac.stream_values(mod.power)[i], 2 + 0.5 * e, f"{where}: power of the turbine", rel=1e-6)
        ctx.nontrivial(e > 0)
    ctx.label(f"{len(c['dims'])} variables", c["energy"])


def check_max_rate(c, ctx: Ctx):
    """The maximum rate is at least any rate inside the data, and can be handled."""
    from libecalc.common.energy_usage_type import EnergyUsageType
    from libecalc.domain.process.compressor.core.sampled import CompressorModelSampled
    from libecalc.common.errors.ecalc_validation_error import EcalcValidationException

    if 0 not in c["dims"] or c["const"]:
        return
    cols = columns(dict(c, energy="POWER"))
    try:
        model = CompressorModelSampled(EnergyUsageType.POWER, cols["POWER"], *[cols.get(n) for n in NAMES])
    except (EcalcValidationException, ValueError):
        require(len(c["dims"]) == 3 and not c["grid"], "data refused")
        return
    qs = [q for q in c["queries"] if q[0] > 0]
    if not qs:
        return
    ps, pd = np.array([q[1] for q in qs]), np.array([q[2] for q in qs])
    best = np.asarray(model.get_max_standard_rate(ps, pd), dtype=float)
    ratio = {}
    for share in (1.0, 0.5):
        model.set_evaluation_input(rate=best * share, fluid_model=None, suction_pressure=ps, discharge_pressure=pd)
        ratio[share] = model.evaluate().get_energy_result().is_valid
    for i, q in enumerate(qs):
        kind, e = expected(c, q)
        if kind not in ("inside", "moved", "clamped"):
            continue
        if len(c["dims"]) == 3 and not c["grid"]:
            continue
        where = f"{[NAMES[d] for d in c['dims']]} table at suction {q[1]}, discharge {q[2]}"
        require(best[i] >= q[0] * (1 - 1e-6), f"{where}: maximum rate {best[i]} below rate {q[0]} which can be handled")
        require(ratio[1.0][i], f"{where}: maximum rate {best[i]} can not be handled")
        require(ratio[0.5][i], f"{where}: half the maximum rate {best[i]} can not be handled")
        ctx.nontrivial()
        ctx.label(kind)


BAD = ["duplicate", "line", "one point", "negative energy", "negative rate", "no energy", "no variable", "text"]


@st.composite
def bad_case(draw):
    c = draw(table_case())
    c["const"] = []
    return {"table": c, "bad": draw(st.sampled_from(BAD)), "row": draw(st.integers(0, len(c["points"]) - 1))}


def check_refused(c, ctx: Ctx):
    from libecalc.common.errors.exceptions import InvalidResourceException
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    t, bad, row = c["table"], c["bad"], c["row"]
    cols = columns(t)
    if bad == "duplicate":
        if len(t["dims"]) != 1:
            return
        for k in cols:
            cols[k] = cols[k] + [cols[k][row]]
    elif bad == "line":
        if len(t["dims"]) == 1:
            return
        n = len(t["points"])
        for d in t["dims"]:
            cols[NAMES[d]] = [BOX[d][0] + k / n * (BOX[d][1] - BOX[d][0]) for k in range(n)]
    elif bad == "one point":
        cols = {k: v[:1] for k, v in cols.items()}
    elif bad == "negative energy":
        k = "FUEL" if "FUEL" in cols else "POWER"
        cols[k] = [-x - 1 if i == row else x for i, x in enumerate(cols[k])]
    elif bad == "negative rate":
        k = NAMES[t["dims"][0]]
        cols[k] = [-x - 1 if i == row else x for i, x in enumerate(cols[k])]
    elif bad == "no energy":
        cols = {k: v for k, v in cols.items() if k in NAMES}
    elif bad == "no variable":
        cols = {k: v for k, v in cols.items() if k not in NAMES}
    elif bad == "text":
        k = sorted(cols)[row % len(cols)]
        cols[k] = ["n.a." if i == row else x for i, x in enumerate(cols[k])]
    expect_raises((ModelValidationException, InvalidResourceException), lambda: Run(*system(cols, t["queries"], t["energy"] != "POWER")), f"table with {bad}")
    ctx.nontrivial()
    ctx.label(bad)


SUBCHECKS = [
    Sub("table", table_case(), check_table, 900, rule="a running compressor with a solution"),
    Sub("maximum", table_case(), check_max_rate, 1500, rule="a point the compressor can handle"),
    Sub("refused", bad_case(), check_refused, 150, thorough=1500, rule="the broken table is refused"),
]

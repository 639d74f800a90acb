"""Random whole models and a reference evaluation of them.

A spec is JSON: every numeric quantity is a float (constant) or a list with one value per time step (becomes a column of
the time series file). `build` makes the YAML dict and CSV texts, `expect` computes what must come out, from the
documentation alone.
"""
from __future__ import annotations

import math

from hypothesis import strategies as st

from harness.gen import date_list, days, dt, nice
from harness.e2e import csv_text

NAN = math.nan


def num(n, const, series=None):
    """A constant, one value per step, or one value with a single step that differs."""
    series = const if series is None else series
    spike = st.builds(lambda a, b, i: [b if k == i else a for k in range(n)], series, series, st.integers(0, n - 1))
    return st.one_of(const, st.lists(series, min_size=n, max_size=n), spike)


def val(x, i):
    return x[i] if isinstance(x, list) else x


class Builder:
    def __init__(self, spec):
        self.spec = spec
        self.n = len(spec["dates"]) - 1
        self.columns = {"DATE": spec["dates"][:-1]}
        self.files = {}
        self.facility = []

    def expr(self, x):
        if isinstance(x, list):
            name = f"C{len(self.columns)}"
            self.columns[name] = x
            return f"SIM;{name}"
        return x

    def table(self, kind, headers, rows):
        name = f"fac{len(self.facility)}"
        self.files[f"{name}.csv"] = csv_text({h: [r[i] for r in rows] for i, h in enumerate(headers)})
        self.facility.append({"NAME": name, "TYPE": kind, "FILE": f"{name}.csv"})
        return name

    def dated(self, items, fn):
        """items: [[date index | None, value], ...]"""
        if len(items) == 1 and items[0][0] is None:
            return fn(items[0][1])
        return {self.spec["dates"][i or 0]: fn(v) for i, v in items}

    def category(self, c):
        return c if isinstance(c, str) else self.dated(c, lambda v: v)

    def condition(self, cond, target):
        if cond is None:
            return
        kind = cond["kind"]
        if kind in ("const", "raw"):
            target["CONDITION"] = self.expr(cond["v"])
            return
        texts = []
        for c in cond["tests"]:
            texts.append(f"{self.expr(c['v'])} > {c['thr']}")
        if kind == "one":
            target["CONDITION"] = texts[0]
        else:
            target["CONDITIONS"] = texts

    def energy_model(self, m, fuel):
        out = {}
        if m["t"] == "D":
            out["TYPE"] = "DIRECT"
            out["FUELRATE" if fuel else "LOAD"] = self.expr(m["v"])
            if m.get("rt"):
                out["CONSUMPTION_RATE_TYPE"] = m["rt"]
        elif m["t"] == "T":
            out["TYPE"] = "TABULATED"
            out["ENERGYFUNCTION"] = self.table("TABULAR", [m["var"], "FUEL" if fuel else "POWER"], m["table"])
            out["VARIABLES"] = [{"NAME": m["var"], "EXPRESSION": self.expr(m["v"])}]
        elif m["t"] == "T2":
            out["TYPE"] = "TABULATED"
            a, b, c = m["plane"]
            rows = [[x, y, a + b * x + c * y] for x in m["xs"] for y in m["ys"]]
            out["ENERGYFUNCTION"] = self.table("TABULAR", ["RATE", "GOR", "FUEL" if fuel else "POWER"], rows)
            out["VARIABLES"] = [
                {"NAME": "GOR", "EXPRESSION": self.expr(m["v2"])},
                {"NAME": "RATE", "EXPRESSION": self.expr(m["v"])},
            ]
        elif m["t"] == "CT":
            out["TYPE"] = "COMPRESSOR"
            out["ENERGYFUNCTION"] = self.table("COMPRESSOR_TABULAR", ["RATE", "POWER", "FUEL"], m["table"])
            out["RATE"] = self.expr(m["v"])
            out["SUCTION_PRESSURE"] = 10
            out["DISCHARGE_PRESSURE"] = 50
        self.condition(m.get("cond"), out)
        if m.get("plf") is not None:
            out["POWERLOSSFACTOR"] = self.expr(m["plf"])
        return out

    def consumer(self, c, fuel):
        out = {
            "NAME": c["name"],
            "CATEGORY": self.category(c.get("category", "MISCELLANEOUS")),
            "ENERGY_USAGE_MODEL": self.dated(c["models"], lambda m: self.energy_model(m, fuel)),
        }
        if fuel and c.get("fuel"):
            out["FUEL"] = self.dated(c["fuel"], lambda f: f)
        return out

    def genset(self, g):
        out = {
            "NAME": g["name"],
            "CATEGORY": self.dated(g["category"], lambda c: c),
            "ELECTRICITY2FUEL": self.dated(
                g["e2f"], lambda t: self.table("ELECTRICITY2FUEL", ["POWER", "FUEL"], t)
            ),
            "CONSUMERS": [self.consumer(c, False) for c in g["consumers"]],
        }
        if g.get("fuel"):
            out["FUEL"] = self.dated(g["fuel"], lambda f: f)
        if g.get("cable_loss") is not None:
            out["CABLE_LOSS"] = self.expr(g["cable_loss"])
        if g.get("max_usage") is not None:
            out["MAX_USAGE_FROM_SHORE"] = self.expr(g["max_usage"])
        return out

    def venting(self, v):
        out = {"NAME": v["name"], "CATEGORY": "COLD-VENTING-FUGITIVE", "TYPE": v["type"]}

        def rate(r):
            o = {"VALUE": self.expr(r["v"])}
            if r.get("unit"):
                o["UNIT"] = r["unit"]
            if r.get("rt"):
                o["TYPE"] = r["rt"]
            self.condition(r.get("cond"), o)
            return o

        if v["type"] == "DIRECT_EMISSION":
            out["EMISSIONS"] = [{"NAME": e["name"], "RATE": rate(e)} for e in v["emissions"]]
        else:
            out["CATEGORY"] = v["category"]
            out["VOLUME"] = {
                "RATE": rate(v["rate"]),
                "EMISSIONS": [
                    {"NAME": e["name"], "EMISSION_FACTOR": self.expr(e["factor"])} for e in v["emissions"]
                ],
            }
        return out

    def build(self):
        spec = self.spec
        insts = []
        for inst in spec["installations"]:
            out = {"NAME": inst["name"], "HCEXPORT": self.expr(inst["hcexport"])}
            if inst.get("category"):
                out["CATEGORY"] = inst["category"]
            if inst.get("regularity") is not None:
                out["REGULARITY"] = self.expr(inst["regularity"])
            if inst.get("fuel"):
                out["FUEL"] = self.dated(inst["fuel"], lambda f: f)
            if inst["gensets"]:
                out["GENERATORSETS"] = [self.genset(g) for g in inst["gensets"]]
            if inst["fuelconsumers"]:
                out["FUELCONSUMERS"] = [self.consumer(c, True) for c in inst["fuelconsumers"]]
            if inst["venting"]:
                out["VENTING_EMITTERS"] = [self.venting(v) for v in inst["venting"]]
            insts.append(out)
        fuels = []
        for f in spec["fuels"]:
            o = {"NAME": f["name"], "EMISSIONS": [{"NAME": e["name"], "FACTOR": self.expr(e["factor"])} for e in f["emissions"]]}
            if f.get("category"):
                o["CATEGORY"] = f["category"]
            fuels.append(o)
        self.columns.setdefault("DUMMY", [0] * self.n)
        self.files["sim.csv"] = csv_text(self.columns)
        data = {
            "TIME_SERIES": [{"NAME": "SIM", "TYPE": "DEFAULT", "FILE": "sim.csv"}],
            "FUEL_TYPES": fuels,
            "INSTALLATIONS": insts,
            "START": spec["dates"][0],
            "END": spec["dates"][-1],
        }
        if self.facility:
            data["FACILITY_INPUTS"] = self.facility
        return data, self.files


def build(spec):
    return Builder(spec).build()


# ---------------------------------------------------------------- reference


def interp_table(table, x, below=NAN, above=NAN):
    rows = sorted(table)
    if x < rows[0][0]:
        return below
    if x > rows[-1][0]:
        return above
    for (x0, y0), (x1, y1) in zip(rows, rows[1:]):
        if x0 <= x <= x1:
            return y0 + (y1 - y0) * (x - x0) / (x1 - x0)
    return rows[0][1]


def at(items, i):
    """The dated value in force at step i, or None."""
    out = None
    for k, v in items:
        if (k or 0) <= i:
            out = v
    return out


def holds(cond, i):
    if cond is None:
        return True
    if cond["kind"] in ("const", "raw"):
        return val(cond["v"], i) != 0
    return all(val(c["v"], i) > c["thr"] for c in cond["tests"])


def consumer_usage(m, i, reg):
    """Stream-day energy usage (before any grid) of an energy usage model at step i; NaN where the table does not reach."""
    if m is None or not holds(m.get("cond"), i):
        return 0.0
    plf = val(m["plf"], i) if m.get("plf") is not None else 0.0
    v = val(m["v"], i)
    if m["t"] == "D":
        if m.get("rt") == "CALENDAR_DAY":
            v = v / reg if reg > 0 else 0.0
        return v / (1 - plf)
    if m["t"] == "T":
        if m["var"].lower() == "rate":
            v = v / reg if reg > 0 else 0.0
        return interp_table(m["table"], v) / (1 - plf)
    if m["t"] == "CT":
        v = v / reg if reg > 0 else 0.0
        return interp_table([[r[0], r[2]] for r in m["table"]], v) if v > 0 else 0.0
    a, b, c = m["plane"]
    x = v / reg if reg > 0 else 0.0
    y = val(m["v2"], i)
    if not (min(m["xs"]) <= x <= max(m["xs"]) and min(m["ys"]) <= y <= max(m["ys"])):
        return NAN
    return (a + b * x + c * y) / (1 - plf)


def driven_power(m, i, reg):
    """The shaft power of a fuel consumer of type CT."""
    if m is None or m["t"] != "CT" or not holds(m.get("cond"), i):
        return 0.0
    v = val(m["v"], i)
    v = v / reg if reg > 0 else 0.0
    return interp_table([[r[0], r[1]] for r in m["table"]], v) if v > 0 else 0.0


def emissions_of(spec, fuel_items, fuel_rates):
    by_name = {f["name"]: f for f in spec["fuels"]}
    names = {e["name"].lower() for _, f in fuel_items for e in by_name[f]["emissions"]}
    out = {name: [0.0] * len(fuel_rates) for name in names}
    for i, rate in enumerate(fuel_rates):
        f = at(fuel_items, i)
        if f is None:
            continue
        for e in by_name[f]["emissions"]:
            out[e["name"].lower()][i] = rate * val(e["factor"], i) / 1000.0
    return out


def expect(spec):
    """name -> dict(power, fuel, emissions {name: [...]}, valid [...]); all rates per stream day, plus 'reg'."""
    n = len(spec["dates"]) - 1
    out = {}
    for inst in spec["installations"]:
        regs = [val(inst["regularity"], i) if inst.get("regularity") is not None else 1.0 for i in range(n)]
        children = []
        for g in inst["gensets"]:
            total = [0.0] * n
            unknown = [False] * n
            for c in g["consumers"]:
                power = [consumer_usage(at(c["models"], i), i, regs[i]) for i in range(n)]
                out[c["name"]] = {
                    "kind": "electric", "reg": regs, "power": power, "fuel": None, "emissions": {},
                    "valid": [not math.isnan(p) for p in power], "inst": inst["name"], "parent": g["name"],
                }
                children.append(c["name"])
                total = [t + (0.0 if math.isnan(p) else p) for t, p in zip(total, power)]
                unknown = [u or math.isnan(p) for u, p in zip(unknown, power)]
            fuel, margin, valid = [], [], []
            for i in range(n):
                t = at(g["e2f"], i)
                if t is None:
                    fuel.append(0.0)
                    margin.append(NAN)
                    valid.append(False)
                    continue
                top = max(r[0] for r in t)
                margin.append(top - total[i])
                valid.append(total[i] <= top)
                if total[i] <= 0:
                    fuel.append(0.0)
                else:
                    fuel.append(interp_table(t, total[i], min(r[1] for r in t), max(r[1] for r in t)))
            fuel_items = g.get("fuel") or inst["fuel"]
            cable = []
            for i in range(n):
                pfs = at(g["category"], i) == "POWER-FROM-SHORE"
                cable.append(val(g["cable_loss"], i) if pfs and g.get("cable_loss") is not None else 0.0)
            out[g["name"]] = {
                "kind": "genset", "unknown": unknown, "reg": regs, "power": total, "fuel": fuel, "margin": margin, "valid": valid,
                "emissions": emissions_of(spec, fuel_items, fuel), "inst": inst["name"], "parent": inst["name"],
                "produced": [p * (1 + c) for p, c in zip(total, cable)],
                "max_usage": [val(g["max_usage"], i) for i in range(n)] if g.get("max_usage") is not None else None,
                "fuel_items": fuel_items,
            }
            children.append(g["name"])
        for c in inst["fuelconsumers"]:
            fuel = [consumer_usage(at(c["models"], i), i, regs[i]) for i in range(n)]
            fuel_items = c.get("fuel") or inst["fuel"]
            out[c["name"]] = {
                "kind": "fuel", "reg": regs, "power": None, "driven": [driven_power(at(c["models"], i), i, regs[i]) for i in range(n)], "fuel": fuel, "valid": [not math.isnan(f) for f in fuel],
                "emissions": emissions_of(spec, fuel_items, fuel), "inst": inst["name"], "parent": inst["name"],
                "fuel_items": fuel_items,
            }
            children.append(c["name"])
        for v in inst["venting"]:
            em = {}
            if v["type"] == "DIRECT_EMISSION":
                for e in v["emissions"]:
                    k = 1.0 if e.get("unit") == "TONS_PER_DAY" else 0.001
                    em[e["name"].lower()] = [vent_rate(e, i, regs[i]) * k for i in range(n)]
                oil = None
            else:
                oil = [vent_rate(v["rate"], i, regs[i]) for i in range(n)]
                for e in v["emissions"]:
                    em[e["name"].lower()] = [oil[i] * val(e["factor"], i) / 1000.0 for i in range(n)]
            out[v["name"]] = {
                "kind": "venting", "reg": regs, "power": None, "fuel": None, "emissions": em, "oil": oil,
                "valid": [True] * n, "inst": inst["name"], "parent": inst["name"],
            }
            children.append(v["name"])
        out[inst["name"]] = {
            "kind": "installation", "reg": regs, "children": children,
            "valid": [all(out[c]["valid"][i] for c in children) for i in range(n)],
            "hcexport": [val(inst["hcexport"], i) for i in range(n)],
        }
    return out


def vent_rate(r, i, reg):
    if not holds(r.get("cond"), i):
        return 0.0
    v = val(r["v"], i)
    if r.get("rt") == "CALENDAR_DAY":
        return v / reg if reg > 0 else 0.0
    return v


# ---------------------------------------------------------------- strategies


def conditions(n):
    test = st.builds(
        lambda v, thr: {"v": v, "thr": thr},
        st.lists(st.integers(0, 3).map(float), min_size=n, max_size=n),
        st.sampled_from([0, 1, 2]),
    )
    return st.one_of(
        st.none(),
        st.none(),
        st.builds(lambda t: {"kind": "one", "tests": [t]}, test),
        st.builds(lambda t: {"kind": "many", "tests": t}, st.lists(test, min_size=1, max_size=3)),
        st.builds(lambda v: {"kind": "const", "v": v}, st.sampled_from([0, 1])),
        st.builds(lambda v: {"kind": "raw", "v": v}, st.lists(st.sampled_from([0.0, 0.0, 1.0, 1.0, 0.5, 2.0, -1.0]), min_size=n, max_size=n)),
    )


@st.composite
def energy_models(draw, n, fuel, kind=None, simple=False):
    kind = kind or draw(st.sampled_from(["D", "D", "T", "T2"]))
    hi = 5000.0 if fuel else 12.0
    m = {"t": kind}
    if not simple:
        m["cond"] = draw(conditions(n))
    if not fuel and draw(st.booleans()):
        m["plf"] = draw(num(n, st.one_of(st.just(0.0), nice(0, 0.9, 2), st.sampled_from([0.1, 0.5]))))
    if kind == "D":
        base = st.one_of(st.just(0.0), nice(0, hi, 2))
        if not fuel:
            base = st.one_of(base, base, base, nice(-5, 0, 1))
        m["v"] = draw(num(n, base))
        m["rt"] = draw(st.sampled_from([None, "STREAM_DAY", "CALENDAR_DAY"]))
    elif kind == "T":
        m["var"] = draw(st.sampled_from(["RATE", "RATE", "LOADFRACTION", "GOR"]))
        k = draw(st.integers(2, 5))
        xs = sorted(draw(st.sets(st.integers(0, 40), min_size=k, max_size=k)))
        rows = [[float(x), draw(nice(0, hi, 1))] for x in xs]
        m["table"] = draw(st.permutations(rows)) if draw(st.booleans()) else rows
        m["v"] = draw(num(n, nice(0, 45, 1)))
    else:
        m["xs"] = sorted(float(x) for x in draw(st.sets(st.integers(0, 40), min_size=2, max_size=3)))
        m["ys"] = sorted(float(x) for x in draw(st.sets(st.integers(0, 40), min_size=2, max_size=3)))
        m["plane"] = [draw(nice(0, hi / 3, 1)), draw(nice(0, hi / 100, 2)), draw(nice(0, hi / 100, 2))]
        # stay clear of the edges of the table, where rounding decides
        m["v"] = draw(num(n, st.integers(-1, 42).map(lambda k: max(0.0, k + 0.37))))
        m["v2"] = draw(num(n, st.integers(-1, 42).map(lambda k: max(0.0, k + 0.43))))
    return m


@st.composite
def dated_items(draw, n, strategy, may_start_late=False, max_items=3):
    """[[None, v]] or [[index, v], ...] in date order."""
    if draw(st.booleans()):
        return [[None, draw(strategy)]]
    k = draw(st.integers(1, min(max_items, n)))
    idx = sorted(draw(st.sets(st.integers(0, n - 1), min_size=k, max_size=k)))
    if not may_start_late:
        idx[0] = 0
        idx = sorted(set(idx))
    return [[i, draw(strategy)] for i in idx]


@st.composite
def consumers(draw, n, fuel, name, fuels, simple=False):
    kind = draw(st.sampled_from(["D", "D", "D", "T", "T2"]))
    c = {"name": name, "models": draw(dated_items(n, energy_models(n, fuel, kind, simple), may_start_late=True))}
    if fuel and fuels and draw(st.integers(0, 2)) == 0:
        c["fuel"] = draw(dated_items(n, st.sampled_from(fuels)))
    return c


@st.composite
def e2f_tables(draw):
    k = draw(st.integers(2, 5))
    xs = sorted(draw(st.sets(st.integers(0, 60), min_size=k, max_size=k)))
    ys = sorted(draw(st.lists(nice(0, 5000, 1), min_size=k, max_size=k)))
    if xs[-1] == 0:
        xs = [0, 10]
    return [[float(x), y] for x, y in zip(xs, ys)]


@st.composite
def gensets(draw, n, name, fuels, names, simple=False, pfs=True):
    category = [[None, "TURBINE-GENERATOR"]]
    if pfs:
        category = draw(dated_items(n, st.sampled_from(["TURBINE-GENERATOR", "POWER-FROM-SHORE"])))
    g = {
        "name": name,
        "category": category,
        "e2f": draw(dated_items(n, e2f_tables(), may_start_late=draw(st.integers(0, 3)) == 0)),
        "consumers": [
            draw(consumers(n, False, next(names), fuels, simple)) for _ in range(draw(st.integers(1, 3)))
        ],
    }
    if draw(st.integers(0, 2)) == 0:
        g["fuel"] = draw(dated_items(n, st.sampled_from(fuels)))
    if any(c == "POWER-FROM-SHORE" for _, c in category):
        if draw(st.booleans()):
            g["cable_loss"] = draw(num(n, nice(0, 0.5, 2)))
        if draw(st.booleans()):
            g["max_usage"] = draw(num(n, nice(0.5, 50, 1)))
    return g


EMISSION_NAMES = ["co2", "CO2", "ch4", "NOX", "nmVOC", "n2o"]


@st.composite
def fuel_types(draw, n, name):
    names = draw(st.permutations(EMISSION_NAMES))
    out, seen = [], set()
    for e in names[: draw(st.integers(1, 4))]:
        if e.lower() in seen:
            continue
        seen.add(e.lower())
        out.append({"name": e, "factor": draw(num(n, st.one_of(nice(0, 4, 3), st.just(0.0))))})
    return {"name": name, "emissions": out, "category": draw(st.sampled_from([None, "FUEL-GAS", "DIESEL"]))}


@st.composite
def venting_emitters(draw, n, name):
    def rate():
        return {
            "v": draw(num(n, st.one_of(st.just(0.0), nice(0, 500, 2)))),
            "rt": draw(st.sampled_from([None, "STREAM_DAY", "CALENDAR_DAY"])),
            "cond": draw(conditions(n)),
        }

    names, seen = [], set()
    for e in draw(st.permutations(EMISSION_NAMES))[: draw(st.integers(1, 3))]:
        if e.lower() not in seen:
            seen.add(e.lower())
            names.append(e)
    if draw(st.booleans()):
        return {
            "name": name, "type": "DIRECT_EMISSION",
            "emissions": [
                dict(rate(), name=e, unit=draw(st.sampled_from([None, "KG_PER_DAY", "TONS_PER_DAY"]))) for e in names
            ],
        }
    r = rate()
    r["unit"] = draw(st.sampled_from([None, "SM3_PER_DAY"]))
    return {
        "name": name, "type": "OIL_VOLUME", "rate": r, "category": draw(st.sampled_from(["LOADING", "STORAGE"])),
        "emissions": [{"name": e, "factor": draw(num(n, nice(0, 3, 3)))} for e in names],
    }


regs = st.one_of(st.just(1.0), nice(0.05, 1, 2), nice(0.5, 1, 3), st.just(0.0))


@st.composite
def asset_specs(draw, gs=(0, 2), fc=(0, 2), ve=(0, 1), insts=(1, 2), steps=(1, 5), simple=False, pfs=True, zero_reg=True):
    dates = draw(date_list(min_size=steps[0] + 1, max_size=steps[1] + 1))
    n = len(dates) - 1
    counter = iter(range(1000))
    names = iter(f"comp{i}" for i in range(1000))
    fuels = [draw(fuel_types(n, f"fuel{i}")) for i in range(draw(st.integers(1, 3)))]
    fuel_names = [f["name"] for f in fuels]
    installations = []
    reg = regs if zero_reg else regs.filter(lambda r: r > 0)
    for k in range(draw(st.integers(*insts))):
        g = [
            draw(gensets(n, f"genset{next(counter)}", fuel_names, names, simple, pfs))
            for _ in range(draw(st.integers(*gs)))
        ]
        f = [draw(consumers(n, True, next(names), fuel_names, simple)) for _ in range(draw(st.integers(*fc)))]
        v = [draw(venting_emitters(n, f"vent{next(counter)}")) for _ in range(draw(st.integers(*ve)))]
        if not g and not f and not v:
            f = [draw(consumers(n, True, next(names), fuel_names, simple))]
        installations.append({
            "name": f"inst{k}",
            "hcexport": draw(num(n, nice(0, 1000, 1))),
            "regularity": draw(st.one_of(st.none(), num(n, reg))),
            "fuel": draw(dated_items(n, st.sampled_from(fuel_names))),
            "category": draw(st.sampled_from([None, "FIXED", "MOBILE"])),
            "gensets": g, "fuelconsumers": f, "venting": v,
        })
    return {"dates": dates, "fuels": fuels, "installations": installations}

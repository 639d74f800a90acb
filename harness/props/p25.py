"""The tables for the long and short term prognosis: what is in a column is what the columns' filter selects from the model."""
from __future__ import annotations

import math
from datetime import datetime

from hypothesis import strategies as st

from harness import assetgen as ag
from harness.core import Ctx, Sub, require
from harness.e2e import Run
from harness.gen import days, dt, nice

CATEGORIES = [
    "BASE-LOAD", "COLD-VENTING-FUGITIVE", "COMPRESSOR", "FIXED-PRODUCTION-LOAD", "FLARE", "MISCELLANEOUS", "PUMP",
    "GAS-DRIVEN-COMPRESSOR", "OFFSHORE-WIND", "STEAM-TURBINE-GENERATOR", "BOILER", "HEATER",
]
FUEL_CATEGORIES = ["FLARE", "BOILER", "HEATER", "GAS-DRIVEN-COMPRESSOR", "MISCELLANEOUS", "TURBINE-GENERATOR"]
POWER_CATEGORIES = ["BASE-LOAD", "OFFSHORE-WIND", "STEAM-TURBINE-GENERATOR", "GAS-DRIVEN-COMPRESSOR", "PUMP"]

TURBINE = ("TURBINE-GENERATOR", "GAS-DRIVEN-COMPRESSOR")


def reference_columns():
    """column -> (what, installation category, filters)"""
    cols = {
        "turbineFuelGasConsumption": ("fuel", "FIXED", {"fuel": "FUEL-GAS", "cat": TURBINE}),
        "flareGasConsumption": ("fuel", "FIXED", {"cat": ("FLARE",)}),
        "engineDieselConsumption": ("fuel", "FIXED", {"fuel": "DIESEL"}),
        "engineNoCo2TaxDieselConsumption": ("fuel", "MOBILE", {"fuel": "DIESEL"}),
        "boilerFuelGasConsumption": ("fuel", "FIXED", {"fuel": "FUEL-GAS", "cat": ("BOILER",)}),
        "boilerDieselConsumption": ("fuel", "FIXED", {"fuel": "DIESEL", "cat": ("BOILER",)}),
        "heaterFuelGasConsumption": ("fuel", "FIXED", {"fuel": "FUEL-GAS", "cat": ("HEATER",)}),
        "heaterDieselConsumption": ("fuel", "FIXED", {"fuel": "DIESEL", "cat": ("HEATER",)}),
        "co2VentingMass": ("emission", "FIXED", {"em": "co2", "cat": ("COLD-VENTING-FUGITIVE",)}),
        "loadedAndStoredOil": ("oil", "FIXED", {"cat": ("LOADING",)}),
        "gasTurbineGeneratorConsumption": ("generated", "FIXED", {"producer": "TURBINE-GENERATOR"}),
        "gasTurbineCompressorConsumption": ("power", "FIXED", {"cat": ("GAS-DRIVEN-COMPRESSOR",)}),
        "offshoreWindConsumption": ("minus power", "FIXED", {"cat": ("OFFSHORE-WIND",)}),
        "fromShoreConsumption": ("power", None, {"producer": "POWER-FROM-SHORE"}),
        "powerSupplyOnshore": ("generated", None, {"producer": "POWER-FROM-SHORE"}),
        "fromShorePeakMaximum": ("maximum", None, {"producer": "POWER-FROM-SHORE"}),
        "steamTurbineGeneratorConsumption": ("minus power", "FIXED", {"cat": ("STEAM-TURBINE-GENERATOR",)}),
    }
    for em, name in (("co2", "Co2"), ("nox", "Nox"), ("nmvoc", "Nmvoc"), ("ch4", "Ch4")):
        cols[f"turbineFuelGas{name}Mass"] = ("emission", "FIXED", {"em": em, "fuel": "FUEL-GAS", "cat": TURBINE})
        cols[f"flareGas{name}Mass"] = ("emission", "FIXED", {"em": em, "cat": ("FLARE",)})
        cols[f"engineDiesel{name}Mass"] = ("emission", "FIXED", {"em": em, "fuel": "DIESEL"})
        cols[f"engineNoCo2TaxDiesel{name}Mass"] = ("emission", "MOBILE", {"em": em, "fuel": "DIESEL"})
        for who in ("BOILER", "HEATER"):
            cols[f"{who.lower()}FuelGas{name}Mass"] = ("emission", "FIXED", {"em": em, "fuel": "FUEL-GAS", "cat": (who,)})
            cols[f"{who.lower()}Diesel{name}Mass"] = ("emission", "FIXED", {"em": em, "fuel": "DIESEL", "cat": (who,)})
        if em in ("nmvoc", "ch4"):
            vent = ("COLD-VENTING-FUGITIVE",)
            cols[f"coldVentAndFugitives{name}Mass"] = ("emission", "FIXED", {"em": em, "cat": vent})
            cols[f"coldVentAndFugitivesNoCo2Tax{name}Mass"] = ("emission", "MOBILE", {"em": em, "cat": vent})
            cols[f"storage{name}Mass"] = ("emission", "FIXED", {"em": em, "cat": ("STORAGE",)})
            cols[f"loading{name}Mass"] = ("emission", "FIXED", {"em": em, "cat": ("LOADING",)})
    short = {
        "co2Emission": ("emission", "FIXED", {"em": "co2"}),
        "co2FromMobileUnits": ("emission", "MOBILE", {"em": "co2"}),
        "methaneEmission": ("emission", "FIXED", {"em": "ch4"}),
        "flareGasCo2Mass": cols["flareGasCo2Mass"],
        "flareGasCh4Mass": cols["flareGasCh4Mass"],
        "powerSupplyOnshore": cols["powerSupplyOnshore"],
        "flare": ("fuel", "FIXED", {"cat": ("FLARE",)}),
    }
    return {"LTP": cols, "STP": short}


COLUMNS = reference_columns()


# ---------------------------------------------------------------- reference


def boundaries(dates, freq):
    ds = [dt(d) for d in dates]
    if freq == "NONE":
        return ds
    cuts = []
    d = datetime(ds[0].year, 1, 1)
    while d < ds[-1]:
        if d > ds[0]:
            cuts.append(d)
        if freq == "YEAR":
            d = datetime(d.year + 1, 1, 1)
        else:
            d = datetime(d.year + (d.month == 12), d.month % 12 + 1, 1)
    return [ds[0], *cuts, ds[-1]]


def resample_volumes(dates, volumes, bounds):
    ds = [dt(d) for d in dates]
    out = []
    for a, b in zip(bounds, bounds[1:]):
        total = 0.0
        for x, y, v in zip(ds, ds[1:], volumes):
            overlap = days(max(a, x), min(b, y))
            if overlap > 0:
                total += v * overlap / days(x, y)
        out.append(total)
    return out


def resample_max(dates, values, bounds):
    ds = [dt(d) for d in dates]
    return [
        max(v for x, y, v in zip(ds, ds[1:], values) if max(a, x) < min(b, y)) for a, b in zip(bounds, bounds[1:])
    ]


def categories(spec):
    """component -> category per step (None where it has none)"""
    n = len(spec["dates"]) - 1
    out = {}
    for inst in spec["installations"]:
        for g in inst["gensets"]:
            out[g["name"]] = [ag.at(g["category"], i) for i in range(n)]
        for c in [*(c for g in inst["gensets"] for c in g["consumers"]), *inst["fuelconsumers"]]:
            cat = c.get("category", "MISCELLANEOUS")
            out[c["name"]] = [cat] * n if isinstance(cat, str) else [ag.at(cat, i) for i in range(n)]
        for v in inst["venting"]:
            out[v["name"]] = [v["category"] if v["type"] == "OIL_VOLUME" else "COLD-VENTING-FUGITIVE"] * n
    return out


def column_steps(spec, exp, cats, inst, what, flt):
    """The value of the column in each time step (a volume, except for the maximum)."""
    n = len(spec["dates"]) - 1
    fuel_category = {f["name"]: f.get("category") for f in spec["fuels"]}
    length = [days(dt(a), dt(b)) for a, b in zip(spec["dates"], spec["dates"][1:])]
    out = [0.0] * n
    for name in exp[inst["name"]]["children"]:
        e = exp[name]
        kind = e["kind"]
        for i in range(n):
            vol = length[i] * e["reg"][i]
            cat = cats[name][i]
            if "cat" in flt and cat not in flt["cat"]:
                continue
            if "fuel" in flt:
                if kind not in ("genset", "fuel") or fuel_category[ag.at(e["fuel_items"], i)] != flt["fuel"]:
                    continue
            v = 0.0
            if what == "fuel":
                v = e["fuel"][i] * vol if kind in ("genset", "fuel") else 0.0
            elif what == "emission":
                v = e["emissions"][flt["em"]][i] * vol if flt["em"] in e["emissions"] else 0.0
            elif what == "oil":
                v = e["oil"][i] * vol if kind == "venting" and e["oil"] is not None else 0.0
            elif what == "generated":
                v = e["produced"][i] * vol * 24 / 1000 if kind == "genset" and cat == flt["producer"] else 0.0
            elif what == "maximum":
                v = e["max_usage"][i] if kind == "genset" and e["max_usage"] and cat == flt["producer"] else 0.0
            elif what in ("power", "minus power"):
                if "producer" in flt and (kind != "electric" or cats[e["parent"]][i] != flt["producer"]):
                    continue
                p = e["power"][i] if kind == "electric" else e["driven"][i] if kind == "fuel" else 0.0
                v = p * vol * 24 / 1000 * (-1 if what == "minus power" else 1)
            out[i] += 0.0 if math.isnan(v) else v
    return out


def tolerance(x):
    x = abs(x)
    digits = math.floor(math.log10(x)) + 1 if x > 0 else 0
    return 0.5001 * min(1.0, max(1e-6, 10.0 ** (digits - 6))) * 1.0000001 + x * 1e-9


# ---------------------------------------------------------------- strategy


@st.composite
def driven(draw, n):
    """A compressor driven by fuel, with the power known as well: rates stay inside the table for every regularity above 0.05."""
    rates = [0.0, 100.0, 400.0, 20000.0]
    power = [0.0, *sorted(draw(st.lists(nice(0, 20, 1), min_size=3, max_size=3)))]
    fuel = [0.0, *sorted(draw(st.sets(st.integers(1, 5000).map(float), min_size=3, max_size=3)))]
    return {"t": "CT", "table": [[r, p, f] for r, p, f in zip(rates, power, fuel)],
            "v": draw(ag.num(n, st.one_of(st.just(0.0), nice(1, 900, 1)))), "cond": draw(ag.conditions(n))}


@st.composite
def case(draw):
    spec = draw(ag.asset_specs(gs=(0, 2), fc=(0, 3), ve=(0, 2), insts=(1, 2), steps=(1, 5), zero_reg=False))
    n = len(spec["dates"]) - 1
    for f in spec["fuels"]:
        f["category"] = draw(st.sampled_from(["FUEL-GAS", "FUEL-GAS", "DIESEL", None]))
    for inst in spec["installations"]:
        inst["category"] = draw(st.sampled_from(["FIXED", "FIXED", "MOBILE", None]))
        for c in inst["fuelconsumers"]:
            if draw(st.integers(0, 3)) == 0:
                c["models"] = draw(ag.dated_items(n, driven(n), may_start_late=True))
                c["category"] = draw(ag.dated_items(n, st.sampled_from(["GAS-DRIVEN-COMPRESSOR", "COMPRESSOR", "BOILER"])))
            else:
                c["category"] = draw(ag.dated_items(n, st.sampled_from(FUEL_CATEGORIES)))
            if len(c["category"]) == 1 and c["category"][0][0] is None:
                c["category"] = c["category"][0][1]
        for g in inst["gensets"]:
            for c in g["consumers"]:
                c["category"] = draw(ag.dated_items(n, st.sampled_from(POWER_CATEGORIES)))
    return {"spec": spec, "freq": draw(st.sampled_from(["YEAR", "NONE", "MONTH"])), "table": draw(st.sampled_from(["LTP", "LTP", "STP"]))}


def export(run, table, freq):
    from libecalc.common.time_utils import Frequency
    from libecalc.presentation.exporter.configs.configs import LTPConfig, STPConfig
    from libecalc.presentation.exporter.configs.formatter_config import PeriodFormatterConfig
    from libecalc.presentation.exporter.formatters.formatter import CSVFormatter
    from libecalc.presentation.exporter.infrastructure import ExportableYamlModel

    config = {"LTP": LTPConfig, "STP": STPConfig}[table]
    result = config.filter(frequency=Frequency[freq]).filter(ExportableYamlModel(run.model))
    return CSVFormatter(
        separation_character="\t", index_formatters=PeriodFormatterConfig.get_row_index_formatters()
    ).format_groups(result)


def check(c, ctx: Ctx):
    spec = c["spec"]
    data, files = ag.build(spec)
    exp = ag.expect(spec)
    run = Run(data, files)
    texts = export(run, c["table"], c["freq"])
    require(sorted(texts) == sorted(i["name"] for i in spec["installations"]), f"tables {sorted(texts)}")
    bounds = boundaries(spec["dates"], c["freq"])
    cats = categories(spec)
    used = 0
    for inst in spec["installations"]:
        lines = texts[inst["name"]]
        head = lines[0].split("\t")
        where = f"{c['table']} {inst['name']}"
        require(head[:2] == ["forecastYear", "forecastMonth"], f"{where}: header {head[:3]}")
        require(len(lines[1].split("\t")) == len(head), f"{where}: titles and columns differ in number")
        want = {k: v for k, v in COLUMNS[c["table"]].items() if v[1] is None or v[1] == inst["category"]}
        require(sorted(head[2:]) == sorted(want), f"{where}: columns {sorted(set(head[2:]) ^ set(want))} missing or too many")
        rows = [line.split("\t") for line in lines[2:]]
        require(
            [(int(r[0]), int(r[1])) for r in rows] == [(b.year, b.month) for b in bounds[:-1]],
            f"{where}: rows {[r[:2] for r in rows]} expected {bounds}",
        )
        for j, col in enumerate(head[2:], start=2):
            what, _, flt = want[col]
            steps = column_steps(spec, exp, cats, inst, what, flt)
            values = (resample_max if what == "maximum" else resample_volumes)(spec["dates"], steps, bounds)
            got = [float(r[j]) for r in rows]
            for g, v, b in zip(got, values, bounds):
                require(abs(g - v) <= tolerance(v), f"{where} {col} from {b:%Y-%m-%d}: {got} expected {values}")
            if any(steps):
                used += 1
                ctx.label(f"{what} {'mobile' if inst['category'] == 'MOBILE' else ''}".strip())
    ctx.label(c["freq"])
    ctx.nontrivial(used >= 2)


# ---------------------------------------------------------------- totals: the tables do not depend on the frequency


def check_totals(c, ctx: Ctx):
    """Sums over the rows are the same for every frequency, and equal the asset's own totals where a column covers everything."""
    spec = c["spec"]
    data, files = ag.build(spec)
    run = Run(data, files)
    sums = {}
    for freq in ("NONE", "MONTH", "YEAR"):
        for name, lines in export(run, c["table"], freq).items():
            head = lines[0].split("\t")
            for j, col in enumerate(head[2:], start=2):
                if col == "fromShorePeakMaximum":
                    continue
                vals = [float(line.split("\t")[j]) for line in lines[2:]]
                sums.setdefault((name, col), []).append((sum(vals), sum(tolerance(v) for v in vals)))
    for key, xs in sums.items():
        require(len(xs) == 3, f"{key} is not in the table for every frequency")
        for s, tol in xs[1:]:
            require(abs(s - xs[0][0]) <= tol + xs[0][1] + 1e-6, f"{key}: sum over the rows per step, month, year: {[x[0] for x in xs]}")
    if c["table"] == "STP":
        for inst in spec["installations"]:
            col = {"FIXED": "co2Emission", "MOBILE": "co2FromMobileUnits"}.get(inst["category"])
            if col is None:
                continue
            em = {k.lower(): v for k, v in run.by_name[inst["name"]].emissions.items()}.get("co2")
            total = em.cumulative.values[-1] if em is not None else 0.0
            s, tol = sums[(inst["name"], col)][0]
            require(abs(s - total) <= tol + 1e-6 + abs(total) * 1e-9, f"{inst['name']} {col} sums to {s}, the model reports {total}")
            ctx.label("asset total")
    ctx.nontrivial(sum(1 for xs in sums.values() if xs[0][0] != 0) >= 2)


SUBCHECKS = [
    Sub("columns", case(), check, quick=350, thorough=5000, rule="at least two columns have values"),
    Sub("totals", case(), check_totals, quick=70, thorough=1000, rule="at least two columns have values"),
]

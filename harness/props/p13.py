"""Consumer systems: the first operational setting every consumer can handle is used, after cross-over."""
import math

from hypothesis import strategies as st

from harness import assetcheck as ac
from harness import charts as ch
from harness.core import Ctx, Sub, expect_raises, require, require_close
from harness.e2e import Run, csv_text
from harness.gen import nice
from harness.props.p17 import expected as pump_expected
from harness.props.p17 import near


# ---------------------------------------------------------------- one consumer
def pump_eval(k, rate, ps, pd, rho, limited):
    """(power or None, valid or None) of a pump; `limited`: it has been left with exactly its maximum rate."""
    head = (pd - ps) * 1e5 / rho
    if rate <= 0:
        return 0.0, True
    if not limited:
        e = pump_expected(k["curves"], rate / 24, head, rho, 0.0)
        return e if e is not None else (None, None)
    hi = k["curves"][-1]
    if near(head, hi["head"][0]) or near(head, hi["head"][-1]):
        return None, None
    if head > hi["head"][0]:
        e = pump_expected(k["curves"], rate / 24 * (1 - 1e-12), head, rho, 0.0)
        return (e[0] if e else None), False
    q, h = rate / 24, max(head, hi["head"][-1])
    eff, ambiguous = ch.efficiency(k["curves"], q, h)
    return (None if ambiguous else rho * h * q / 3600 / 1e6 / eff), True


def pump_max(k, ps, pd, rho):
    return ch.max_rate(k["curves"], (pd - ps) * 1e5 / rho) * 24


def table_eval(k, rate, ps, pd, rho, limited):
    if rate <= 0:
        return 0.0, True
    r = k["rates"]
    if near(rate, r[-1]) and not limited or k.get("pd") and near(pd, k["pd"][-1]):
        return None, None
    if rate > r[-1] and not limited or k.get("pd") and pd > k["pd"][-1]:
        return None, False
    a = max(rate, r[0])
    if not k.get("pd"):
        return ch.interp(a, r, k["values"]), True
    return k["c"][0] + k["c"][1] * a + k["c"][2] * max(pd, k["pd"][0]), True


def table_max(k, ps, pd, rho):
    if k.get("pd") and pd > k["pd"][-1]:
        return 0.0  # it can not deliver that pressure at all
    return k["rates"][-1]


def reference(c, order):
    """Per step: (setting index, [(rate, ps, pd, power, valid) per consumer]) or None where it is too close to call."""
    ev, mx = (pump_eval, pump_max) if c["kind"] == "pump" else (table_eval, table_max)
    out = []
    for i in range(c["n"]):
        on = not c["cond"] or c["cond"][i] > 0
        found = None
        for s in order:
            setting = c["settings"][s]
            rate = [x[i] if on else 0.0 for x in setting["rates"]]
            if setting.get("total"):
                rate = [setting["total"][i] * x[i] if on else 0.0 for x in setting["fractions"]]
            ps = [x[i] for x in setting["ps"]]
            pd = [x[i] for x in setting["pd"]]
            rho = [x[i] for x in setting["rho"]]
            after, limited, sure = list(rate), [False] * len(rate), True
            for a, b in enumerate(setting["crossover"] or []):
                if b == 0 or pd[b - 1] < pd[a]:
                    continue
                best = mx(c["consumers"][a], ps[a], pd[a], rho[a])
                if math.isnan(best):
                    continue
                if c["kind"] != "pump" and c["consumers"][a].get("pd") and near(pd[a], c["consumers"][a]["pd"][-1]):
                    sure = False
                if near(rate[a], best):
                    sure = False
                elif rate[a] > best:
                    after[b - 1] += rate[a] - best
                    after[a] = best
                    limited[a] = True
            res = [ev(k, *x) for k, x in zip(c["consumers"], zip(after, ps, pd, rho, limited))]
            if not sure or any(v is None for _, v in res):
                found = None
                break
            found = (s, [(r, a, b, p, v) for r, a, b, (p, v) in zip(after, ps, pd, res)], any(limited))
            if all(v for _, v in res):
                break
        out.append(found)
    return out


# ---------------------------------------------------------------- cases
@st.composite
def table(draw):
    n = draw(st.integers(2, 4))
    r = [draw(nice(10, 500, 0))]
    for _ in range(n - 1):
        r.append(r[-1] + draw(nice(50, 800, 0)))
    v = [draw(nice(0.5, 5, 2))]
    for _ in range(n - 1):
        v.append(round(v[-1] + draw(nice(0.1, 4, 2)), 2))
    k = {"rates": r, "values": v}
    if draw(st.booleans()):
        k["pd"] = sorted({draw(nice(20, 60, 0)), draw(nice(61, 150, 0))})
        k["c"] = [draw(nice(0.5, 3, 1)), draw(nice(0.001, 0.01, 3)), draw(nice(0.01, 0.1, 2))]
    return k


@st.composite
def system_case(draw):
    kind = draw(st.sampled_from(["pump", "pump", "table", "fuel"]))
    m, n = draw(st.sampled_from([2, 3, 2, 1])), draw(st.integers(1, 4))
    consumers = [{"curves": draw(ch.curves(n_max=2, eff="const"))} if kind == "pump" else draw(table()) for _ in range(m)]
    if draw(st.booleans()):
        consumers = consumers[:1] * m  # equal machines, as in most systems
    total = [draw(nice(100, 5000, 0)) for _ in range(n)] if draw(st.integers(0, 2)) == 0 else None
    settings = []
    for _ in range(draw(st.sampled_from([1, 2, 2, 3, 3, 4, 6]))):
        s = {"ps": [], "pd": [], "rho": [], "rates": [], "crossover": None}
        shared_ps, shared_pd = draw(st.booleans()), draw(st.booleans())
        for k in consumers:
            rho = [draw(st.sampled_from([1000.0, 850.0])) for _ in range(n)]
            ps = [draw(nice(1, 20, 0)) for _ in range(n)]
            if shared_ps and s["ps"]:
                ps = s["ps"][0]
            if kind == "pump":
                lo, hi = k["curves"][0]["head"][-1], k["curves"][-1]["head"][0]
                hs = [lo + draw(nice(-0.3, 1.05, 2)) * (hi - lo) for _ in range(n)]
                pd = [round(p + max(h, 0) * d / 1e5, 3) for p, h, d in zip(ps, hs, rho)]
                top = k["curves"][-1]["rate"][-1] * 24
            else:
                lo, hi = (k["pd"][0], k["pd"][-1]) if k.get("pd") else (25, 100)
                pd = [max(p, lo + draw(nice(-0.3, 1.05, 2)) * (hi - lo)) for p in ps]
                top = k["rates"][-1]
            if shared_pd and s["pd"]:
                pd = [max(a, b) for a, b in zip(s["pd"][0], ps)]
            rates = [draw(st.sampled_from([0.0, 0.4, 0.4, 0.9, 1.5])) * top * draw(nice(0.5, 1, 2)) for _ in range(n)]
            s["ps"].append(ps)
            s["pd"].append(pd)
            s["rho"].append(rho)
            s["rates"].append(rates)
        s["shared_ps"] = shared_ps
        s["shared_pd"] = shared_pd and all(x == s["pd"][0] for x in s["pd"])
        if total and draw(st.booleans()):
            s["total"] = total
            s["fractions"] = [[round(r / t, 4) for r, t in zip(x, total)] for x in s["rates"]]
        if m > 1 and draw(st.integers(0, 3)):
            receivers = draw(st.sets(st.integers(1, m), min_size=1, max_size=max(1, m - 1)))
            s["crossover"] = [0 if i + 1 in receivers else draw(st.sampled_from([*sorted(receivers), *sorted(receivers), 0])) for i in range(m)]
        settings.append(s)
    return {
        "kind": kind, "n": n, "consumers": consumers, "settings": settings, "total": total,
        "cond": [draw(st.sampled_from([1, 1, 0])) for _ in range(n)] if draw(st.integers(0, 3)) == 0 else None,
        "plf": draw(st.one_of(st.none(), nice(0, 0.5, 2), st.lists(st.sampled_from([0.0, 0.1, 0.5]), min_size=n, max_size=n))),
        "reg": draw(st.one_of(st.just(1.0), nice(0.3, 1, 2))),
        "swap": draw(st.integers(0, n)) if draw(st.integers(0, 2)) == 0 else None,
    }


def build(c, mutate=None):
    n, m = c["n"], len(c["consumers"])
    dates = [f"{2020 + i}-01-01" for i in range(n + 1)]
    series = {"DATE": dates[:-1]}

    def column(name, values):
        series[name] = values
        return f"S;{name}"

    settings = []
    for j, s in enumerate(c["settings"]):
        y = {}
        if s.get("total"):
            y["RATE_FRACTIONS"] = [column(f"F{j}_{k}", x) for k, x in enumerate(s["fractions"])]
        else:
            y["RATES"] = [column(f"R{j}_{k}", [r * c["reg"] for r in x]) for k, x in enumerate(s["rates"])]
        for key, name in (("ps", "SUCTION_PRESSURE"), ("pd", "DISCHARGE_PRESSURE")):
            if s["shared_" + key]:
                y[name] = column(f"{key}{j}", s[key][0])
            else:
                y[name + "S"] = [column(f"{key}{j}_{k}", x) for k, x in enumerate(s[key])]
        if c["kind"] == "pump":
            y["FLUID_DENSITIES"] = [column(f"d{j}_{k}", x) for k, x in enumerate(s["rho"])]
        if s["crossover"]:
            y["CROSSOVER"] = s["crossover"]
        settings.append(y)
    if c["kind"] == "pump":
        model = {"TYPE": "PUMP_SYSTEM", "PUMPS": [{"NAME": f"k{i}", "CHART": f"m{i}"} for i in range(m)]}
    else:
        model = {"TYPE": "COMPRESSOR_SYSTEM", "COMPRESSORS": [{"NAME": f"k{i}", "COMPRESSOR_MODEL": f"m{i}"} for i in range(m)]}
    if any(s.get("total") for s in c["settings"]):
        model["TOTAL_SYSTEM_RATE"] = column("T", [t * c["reg"] for t in c["total"]])
    if c["plf"] is not None:
        model["POWERLOSSFACTOR"] = column("L", c["plf"]) if isinstance(c["plf"], list) else c["plf"]
    if c["cond"]:
        model["CONDITION"] = column("C", c["cond"]) + " > 0"
    facilities, files = [], {}
    for i, k in enumerate(c["consumers"]):
        f = {"NAME": f"m{i}", "FILE": f"m{i}.csv"}
        if c["kind"] == "pump":
            f["TYPE"] = "PUMP_CHART_SINGLE_SPEED" if len(k["curves"]) == 1 else "PUMP_CHART_VARIABLE_SPEED"
            f["UNITS"] = {"RATE": "AM3_PER_HOUR", "HEAD": "JOULE_PER_KG", "EFFICIENCY": "FRACTION"}
            rows = [(x["speed"], q, h, e) for x in k["curves"] for q, h, e in zip(x["rate"], x["head"], x["eff"])]
            cols = dict(zip(["SPEED", "RATE", "HEAD", "EFFICIENCY"], map(list, zip(*rows))))
        else:
            f["TYPE"] = "COMPRESSOR_TABULAR"
            value = "FUEL" if c["kind"] == "fuel" else "POWER"
            if k.get("pd"):
                rows = [(r, p, k["c"][0] + k["c"][1] * r + k["c"][2] * p) for r in k["rates"] for p in k["pd"]]
                cols = dict(zip(["RATE", "DISCHARGE_PRESSURE", value], map(list, zip(*rows))))
            else:
                cols = {"RATE": k["rates"], value: k["values"]}
        facilities.append(f)
        files[f["FILE"]] = csv_text(cols)
    dated = {dates[0]: {**model, "OPERATIONAL_SETTINGS": settings}}
    if c["swap"] is not None and c["swap"] < n:
        other = {**model, "OPERATIONAL_SETTINGS": settings[::-1]}
        if c["swap"] == 0:
            dated = {dates[0]: other}
        else:
            dated[dates[c["swap"]]] = other
    if mutate:
        mutate(dated)
    consumer = {"NAME": "x", "CATEGORY": "PUMP" if c["kind"] == "pump" else "COMPRESSOR", "ENERGY_USAGE_MODEL": dated if len(dated) > 1 or mutate else dated[dates[0]]}
    inst = {"NAME": "i", "HCEXPORT": 0, "FUEL": "f", "REGULARITY": c["reg"]}
    if c["kind"] == "fuel":
        inst["FUELCONSUMERS"] = [consumer]
    else:
        inst["GENERATORSETS"] = [{"NAME": "g", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "g", "CONSUMERS": [consumer]}]
    files["g.csv"] = csv_text({"POWER": [0, 1e6], "FUEL": [0, 1e6]})
    files["s.csv"] = csv_text(series)
    data = {
        "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
        "FACILITY_INPUTS": facilities + [{"NAME": "g", "TYPE": "ELECTRICITY2FUEL", "FILE": "g.csv"}],
        "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": 1}]}],
        "INSTALLATIONS": [inst], "START": dates[0], "END": dates[-1],
    }
    return data, files


def check_system(c, ctx: Ctx):
    run = Run(*build(c))
    x = run.by_name["x"]
    count = len(c["settings"])
    forward, backward = reference(c, list(range(count))), reference(c, list(range(count))[::-1])
    energy = ac.stream_values(x.energy_usage)
    if c["kind"] != "fuel":
        power = ac.stream_values(x.power)
    used = x.operational_settings_used.values
    require(len(used) == c["n"], "one operational setting for each step")
    per = {}
    for i in range(len(c["consumers"])):
        per[i] = {}
        for mod in run.models_of(f"k{i}"):
            for t, p in enumerate(mod.periods):
                per[i][p.start.year - 2020] = (mod, t)
    for i in range(c["n"]):
        swapped = c["swap"] is not None and i >= c["swap"]
        e = (backward if swapped else forward)[i]
        if e is None:
            ctx.label("too close to call")
            continue
        s, parts, crossed = e
        number = count - s if swapped else s + 1
        where = f"{c['kind']} system, step {i}"
        require(used[i] == number, f"{where}: operational setting {used[i]} used, expected {number}")
        ok = all(v for *_, v in parts)
        require(x.is_valid.values[i] == ok, f"{where}: valid {x.is_valid.values[i]} with parts {parts}")
        for k, (rate, ps, pd, p, v) in enumerate(parts):
            mod, t = per[k][i]
            require(mod.is_valid.values[t] == v, f"{where}: consumer {k} valid {mod.is_valid.values[t]}")
            got = mod.inlet_liquid_rate_m3_per_day if c["kind"] == "pump" else mod.rate
            require_close(ac.stream_values(got)[t], rate, f"{where}: rate of consumer {k}", rel=1e-7, abs_=1e-6)
            pin, pout = (mod.inlet_pressure_bar, mod.outlet_pressure_bar) if c["kind"] == "pump" else (mod.requested_inlet_pressure, mod.requested_outlet_pressure)
            require_close(pin.values[t], ps, f"{where}: suction pressure of consumer {k}")
            require_close(pout.values[t], pd, f"{where}: discharge pressure of consumer {k}")
            if p is not None:
                require_close(ac.stream_values(mod.energy_usage)[t], p, f"{where}: energy of consumer {k}", rel=1e-6, abs_=1e-9)
        if all(p is not None for *_, p, _ in parts):
            total = sum(p for *_, p, _ in parts) / (1 - ((c["plf"][i] if isinstance(c["plf"], list) else c["plf"]) or 0.0))
            require_close(energy[i], total, f"{where}: energy", rel=1e-6, abs_=1e-9)
            if c["kind"] != "fuel":
                require_close(power[i], total, f"{where}: power", rel=1e-6, abs_=1e-9)
            ctx.nontrivial(total > 0 and (s > 0 or crossed))
        ctx.label(c["kind"], "valid" if ok else "no setting fits")
        if crossed:
            ctx.label("crossover")
        if s > 0 and ok:
            ctx.label("later setting")


BAD = ["fewer rates", "more rates", "no rates", "both", "no total", "no pressure", "both pressures", "crossover beyond", "crossover below", "crossover length", "no density", "duplicate", "unknown", "fewer pressures"]


@st.composite
def bad_case(draw):
    c = draw(system_case())
    c["swap"] = None
    return {"system": c, "bad": draw(st.sampled_from(BAD)), "setting": draw(st.integers(0, len(c["settings"]) - 1))}


def check_refused(c, ctx: Ctx):
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    sysc, bad = c["system"], c["bad"]
    m = len(sysc["consumers"])

    def mutate(dated):
        (model,) = dated.values()
        s = model["OPERATIONAL_SETTINGS"][c["setting"]]
        key = "RATES" if "RATES" in s else "RATE_FRACTIONS"
        if bad == "fewer rates":
            s[key] = s[key][:-1]
        elif bad == "more rates":
            s[key] = s[key] + s[key][:1]
        elif bad == "no rates":
            del s[key]
        elif bad == "both":
            model["TOTAL_SYSTEM_RATE"] = 1
            s["RATES"] = s["RATE_FRACTIONS"] = s[key]
        elif bad == "no total":
            s["RATE_FRACTIONS"] = s.pop(key)
            model.pop("TOTAL_SYSTEM_RATE", None)
        elif bad == "no pressure":
            s.pop("SUCTION_PRESSURE", None)
            s.pop("SUCTION_PRESSURES", None)
        elif bad == "both pressures":
            s["DISCHARGE_PRESSURE"] = 1
            s["DISCHARGE_PRESSURES"] = [1] * m
        elif bad == "crossover beyond":
            s["CROSSOVER"] = [m + 1] * m
        elif bad == "crossover below":
            s["CROSSOVER"] = [-1] * m
        elif bad == "crossover length":
            s["CROSSOVER"] = [0] * (m + 1)
        elif bad == "no density":
            for t in model["OPERATIONAL_SETTINGS"]:
                t.pop("FLUID_DENSITIES", None)
        elif bad == "duplicate":
            k = "PUMPS" if "PUMPS" in model else "COMPRESSORS"
            model[k] = model[k] + model[k][:1]
        elif bad == "unknown":
            k, n = ("PUMPS", "CHART") if "PUMPS" in model else ("COMPRESSORS", "COMPRESSOR_MODEL")
            model[k] = [{"NAME": x["NAME"], n: "nothing"} for x in model[k]]
        elif bad == "fewer pressures":
            s.pop("SUCTION_PRESSURE", None)
            s["SUCTION_PRESSURES"] = [1] * (m + 1)

    if bad == "no density" and sysc["kind"] != "pump":
        return
    data, files = build(sysc, mutate)
    expect_raises(ModelValidationException, lambda: Run(data, files), f"{sysc['kind']} system with {bad}")
    ctx.nontrivial()
    ctx.label(bad)


SUBCHECKS = [
    Sub("system", system_case(), check_system, 1500, rule="some step uses energy with cross-over or a later setting"),
    Sub("refused", bad_case(), check_refused, 200, thorough=2000, rule="the broken setting is refused"),
]

"""Process simulations read from a model: units, sections, constraints, handlers, streams and events, or a refusal."""
from hypothesis import strategies as st

from harness import charts, fakefluid as ff
from harness.core import Ctx, Sub, expect_raises, fail, require, require_close, require_list_close
from harness.e2e import csv_text, make_model
from harness.gen import date_list, dt, nice

ASSUMPTIONS = ["The NeqSim library (not installed offline) is replaced by an explicit equation of state behind the Java gateway."]
CONTROLS = ["UPSTREAM_CHOKE", "DOWNSTREAM_CHOKE", "COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"]
NEEDS = {"COMMON_ASV": "COMMON_ASV", "INDIVIDUAL_ASV_RATE": "INDIVIDUAL_ASV", "INDIVIDUAL_ASV_PRESSURE": "INDIVIDUAL_ASV"}
COMPONENTS = ["water", "nitrogen", "CO2", "methane", "ethane", "propane", "i_butane", "n_butane", "i_pentane", "n_pentane", "n_hexane"]
MEDIUM = dict(nitrogen=0.74373, CO2=2.415619, methane=85.60145, ethane=6.707826, propane=2.611471, i_butane=0.45077, n_butane=0.691702,
              i_pentane=0.210714, n_pentane=0.197937, n_hexane=0.368786)
DRY = dict(nitrogen=1.6545, CO2=0.8396, methane=89.3891, ethane=5.101, propane=1.7083, i_butane=0.4718, n_butane=0.385, i_pentane=0.1155,
           n_pentane=0.0793, n_hexane=0.2559)
GRAVITY = 9.81


# ---------------------------------------------------------------- generators
@st.composite
def series(draw, n, lo, hi):
    """A value for each step: a constant, a column, or a column times a constant."""
    kind = draw(st.sampled_from(["const", "column", "scaled"]))
    if kind == "const":
        return {"k": draw(nice(lo, hi, 2))}
    out = {"v": draw(st.lists(nice(lo, hi, 2), min_size=n, max_size=n))}
    if kind == "scaled":
        out["f"] = draw(st.sampled_from([0.5, 1.25, 2.0]))
    return out


@st.composite
def rate(draw, n):
    out = {"value": draw(series(n, 1e4, 1e6)), "type": draw(st.sampled_from([None, "STREAM_DAY", "CALENDAR_DAY"]))}
    kind = draw(st.sampled_from([None, None, "one", "many"]))
    if kind:
        out["cond"] = [draw(st.lists(st.integers(0, 1), min_size=n, max_size=n)) for _ in range(1 if kind == "one" else draw(st.integers(1, 3)))]
        out["many"] = kind == "many"
    return out


@st.composite
def fluid(draw, n):
    out = {"eos": draw(st.sampled_from([None, "SRK", "PR", "GERG_SRK", "GERG_PR"])), "ref": draw(st.booleans())}
    if draw(st.booleans()):
        out["gas"] = draw(st.sampled_from([None, "MEDIUM", "DRY"]))
    else:
        names = draw(st.lists(st.sampled_from([c for c in COMPONENTS if c != "methane"]), max_size=4, unique=True))
        out["comp"] = {"methane": draw(series(n, 50, 100)), **{c: draw(series(n, 0, 10)) for c in names}}
    return out


@st.composite
def stream(draw, n):
    return {"t": draw(series(n, 270, 330)), "p": draw(series(n, 1, 100)), "rate": draw(rate(n)), "fluid": draw(fluid(n)), "ref": draw(st.booleans())}


@st.composite
def compressor(draw):
    cv = draw(charts.curves(1, 3))
    return {"curves": draw(st.permutations(cv)), "margin": draw(st.sampled_from([0.0, 0.005, 0.1, 0.25])), "margin_unit": draw(st.sampled_from(["FRACTION", "PERCENTAGE"])),
            "head": draw(st.sampled_from(["M", "KJ_PER_KG", "JOULE_PER_KG", None])), "eff": draw(st.sampled_from(["FRACTION", "PERCENTAGE", None])),
            "file": draw(st.booleans())}


@st.composite
def unit(draw, n, kind, named):
    out = {"kind": kind, "named": named, "ref": draw(st.booleans())}
    if kind == "COMPRESSOR":
        out["model"] = draw(compressor())
    elif kind == "PRESSURE_DROPPER":
        out["dp"] = draw(series(n, 0, 5))
    elif kind == "TEMPERATURE_SETTER":
        out["t"] = draw(series(n, 0, 60))
    elif kind == "MIXER":
        out["stream"] = draw(stream(n))
    elif kind == "SPLITTER":
        out["rate"] = draw(rate(n))
    return out


@st.composite
def pipeline(draw, n, wild):
    """Sections in order, each a list of units; the constraint of a section sits on its last unit or on the outlet."""
    sections = draw(st.sampled_from([1, 2, 3, 1, 2, 4]))
    units, constraints = [], []
    for i in range(sections):
        asv = draw(st.sampled_from(["COMMON_ASV", "INDIVIDUAL_ASV"]))
        kinds = ["PRESSURE_DROPPER", "TEMPERATURE_SETTER", "LIQUID_REMOVER"] + (["MIXER", "SPLITTER"] if asv == "INDIVIDUAL_ASV" or (wild and draw(st.booleans())) else [])
        own = draw(st.lists(st.sampled_from(kinds + ["COMPRESSOR", "COMPRESSOR"]), min_size=1, max_size=5))
        if "COMPRESSOR" not in own and not (wild and draw(st.booleans())):
            own.insert(draw(st.integers(0, len(own))), "COMPRESSOR")
        control = draw(st.sampled_from([c for c in CONTROLS if NEEDS.get(c, asv) == asv])) if not wild else draw(st.sampled_from(CONTROLS))
        if wild and draw(st.integers(0, 7)) == 0:
            asv = "NO_ASV"
        for j, kind in enumerate(own):
            units.append(draw(unit(n, kind, draw(st.booleans()))))
        terminal = i == sections - 1 and draw(st.booleans())
        if not terminal:
            units[-1]["named"] = True
        constraints.append({"unit": None if terminal else len(units) - 1, "p": draw(series(n, 10, 300)), "control": control, "asv": asv})
    if constraints[-1]["unit"] is not None:
        for kind in draw(st.lists(st.sampled_from(["PRESSURE_DROPPER", "TEMPERATURE_SETTER", "LIQUID_REMOVER"]), max_size=2)):
            units.append(draw(unit(n, kind, draw(st.booleans()))))
    events = [{"target": i, "model": draw(compressor()), "event": draw(st.integers(0, 2)), "action": draw(st.sampled_from(["CHANGE", "CHANGE", "ADD", "REMOVE"]))}
              for i, u in enumerate(units) if u["kind"] == "COMPRESSOR" and draw(st.integers(0, 3)) == 0]
    for e in events:
        units[e["target"]]["named"] = True
    return {"units": units, "constraints": draw(st.permutations(constraints)), "events": events}


FAULTS = ["missing constraint", "unknown constraint unit", "duplicate constraint", "two outlet constraints", "constraint for unknown pipeline",
          "duplicate unit name", "compressor after last", "unknown target", "unknown unit reference", "unknown stream", "unknown fluid",
          "overflow to unknown", "overflow from unknown", "event with unknown ref", "event with unknown unit", "event to non-compressor",
          "event with unknown target", "outlet constraint without units", "process event with unknown ref", "duplicate ecalc event", "empty constraints",
          "no such file"]


@st.composite
def case(draw, fault=False):
    dates = draw(date_list(3, 6))
    n = len(dates) - 1
    broken = draw(st.sampled_from(FAULTS)) if fault else None
    wild = draw(st.booleans()) if fault else False
    pipes = [draw(pipeline(n, wild)) for _ in range(draw(st.sampled_from([1, 2, 2, 3, 4])))]
    sims = []
    for _ in range(draw(st.integers(1, 2))):
        targets = draw(st.lists(st.integers(0, len(pipes) - 1), min_size=1, unique=True))
        if draw(st.booleans()):
            dist = {"common": draw(stream(n)), "settings": [
                {"fractions": [draw(series(n, 0, 1)) for _ in targets],
                 "overflow": draw(st.lists(st.tuples(st.sampled_from(targets), st.sampled_from(targets)).map(list), max_size=draw(st.sampled_from([2, 2, 4]))))}
                for _ in range(draw(st.integers(1, 3)))]}
        else:
            dist = {"individual": [draw(stream(n)) for _ in targets]}
        sims.append({"targets": targets, "dist": dist})
    events = [{"start": draw(st.sampled_from(dates)), "desc": draw(st.booleans()), "proc": draw(st.integers(0, 2))} for _ in range(draw(st.integers(1, 3)))]
    return {"dates": dates, "pipes": pipes, "sims": sims, "events": events, "fault": None if wild and draw(st.booleans()) else broken,
            "keys": draw(st.booleans())}


# ---------------------------------------------------------------- the model as text
class Text:
    def __init__(self, c):
        self.c, self.columns, self.files, self.units, self.fluids, self.streams = c, {}, {}, {}, {}, {}
        self.n = 0

    def name(self, prefix):
        self.n += 1
        return f"{prefix}{self.n}"

    def expr(self, s):
        if "k" in s:
            return s["k"]
        col = self.name("C")
        self.columns[col] = s["v"]
        return f"S;{col}" + (f" {{*}} {s['f']}" if "f" in s else "")

    def rate(self, r):
        out = {"VALUE": self.expr(r["value"]), "UNIT": "SM3_PER_DAY"}
        if r["type"]:
            out["TYPE"] = r["type"]
        if "cond" in r:
            conds = [f"{self.expr({'v': v})} > 0" for v in r["cond"]]
            out.update({"CONDITIONS": conds} if r["many"] else {"CONDITION": conds[0]})
        return out

    def fluid(self, f):
        out = {"TYPE": "COMPOSITION" if "comp" in f else "PREDEFINED"}
        if f["eos"]:
            out["EOS_MODEL"] = f["eos"]
        if "comp" in f:
            out["COMPOSITION"] = {k: self.expr(v) for k, v in f["comp"].items()}
        elif f["gas"]:
            out["GAS_TYPE"] = f["gas"]
        if not f["ref"]:
            return out
        key = self.name("fluid")
        self.fluids[key] = out
        return key

    def stream(self, s):
        name = self.name("stream")
        out = {"NAME": name, "FLUID": self.fluid(s["fluid"]), "TEMPERATURE": self.expr(s["t"]), "PRESSURE": self.expr(s["p"]), "RATE": self.rate(s["rate"])}
        if not s["ref"]:
            return out
        self.streams[name] = out
        return name

    def model(self, m):
        unit_h = {"M": GRAVITY, "KJ_PER_KG": 1000.0, "JOULE_PER_KG": 1.0, None: GRAVITY}[m["head"]]
        unit_e = 1.0 if m["eff"] == "FRACTION" else 100.0
        rows = [(k["speed"], k["rate"], [h / unit_h for h in k["head"]], [e * unit_e for e in k["eff"]]) for k in m["curves"]]
        if m["file"]:
            curves = {"FILE": self.name("chart") + ".csv"}
            flat = [(s, q, h, e) for s, qs, hs, es in rows for q, h, e in zip(qs, hs, es)]
            self.files[curves["FILE"]] = csv_text({k: [r[i] for r in flat] for i, k in enumerate(["SPEED", "RATE", "HEAD", "EFFICIENCY"])})
        else:
            curves = [{"SPEED": s, "RATE": list(q), "HEAD": h, "EFFICIENCY": e} for s, q, h, e in rows]
        units = {k: v for k, v in (("HEAD", m["head"]), ("EFFICIENCY", m["eff"])) if v}
        return {"TYPE": "COMPRESSOR_CHART", "CHART": {"CURVES": curves, **({"UNITS": units} if units else {})},
                "CONTROL_MARGIN": {"UNIT": m["margin_unit"], "VALUE": m["margin"] * (1 if m["margin_unit"] == "FRACTION" else 100)}}

    def unit(self, u):
        out = {"TYPE": u["kind"]}
        if u["kind"] == "COMPRESSOR":
            out["COMPRESSOR_MODEL"] = self.model(u["model"])
        elif u["kind"] == "PRESSURE_DROPPER":
            out["PRESSURE_DROP"] = self.expr(u["dp"])
        elif u["kind"] == "TEMPERATURE_SETTER":
            out["TEMPERATURE"] = self.expr(u["t"])
        elif u["kind"] == "MIXER":
            out["SIDESTREAM"] = self.stream(u["stream"])
        elif u["kind"] == "SPLITTER":
            out["OFFTAKE_RATE"] = self.rate(u["rate"])
        if not u["ref"]:
            return out
        key = self.name("unit")
        self.units[key] = out
        return key

    def build(self):
        c = self.c
        pipes = {}
        for i, p in enumerate(c["pipes"]):
            names = [f"u{j}" if u["named"] else None for j, u in enumerate(p["units"])]
            units = [{"TARGET": self.unit(u), **({"NAME": nm} if nm else {})} for u, nm in zip(p["units"], names)]
            events = []
            for e in p["events"]:
                flat = process_events(c)
                key = self.name("newunit")
                self.units[key] = {"TYPE": "COMPRESSOR", "COMPRESSOR_MODEL": self.model(e["model"])}
                if flat:
                    events.append({"TYPE": e["action"], "CHANGE_TARGET": f"u{e['target']}", "CHANGE_FROM": "whatever", "CHANGE_TO": key, "CHANGE_TYPE": "REBUNDLE",
                                   "REF": flat[e["event"] % len(flat)][0]})
            pipes[f"key{i}" if c["keys"] else f"pipe{i}"] = {"NAME": f"pipe{i}", "PROCESS_UNITS": units, **({"EVENTS": events} if events else {})}
        sims = []
        for i, s in enumerate(c["sims"]):
            if "common" in s["dist"]:
                dist = {"METHOD": "COMMON_STREAM", "INLET_STREAM": self.stream(s["dist"]["common"]), "SETTINGS": [
                    {"RATE_FRACTIONS": [self.expr(f) for f in g["fractions"]],
                     **({"OVERFLOW": [{"FROM_REFERENCE": f"pipe{a}", "TO_REFERENCE": f"pipe{b}"} for a, b in g["overflow"]]} if g["overflow"] else {})}
                    for g in s["dist"]["settings"]]}
            else:
                dist = {"METHOD": "INDIVIDUAL_STREAMS", "INLET_STREAMS": [self.stream(x) for x in s["dist"]["individual"]]}
            constraints = {f"pipe{t}": [
                {**({"PROCESS_UNIT": f"u{k['unit']}"} if k["unit"] is not None else {}), "OUTLET_PRESSURE": self.expr(k["p"]), "PRESSURE_CONTROL": k["control"], "ANTI_SURGE": k["asv"]}
                for k in c["pipes"][t]["constraints"]] for t in s["targets"]}
            sims.append({"NAME": f"sim{i}", "TARGETS": [f"pipe{t}" for t in s["targets"]], "STREAM_DISTRIBUTION": dist, "CONSTRAINTS": constraints})
        data = {
            "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
            "FACILITY_INPUTS": [],
            "FUEL_TYPES": [{"NAME": "fuel", "EMISSIONS": []}],
            "INLET_STREAMS": self.streams,
            "DEFINITIONS": {"PROCESS_UNITS": self.units, "FLUIDS": self.fluids},
            "PROCESS_PIPELINES": pipes, "PROCESS_SIMULATIONS": sims,
            "ECALC_EVENTS": [{"TYPE": "TIE_IN", "START": e["start"], "NAME": f"E{i}", **({"DESCRIPTION": f"about {i}"} if e["desc"] else {})} for i, e in enumerate(c["events"])],
            "PROCESS_EVENTS": [{"TYPE": "OTHER", "NAME": nm, "REF": f"E{i}"} for nm, i in process_events(c)],
            "INSTALLATIONS": [{"NAME": "i", "HCEXPORT": 0, "FUEL": "fuel", "FUELCONSUMERS": [
                {"NAME": "x", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": 1}}]}],
            "START": c["dates"][0], "END": c["dates"][-1],
        }
        return data

    def resources(self):
        c = self.c
        self.files["s.csv"] = csv_text({"DATE": c["dates"][:-1], "D": [1] * (len(c["dates"]) - 1), **self.columns})
        return self.files


def process_events(c):
    """(name, index of the eCalc event) in the order of the text."""
    return [(f"PE{i}_{k}", i) for i, e in enumerate(c["events"]) for k in range(e["proc"])]


# ---------------------------------------------------------------- oracle
def values(s, n):
    return [s["k"]] * n if "k" in s else [v * s.get("f", 1) for v in s["v"]]


def rate_values(r, n):
    out = values(r["value"], n)
    return [v if all(k[i] for k in r.get("cond", [])) else 0.0 for i, v in enumerate(out)]


def sections_of(p):
    """The sections of a valid pipeline: (constraint, indices of units). None: refused."""
    on, outlet = {}, []
    for k in p["constraints"]:
        if k["unit"] is None:
            outlet.append(k)
        elif k["unit"] in on:
            return None
        else:
            on[k["unit"]] = k
    if len(outlet) > 1:
        return None
    out, cur = [], []
    for i, _ in enumerate(p["units"]):
        cur.append(i)
        if i in on:
            out.append((on[i], cur))
            cur = []
    if outlet:
        if not cur:
            return None
        out.append((outlet[0], cur))
    elif any(p["units"][i]["kind"] == "COMPRESSOR" for i in cur):
        return None
    elif out:
        out[-1] = (out[-1][0], out[-1][1] + cur)
    for k, idx in out:
        kinds = [p["units"][i]["kind"] for i in idx]
        if "COMPRESSOR" not in kinds or k["asv"] == "NO_ASV" or NEEDS.get(k["control"], k["asv"]) != k["asv"]:
            return None
        if k["asv"] == "COMMON_ASV" and ("MIXER" in kinds or "SPLITTER" in kinds):
            return None
    return out or None


def assembled(kinds, k):
    """Indices of units, with 'in:x' / 'out:x' for the ends of loop x and 'choke'."""
    if k["asv"] == "COMMON_ASV":
        out = ["in:0", *kinds_index(kinds), "out:0"]
    else:
        out, pending, loop = [], [], 0
        for i, kind in kinds:
            if kind in ("MIXER", "SPLITTER"):
                out += pending + [i]
                pending = []
            elif kind == "COMPRESSOR":
                out += [f"in:{loop}", *pending, i, f"out:{loop}"]
                loop, pending = loop + 1, []
            else:
                pending.append(i)
        out += pending
    if k["control"] == "UPSTREAM_CHOKE":
        out = ["choke", *out]
    if k["control"] == "DOWNSTREAM_CHOKE":
        out = [*out, "choke"]
    return out


def kinds_index(kinds):
    return [i for i, _ in kinds]


def check_chart(u, m, what):
    from libecalc.process.process_units.compressor import Compressor

    require(type(u) is Compressor, f"{what}: {type(u).__name__} instead of a compressor")
    want = charts.adjusted(sorted(m["curves"], key=lambda k: k["speed"]), m["margin"])
    got = u.compressor_chart.curves
    require(len(got) == len(want), f"{what}: {len(got)} curves, {len(want)} were given")
    for g, w in zip(got, want):
        require_close(g.speed, w["speed"], f"{what}: speed", rel=1e-9)
        require_list_close(list(g.rate), w["rate"], f"{what}: rates at {w['speed']}", rel=1e-7)
        require_list_close(list(g.head), w["head"], f"{what}: heads at {w['speed']}", rel=1e-7)
        require_list_close(list(g.efficiency), w["eff"], f"{what}: efficiencies at {w['speed']}", rel=1e-7)


def check_fluid(got, f, n, periods, what):
    require(str(getattr(got.eos_model, "name", got.eos_model)) == (f["eos"] or "SRK"), f"{what}: equation of state {got.eos_model} for {f['eos']}")
    want = {k: values(v, n) for k, v in f["comp"].items()} if "comp" in f else {k: [v] * n for k, v in (DRY if f["gas"] == "DRY" else MEDIUM).items()}
    for k in COMPONENTS:
        require_list_close(list(getattr(got.composition, k).get_masked_values()), want.get(k, [0.0] * n), f"{what}: amount of {k}", rel=1e-9)
    for i, p in enumerate(periods):
        comp = got.get_value(p).composition
        for k in COMPONENTS:
            require_close(getattr(comp, k), want.get(k, [0.0] * n)[i], f"{what}: {k} in period {i}", rel=1e-9)


def check_stream(got, s, n, periods, what):
    require_list_close(list(got.pressure_bara.get_masked_values()), values(s["p"], n), f"{what}: pressure", rel=1e-9)
    require_list_close(list(got.temperature_kelvin.get_masked_values()), values(s["t"], n), f"{what}: temperature", rel=1e-9)
    require_list_close(list(got.standard_rate_m3_per_day.get_stream_day_values()), rate_values(s["rate"], n), f"{what}: rate", rel=1e-9)
    check_fluid(got.fluid_model, s["fluid"], n, periods, what)


def check_unit(got, u, config, n, periods, what):
    from libecalc.process.process_units.liquid_remover import LiquidRemover
    from libecalc.process.process_units.mixer import Mixer
    from libecalc.process.process_units.pressure_dropper import PressureDropper
    from libecalc.process.process_units.splitter import Splitter
    from libecalc.process.process_units.temperature_setter import TemperatureSetter

    types = {"PRESSURE_DROPPER": PressureDropper, "TEMPERATURE_SETTER": TemperatureSetter, "LIQUID_REMOVER": LiquidRemover, "MIXER": Mixer, "SPLITTER": Splitter}
    if u["kind"] == "COMPRESSOR":
        check_chart(got, u["model"], what)
        return
    require(type(got) is types[u["kind"]], f"{what}: {type(got).__name__} for a {u['kind']}")
    conf = config.get(got.get_id())
    if u["kind"] == "LIQUID_REMOVER":
        require(conf is None, f"{what}: a liquid remover has a configuration")
        return
    require(conf is not None, f"{what}: no configuration")
    if u["kind"] == "PRESSURE_DROPPER":
        require_list_close(list(conf.pressure_drop_in_bara.get_masked_values()), values(u["dp"], n), f"{what}: pressure drop", rel=1e-9)
    elif u["kind"] == "TEMPERATURE_SETTER":
        require_list_close(list(conf.temperature_in_celsius.get_masked_values()), values(u["t"], n), f"{what}: temperature", rel=1e-9)
    elif u["kind"] == "MIXER":
        check_stream(conf.sidestream, u["stream"], n, periods, f"{what}: side stream")
    else:
        require_list_close(list(conf.offtake_rate.get_stream_day_values()), rate_values(u["rate"], n), f"{what}: offtake", rel=1e-9)


def check_pipeline(c, i, pipe, problem, config, n, periods, ctx):
    from libecalc.process.process_solver.choke_configuration_handler import ChokeConfigurationHandler
    from libecalc.process.process_solver.recirculation_loop import RecirculationLoop
    from libecalc.process.process_units.choke import Choke
    from libecalc.process.process_units.direct_mixer import DirectMixer
    from libecalc.process.process_units.direct_splitter import DirectSplitter
    from libecalc.process.process_units.inlet import Inlet
    from libecalc.process.process_units.outlet import Outlet
    from libecalc.process.shaft import VariableSpeedShaft

    p = c["pipes"][i]
    what = f"pipeline {i}"
    require(pipe.get_name() == f"pipe{i}", f"{what} is called {pipe.get_name()}")
    sections = sections_of(p)
    got = pipe.get_process_pipeline_sections()
    require(len(got) == len(sections), f"{what}: {len(got)} sections for {len(sections)} constraints")
    require(list(pipe.get_process_periods()) == periods, f"{what}: periods")
    require(problem.get_process_pipeline_id() == pipe.get_id(), f"{what}: the problem is for another pipeline")
    handlers = list(problem.get_configuration_handlers())
    shaft = handlers[0]
    require(type(shaft) is VariableSpeedShaft, f"{what}: first handler {type(shaft).__name__}")
    by_index, ids, want_handlers = {}, [], []
    for s, (sec, (k, idx)) in enumerate(zip(got, sections)):
        w = f"{what} section {s}"
        want = assembled([(j, p["units"][j]["kind"]) for j in idx], k)
        want = (["inlet"] if s == 0 else []) + want + (["outlet"] if s == len(sections) - 1 else [])
        units = sec.get_process_units()
        require(len(units) == len(want), f"{w}: {[type(x).__name__ for x in units]} for {want}")
        loops, choke = {}, None
        for x, y in zip(units, want):
            if isinstance(y, int):
                check_unit(x, p["units"][y], config, n, periods, f"{w} unit {y}")
                by_index[y] = x
            else:
                t = {"inlet": Inlet, "outlet": Outlet, "choke": Choke, "in": DirectMixer, "out": DirectSplitter}[y.split(":")[0]]
                require(type(x) is t, f"{w}: {type(x).__name__} where {y} was expected in {want}")
                if ":" in y:
                    loops.setdefault(int(y.split(":")[1]), {})[y.split(":")[0]] = x.get_id()
                elif y == "choke":
                    choke = x.get_id()
            ids.append(x.get_id())
        want_handlers += [(RecirculationLoop, loops[j]["in"], loops[j]["out"]) for j in sorted(loops)] + ([(ChokeConfigurationHandler, choke)] if choke else [])
        ps = problem.get_process_problem_sections()[s]
        require(ps.get_process_pipeline_section_id() == sec.get_id(), f"{w}: the problem section is for another section")
        require(str(ps.get_pressure_control().type) == k["control"] and str(ps.get_anti_surge().type) == k["asv"], f"{w}: strategies {ps.get_pressure_control()} {ps.get_anti_surge()}")
        con = ps.get_constraint()
        require_list_close(list(con.outlet_pressure.get_masked_values()), values(k["p"], n), f"{w}: outlet pressure", rel=1e-9)
        last = units[-2] if s == len(sections) - 1 else units[-1]
        require(con.target_process_unit_id == last.get_id(), f"{w}: the constraint is on another unit")
        edge = [e for e in pipe.get_process_unit_connections() if e.get_id() == con.target_process_connection_id]
        require(len(edge) == 1 and edge[0].get_from_process_unit_id() == last.get_id(), f"{w}: the constraint is on another connection")
        ctx.label(k["control"], k["asv"])
    require(len(problem.get_process_problem_sections()) == len(sections), f"{what}: problem sections")
    require(len(set(ids)) == len(ids), f"{what}: units share ids")
    edges = [(e.get_from_process_unit_id(), e.get_to_process_unit_id()) for e in pipe.get_process_unit_connections()]
    require(edges == list(zip(ids, ids[1:])), f"{what}: connections do not follow the units")
    require([x.get_id() for x in pipe.get_process_units()] == ids, f"{what}: units")
    compressors = [by_index[j].get_id() for j, u in enumerate(p["units"]) if u["kind"] == "COMPRESSOR"]
    require(shaft.get_compressor_ids() == compressors, f"{what}: compressors on the shaft")
    require(len(handlers) - 1 == len(want_handlers), f"{what}: {len(handlers) - 1} handlers, {len(want_handlers)} expected")
    for h, w in zip(handlers[1:], want_handlers):
        require(type(h) is w[0], f"{what}: handler {type(h).__name__} instead of {w[0].__name__}")
        have = (h.get_choke_id(),) if len(w) == 2 else (h.get_mixer_id(), h.get_splitter_id())
        require(have == w[1:], f"{what}: a handler is for other units")
    require(set(config) == {by_index[j].get_id() for j, u in enumerate(p["units"]) if u["kind"] not in ("COMPRESSOR", "LIQUID_REMOVER")}, f"{what}: configurations")
    flat = process_events(c)
    want = p["events"] if flat else []
    events = pipe.get_events()
    require(len(events) == len(want), f"{what}: {len(events)} events, {len(want)} given")
    for g, e in zip(events, want):
        require(str(g.action) == e["action"] and str(g.change_type) == "REBUNDLE", f"{what}: event {g}")
        require(g.change_target == by_index[e["target"]].get_id(), f"{what}: the event changes another unit")
        require(g.change_time == dt(c["events"][flat[e["event"] % len(flat)][1]]["start"]), f"{what}: event at {g.change_time}")
        check_chart(g.change_to, e["model"], f"{what}: replacement")
        ctx.label("event")
    return len(sections)


def get(c, data, files):
    from libecalc.ecalc_model.ecalc_event import EcalcEventService

    model = make_model(data, files)
    events = model.get_events()
    return model, events, model.get_process_simulations(EcalcEventService(events))


def check_valid(c, ctx: Ctx):
    ff.install()
    text = Text(c)
    data = text.build()
    model, events, (pipes, sims) = get(c, data, text.resources())
    n = len(c["dates"]) - 1
    periods = list(model.get_periods())
    require([(p.start, p.end) for p in periods] == [(dt(a), dt(b)) for a, b in zip(c["dates"], c["dates"][1:])], f"periods {periods}")
    require([(e.name, e.start, e.description, [x.name for x in e.process_events]) for e in events]
            == [(f"E{i}", dt(e["start"]), f"about {i}" if e["desc"] else None, [f"PE{i}_{k}" for k in range(e["proc"])]) for i, e in enumerate(c["events"])], f"events {events}")
    require([s.get_name() for s in sims] == [f"sim{i}" for i in range(len(c["sims"]))], "names of simulations")
    require(len(pipes) == sum(len(s["targets"]) for s in c["sims"]), "number of pipelines")
    pos, seen = 0, set()
    for s, sim in zip(c["sims"], sims):
        mine = pipes[pos:pos + len(s["targets"])]
        pos += len(s["targets"])
        require(list(sim.get_process_periods()) == periods, "periods of the simulation")
        require(set(sim.process_configurations) == {x.get_id() for x in mine}, "configurations are kept for each pipeline of the simulation")
        require(len(sim.process_problems) == len(mine), "one problem for each target")
        for t, pipe, problem in zip(s["targets"], mine, sim.process_problems):
            ids = {x.get_id() for x in pipe.get_process_units()} | {pipe.get_id()}
            require(not ids & seen, "two pipelines share units")
            seen |= ids
            many = check_pipeline(c, t, pipe, problem, sim.process_configurations[pipe.get_id()], n, periods, ctx)
            ctx.nontrivial(many > 1 or len(c["pipes"][t]["units"]) > 3)
        d = sim.stream_distribution
        by = {t: pipe.get_id() for t, pipe in zip(s["targets"], mine)}
        if "common" in s["dist"]:
            check_stream(d.inlet_stream, s["dist"]["common"], n, periods, "common stream")
            require(len(d.settings) == len(s["dist"]["settings"]), "settings")
            for g, w in zip(d.settings, s["dist"]["settings"]):
                require(len(g.rate_fractions) == len(w["fractions"]), "fractions")
                for a, b in zip(g.rate_fractions, w["fractions"]):
                    require_list_close(list(a.get_masked_values()), values(b, n), "fractions", rel=1e-9)
                require([(o.from_id, o.to_id) for o in g.overflow] == [(by[a], by[b]) for a, b in w["overflow"]], f"overflow {w['overflow']}")
            ctx.label("common")
        else:
            require(len(d.inlet_streams) == len(s["dist"]["individual"]), "individual streams")
            for g, w in zip(d.inlet_streams, s["dist"]["individual"]):
                check_stream(g, w, n, periods, "individual stream")
            ctx.label("individual")
        require(len(sim.get_inlet_streams()) == (1 if "common" in s["dist"] else len(s["targets"])), "inlet streams")


def inject(c, data):
    """Break the text; False if this model cannot be broken in this way."""
    f = c["fault"]
    sim = data["PROCESS_SIMULATIONS"][0]
    t = c["sims"][0]["targets"][0]
    name = f"pipe{t}"
    pipe = next(p for p in data["PROCESS_PIPELINES"].values() if p["NAME"] == name)
    cons = sim["CONSTRAINTS"][name]
    named = [u for u in pipe["PROCESS_UNITS"] if "NAME" in u]
    if f == "missing constraint":
        del sim["CONSTRAINTS"][name]
    elif f == "empty constraints":
        sim["CONSTRAINTS"][name] = []
    elif f == "unknown constraint unit":
        cons[0]["PROCESS_UNIT"] = "nobody"
    elif f == "duplicate constraint":
        if "PROCESS_UNIT" not in cons[0]:
            return False
        cons.append(dict(cons[0]))
    elif f == "two outlet constraints":
        cons[:] = [{k: v for k, v in x.items() if k != "PROCESS_UNIT"} for x in (cons[0], cons[0])]
    elif f == "constraint for unknown pipeline":
        sim["CONSTRAINTS"]["nobody"] = list(cons)
    elif f == "duplicate unit name":
        if len(pipe["PROCESS_UNITS"]) < 2 or not named:
            return False
        other = next(u for u in pipe["PROCESS_UNITS"] if u is not named[0])
        other["NAME"] = named[0]["NAME"]
    elif f == "compressor after last":
        if any("PROCESS_UNIT" not in k for k in cons):
            return False
        comp = next((i for i, u in enumerate(c["pipes"][t]["units"]) if u["kind"] == "COMPRESSOR"), None)
        if comp is None:
            return False
        pipe["PROCESS_UNITS"].append({"TARGET": pipe["PROCESS_UNITS"][comp]["TARGET"]})
    elif f == "unknown target":
        sim["TARGETS"].append("nobody")
    elif f == "unknown unit reference":
        pipe["PROCESS_UNITS"][0]["TARGET"] = "nobody"
    elif f in ("unknown stream", "unknown fluid"):
        d = sim["STREAM_DISTRIBUTION"]
        if f == "unknown stream":
            if d["METHOD"] == "COMMON_STREAM":
                d["INLET_STREAM"] = "nobody"
            else:
                d["INLET_STREAMS"][0] = "nobody"
        else:
            s = d["INLET_STREAM"] if d["METHOD"] == "COMMON_STREAM" else d["INLET_STREAMS"][0]
            (data["INLET_STREAMS"][s] if isinstance(s, str) else s)["FLUID"] = "nobody"
    elif f.startswith("overflow"):
        d = sim["STREAM_DISTRIBUTION"]
        if d["METHOD"] != "COMMON_STREAM":
            return False
        d["SETTINGS"][0]["OVERFLOW"] = [{"FROM_REFERENCE": name if "to" in f else "nobody", "TO_REFERENCE": "nobody" if "to" in f else name}]
    elif f.startswith("event"):
        comp = next((u for u in named if "u" + str(pipe["PROCESS_UNITS"].index(u)) == u["NAME"] and c["pipes"][t]["units"][pipe["PROCESS_UNITS"].index(u)]["kind"] == "COMPRESSOR"), None)
        if comp is None or not data["PROCESS_EVENTS"]:
            return False
        data["DEFINITIONS"]["PROCESS_UNITS"]["other"] = {"TYPE": "LIQUID_REMOVER"}
        target = comp["TARGET"]
        if not isinstance(target, str):
            data["DEFINITIONS"]["PROCESS_UNITS"]["same"] = target
            target = "same"
        e = {"TYPE": "CHANGE", "CHANGE_TARGET": comp["NAME"], "CHANGE_FROM": target, "CHANGE_TO": target, "CHANGE_TYPE": "REBUNDLE", "REF": data["PROCESS_EVENTS"][0]["NAME"]}
        if f == "event with unknown ref":
            e["REF"] = "nobody"
        elif f == "event with unknown unit":
            e["CHANGE_TO"] = "nobody"
        elif f == "event to non-compressor":
            e["CHANGE_TO"] = "other"
        else:
            e["CHANGE_TARGET"] = "nobody"
        pipe["EVENTS"] = [*pipe.get("EVENTS", []), e]
    elif f == "outlet constraint without units":
        last = pipe["PROCESS_UNITS"][-1]
        for k in cons:
            if "PROCESS_UNIT" not in k:
                k["PROCESS_UNIT"] = last.setdefault("NAME", "lastone")
        if not any(k["PROCESS_UNIT"] == last.get("NAME") for k in cons):
            return False
        cons.append({k: v for k, v in cons[0].items() if k != "PROCESS_UNIT"})
    elif f == "process event with unknown ref":
        data["PROCESS_EVENTS"].append({"TYPE": "OTHER", "NAME": "PEX", "REF": "nobody"})
    elif f == "duplicate ecalc event":
        data["ECALC_EVENTS"].append(dict(data["ECALC_EVENTS"][0]))
    elif f == "no such file":
        pipe["PROCESS_UNITS"].append({"TARGET": {"TYPE": "COMPRESSOR", "COMPRESSOR_MODEL": {"TYPE": "COMPRESSOR_CHART", "CHART": {"CURVES": {"FILE": "nobody.csv"}},
                                      "CONTROL_MARGIN": {"UNIT": "FRACTION", "VALUE": 0}}}})
    return True


def check_refused(c, ctx: Ctx):
    from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
    from libecalc.presentation.yaml.model_validation_exception import ModelValidationException

    ff.install()
    text = Text(c)
    data = text.build()
    broken = bool(c["fault"]) and inject(c, data)
    targets = {t for s in c["sims"] for t in s["targets"]}
    bad = broken or any(sections_of(c["pipes"][t]) is None for t in targets)
    if not bad:
        return
    if broken and all(sections_of(c["pipes"][t]) for t in targets):
        fresh = Text(c)
        clean = fresh.build()
        get(c, clean, fresh.resources())  # without the fault it is accepted
    expect_raises((EcalcValidationException, ModelValidationException), lambda: get(c, data, text.resources()), f"a model with {c['fault'] if broken else 'unusable sections'}")
    ctx.nontrivial(True)
    ctx.label(c["fault"] if broken else "sections")


SUBCHECKS = [
    Sub("valid", case(), check_valid, 600, rule="a pipeline of several sections or more than three units"),
    Sub("refused", case(fault=True), check_refused, 500, rule="the model has a fault that must be refused"),
]

"""The fluid service: caching never changes an answer; failed flashes are reported and never cached."""
from collections import OrderedDict

from hypothesis import strategies as st

from harness import fakefluid as ff
from harness.cli import run_cli
from harness.core import Ctx, Sub, expect_raises, require, require_close
from harness.e2e import csv_text
from harness.gen import nice

ASSUMPTIONS = ["The NeqSim library (not installed offline) is replaced by an explicit equation of state behind the Java gateway."]
COMPONENTS = [n.replace("-", "_") for n in ff.MW]
EOS = ["SRK", "PR", "GERG_SRK", "GERG_PR"]
PROPS = ["pressure_bara", "temperature_kelvin", "density", "z", "enthalpy_joule_per_kg", "kappa", "vapor_fraction_molar", "molar_mass"]


@st.composite
def composition(draw, wet=True):
    names = draw(st.lists(st.sampled_from(COMPONENTS), min_size=1, max_size=5, unique=True))
    comp = {n: draw(nice(0.001, 1, 3)) for n in names}
    comp["methane"] = comp.get("methane", 0) + draw(nice(0.5, 3, 2))
    if not wet:
        comp = {n: v for n, v in comp.items() if n.replace("_", "-") not in ff.HEAVY}
    kind = draw(st.integers(0, 3))
    if kind:
        total = sum(comp.values()) / (1 if kind == 1 else 100)
        comp = {n: v / total for n, v in comp.items()}
    return comp


# ---------------------------------------------------------------- the cache against a model
@st.composite
def lru_case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 40))):
        kind = draw(st.sampled_from(["get", "get", "put", "put", "put", "clear", "len"]))
        ops.append([kind, draw(st.integers(0, 6)), draw(st.integers(1, 99))])
    return {"size": draw(st.integers(0, 5)), "ops": ops}


def check_lru(c, ctx: Ctx):
    from ecalc_neqsim_wrapper.cache_service import LRUCache

    cache = LRUCache(max_size=c["size"])
    model, hits, misses, evictions = OrderedDict(), 0, 0, 0
    for n, (kind, key, value) in enumerate(c["ops"]):
        if kind == "get":
            exp = model.get(key)
            if key in model:
                model.move_to_end(key)
                hits += 1
            else:
                misses += 1
            got = cache.get(key)
            require(got == exp, f"step {n}: get({key}) gives {got}, expected {exp}")
        elif kind == "put":
            if c["size"]:
                model[key] = value
                model.move_to_end(key)
                if len(model) > c["size"]:
                    model.popitem(last=False)
                    evictions += 1
                    ctx.nontrivial()
            cache.put(key, value)
        elif kind == "clear":
            model.clear()
            hits = misses = evictions = 0
            cache.clear()
        require(len(cache) == len(model), f"step {n}: {len(cache)} entries, expected {len(model)}")
        s = cache.get_stats()
        require((s["hits"], s["misses"], s["evictions"], s["size"]) == (hits, misses, evictions, len(model)), f"step {n}: statistics {s}")


# ---------------------------------------------------------------- histories of calls to the service
@st.composite
def service_case(draw):
    comps = []
    for _ in range(draw(st.integers(1, 3))):
        comps.append(draw(composition()))
    if draw(st.booleans()):  # a fluid much like another one
        a = dict(comps[0])
        names = draw(st.permutations(sorted(a)))
        if len(names) > 1 and draw(st.booleans()):
            a[names[0]], a[names[1]] = a[names[1]], a[names[0]]
        else:
            a[names[0]] *= draw(st.sampled_from([1.001, 0.9, 2.0]))
        comps.append(a)
    ps = draw(st.lists(nice(1.5, 200, 1), min_size=1, max_size=2))
    ps += [round(ps[0] + d, 6) for d in draw(st.sampled_from([[], [0.001], [0.00002], [5.0]]))]
    ts = draw(st.lists(nice(275, 450, 1), min_size=1, max_size=2))
    ts += [round(ts[0] + d, 6) for d in draw(st.sampled_from([[], [0.001], [0.00002], [7.0]]))]
    ops = []
    for _ in range(draw(st.integers(2, 14))):
        if ops and draw(st.booleans()):  # an earlier call with one thing changed; a target enthalpy is kept
            old = draw(st.sampled_from(ops))
            o = {**old, "of": old.get("of", [old["comp"], old["eos"], old["p"], old["t"]])}
            name = draw(st.sampled_from(["comp", "eos", "eos", "p", "t", "op"]))
            o[name] = draw({"comp": st.integers(0, len(comps) - 1), "eos": st.sampled_from(EOS), "p": st.sampled_from(ps), "t": st.sampled_from(ts),
                            "op": st.sampled_from(["pt", "ph", "ph_guess", "rate"])}[name])
            ops.append(o)
            continue
        ops.append({
            "op": draw(st.sampled_from(["pt", "pt", "ph", "ph", "ph_guess", "dry", "rate", "mass", "std", "restart", "fault"])),
            "comp": draw(st.integers(0, len(comps) - 1)), "eos": draw(st.sampled_from(EOS)),
            "p": draw(st.sampled_from(ps)), "t": draw(st.sampled_from(ts)), "x": draw(nice(0, 1e6, 0)),
        })
    return {"comps": comps, "ops": ops, "sizes": [draw(st.sampled_from([0, 1, 2, 3, 512])), draw(st.sampled_from([0, 1, 2, 5, 1000]))]}


def check_service(c, ctx: Ctx):
    from ecalc_neqsim_wrapper import CacheService
    from libecalc.process.fluid_stream.exceptions import FluidFlashCalculationError

    svc = ff.fresh_service(*c["sizes"])
    seen, known = set(), []

    def same(got, exp, what):
        for k in PROPS:
            require_close(getattr(got, k), exp[k], f"{what}: {k}", rel=2e-6, abs_=1e-4 if k == "enthalpy_joule_per_kg" else 1e-9)

    for n, o in enumerate(c["ops"]):
        comp, eos, p, t = c["comps"][o["comp"]], o["eos"], o["p"], o["t"]
        fm = ff.fluid_model(comp, eos)
        pt = ff.reference(comp, eos, p, t)
        rho = ff.standard_density(comp, eos)
        what = f"call {n} ({o['op']} at {p} bara, {t} K, {eos}), caches {c['sizes']}"
        key = (o["comp"], eos, p, t, o["op"])
        ctx.nontrivial(key in seen)
        seen.add(key)
        if o["op"] == "pt":
            r = svc.flash_pt(fm, p, t)
            same(r, pt, what)
            require_close(r.standard_density, rho, f"{what}: standard density", rel=2e-6)
            fluid = svc.create_fluid(fm, p, t)
            same(fluid.properties, pt, what + " create_fluid")
            require(fluid.fluid_model == fm, f"{what}: fluid model changed")
        elif o["op"] in ("ph", "ph_guess"):
            h = pt["enthalpy_joule_per_kg"]
            p2 = p + o["x"] * 1e-4
            if "of" in o:
                i, eos_of, p_of, t_of = o["of"]
                h_of = ff.reference(c["comps"][i], eos_of, p_of, t_of)["enthalpy_joule_per_kg"]
                if 250 < ff.reference(comp, eos, p2, h=h_of)["temperature_kelvin"] < 600:
                    h = h_of
                    ctx.label("enthalpy of an earlier call")
            exp = ff.reference(comp, eos, p2, h=h)
            r = svc.flash_ph(fm, p2, h, **({"temperature_guess_kelvin": t} if o["op"] == "ph_guess" else {}))
            same(r, exp, what)
            require_close(r.standard_density, rho, f"{what}: standard density", rel=2e-6)
        elif o["op"] == "dry":
            fluid = svc.create_fluid(fm, p, t)
            gas = svc.remove_liquid(fluid)
            require_close(gas.properties.vapor_fraction_molar, 1.0, f"{what}: vapour after removal of liquid", rel=1e-3)
            if pt["vapor_fraction_molar"] >= 0.9999:
                require(gas == fluid, f"{what}: a gas changed by removal of liquid")
            else:
                ctx.label("two phases")
                left = pt["system"].phaseToSystem("gas")
                fr = left.fractions()
                for name, value in gas.composition.items():
                    require_close(value, fr.get(name.replace("_", "-"), 0.0), f"{what}: {name} in the gas", rel=1e-6)
                comp2 = {k: v for k, v in gas.composition.items() if v > 0}
                same(gas.properties, ff.reference(comp2, eos, p, t), what + " gas")
                same(svc.flash_pt(gas.fluid_model, p, t), ff.reference(comp2, eos, p, t), what + " gas flashed again")
        elif o["op"] == "rate":
            s = svc.create_stream_from_standard_rate(fm, p, t, o["x"])
            same(s.fluid.properties, pt, what)
            require_close(s.mass_rate_kg_per_h, o["x"] * rho / 24, f"{what}: mass rate", rel=2e-6)
            require_close(s.standard_rate_sm3_per_day, o["x"], f"{what}: standard rate", rel=1e-9)
            require_close(s.volumetric_rate_m3_per_hour * pt["density"], o["x"] * rho / 24, f"{what}: volume rate", rel=4e-6)
        elif o["op"] == "mass":
            s = svc.create_stream_from_mass_rate(fm, p, t, o["x"])
            require(s.mass_rate_kg_per_h == o["x"], f"{what}: mass rate {s.mass_rate_kg_per_h}")
            same(s.fluid.properties, pt, what)
        elif o["op"] == "std":
            m = svc.standard_rate_to_mass_rate(fm, o["x"])
            require_close(m, o["x"] * rho / 24, f"{what}: mass rate", rel=2e-6)
            require_close(svc.mass_rate_to_standard_rate(fm, m), o["x"], f"{what}: back to standard rate", rel=1e-9)
        elif o["op"] == "restart":  # the Java process goes down and a new one is started
            from ecalc_neqsim_wrapper import NeqsimService

            NeqsimService.instance().shutdown()
            ff.install()
            require(all(s.get("size", 0) == 0 for s in CacheService.get_all_stats().values()), f"{what}: cached fluids of a closed Java process")
        elif o["op"] == "fault":  # a flash that does not converge is an error, and is not remembered
            h = pt["enthalpy_joule_per_kg"] + 0.25 + o["x"]
            if any(abs(p - a) < 1e-3 and abs(h - b) < 0.1 for a, b in known):
                continue  # may be remembered from the successful flash below
            known.append((p, h))
            ff.FAULT["ph_drift"] = 50.0 + 3e-4 * abs(h)
            try:
                expect_raises(FluidFlashCalculationError, lambda: svc.flash_ph(fm, p, h), f"{what}: PH flash far from its target")
            finally:
                ff.FAULT["ph_drift"] = 0.0
            same(svc.flash_ph(fm, p, h), ff.reference(comp, eos, p, h=h), what + " after a failed flash")
            expect_raises(FluidFlashCalculationError, lambda: svc.flash_ph(fm, p, -1e9), f"{what}: impossible enthalpy")
        stats = CacheService.get_all_stats()
        for (name, s), size in zip(sorted(stats.items(), key=lambda kv: kv[0] != "reference_fluid"), c["sizes"]):
            require(s["max_size"] == size, f"{what}: cache {name} has size {s['max_size']}, configured {size}")
            require(s["size"] <= size, f"{what}: cache {name} has {s['size']} entries, more than {size}")
    ctx.label(f"sizes {c['sizes']}")


# ---------------------------------------------------------------- the options of the command line
@st.composite
def cli_case(draw):
    size = st.sampled_from([None, 0, 0, 1, 2, 7, 600])
    return {"reference": draw(size), "flash": draw(size), "order": draw(st.booleans()),
            "rows": [[draw(nice(1e5, 3e6, 0)), draw(nice(10, 40, 1)), draw(nice(1.2, 4, 2))] for _ in range(draw(st.integers(1, 3)))]}


def check_cli(c, ctx: Ctx):
    from ecalc_neqsim_wrapper import CacheConfig, CacheService, NeqSimFluidService

    default = CacheConfig.default()
    rows = c["rows"] + c["rows"][:1]  # the first once more: remembered where there is a cache
    n = len(rows)
    files = {"s.csv": csv_text({"DATE": [f"{2020 + i}-01-01" for i in range(n)], "RATE": [r[0] for r in rows], "PS": [r[1] for r in rows],
                                "PD": [round(r[1] * r[2], 3) for r in rows]}),
             "g.csv": csv_text({"POWER": [0, 1e6], "FUEL": [0, 1e6]})}
    model = {
        "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
        "FACILITY_INPUTS": [{"NAME": "g", "TYPE": "ELECTRICITY2FUEL", "FILE": "g.csv"}],
        "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": 1}]}],
        "MODELS": [
            {"NAME": "fluid", "TYPE": "FLUID", "FLUID_MODEL_TYPE": "PREDEFINED", "EOS_MODEL": "SRK", "GAS_TYPE": "MEDIUM"},
            {"NAME": "chart", "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": "GENERIC_FROM_INPUT", "POLYTROPIC_EFFICIENCY": 0.75, "UNITS": {"EFFICIENCY": "FRACTION"}},
            {"NAME": "m", "TYPE": "SIMPLIFIED_VARIABLE_SPEED_COMPRESSOR_TRAIN", "FLUID_MODEL": "fluid",
             "COMPRESSOR_TRAIN": {"STAGES": [{"INLET_TEMPERATURE": 30, "COMPRESSOR_CHART": "chart"}, {"INLET_TEMPERATURE": 35, "COMPRESSOR_CHART": "chart"}]}}],
        "INSTALLATIONS": [{"NAME": "i", "HCEXPORT": 0, "FUEL": "f", "GENERATORSETS": [
            {"NAME": "e", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "g", "CONSUMERS": [
                {"NAME": "x", "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": {
                    "TYPE": "COMPRESSOR", "ENERGYFUNCTION": "m", "RATE": "S;RATE", "SUCTION_PRESSURE": "S;PS", "DISCHARGE_PRESSURE": "S;PD"}}]}]}],
        "START": "2020-01-01", "END": f"{2020 + n}-01-01",
    }

    def written(reference, flash):
        ff.install()
        NeqSimFluidService.reset_instance()
        CacheService.clear_all()
        CacheService._caches.clear()
        args = [*([] if reference is None else ["--reference-cache-size", str(reference)]), *([] if flash is None else ["--flash-cache-size", str(flash)])]
        try:
            r = run_cli(model, files, args)
            if r.exception is not None:
                raise r.exception
            require(r.code == 0, f"{args}: exit code {r.code}: {r.output[-300:]}")
            NeqSimFluidService.instance()
            stats = dict(CacheService.get_all_stats())
        finally:
            NeqSimFluidService.reset_instance()
            CacheService.clear_all()
            CacheService._caches.clear()
        want = {"reference_fluid": default.reference_fluid_max_size if reference is None else reference, "flash": default.flash_max_size if flash is None else flash}
        for name, s in stats.items():
            exp = want["reference_fluid" if name == "reference_fluid" else "flash"]
            require(s["max_size"] == exp, f"{args}: cache {name} has size {s['max_size']}, asked for {exp}")
        return {k: [x for x in v.splitlines()] for k, v in r.files.items() if k.endswith(".csv")}

    pair = [(None, None), (c["reference"], c["flash"])]
    a, b = [written(*x) for x in (pair if c["order"] else pair[::-1])]
    require(a and sorted(a) == sorted(b), f"files {sorted(a)} and {sorted(b)}")
    for k in a:
        require(len(a[k]) == len(b[k]), f"{k}: {len(a[k])} and {len(b[k])} lines")
        for x, y in zip(a[k], b[k]):
            for u, v in zip(x.split(","), y.split(","), strict=True):
                try:
                    u, v = float(u), float(v)
                except ValueError:
                    require(u == v, f"{k}: {x} and {y}")
                else:
                    require_close(u, v, f"{k}: {x} and {y}", rel=1e-6, abs_=1e-6)
    ctx.nontrivial(0 in (c["reference"], c["flash"]))


SUBCHECKS = [
    Sub("lru", lru_case(), check_lru, 1500, rule="an entry is evicted"),
    Sub("cli", cli_case(), check_cli, 40, rule="a cache is switched off", chunk=10),
    Sub("service", service_case(), check_service, 2500, rule="the same call is made twice"),
]

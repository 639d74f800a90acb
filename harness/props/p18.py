"""Process units keep mass, components and energy, and do what they say to pressure and temperature."""
import itertools

from hypothesis import strategies as st

from harness import charts, compref as cr, fakefluid as ff
from harness.core import Ctx, Sub, expect_raises, require, require_close
from harness.gen import nice
from harness.props.p23 import EOS, composition

ASSUMPTIONS = ["The NeqSim library (not installed offline) is replaced by an explicit equation of state behind the Java gateway."]


def same_stream(got, exp: cr.S, what, rel=2e-6):
    p = exp.props
    require_close(got.mass_rate_kg_per_h, exp.mass, f"{what}: mass rate", rel=rel, abs_=1e-6)
    require_close(got.pressure_bara, exp.p, f"{what}: pressure", rel=rel)
    require_close(got.enthalpy_joule_per_kg, exp.h, f"{what}: enthalpy", rel=rel, abs_=1.0)
    require_close(got.temperature_kelvin, p["temperature_kelvin"], f"{what}: temperature", rel=rel)
    require_close(got.density, p["density"], f"{what}: density", rel=max(rel, 4e-6))
    require_close(got.molar_mass, p["molar_mass"], f"{what}: molar mass", rel=1e-7)
    require_close(got.standard_rate_sm3_per_day, exp.std, f"{what}: standard rate", rel=4e-6, abs_=1e-3)
    require_close(got.volumetric_rate_m3_per_hour, exp.actual, f"{what}: actual rate", rel=1e-5, abs_=1e-6)
    moles = exp.moles
    comp = got.composition
    fr = {n: v for n, v in vars(comp).items()} if hasattr(comp, "__dict__") else {n: getattr(comp, n) for n in moles}
    total = sum(fr.values())
    n_tot = got.mass_rate_kg_per_h / got.molar_mass / 1000
    for n in set(fr) | set(moles):
        require_close(n_tot * fr.get(n, 0.0) / total, moles.get(n, 0.0), f"{what}: flow of {n}", rel=1e-6, abs_=1e-6 * max(n_tot, 1))


def dry_out(s: cr.S):
    """Reference for removal of liquid."""
    pr = s.props
    v = pr["vapor_fraction_molar"]
    if v >= 0.9999:
        return s
    gas = pr["system"].phaseToSystem("gas")
    comp = {n.replace("-", "_"): x for n, x in gas.fractions().items() if x > 0}
    return cr.stream(comp, s.eos, s.p, pr["temperature_kelvin"], mass=s.mass * v * gas.getMolarMass() / pr["molar_mass"])


# ---------------------------------------------------------------- chains of simple units
@st.composite
def stream_case(draw, eos=None, wet=True):
    return {"comp": draw(composition(wet)), "eos": eos or draw(st.sampled_from(EOS)), "p": draw(nice(2, 150, 1)), "t": draw(nice(275, 400, 1)),
            "std": draw(nice(1e3, 5e6, 0))}


@st.composite
def chain_case(draw):
    s = draw(stream_case())
    units = []
    for _ in range(draw(st.integers(1, 6))):
        kind = draw(st.sampled_from(["inlet", "outlet", "choke", "choke", "dropper", "temperature", "temperature", "liquid", "liquid", "mixer", "splitter",
                                     "split_stream", "add", "remove"]))
        u = {"kind": kind, "x": draw(nice(0, 1, 3))}
        if kind in ("choke", "dropper"):
            u["x"] = draw(st.sampled_from([0.0, 0.1, 0.5, 0.9, 1.0, 1.2])) if draw(st.booleans()) else u["x"]
        if kind in ("splitter", "remove"):
            u["x"] = draw(st.sampled_from([0.0, 0.3, 0.9999, 1.05, u["x"]]))
        if kind == "mixer":
            u["s"] = draw(stream_case(eos=s["eos"] if draw(st.integers(0, 7)) else None))
        units.append(u)
    return {"s": s, "units": units}


def real_stream(svc, s: cr.S):
    return svc.create_stream_from_mass_rate(ff.fluid_model(s.comp, s.eos), s.p, s.t, s.mass)


def mixed(streams):
    mass = sum(s.mass for s in streams)
    moles = {}
    for s in streams:
        for n, v in s.moles.items():
            moles[n] = moles.get(n, 0.0) + v
    return cr.S({n: v for n, v in moles.items() if v > 0}, streams[0].eos, min(s.p for s in streams), sum(s.mass * s.h for s in streams) / mass, mass)


def ref_of(c, std=None):
    return cr.stream(c["comp"], c["eos"], c["p"], c["t"], std=c["std"] if std is None else std)


def check_chain(c, ctx: Ctx):
    from libecalc.process.fluid_stream.exceptions import IncompatibleEoSModelsException, NegativeMassRateException
    from libecalc.process.process_pipeline.process_error import InsufficientInletPressureError, OfftakeExceedsInletError
    from libecalc.process.process_solver.process_pipeline_runner import ProcessPipelineRunner
    from libecalc.process.process_units.choke import Choke
    from libecalc.process.process_units.direct_mixer import DirectMixer
    from libecalc.process.process_units.direct_splitter import DirectSplitter
    from libecalc.process.process_units.inlet import Inlet
    from libecalc.process.process_units.liquid_remover import LiquidRemover
    from libecalc.process.process_units.mixer import Mixer
    from libecalc.process.process_units.outlet import Outlet
    from libecalc.process.process_units.pressure_dropper import PressureDropper
    from libecalc.process.process_units.splitter import Splitter
    from libecalc.process.process_units.temperature_setter import TemperatureSetter

    svc = ff.fresh_service()
    start = cur = ref_of(c["s"])
    units, states, err = [], [cur], None
    for u in c["units"]:
        kind, x = u["kind"], u["x"]
        new, unit = cur, None
        if kind == "inlet":
            unit = Inlet()
        elif kind == "outlet":
            unit = Outlet()
        elif kind in ("choke", "dropper"):
            dp = x * cur.p if x != 1.0 else cur.p
            if kind == "choke":
                unit = Choke(svc)
                unit.set_pressure_change(dp)
                expect_raises(ValueError, lambda unit=unit: unit.set_pressure_change(-0.5), "choke with negative pressure drop")
            else:
                unit = PressureDropper(svc, pressure_drop_bara=dp)
            if 0.999 < x <= 1.0 and (x < 1.0 or len(units)):
                continue  # not judged: equal to the pressure up to round-off, or extreme vacuum
            if dp >= cur.p:
                err = InsufficientInletPressureError
            else:
                new = cur.at(cur.p - dp, cur.t) if dp > 0 else cur
        elif kind == "temperature":
            t = 270 + 180 * x
            unit = TemperatureSetter(svc, required_temperature_kelvin=t)
            new = cur.at(cur.p, t)
        elif kind == "liquid":
            unit = LiquidRemover(svc)
            v = cur.props["vapor_fraction_molar"]
            if 0.9998 < v < 1:
                continue  # not judged at the threshold
            new = dry_out(cur)
            if new is not cur:
                ctx.label("liquid removed")
        elif kind == "mixer":
            unit = Mixer(svc)
            other = ref_of(u["s"])
            unit.set_stream(real_stream(svc, other))
            if other.eos != cur.eos:
                err = IncompatibleEoSModelsException
            else:
                new = mixed([cur, other])
        elif kind in ("splitter", "split_stream"):
            x = 0.9999 if 0.9999 < x <= 1 else x
            rate = x * cur.std
            unit = Splitter(svc)
            unit.set_rate(rate)
            if x > 1:
                err = OfftakeExceedsInletError
            elif kind == "split_stream":
                got = unit.get_split_stream(real_stream(svc, cur))
                same_stream(got, cr.replace(cur, mass=cur.mass * x), f"{kind} of {x}")
                new = cr.replace(cur, mass=cur.mass * (1 - x))
            else:
                new = cr.replace(cur, mass=cur.mass * (1 - x))
        elif kind == "add":
            unit = DirectMixer(mix_rate=x * cur.std)
            new = cr.replace(cur, mass=cur.mass * (1 + x))
        elif kind == "remove":
            x = 0.9999 if 0.9999 < x <= 1 else x
            unit = DirectSplitter(split_rate=x * cur.std)
            if x > 1:
                err = NegativeMassRateException
            new = cr.replace(cur, mass=cur.mass * (1 - x))
        units.append(unit)
        if err:
            break
        cur = new
        if cur.mass < 1e-3:
            break
        t = cur.props["temperature_kelvin"]
        if not 120 < t < 900:
            units.pop()
            cur = states[-1]
            break  # the stand-in equation of state is not used there
        states.append(cur)
    kinds = [u["kind"] for u in c["units"]][: len(units)]
    what = f"units {[(u['kind'], u['x']) for u in c['units']][: len(units)]} on {c['s']}"
    inlet = svc.create_stream_from_standard_rate(ff.fluid_model(start.comp, start.eos), start.p, start.t, c["s"]["std"])
    same_stream(inlet, start, "inlet")
    runner = ProcessPipelineRunner(configuration_handlers=[], units=units)
    ctx.nontrivial(len(units) > 1)
    if err:
        ctx.label(err.__name__)
        e = expect_raises(err, lambda: runner.run(inlet), what)
        if hasattr(e, "process_unit_id"):
            require(e.process_unit_id == units[-1].get_id(), f"{what}: error of another unit")
        if len(units) > 1:
            same_stream(runner.run(inlet, to_id=units[-1].get_id()), states[-1], what + " before the failing unit")
        return
    stream = inlet
    for i, (unit, exp) in enumerate(zip(units, states[1:] + [cur])):
        stream = unit.propagate_stream(stream)
        same_stream(stream, exp, f"{what} after unit {i} ({kinds[i]})")
        ctx.label(kinds[i])
    same_stream(runner.run(inlet), cur, what + " run as a pipeline")
    same_stream(runner.run(inlet), cur, what + " run as a pipeline again")
    if len(units) > 1:
        same_stream(runner.run(inlet, to_id=units[1].get_id()), states[1], what + " run to its second unit")


# ---------------------------------------------------------------- mixing
@st.composite
def mix_case(draw):
    eos = draw(st.sampled_from(EOS))
    ss = [draw(stream_case(eos=eos)) for _ in range(draw(st.integers(2, 4)))]
    for s in ss[1:]:
        if not draw(st.integers(0, 3)):
            s["comp"] = ss[0]["comp"]
        if not draw(st.integers(0, 3)):
            s["p"] = ss[0]["p"]
        if not draw(st.integers(0, 3)):
            s["std"] = 0.0
    return {"ss": ss}


def check_mix(c, ctx: Ctx):
    from libecalc.process.fluid_stream.exceptions import EmptyStreamListException, ZeroTotalMassRateException
    from libecalc.process.fluid_stream.stream_mixer import StreamMixer

    svc = ff.fresh_service()
    mixer = StreamMixer(svc)
    refs = [ref_of(s) for s in c["ss"]]
    exp = mixed(refs)
    if not 120 < exp.t < 900:
        return
    real = [real_stream(svc, r) for r in refs]
    what = f"mix of {c['ss']}"
    for order in itertools.islice(itertools.permutations(range(len(refs))), 6):
        same_stream(mixer.mix_streams([real[i] for i in order]), exp, f"{what} in order {order}")
    ctx.nontrivial(sum(r.mass > 0 for r in refs) > 1)
    if len(real) > 2:
        try:
            step = real[0]
            for s in real[1:]:
                step = mixer.mix_streams([step, s])
            same_stream(step, exp, f"{what} one after the other", rel=1e-5)
        except ZeroTotalMassRateException:
            require(refs[0].mass + refs[1].mass == 0, f"{what}: mass rates refused as zero")
    expect_raises(EmptyStreamListException, lambda: mixer.mix_streams([]), "mix of nothing")
    expect_raises(ZeroTotalMassRateException, lambda: mixer.mix_streams([s.with_mass_rate(0.0) for s in real]), f"{what} with no mass")


# ---------------------------------------------------------------- one compressor
@st.composite
def compressor_case(draw):
    data = draw(charts.curves(n_min=1, n_max=4, head_lo=5000, head_hi=60000))
    lo, hi = data[0]["speed"], data[-1]["speed"]
    f = draw(st.sampled_from([0.0, 1.0, 0.5])) if draw(st.booleans()) else draw(nice(0, 1, 3))
    s = draw(stream_case(wet=not draw(st.integers(0, 5))))
    s["p"] = draw(nice(5, 60, 1))
    return {"chart": data, "speed": lo + f * (hi - lo), "s": s, "q": draw(st.one_of(nice(0, 1, 3), nice(-0.5, 1.5, 2)))}


def check_compressor(c, ctx: Ctx):
    from libecalc.process.process_pipeline.process_error import CompressorStonewallError, CompressorSurgeError, LiquidAtInletError
    from libecalc.process.process_units.compressor import Compressor
    from libecalc.process.shaft import VariableSpeedShaft

    svc = ff.fresh_service()
    comp = Compressor(compressor_chart=charts.chart_data(c["chart"]), fluid_service=svc)
    shaft = VariableSpeedShaft()
    shaft.connect(comp)
    b = shaft.get_speed_boundary()
    require_close(b.min, c["chart"][0]["speed"], "minimum speed")
    require_close(b.max, c["chart"][-1]["speed"], "maximum speed")
    inlet0 = ref_of(c["s"])
    speed = c["speed"]
    shaft.set_speed(speed)
    qmin, qmax = cr.speed_limits(c["chart"], speed)
    require_close(comp.minimum_flow_rate, qmin, f"minimum flow at {speed} rpm of {c['chart']}")
    require_close(comp.maximum_flow_rate, qmax, f"maximum flow at {speed} rpm of {c['chart']}")
    q = max(qmin + c["q"] * (qmax - qmin), 0.05 * qmin)
    ref = cr.replace(inlet0, mass=q * inlet0.props["density"])
    what = f"compressor {c['chart']} at {speed} rpm, {q} m3/h of {c['s']}"
    stream = real_stream(svc, ref)
    v = ref.props["vapor_fraction_molar"]
    if v < 0.9998:
        ctx.label("liquid")
        e = expect_raises(LiquidAtInletError, lambda: comp.propagate_stream(stream), what)
        require(e.process_unit_id == comp.get_id(), f"{what}: error of another unit")
        return
    if v < 1:
        return
    # range of recirculation: what must and what can be added
    lo_std = qmin * ref.props["density"] / ref.std_density * 24
    hi_std = qmax * ref.props["density"] / ref.std_density * 24
    r = comp.get_recirculation_range(stream)
    require_close(r.min, max(0.0, lo_std - ref.std), f"{what}: rate to add to reach minimum flow", rel=5e-6, abs_=1e-5 * hi_std)
    require_close(r.max, max(0.0, hi_std - ref.std), f"{what}: rate which can be added", rel=5e-6, abs_=1e-5 * hi_std)
    require_close(comp.get_minimum_standard_rate(stream), lo_std, f"{what}: minimum standard rate", rel=5e-6)
    require_close(comp.get_maximum_standard_rate(stream), hi_std, f"{what}: maximum standard rate", rel=5e-6)
    margin = 1e-5 * (qmax - qmin)
    if q < qmin - margin:
        ctx.label("surge")
        e = expect_raises(CompressorSurgeError, lambda: comp.propagate_stream(stream), what)
        require_close(e.boundary_rate, qmin, f"{what}: reported limit")
        require_close(e.actual_rate, q, f"{what}: reported rate", rel=5e-6)
        # the rate to add is just enough
        comp.propagate_stream(svc.create_stream_from_standard_rate(stream.fluid_model, stream.pressure_bara, stream.temperature_kelvin, stream.standard_rate_sm3_per_day + r.min))
        return
    if q > qmax + margin:
        ctx.label("stonewall")
        e = expect_raises(CompressorStonewallError, lambda: comp.propagate_stream(stream), what)
        require_close(e.boundary_rate, qmax, f"{what}: reported limit")
        require_close(e.actual_rate, q, f"{what}: reported rate", rel=5e-6)
        return
    if q < qmin + margin or q > qmax - margin:
        return
    head, eff = cr.head_efficiency(c["chart"], speed, q)
    point = comp.get_operational_point(stream)
    require_close(point.polytropic_head_joule_per_kg, head, f"{what}: head", rel=2e-5)
    require_close(point.polytropic_efficiency, eff, f"{what}: efficiency", rel=2e-5)
    require_close(point.actual_rate_am3_h, q, f"{what}: rate", rel=5e-6)
    exp = cr.compress(ref, head, eff)
    if exp.p > 800 or exp.t > 900:
        return
    out = comp.propagate_stream(stream)
    ctx.nontrivial(len(c["chart"]) > 1)
    ctx.label("between curves" if all(k["speed"] != speed for k in c["chart"]) else "on a curve")
    require_close(out.mass_rate_kg_per_h, stream.mass_rate_kg_per_h, f"{what}: mass")
    require(out.fluid_model == stream.fluid_model, f"{what}: fluid changed")
    require_close(out.enthalpy_joule_per_kg - stream.enthalpy_joule_per_kg, head / eff, f"{what}: work", rel=1e-4, abs_=2 + 2e-6 * abs(exp.h))
    require_close(out.pressure_bara, exp.p, f"{what}: outlet pressure", rel=1.5e-3)
    require_close(out.temperature_kelvin, ff.reference(ref.comp, ref.eos, out.pressure_bara, h=exp.h)["temperature_kelvin"], f"{what}: outlet temperature", rel=1e-5)


# ---------------------------------------------------------------- recirculation loops
@st.composite
def loop_case(draw):
    return {"s": draw(stream_case()), "loops": [draw(nice(0, 2, 2)) for _ in range(draw(st.integers(1, 3)))], "nested": draw(st.booleans()),
            "t": draw(nice(275, 400, 0)), "dp": draw(nice(0, 0.9, 2))}


def check_loop(c, ctx: Ctx):
    from libecalc.process.process_solver.configuration import Configuration, RecirculationConfiguration
    from libecalc.process.process_solver.process_pipeline_runner import ProcessPipelineRunner
    from libecalc.process.process_solver.recirculation_loop import RecirculationLoop
    from libecalc.process.process_units.choke import Choke
    from libecalc.process.process_units.direct_mixer import DirectMixer
    from libecalc.process.process_units.direct_splitter import DirectSplitter
    from libecalc.process.process_units.temperature_setter import TemperatureSetter

    svc = ff.fresh_service()
    s = ref_of(c["s"])
    n = len(c["loops"])
    pairs = [(DirectMixer(), DirectSplitter()) for _ in range(n)]
    loops = [RecirculationLoop(mixer=m, splitter=sp) for m, sp in pairs]
    inner = [TemperatureSetter(svc, required_temperature_kelvin=c["t"]), Choke(svc, pressure_change=c["dp"] * s.p)]
    if c["nested"]:
        units = [m for m, _ in pairs] + inner + [sp for _, sp in reversed(pairs)]
        inside = [sum(c["loops"])] * n
    else:
        units = []
        for i, (m, sp) in enumerate(pairs):
            units += [m, *(inner if i == 0 else []), sp]
        inside = list(c["loops"])
    runner = ProcessPipelineRunner(configuration_handlers=loops, units=units)
    stream = real_stream(svc, s)
    for lp, r in zip(loops, c["loops"]):
        runner.apply_configuration(Configuration(configuration_handler_id=lp.get_id(), value=RecirculationConfiguration(recirculation_rate=r * s.std)))
        require_close(lp.get_recirculation_rate(), r * s.std, "recirculation rate")
    exp = s.at(s.p - c["dp"] * s.p, c["t"])
    what = f"loops {c}"
    same_stream(runner.run(stream), exp, what, rel=1e-5)
    for i, (_m, sp) in enumerate(pairs):
        at = runner.run(stream, to_id=(sp if not c["nested"] else inner[0]).get_id())
        require_close(at.mass_rate_kg_per_h, s.mass * (1 + inside[i]), f"{what}: mass inside loop {i}", rel=1e-6)
    ctx.nontrivial(sum(c["loops"]) > 0)
    runner.reset_configuration_handler(loops[0].get_id())
    require(loops[0].get_recirculation_rate() == 0, f"{what}: reset")
    same_stream(runner.run(stream), exp, what + " after reset", rel=1e-5)


SUBCHECKS = [
    Sub("chain", chain_case(), check_chain, 2500, rule="at least two units"),
    Sub("mix", mix_case(), check_mix, 700, rule="at least two streams with mass"),
    Sub("compressor", compressor_case(), check_compressor, 2500, rule="inside the capacity of a chart with several curves"),
    Sub("loop", loop_case(), check_loop, 500, rule="gas is recirculated"),
]

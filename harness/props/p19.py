"""The process solver: a solution meets its target inside every chart; a failure is real."""
from hypothesis import strategies as st

from harness import charts, compref as cr, fakefluid as ff, trains as tr
from harness.core import Ctx, Sub, expect_raises, fail, require, require_close, saved
from harness.gen import nice
from harness.props.p18 import real_stream

ASSUMPTIONS = ["The NeqSim library (not installed offline) is replaced by an explicit equation of state behind the Java gateway."]
CONTROLS = ["DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE", "COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"]
TOL1 = 4e-3  # relative; the outlet pressure of each compressor is iterated to 1e-3


class Section:
    """A real section assembled by the code under test, and what is needed to run it."""

    def __init__(self, svc, stages, control, shaft=None, extra=()):
        from libecalc.process.process_solver.anti_surge.anti_surge_strategy import AntiSurgeType
        from libecalc.process.process_solver.choke_configuration_handler import ChokeConfigurationHandler
        from libecalc.process.process_solver.recirculation_loop import RecirculationLoop
        from libecalc.process.process_solver.section_assembly import assemble_process_section
        from libecalc.process.process_solver.solver_assembly import assemble_solver
        from libecalc.process.process_units.choke import Choke
        from libecalc.process.process_units.compressor import Compressor
        from libecalc.process.process_units.liquid_remover import LiquidRemover
        from libecalc.process.process_units.pressure_dropper import PressureDropper
        from libecalc.process.process_units.temperature_setter import TemperatureSetter
        from libecalc.process.shaft import VariableSpeedShaft

        own = shaft is None
        self.shaft = shaft or VariableSpeedShaft()
        units, self.compressors = [], []
        for s in stages:
            if s["dp"]:
                units.append(PressureDropper(svc, pressure_drop_bara=s["dp"]))
            units.append(TemperatureSetter(svc, required_temperature_kelvin=s["t"]))
            if s["dry"]:
                units.append(LiquidRemover(svc))
            c = Compressor(compressor_chart=charts.chart_data(s["chart"]), fluid_service=svc)
            self.shaft.connect(c)
            self.compressors.append(c)
            units.append(c)
        self.control = control
        asv = AntiSurgeType.COMMON_ASV if control == "COMMON_ASV" else AntiSurgeType.INDIVIDUAL_ASV
        a = assemble_process_section(process_units=units, anti_surge=asv, pressure_control=control, fluid_service=svc)
        self.loops = [h for h in a.configuration_handlers if isinstance(h, RecirculationLoop)]
        self.handler = next((h for h in a.configuration_handlers if isinstance(h, ChokeConfigurationHandler)), None)
        choke = [u for u in a.process_units if isinstance(u, Choke)]
        if own:
            self.system = assemble_solver(
                process_units=a.process_units, configuration_handlers=[self.shaft, *a.configuration_handlers], compressors=self.compressors,
                recirculation_loops=self.loops, shaft=self.shaft, pipeline_name="x", pressure_control_type=control,
                choke=choke[0] if choke else None, choke_configuration_handler=self.handler,
            )
        else:
            self.args = (a, choke)
        self.units = a.process_units

    def finish(self):  # once all compressors are on a shared shaft
        from libecalc.process.process_solver.solver_assembly import assemble_solver

        a, choke = self.args
        self.system = assemble_solver(
            process_units=a.process_units, configuration_handlers=[self.shaft, *a.configuration_handlers], compressors=self.compressors,
            recirculation_loops=self.loops, shaft=self.shaft, pipeline_name="x", pressure_control_type=self.control,
            choke=choke[0] if choke else None, choke_configuration_handler=self.handler,
        )
        return self

    def solve(self, inlet, target):
        from libecalc.process.process_solver.float_constraint import FloatConstraint

        return self.system.solver.find_solution([FloatConstraint(target)], inlet)

    def values(self, solution, rest=None):
        """(speed, recirculation rates, choke) of a solution; rest collects the units of other sections."""
        by_id = {}
        for cfg in solution.configuration:
            require(cfg.configuration_handler_id not in by_id, f"two configurations of the same unit: {solution.configuration}")
            by_id[cfg.configuration_handler_id] = cfg.value
        sp = by_id.get(self.shaft.get_id()) if rest is not None else by_id.pop(self.shaft.get_id(), None)
        loops = [by_id.pop(x.get_id(), None) for x in self.loops]
        ch = by_id.pop(self.handler.get_id(), None) if self.handler else None
        if rest is None:
            require(not by_id, f"configuration of an unknown unit: {by_id}")
        else:
            rest.append(set(by_id) - {self.shaft.get_id()})
        return (sp.speed if sp else None, [x.recirculation_rate if x else None for x in loops], ch.delta_pressure if ch else 0.0)

    def run(self, solution, inlet):
        """Outlet and inlet of each compressor, from a clean state with only the solution applied."""
        runner = self.system.runner
        for h in [*self.loops, *([self.handler] if self.handler else [])]:
            runner.reset_configuration_handler(h.get_id())
        mine = {h.get_id() for h in [self.shaft, *self.loops, *([self.handler] if self.handler else [])]}
        runner.apply_configurations([c for c in solution.configuration if c.configuration_handler_id in mine])
        return runner.run(inlet), [runner.run(inlet, to_id=k.get_id()) for k in self.compressors]


def describe(sol, values):
    return f"speed {values[0]}, recirculation {values[1]}, choke {values[2]}, failure {sol.failure}"


def key(sol, sec):
    return (sol.success, type(sol.failure).__name__, sec.values(sol))


@st.composite
def section_case(draw):
    return {
        "train": draw(tr.train(wet=False)), "control": draw(st.sampled_from(CONTROLS)), "f": draw(nice(-0.3, 1.15, 3)), "speed": draw(nice(0, 1, 3)),
        "q": draw(nice(-0.8, 1.1, 2)), "kind": draw(st.sampled_from(["inside", "inside", "below", "below", "above", "low"])), "x": draw(nice(0.0, 1.0, 3)),
        "other": draw(st.booleans()), "otherq": draw(nice(0.3, 2.0, 2)), "othert": draw(nice(0.5, 1.5, 2)),
    }


@st.composite
def deep_case(draw):
    """Equal compressors, much capacity left, and targets far below what they give."""
    c = draw(section_case())
    first = c["train"]["stages"][0]
    c["train"]["stages"] = [{**first, "t": draw(nice(290, 320, 0)), "fit": draw(nice(0.8, 1.1, 2))} for _ in range(draw(st.integers(1, 4)))]
    c["control"] = draw(st.sampled_from(["INDIVIDUAL_ASV_PRESSURE", "INDIVIDUAL_ASV_PRESSURE", "UPSTREAM_CHOKE"]))
    c["kind"] = "below"
    c["q"] = draw(nice(-0.9, 0.4, 2))
    if c["control"] == "UPSTREAM_CHOKE":
        c["x"] = round(c["x"] ** 2, 4)
    return c


def prepare(c):
    """(fitted stages, inlet as reference stream) or None."""
    stages = tr.fitted(c["train"])
    if stages is None:
        return None
    lo, hi = tr.speed_range(stages)
    if hi <= lo * 1.005:
        return None
    s = cr.stream(c["train"]["comp"], c["train"]["eos"], c["train"]["p"], 300.0, mass=1.0)
    first = tr.condition(s, stages[0])
    if first is None:
        return None
    sp = lo + c["speed"] * (hi - lo)
    qlo, qhi = cr.speed_limits(stages[0]["chart"], sp)
    q = max(qlo + c["q"] * (qhi - qlo), 0.02 * qlo)
    mass = q * first.props["density"] / first.mass  # per kg/h at the inlet
    return stages, cr.replace(s, mass=mass), lo, hi


class Ref:
    """Reference answers for one section and inlet."""

    def __init__(self, stages, s, lo, hi, control):
        self.stages, self.s, self.lo, self.hi, self.control = stages, s, lo, hi, control
        self.common = control == "COMMON_ASV"

    def at(self, speed, s=None):
        s = s or self.s
        if self.common:
            return tr.simulate_common(self.stages, s, speed)[0]
        return tr.simulate(self.stages, s, speed)

    def min_speed(self):
        """Lowest speed which can handle the rate."""
        o = self.at(self.lo)
        if o.ok:
            return self.lo, o
        if not self.at(self.hi).ok:
            return None, o
        sp = tr.bisect(lambda x: -1 if not self.at(x).ok else 1, self.lo, self.hi, 40)
        sp = min(self.hi, sp * (1 + 1e-9))
        return sp, self.at(sp)

    def window(self, speed, n=40):
        """Common recirculation possible at a speed, and the most which the first compressor can take."""
        first = tr.condition(self.s, self.stages[0])
        top = cr.speed_limits(self.stages[0]["chart"], speed)[1] * first.props["density"] - first.mass
        start = tr.simulate_common(self.stages, self.s, speed)[1]
        good = start
        a, b = start, max(top, start)
        for _ in range(n):
            mid = (a + b) / 2
            if tr.simulate(self.stages, self.s, speed, common=mid).ok:
                a = good = mid
            else:
                b = mid
        if tr.simulate(self.stages, self.s, speed, common=top).ok:
            good = top
        return start, good, max(top, start)

    def wide(self, *speeds):
        """The window is not too narrow for a search in steps of a percent."""
        for sp in speeds:
            a, b, top = self.window(sp, 15)
            if b - a < 0.03 * top and top > 1e-3 * self.s.mass:
                return False
        return True

    def equal_ratios(self, speed, target, tol):
        """True where recirculation around each compressor gives all of them the same pressure ratio, well within their reach."""
        n, state = len(self.stages), self.s
        for i, stg in enumerate(self.stages):
            most, least = tr.simulate([stg], state, speed), tr.simulate([stg], state, speed, fraction=1.0)
            goal = self.s.p * (target / self.s.p) ** ((i + 1) / n)
            if not most.ok or not least.ok or not least.p * (1 + tol) < goal < most.p * (1 - tol):
                return False
            state = most.out.at(goal, most.out.t)
        return True

    def control_limit(self, speed):
        """Lowest pressure the pressure control can reach at a speed."""
        if self.control == "DOWNSTREAM_CHOKE":
            return 0.0
        if self.control in ("INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE"):
            o = tr.simulate(self.stages, self.s, speed, fraction=1.0)
            return o.p if o.ok else None
        if self.control == "COMMON_ASV":
            return tr.simulate(self.stages, self.s, speed, common=self.window(speed)[1]).p
        # upstream choke
        a, b = 0.0, self.s.p
        p = None
        for _ in range(40):
            mid = (a + b) / 2
            o = tr.simulate(self.stages, self.s.at(self.s.p - mid, self.s.t), speed)
            if o.ok:
                a, p = mid, o.p
            else:
                b = mid
        return p


def check_section(c, ctx: Ctx):
    prep = prepare(c)
    if prep is None:
        return
    stages, s, lo, hi = prep
    control = c["control"]
    svc = ff.fresh_service()
    sec = Section(svc, stages, control)
    b = sec.shaft.get_speed_boundary()
    require_close(b.min, lo, "lowest speed of the shaft")
    require_close(b.max, hi, "highest speed of the shaft")
    ref = Ref(stages, s, lo, hi, control)
    top = ref.at(hi)
    inlet = real_stream(svc, s)
    what = f"{control} with {c['train']} at {s.std} Sm3/d, speeds {lo}-{hi}"

    if not top.ok:
        if top.margin < 1e-4 or top.why == "none" or (ref.common and top.why != "stonewall"):
            return
        sol = sec.solve(inlet, 2 * s.p)
        ctx.label("fails: " + top.why)
        require(not sol.success, f"{what}: solved although compressor {top.stage} can not run at full speed ({top.why})")
        if top.why == "stonewall":
            require(type(sol.failure).__name__ == "CompressorStonewallFailure", f"{what}: failure {sol.failure}, expected stonewall of compressor {top.stage}")
            require(sol.failure.source_id == sec.compressors[top.stage].get_id(), f"{what}: stonewall of another compressor than {top.stage}")
        elif top.why == "liquid":
            require(type(sol.failure).__name__ == "LiquidAtInletFailure", f"{what}: failure {sol.failure}, expected liquid at compressor {top.stage}")
            require(sol.failure.process_unit_id == sec.compressors[top.stage].get_id(), f"{what}: liquid at another compressor than {top.stage}")
        return
    s_min, low = ref.min_speed()
    if s_min is None or not low.ok or top.p < low.p * 1.01:
        return
    if ref.common and not ref.wide(s_min, (s_min + hi) / 2, hi):
        return
    lowest = ref.control_limit(s_min)
    if lowest is None:
        return
    kind, x = c["kind"], c["x"]
    if kind == "inside":
        target = low.p + x * (top.p - low.p)
    elif kind == "above":
        target = top.p * (1.01 + x)
    elif kind == "below":
        target = max(lowest, 0.3 * s.p) + x * (low.p - max(lowest, 0.3 * s.p))
    else:
        target = max(lowest, 0.5) * (0.3 + 0.68 * x)
    equal = False
    TOL = TOL1 * len(stages) * (2 if control == "COMMON_ASV" else 1)
    if control == "INDIVIDUAL_ASV_PRESSURE" and kind in ("below", "low"):
        some = [t for t in (lowest + (low.p - lowest) * (k + x) / 16 for k in range(16)) if t > s.p * 1.01 and ref.equal_ratios(s_min, t, 3 * TOL)]
        if some:
            target, equal = some[int(x * 7.99) % len(some)], True
    if target < 0.2:
        return
    what += f", target {target} (reach {lowest} / {low.p} - {top.p}, {kind})"
    judged = min(abs(target / p - 1) for p in (low.p, top.p, max(lowest, 1e-9))) > TOL
    if c["other"]:  # another problem solved before must not matter
        first = sec.solve(real_stream(svc, cr.replace(s, mass=s.mass * c["otherq"])), target * c["othert"])
        ctx.label("after another problem")
        del first
    sol = sec.solve(inlet, target)
    values = sec.values(sol)
    desc = f"{what}: {describe(sol, values)}"
    again = Section(svc, stages, control)
    sol2 = again.solve(inlet, target)
    require(key(sol2, again) == key(sol, sec), f"{desc}: another answer ({describe(sol2, again.values(sol2))}) from a new solver")
    if not judged:
        return
    if target > top.p:
        ctx.label("above reach")
        require(not sol.success and type(sol.failure).__name__ == "TargetPressureUnreachableFailure", f"{desc}: not above reach")
        require(sol.failure.direction.name == "MAX_BELOW_TARGET", f"{desc}: direction")
        require_close(values[0], hi, f"{desc}: speed when the target is too high")
        require_close(sol.failure.achievable_pressure_bara, top.p, f"{desc}: achievable pressure", rel=TOL)
        require_close(sol.failure.target_pressure_bara, target, f"{desc}: target")
        return
    if target < lowest:
        ctx.label("below reach")
        require(not sol.success, f"{desc}: not below reach")
        if control in ("COMMON_ASV", "INDIVIDUAL_ASV_RATE", "INDIVIDUAL_ASV_PRESSURE") and type(sol.failure).__name__ == "TargetPressureUnreachableFailure":
            require(sol.failure.direction.name == "MIN_ABOVE_TARGET", f"{desc}: direction")
        return
    inside = target > low.p
    if not inside and control == "INDIVIDUAL_ASV_PRESSURE":
        # equal pressure ratios need not be possible; otherwise only a success is judged
        if equal:
            ctx.label("equal ratios")
        elif not sol.success:
            return
    require(sol.success, f"{desc}: no solution although the target can be met")
    ctx.nontrivial(len(stages) > 1 or not inside)
    ctx.label("speed" if inside else "pressure control", control, f"{len(stages)} stages")
    out, inlets = sec.run(sol, inlet)
    require(abs(out.pressure_bara - target) <= 2e-3 + 1e-5 * target, f"{desc}: outlet pressure {out.pressure_bara}")
    require(lo * (1 - 1e-9) <= values[0] <= hi * (1 + 1e-9), f"{desc}: speed outside {lo}-{hi}")
    for i, (k, st_in) in enumerate(zip(sec.compressors, inlets)):
        q = st_in.volumetric_rate_m3_per_hour
        qlo, qhi = cr.speed_limits(stages[i]["chart"], values[0])
        require(qlo * (1 - 1e-6) <= q <= qhi * (1 + 1e-6), f"{desc}: {q} m3/h through compressor {i}, limits {qlo}-{qhi}")
    require(all(r is None or r >= 0 for r in values[1]), f"{desc}: negative recirculation")
    require(values[2] >= 0, f"{desc}: negative choking")
    if all(not g["dry"] for g in stages):
        require_close(out.mass_rate_kg_per_h, s.mass, f"{desc}: mass at the outlet", rel=1e-6)
    # the reference with the same settings reaches the same pressure
    start = s
    if control == "UPSTREAM_CHOKE" and values[2]:
        start = s.at(s.p - values[2], s.t)
    density = s.std_density / 24
    if control == "COMMON_ASV":
        o = tr.simulate(stages, start, values[0], common=(values[1][0] or 0.0) * density)
        least = tr.simulate_common(stages, start, values[0])
        need = [least[1]]
    else:
        recs = []
        for i, r in enumerate(values[1]):
            recs.append((r or 0.0))
        # standard densities differ where liquid was removed
        recs = [r * k.standard_density_gas_phase_after_flash / 24 for r, k in zip(recs, inlets)]
        o = tr.simulate(stages, start, values[0], recirc=[r * (1 + 1e-6) for r in recs])
        need = None
    if not o.ok:
        # right at a limit: the flows were checked above
        require(o.margin < 1e-3 or o.why == "surge", f"{desc}: reference: {o.why} of compressor {o.stage}")
    else:
        p = o.p - (values[2] if control == "DOWNSTREAM_CHOKE" else 0.0)
        require(abs(p - target) <= TOL * o.p, f"{desc}: reference outlet pressure {p} with these settings")
    if inside:
        require(values[2] == 0, f"{desc}: choking although the speed can meet the target")
        want = tr.bisect(lambda sp: ref.at(sp).p - target, s_min, hi, 40)
        slope = (top.p - low.p) / (hi - s_min)
        require(abs(values[0] - want) <= max(3 * TOL * target / slope, 1e-3 * hi), f"{desc}: speed, expected {want}")
        # recirculation no larger than needed at this speed
        if control != "COMMON_ASV":
            o2 = tr.simulate(stages, s, values[0])
            if o2.ok:
                for i, (r, e) in enumerate(zip(recs, o2.recirc)):
                    require(abs(r - e) <= 0.01 * o2.inlets[i].mass + 0.01 * e, f"{desc}: {r} kg/h recirculated around compressor {i}, needed {e}")
        else:
            require(abs((values[1][0] or 0.0) * density - need[0]) <= 0.03 * (s.mass + need[0]), f"{desc}: {(values[1][0] or 0) * density} kg/h recirculated, needed {need[0]}")
    else:
        require(values[0] <= s_min * (1 + 1e-3), f"{desc}: speed although the lowest possible ({s_min}) gives more than the target")
        if control == "UPSTREAM_CHOKE":
            require(values[2] > 0, f"{desc}: no choking")
        if control == "DOWNSTREAM_CHOKE":
            require_close(values[2], low.p - target, f"{desc}: choke", rel=2 * TOL, abs_=TOL * low.p)
        if control == "INDIVIDUAL_ASV_RATE" and o.ok:
            fr = [(r - a) / (z - a) for r, (a, z) in zip(o.recirc, o.ranges) if z - a > 1e-3 * max(z, 1)]
            require(max(fr) - min(fr) < 0.02, f"{desc}: fractions of recirculation {fr} differ")
        if control == "INDIVIDUAL_ASV_PRESSURE" and o.ok:
            n = len(stages)
            for i in range(1, n):
                exp = s.p * (target / s.p) ** (i / n)
                got = o.inlets[i].p + stages[i]["dp"]
                require_close(got, exp, f"{desc}: pressure after compressor {i}", rel=TOL)


@st.composite
def sections_case(draw):
    n = draw(st.integers(2, 3))
    mode = draw(st.sampled_from(["shared", "shared", "own", "equal"]))
    controls = []
    for i in range(n):
        ok = ["INDIVIDUAL_ASV_RATE", "COMMON_ASV"]
        if i == 0 or mode != "shared":
            ok += ["UPSTREAM_CHOKE"]
        if i == n - 1 or mode != "shared":
            ok += ["DOWNSTREAM_CHOKE", "DOWNSTREAM_CHOKE"]
        controls.append(draw(st.sampled_from(ok)))
    return {
        "train": draw(tr.train(n_max=1, wet=False, same_speeds=True)), "more": [draw(tr.train(n_max=2, wet=False, same_speeds=True)) for _ in range(n - 1)],
        "controls": controls, "speed": draw(nice(0, 1, 2)), "q": draw(nice(-0.6, 0.9, 2)), "mode": mode,
        "at": draw(nice(0.0, 1.0, 2)), "off": [draw(nice(-0.25, 0.25, 3)) for _ in range(n)], "ratio": draw(nice(0.0, 1.0, 3)),
    }


def check_sections(c, ctx: Ctx):
    """Sections on one shaft, or each on its own, with a target after each of them."""
    from libecalc.process.process_solver.float_constraint import FloatConstraint
    from libecalc.process.process_solver.multi_pressure_solver import MultiPressureSolver
    from libecalc.process.process_solver.multi_shaft_equal_ratio_solver import MultiShaftEqualRatioSolver
    from libecalc.process.process_solver.multi_shaft_solver import MultiShaftSolver
    from libecalc.process.process_pipeline.process_pipeline import ProcessPipeline  # noqa: F401

    n = len(c["controls"])
    t = dict(c["train"])
    sizes = [len(t["stages"])]
    stages = list(t["stages"])
    base = stages[0]["chart"]
    for m in c["more"]:
        mine = []
        for g in m["stages"]:  # all at the speeds of the first
            k0 = g["chart"][0]
            curves = []
            for b in base:
                f = b["speed"] / base[0]["speed"]
                curves.append({"speed": b["speed"], "rate": [charts.r6(q * f) for q in k0["rate"]], "head": [charts.r6(h * f * f) for h in k0["head"]], "eff": k0["eff"]})
            mine.append({**g, "chart": curves})
        sizes.append(len(mine))
        stages += mine
    t["stages"] = stages
    prep = prepare({**c, "train": t})
    if prep is None:
        return
    stages, s, lo, hi = prep
    groups, at = [], 0
    for k in sizes:
        groups.append(stages[at:at + k])
        at += k
    # targets: what each section gives at a speed of its own
    targets, cur, refs = [], s, []
    speed0 = lo + (0.1 + 0.8 * c["at"]) * (hi - lo)
    needs = []
    if c["mode"] == "equal":
        # targets from a common ratio which all sections can reach, if there is one
        r_lo, r_hi = 1.0, 1e9
        for g, ctl in zip(groups, c["controls"]):
            a, b = Ref(g, cur, lo, hi, ctl).at(lo), Ref(g, cur, lo, hi, ctl).at(hi)
            if not (a.ok and b.ok):
                return
            r_lo, r_hi = max(r_lo, a.p / cur.p), min(r_hi, b.p / cur.p)
            cur = cur.at(cur.p * (r_lo + r_hi) / 2 if r_lo < r_hi else a.p, 300.0)
        if r_lo >= r_hi:
            return
        ratio = r_lo + (0.1 + 0.8 * c["ratio"]) * (r_hi - r_lo)
        total = s.p * ratio ** n
        targets = [s.p * ratio ** (i + 1) for i in range(n)]
    else:
        for i, (g, ctl) in enumerate(zip(groups, c["controls"])):
            sp = min(hi, max(lo, speed0 + c["off"][i] * (hi - lo)))
            o = Ref(g, cur, lo, hi, ctl).at(sp)
            if not o.ok:
                return
            targets.append(o.p)
            cur = s.at(o.p, 300.0)
    # what is needed
    cur = s
    verdict, what_fails = True, None
    span = []
    for i, (g, ctl) in enumerate(zip(groups, c["controls"])):
        r = Ref(g, cur, lo, hi, ctl)
        top = r.at(hi)
        if not top.ok:
            return
        s_min, low = r.min_speed()
        if s_min is None or not low.ok or low.p * 1.01 > top.p:
            return
        if r.common and not r.wide(s_min, (s_min + hi) / 2, hi):
            return
        if targets[i] < low.p * 1.01 or targets[i] > top.p * 0.99:
            return  # handled one by one in the other check
        needs.append(tr.bisect(lambda x, r=r, i=i: r.at(x).p - targets[i], s_min, hi, 40))
        span.append((top.p - low.p) / (hi - s_min))
        refs.append(r)
        cur = s.at(targets[i], 300.0)
    what = f"{c['mode']} {c['controls']} of sizes {sizes}, {t}, {s.std} Sm3/d, targets {targets}, speeds needed {needs}"
    binding = max(needs)
    if c["mode"] == "shared":
        for i, r in enumerate(refs):
            o = r.at(binding)
            if not o.ok:
                return
            if needs[i] < binding * (1 - 1e-3):
                limit = r.control_limit(binding)
                if limit is None or abs(limit / targets[i] - 1) < 0.02:
                    return
                if limit > targets[i]:
                    verdict, what_fails = False, i
                    break
    svc = ff.fresh_service()
    from libecalc.process.shaft import VariableSpeedShaft

    if c["mode"] == "shared":
        shaft = VariableSpeedShaft()
        secs = [Section(svc, g, ctl, shaft=shaft) for g, ctl in zip(groups, c["controls"])]
        for x in secs:
            x.finish()
    else:
        secs = [Section(svc, g, ctl) for g, ctl in zip(groups, c["controls"])]
    inlet = real_stream(svc, s)
    parts = [x.system.pipeline_section for x in secs]

    class Line:  # what the solver needs of a pipeline
        def get_process_pipeline_sections(self):
            return parts

    if c["mode"] == "shared":
        solver = MultiPressureSolver(Line())
        wanted = targets
    elif c["mode"] == "own":
        solver, wanted = MultiShaftSolver(parts), targets
    else:
        solver, wanted = MultiShaftEqualRatioSolver(parts), [total]
    sol = solver.find_solution([FloatConstraint(x) for x in wanted], inlet)
    desc = f"{what}: {sol.failure}, {[str(x.value) for x in sol.configuration]}"
    if not verdict:
        ctx.label("control out of reach")
        ctx.nontrivial()
        require(not sol.success, f"{desc}: section {what_fails} can not get down to its target at the speed needed by another")
        return
    require(sol.success, f"{desc}: no solution")
    rest = []
    vals = [x.values(sol, rest) for x in secs]
    known = {h.get_id() for x in secs for h in [x.shaft, *x.loops, *([x.handler] if x.handler else [])]}
    require(all(cfg.configuration_handler_id in known for cfg in sol.configuration), f"{desc}: configuration of an unknown unit")
    ctx.nontrivial()
    ctx.label(c["mode"], *c["controls"])
    cur = inlet
    for i, x in enumerate(secs):
        tol = TOL1 * sum(sizes[: i + 1])
        out, inlets = x.run(sol, cur)
        require(abs(out.pressure_bara - targets[i]) <= 2e-3 + 1e-4 * targets[i], f"{desc}: pressure {out.pressure_bara} after section {i}, target {targets[i]}")
        want = binding if c["mode"] == "shared" else needs[i]
        slope = min(span)if c["mode"] == "shared" else span[i]
        require(abs(vals[i][0] - want) <= max(3 * sum(sizes) * TOL1 * max(targets) / slope, 2e-3 * hi), f"{desc}: speed {vals[i][0]} of section {i}, expected {want}")
        for j, (k, st_in) in enumerate(zip(x.compressors, inlets)):
            q = st_in.volumetric_rate_m3_per_hour
            qlo, qhi = cr.speed_limits(groups[i][j]["chart"], vals[i][0])
            require(qlo * (1 - 1e-6) <= q <= qhi * (1 + 1e-6), f"{desc}: {q} m3/h through compressor {j} of section {i}, limits {qlo}-{qhi}")
        require(vals[i][2] >= 0 and all(v is None or v >= 0 for v in vals[i][1]), f"{desc}: negative setting {vals[i]}")
        if c["mode"] == "shared" and needs[i] < binding * (1 - 0.02) and x.handler is not None:
            require(vals[i][2] > 0, f"{desc}: section {i} is not choked at a higher speed than it needs")
        del tol
        cur = out


@st.composite
def placement_case(draw):
    n = draw(st.integers(1, 4))
    return {"controls": [draw(st.sampled_from(CONTROLS + ["UPSTREAM_CHOKE", "DOWNSTREAM_CHOKE"] if i else CONTROLS)) for i in range(n)],
            "shafts": draw(st.sampled_from(["one", "one", "one", "own"])), "targets": draw(st.sampled_from([0, 0, -1, 1])),
            "train": draw(tr.train(n_max=1, wet=False, same_speeds=True))}


def check_placement(c, ctx: Ctx):
    """Which sections and targets can be solved on one shaft at all."""
    from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
    from libecalc.process.process_solver.float_constraint import FloatConstraint
    from libecalc.process.process_solver.multi_pressure_solver import MultiPressureSolver
    from libecalc.process.shaft import VariableSpeedShaft

    n = len(c["controls"])
    svc = ff.fresh_service()
    one = VariableSpeedShaft()
    stage = {**c["train"]["stages"][0], "dp": 0.0, "dry": False}
    secs = [Section(svc, [stage], ctl, shaft=one if c["shafts"] == "one" else VariableSpeedShaft()).finish() for ctl in c["controls"]]

    class Line:
        def get_process_pipeline_sections(self):
            return [x.system.pipeline_section for x in secs]

    bad = n < 2 or c["shafts"] == "own" or "UPSTREAM_CHOKE" in c["controls"][1:] or "DOWNSTREAM_CHOKE" in c["controls"][:-1]
    what = f"{c['controls']} on {c['shafts']} shaft(s)"
    ctx.label("refused" if bad else "accepted")
    if bad:
        ctx.nontrivial(n > 1)
        expect_raises(EcalcValidationException, lambda: MultiPressureSolver(Line()), what)
        return
    solver = MultiPressureSolver(Line())
    inlet = ff.make_stream(1e5, c["train"]["p"], 300.0, c["train"]["comp"], c["train"]["eos"], svc)
    targets = [FloatConstraint(c["train"]["p"] * 1.5 ** (i + 1)) for i in range(max(0, n + c["targets"]))]
    if c["targets"]:
        ctx.nontrivial()
        expect_raises(EcalcValidationException, lambda: solver.find_solution(targets, inlet), f"{what} with {len(targets)} targets")


WET_CASE = {
    "train": {"comp": tr.WET, "eos": "SRK", "p": 20.0, "stages": [{"chart": [
        {"speed": 8000.0, "rate": [1000.0, 1800.0], "head": [20000.0, 14000.0], "eff": [0.7, 0.7]},
        {"speed": 10000.0, "rate": [1250.0, 2250.0], "head": [31250.0, 21875.0], "eff": [0.7, 0.7]},
    ], "t": 300.0, "dp": 0.0, "dry": True, "fit": 1.0}]},
    "fraction": 0.5, "target": 26.0,
}


def check_wet(c, ctx: Ctx):
    """Liquid is removed inside the recirculation loop (one listed input: see known_findings.txt)."""
    t = c["train"]
    stages = tr.fitted(t)
    s = cr.stream(t["comp"], t["eos"], t["p"], 300.0, mass=1.0)
    first = tr.condition(s, stages[0])
    s = cr.replace(s, mass=c["fraction"] * stages[0]["chart"][0]["rate"][0] * first.props["density"] / first.mass)
    svc = ff.fresh_service()
    sec = Section(svc, stages, "DOWNSTREAM_CHOKE")
    sol = sec.solve(real_stream(svc, s), c["target"])
    if type(sol.failure).__name__ == "CompressorSurgeFailure" and c == WET_CASE:
        ctx.known.append("wet-recirculation")
        return
    require(sol.success, f"{c}: {sol.failure}")
    out, inlets = sec.run(sol, real_stream(svc, s))
    require_close(out.pressure_bara, c["target"], f"{c}: outlet pressure", rel=1e-4)
    speed = sec.values(sol)[0]
    lo, hi = cr.speed_limits(stages[0]["chart"], speed)
    require(lo * (1 - 1e-6) <= inlets[0].volumetric_rate_m3_per_hour <= hi * (1 + 1e-6), f"{c}: flow outside the chart")


SUBCHECKS = [
    Sub("wet", st.just(WET_CASE), check_wet, 1, thorough=1, rule="none", corpus=[WET_CASE]),
    Sub("placement", placement_case(), check_placement, 200, rule="refused for more than one section, or a wrong number of targets"),
    Sub("section", section_case(), check_section, 500, rule="several compressors or pressure control", corpus=saved("P19", "section")),
    Sub("deep", deep_case(), check_section, 160, rule="several compressors or pressure control", chunk=20, corpus=saved("P19", "deep")),
    Sub("sections", sections_case(), check_sections, 250, rule="a solution for several sections, or one whose pressure control can not reach the target"),
]

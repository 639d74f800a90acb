"""Distribution of a stream over trains: nothing lost, nobody above capacity who can pass it on."""
from hypothesis import strategies as st

from harness import compref as cr, fakefluid as ff, trains as tr
from harness.core import Ctx, Sub, expect_raises, require, require_close, require_list_close
from harness.gen import nice
from harness.props.p18 import real_stream
from harness.props.p19 import Section

ASSUMPTIONS = ["The NeqSim library (not installed offline) is replaced by an explicit equation of state behind the Java gateway."]


@st.composite
def common_case(draw, cyc=True):
    n = draw(st.integers(1, 6))
    order = list(draw(st.permutations(range(n))))
    overflow = []
    star = draw(st.integers(0, 3)) == 0  # many into one
    for i, a in enumerate(order[:-1]):
        if draw(st.booleans()) or (star and draw(st.booleans())):
            overflow.append([a, order[-1] if star else draw(st.sampled_from(order[i + 1:]))])
    overflow = list(draw(st.permutations(overflow)))
    cycle = cyc and n > 1 and draw(st.integers(0, 5)) == 0
    if cycle:
        k = draw(st.integers(2, n))
        overflow = [[order[i], order[(i + 1) % k]] for i in range(k)]
    if draw(st.integers(0, 3)) == 0:
        w = [1 if i == draw(st.integers(0, n - 1)) else 0 for i in range(n)]
        if not sum(w):
            w[0] = 1
    else:
        w = [draw(st.integers(0, 8)) for _ in range(n)]
        if not sum(w):
            w[0] = 1
    return {
        "fractions": [x / sum(w) for x in w], "overflow": overflow, "cycle": cycle, "rate": draw(st.one_of(st.just(0.0), nice(1e3, 1e7, 0))),
        "caps": [draw(nice(0, 1.2, 2)) for _ in range(n)], "p": draw(nice(1, 100, 1)), "t": draw(nice(280, 350, 0)), "perm": list(draw(st.permutations(range(n)))),
        "unknown": cyc and draw(st.integers(0, 9)) == 0,
    }


class Item:
    def __init__(self, cap, log=None, check=None):
        self.cap, self.log, self.check = cap, log, check

    def get_excess_rate(self, inlet_stream):
        if self.check:
            self.check(inlet_stream)
        return max(0.0, inlet_stream.standard_rate_sm3_per_day - self.cap)

    def is_valid(self, inlet_stream):
        return inlet_stream.standard_rate_sm3_per_day <= self.cap * (1 + 1e-9)


def flows(fractions, overflow, rate, caps):
    n = len(fractions)
    to = {a: b for a, b in overflow}
    rates = [rate * f for f in fractions]
    done, out = set(), [0.0] * n
    while len(done) < n:
        for i in range(n):
            if i not in done and all(a in done for a, b in overflow if b == i):
                extra = max(0.0, rates[i] - caps[i]) if i in to else 0.0
                out[i] = rates[i] - extra
                if i in to:
                    rates[to[i]] += extra
                done.add(i)
    return out


def distribution(svc, inlet, items, fractions, overflow):
    from libecalc.process.stream_distribution.common_stream_distribution import CommonStreamDistribution, Overflow

    return CommonStreamDistribution(
        inlet_stream=inlet, items=items, rate_fractions=list(fractions), overflows=[Overflow(from_id=f"t{a}", to_id=f"t{b}") for a, b in overflow], fluid_service=svc
    )


def check_common(c, ctx: Ctx):
    from libecalc.common.errors.ecalc_validation_error import EcalcValidationException
    from libecalc.process.stream_distribution.stream_distribution import StreamDistribution

    n = len(c["fractions"])
    svc = ff.fresh_service()
    s = cr.stream({"methane": 0.9, "ethane": 0.1}, "SRK", c["p"], c["t"], std=c["rate"] or 1.0)
    if not c["rate"]:
        s = cr.replace(s, mass=0.0)
    inlet = real_stream(svc, s)
    caps = [x * c["rate"] for x in c["caps"]]

    def seen(stream):
        require(abs(stream.pressure_bara - c["p"]) < 1e-9 and abs(stream.temperature_kelvin - c["t"]) < 1e-6, f"{c}: an item was asked about other conditions")

    items = {f"t{i}": Item(caps[i], check=seen) for i in range(n)}
    if c["cycle"]:
        ctx.label("cycle")
        ctx.nontrivial()
        expect_raises(EcalcValidationException, lambda: distribution(svc, inlet, items, c["fractions"], c["overflow"]).get_streams(), f"{c}: overflow in a circle")
        return
    d = distribution(svc, inlet, items, c["fractions"], c["overflow"])
    assert isinstance(d, StreamDistribution)
    require(d.get_number_of_streams() == n, f"{c}: {d.get_number_of_streams()} streams")
    got = d.get_streams()
    rates = [x.standard_rate_sm3_per_day for x in got]
    exp = flows(c["fractions"], c["overflow"], c["rate"], caps)
    ctx.nontrivial(exp != [c["rate"] * f for f in c["fractions"]])
    if c["overflow"]:
        ctx.label("overflow")
    tol = 1e-9 * max(c["rate"], 1)
    require_list_close(rates, exp, f"{c}: rates", rel=1e-9, abs_=tol)
    require_close(sum(rates), c["rate"], f"{c}: total", rel=1e-9)
    for x in got:
        require_close(x.pressure_bara, c["p"], f"{c}: pressure")
        require_close(x.temperature_kelvin, c["t"], f"{c}: temperature")
        require(x.fluid_model == inlet.fluid_model, f"{c}: composition changed")
    require_list_close([x.standard_rate_sm3_per_day for x in d.get_streams()], exp, f"{c}: asked twice", rel=1e-9, abs_=tol)
    # declared in another order: each gets the same
    perm = c["perm"]
    d2 = distribution(svc, inlet, {f"t{i}": items[f"t{i}"] for i in perm}, [c["fractions"][i] for i in perm], c["overflow"][::-1])
    require_list_close([x.standard_rate_sm3_per_day for x in d2.get_streams()], [exp[i] for i in perm], f"{c}: declared in the order {perm}", rel=1e-9, abs_=tol)


@st.composite
def priorities_case(draw):
    n = draw(st.integers(1, 3))
    return {"rates": [[draw(st.sampled_from([0, 100, 200, 300, 400])) for _ in range(n)] for _ in range(draw(st.integers(1, 5)))],
            "caps": [draw(st.sampled_from([0, 100, 200, 300, 400])) for _ in range(n)]}


def check_priorities(c, ctx: Ctx):
    from libecalc.process.stream_distribution.individual_stream_distribution import IndividualStreamDistribution
    from libecalc.process.stream_distribution.priorities_stream_distribution import PrioritiesStreamDistribution

    svc = ff.fresh_service()

    def stream(r):
        s = cr.stream({"methane": 1.0}, "SRK", 20.0, 300.0, std=r or 1.0)
        return real_stream(svc, s if r else cr.replace(s, mass=0.0))

    dists = [IndividualStreamDistribution([stream(r) for r in rates]) for rates in c["rates"]]
    for d, rates in zip(dists, c["rates"]):
        require(d.get_number_of_streams() == len(rates), f"{c}: number of streams")
        require_list_close([x.standard_rate_sm3_per_day for x in d.get_streams()], rates, f"{c}: individual streams", rel=1e-9, abs_=1e-9)
    items = [Item(x) for x in c["caps"]]
    p = PrioritiesStreamDistribution(dists, items)
    require(p.get_number_of_streams() == len(items), f"{c}: number of streams")
    ok = [i for i, rates in enumerate(c["rates"]) if all(r <= k for r, k in zip(rates, c["caps"]))]
    want = ok[0] if ok else len(c["rates"]) - 1
    ctx.nontrivial(bool(ok) and ok[0] > 0)
    ctx.label("none" if not ok else "first" if want == 0 else "later")
    require_list_close([x.standard_rate_sm3_per_day for x in p.get_streams()], c["rates"][want], f"{c}: choice {want} expected", rel=1e-9, abs_=1e-9)


@st.composite
def feasible_case(draw):
    return {"train": draw(tr.train(n_max=2, wet=False)), "control": draw(st.sampled_from(["DOWNSTREAM_CHOKE", "DOWNSTREAM_CHOKE", "UPSTREAM_CHOKE", "INDIVIDUAL_ASV_RATE"])),
            "x": draw(nice(0.3, 1.1, 2)), "rate": draw(st.one_of(nice(0.3, 2.2, 2), nice(0.3, 2.2, 2), nice(2.2, 40, 1))), "second": draw(nice(0.3, 1.0, 2)), "zero": draw(st.integers(0, 9)) == 0}


def check_feasible(c, ctx: Ctx):
    from libecalc.presentation.yaml.mappers.process_simulation_mapper import StreamDistributionItem
    from libecalc.process.process_solver.feasibility_solver import FeasibilitySolver
    from libecalc.process.process_solver.float_constraint import FloatConstraint

    stages = tr.fitted(c["train"])
    if stages is None:
        return
    lo, hi = tr.speed_range(stages)
    if hi <= lo * 1.005:
        return
    s = cr.stream(c["train"]["comp"], c["train"]["eos"], c["train"]["p"], 300.0, mass=1.0)
    first = tr.condition(s, stages[0])
    if first is None:
        return
    qmax = cr.speed_limits(stages[0]["chart"], hi)[1] * first.props["density"] / first.mass

    def at(mass):
        return tr.simulate(stages, cr.replace(s, mass=mass), hi)

    tiny, full = at(1e-6 * qmax), qmax * c["rate"]
    if not tiny.ok:
        return
    # target: relative to the pressure without flow; capacity: the largest rate with at least that pressure at full speed
    target = s.p + c["x"] * (tiny.p - s.p)
    if abs(target / tiny.p - 1) < 0.02:
        return
    svc = ff.fresh_service()
    sec = Section(svc, stages, c["control"])
    fs = FeasibilitySolver(sec.system.solver)
    inlet = real_stream(svc, cr.replace(s, mass=full))
    full_std = inlet.standard_rate_sm3_per_day
    what = f"{c}, rate {full_std}, target {target}"
    goal = FloatConstraint(target)
    item = StreamDistributionItem(fs, goal)
    if c["zero"]:
        zero = real_stream(svc, cr.replace(s, mass=0.0))
        require(fs.get_excess_rate(zero, goal) == 0 and item.is_valid(zero), f"{what}: no flow is too much")
    excess = fs.get_excess_rate(inlet, goal)
    require(0 <= excess <= full_std * (1 + 1e-12), f"{what}: excess {excess}")
    require(fs.get_excess_rate(inlet, goal) == excess, f"{what}: another answer the second time")
    require(item.get_excess_rate(inlet) == excess and item.is_valid(inlet) == (excess == 0), f"{what}: the item says otherwise")
    cap_rate = full_std - excess
    if excess < full_std:
        handled = real_stream(svc, cr.replace(s, mass=full * (cap_rate / full_std) * (1 - 1e-9)))
        sol = sec.solve(handled, target)
        require(sol.success, f"{what}: {cap_rate} Sm3/d are said to be handled: {sol.failure}")
    if excess > 0:
        more = real_stream(svc, cr.replace(s, mass=full * min(1.0, (cap_rate / full_std) + 1e-3)))
        require(not Section(svc, stages, c["control"]).solve(more, target).success or cap_rate == 0, f"{what}: more than {cap_rate} Sm3/d can be handled")
    if c["control"] != "DOWNSTREAM_CHOKE":
        return
    # anything lower than the capacity can be choked
    if tiny.p < target:
        ctx.label("pressure out of reach")
        require_close(excess, full_std, f"{what}: excess although the pressure is out of reach ({tiny.p})", rel=1e-9)
        return

    def good(mass):
        o = at(mass)
        return o.ok and o.p >= target

    if good(full):
        o = at(full)
        if o.p > target * 1.01 and o.margin > 1e-3:
            require(excess == 0, f"{what}: excess {excess} although the train can take it all ({o.p})")
            ctx.label("fits")
        return
    a, b = 0.0, full
    for _ in range(50):
        mid = (a + b) / 2
        if good(mid):
            a = mid
        else:
            b = mid
    # the rate at a pressure which is slightly off
    def cap_at(t):
        x, y = 0.0, full
        for _ in range(40):
            mid = (x + y) / 2
            o = at(mid)
            if o.ok and o.p >= t:
                x = mid
            else:
                y = mid
        return x

    tol = 4e-3 * len(stages)
    lo_cap, hi_cap = cap_at(target * (1 + tol)), cap_at(target * (1 - tol))
    ctx.nontrivial()
    ctx.label("exceeds")
    got = cap_rate / full_std * full
    require(lo_cap * (1 - 1e-3) - 2e-3 * full <= got <= hi_cap * (1 + 1e-3) + 2e-3 * full, f"{what}: capacity {got} kg/h, expected {a} ({lo_cap}-{hi_cap})")
    # the capacity does not depend on how much is offered
    again = real_stream(svc, cr.replace(s, mass=a + (full - a) * c["second"]))
    e2 = fs.get_excess_rate(again, goal)
    cap2 = again.standard_rate_sm3_per_day - e2
    require_close(cap2, cap_rate, f"{what}: capacity when {again.standard_rate_sm3_per_day} is offered", rel=0, abs_=1e-3 * full_std)


SUBCHECKS = [
    Sub("common", common_case(), check_common, 1500, rule="an overflow or a circle"),
    Sub("priorities", priorities_case(), check_priorities, 500, rule="not the first choice"),
    Sub("feasible", feasible_case(), check_feasible, 160, rule="more is offered than can be handled"),
]

"""Totals: asset = sum of installations = sum of components; validity is the conjunction; cumulatives follow."""
from harness import assetcheck as ac
from harness import assetgen as ag
from harness.core import Ctx, Sub, require
from harness.e2e import Run


def no_negative_loads(spec):
    """Negative loads with differing regularity cannot be given as one stream-day rate and one regularity."""
    for inst in spec["installations"]:
        for g in inst["gensets"]:
            for c in g["consumers"]:
                for _, m in c["models"]:
                    v = m["v"]
                    m["v"] = [abs(x) for x in v] if isinstance(v, list) else abs(v)


def check_totals(spec, ctx: Ctx):
    if len(spec["installations"]) > 1:
        no_negative_loads(spec)
    data, files = ag.build(spec)
    exp = ag.expect(spec)
    run = Run(data, files)
    ac.check_periods(run, spec)
    ac.check_structure(run, exp, spec)
    fulls = {}
    for name, e in exp.items():
        if e["kind"] == "installation":
            fulls[name] = ac.check_installation(run, exp, name, spec)
    ac.check_asset(run, exp, spec, fulls)
    # as reported: sums of the reported children
    n = len(spec["dates"]) - 1
    for name, e in exp.items():
        if e["kind"] != "installation":
            continue
        inst = run.by_name[name]
        burning = [k for k in e["children"] if exp[k]["kind"] in ("genset", "fuel")]
        total = ac.add([0.0] * n, *[ac.clean(ac.calendar_values(run.by_name[k].energy_usage)) for k in burning])
        ac.require_list_close(ac.clean(ac.calendar_values(inst.energy_usage)), total, f"{name} reported fuel", 1e-9, 1e-9)
        for em, result in inst.emissions.items():
            parts = [run.by_name[k].emissions[em].rate for k in e["children"] if em in run.by_name[k].emissions]
            ac.require_list_close(
                ac.clean(ac.calendar_values(result.rate)), ac.add([0.0] * n, *[ac.clean(ac.calendar_values(p)) for p in parts]),
                f"{name} reported {em}", 1e-9, 1e-9,
            )
    for c in (run.asset, *run.result.sub_components):
        series = [em.cumulative for em in c.emissions.values()]
        if exp.get(c.name, {}).get("kind") != "electric":
            series.append(c.energy_usage_cumulative)
        for ts in series:
            require(all(a <= b + 1e-9 * max(1, abs(a)) for a, b in zip(ts.values, ts.values[1:])), f"{c.name}: cumulative decreases {ts.values}")
    ctx.nontrivial(sum(e["kind"] in ("genset", "fuel", "venting") for e in exp.values()) > 1)
    if len(spec["installations"]) > 1:
        ctx.label("several installations")
    if not all(run.asset.is_valid.values):
        ctx.label("invalid step")


SUBCHECKS = [
    Sub("totals", ag.asset_specs(gs=(0, 2), fc=(0, 2), ve=(0, 2), insts=(1, 3)), check_totals, 800, rule="at least two emitting components"),
]

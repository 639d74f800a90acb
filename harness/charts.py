"""Random charts as plain data, and a reference implementation of what the chart documentation says about them.

A chart is a list of curves {"speed", "rate": [...], "head": [...], "eff": [...]}, rates increasing, heads strictly
decreasing, higher speed above and to the right of lower speed (fan laws with a little jitter).
"""
from __future__ import annotations

import math

from hypothesis import strategies as st

from harness.gen import nice

BIG = 1e300


def r6(x):
    return float(f"{x:.6g}")


@st.composite
def curves(draw, n_min=1, n_max=4, eff="any", head_lo=200.0, head_hi=6000.0):
    """Curves from low to high speed."""
    n = draw(st.integers(n_min, n_max))
    points = draw(st.integers(2, 5))
    q0 = draw(nice(20, 400, 0))
    span = draw(nice(0.5, 2.0, 2))
    h0 = draw(nice(head_lo, head_hi, 0))
    drops = [draw(nice(0.02, 0.25, 2)) for _ in range(points - 1)]
    cut = 1 - sum(drops) if sum(drops) < 0.9 else 0.1
    scale = (1 - cut) / sum(drops)
    steps = [draw(nice(0.2, 1.0, 2)) for _ in range(points - 1)]
    total = sum(steps)
    shape_q, shape_h = [1.0], [1.0]
    for d, s in zip(drops, steps):
        shape_q.append(shape_q[-1] + span * s / total)
        shape_h.append(shape_h[-1] - d * scale)
    kind = eff if eff != "any" else draw(st.sampled_from(["vary", "vary", "vary", "const", "one"]))
    const = draw(nice(0.3, 0.95, 2))
    speed, out = draw(st.sampled_from([1000.0, 3000.0, 7500.0])), []
    factor = 1.0
    for i in range(n):
        if i:
            factor *= draw(nice(1.05, 1.35, 2))
        effs = {
            "one": lambda: [1.0] * points,
            "const": lambda: [const] * points,
            "vary": lambda: [draw(nice(0.2, 0.99, 2)) for _ in range(points)],
        }[kind]()
        out.append(
            {
                "speed": round(speed * factor, 3),
                "rate": [r6(q0 * q * factor) for q in shape_q],
                "head": [r6(h0 * h * factor * factor) for h in shape_h],
                "eff": effs,
            }
        )
    return out


def curve_objects(data):
    from libecalc.domain.process.value_objects.chart import ChartCurve

    return [
        ChartCurve(
            rate_actual_m3_hour=list(c["rate"]),
            polytropic_head_joule_per_kg=list(c["head"]),
            efficiency_fraction=list(c["eff"]),
            speed_rpm=c["speed"],
        )
        for c in data
    ]


def chart_data(data, control_margin=None):
    from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData

    return UserDefinedChartData(curves=curve_objects(data), control_margin=control_margin)


# ---------------------------------------------------------------- reference
def interp(x, xs, ys):
    """Piecewise linear through (xs, ys), xs increasing, constant outside."""
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    for a, b, ya, yb in zip(xs, xs[1:], ys, ys[1:]):
        if a <= x <= b:
            return ya if a == b else ya + (yb - ya) * (x - a) / (b - a)
    raise AssertionError


def adjusted(data, margin):
    """Control margin: the lowest fraction of the rate range of each curve is cut off."""
    if not margin:
        return data
    out = []
    for c in data:
        q = c["rate"][0] + margin * (c["rate"][-1] - c["rate"][0])
        keep = [i for i, x in enumerate(c["rate"]) if x > q]
        out.append(
            {
                "speed": c["speed"],
                "rate": [q] + [c["rate"][i] for i in keep],
                "head": [interp(q, c["rate"], c["head"])] + [c["head"][i] for i in keep],
                "eff": [interp(q, c["rate"], c["eff"])] + [c["eff"][i] for i in keep],
            }
        )
    return out


def min_flow(data, head):
    lo, hi = data[0], data[-1]
    if len(data) == 1:
        return lo["rate"][0]
    return interp(head, [lo["head"][0], hi["head"][0]], [lo["rate"][0], hi["rate"][0]])


def min_flow_no_choke(data, head):
    lo, hi = data[0], data[-1]
    if len(data) == 1:
        return interp(head, lo["head"][::-1], lo["rate"][::-1])
    return interp(head, lo["head"][::-1] + [hi["head"][0]], lo["rate"][::-1] + [hi["rate"][0]])


def min_head(data, rate):
    lo, hi = data[0], data[-1]
    if hi["rate"][-1] > lo["rate"][-1]:
        return interp(rate, lo["rate"] + [hi["rate"][-1]], lo["head"] + [hi["head"][-1]])
    return interp(rate, lo["rate"], lo["head"])


def max_head(data, rate):
    return interp(rate, data[-1]["rate"], data[-1]["head"])


def max_rate(data, head):
    return interp(head, data[-1]["head"][::-1], data[-1]["rate"][::-1])


def max_rate_no_choke(data, head):
    lo, hi = data[0], data[-1]
    if len(data) == 1:
        return max_rate(data, head)
    return interp(head, [lo["head"][-1]] + hi["head"][::-1], [lo["rate"][-1]] + hi["rate"][::-1])


def _mean_std(values):
    m = sum(values) / len(values)
    return m, math.sqrt(sum((v - m) ** 2 for v in values) / len(values))


def _closest(px, py, xs, ys):
    best = (BIG, xs[0], ys[0])
    for x0, y0, x1, y1 in zip(xs, ys, xs[1:], ys[1:]):
        dx, dy = x1 - x0, y1 - y0
        t = ((px - x0) * dx + (py - y0) * dy) / (dx * dx + dy * dy)
        t = min(1.0, max(0.0, t))
        cx, cy = x0 + t * dx, y0 + t * dy
        d = math.hypot(px - cx, py - cy)
        if d < best[0]:
            best = (d, cx, cy)
    return best


def efficiency(data, rate, head):
    """(value, ambiguous): weighted by distance between the closest curve above and the closest one below."""
    if all(e == 1 for c in data for e in c["eff"]):
        return 1.0, False
    mq, sq = _mean_std([q for c in data for q in c["rate"]])
    mh, sh = _mean_std([h for c in data for h in c["head"]])
    if sq == 0 or sh == 0:
        sq = sh = 1
    px, py = (rate - mq) / sq, (head - mh) / sh
    above = below = None
    ambiguous = False
    for c in data:
        xs = [(q - mq) / sq for q in c["rate"]]
        ys = [(h - mh) / sh for h in c["head"]]
        d, cx, cy = _closest(px, py, xs, ys)
        e = interp(cx, xs, c["eff"])
        if abs(cy - py) < 1e-9 and d > 1e-9:
            ambiguous = True
        if cy >= py:
            if above is None or d < above[0]:
                above = (d, e)
        elif below is None or d < below[0]:
            below = (d, e)
    if above is None:
        return below[1], ambiguous
    if below is None:
        return above[1], ambiguous
    if above[0] + below[0] == 0:
        return above[1], True
    w = above[0] / (above[0] + below[0])
    return w * below[1] + (1 - w) * above[1], ambiguous

"""Shared strategies. All yield JSON-serialisable values (dates are ISO strings)."""
from __future__ import annotations

from datetime import datetime, timedelta

from hypothesis import strategies as st

BASE = datetime(2018, 1, 1)


def iso(d: datetime) -> str:
    return d.isoformat(sep=" ")


def dt(s: str) -> datetime:
    return datetime.fromisoformat(s)


def nice(lo: float, hi: float, decimals: int = 3):
    """Floats on a decimal grid (shrink well, no denormals), including the end points."""
    k = 10**decimals
    return st.integers(int(round(lo * k)), int(round(hi * k))).map(lambda i: i / k)


def rates(hi: float = 1000.0):
    return st.one_of(st.just(0.0), nice(0, hi), nice(0, 10, 6), st.integers(0, int(hi)).map(float))


regularities = st.one_of(st.just(1.0), nice(0.01, 1.0), nice(0.5, 1.0, 2))


@st.composite
def date_list(draw, min_size=2, max_size=9, max_gap=500):
    """Strictly increasing midnight dates; mixes month/year boundaries with odd days."""
    n = draw(st.integers(min_size, max_size))
    d = BASE + timedelta(days=draw(st.one_of(st.just(0), st.integers(0, 800))))
    out = [d]
    for _ in range(n - 1):
        kind = draw(st.sampled_from(["day", "days", "month", "year", "gap"]))
        if kind == "day":
            d = d + timedelta(days=1)
        elif kind == "days":
            d = d + timedelta(days=draw(st.integers(1, 45)))
        elif kind == "month":
            d = datetime(d.year + (d.month == 12), d.month % 12 + 1, 1)
        elif kind == "year":
            d = datetime(d.year + 1, 1, 1)
        else:
            d = d + timedelta(days=draw(st.integers(1, max_gap)))
        out.append(d)
    return [iso(x) for x in out]


def periods_of(dates):
    from libecalc.common.time_utils import Period, Periods

    ds = [dt(d) if isinstance(d, str) else d for d in dates]
    return Periods([Period(a, b) for a, b in zip(ds, ds[1:])])


def days(a: datetime, b: datetime) -> float:
    return (b - a).total_seconds() / 86400.0

"""Vocabulary shared by the property modules."""
from __future__ import annotations

import json
import math
from dataclasses import dataclass, field
from pathlib import Path
from typing import Any, Callable


class Violation(Exception):
    """The code under test broke the property on this case."""


class Known(Exception):
    """The case reproduces a finding listed in known_findings.txt (raised by Ctx.known)."""


@dataclass
class Ctx:
    """Handed to each check function; collects what the case exercised."""

    is_nontrivial: bool = False
    labels: set = field(default_factory=set)
    known: list = field(default_factory=list)

    def nontrivial(self, cond: bool = True) -> None:
        if cond:
            self.is_nontrivial = True

    def label(self, *names: str) -> None:
        self.labels.update(names)


@dataclass
class Sub:
    """One executable statement of (a part of) a property."""

    name: str
    strategy: Any  # hypothesis strategy yielding a JSON-serialisable case, or a callable returning one
    fn: Callable[[Any, Ctx], None]
    quick: int
    thorough: int | None = None
    rule: str = ""
    corpus: list = field(default_factory=list)  # fixed cases, always run first
    chunk: int | None = None  # examples per task


def saved(prop: str, name: str) -> list:
    """Cases kept because they are rare: each failed before a defect was repaired."""
    return [json.loads(p.read_text()) for p in sorted((Path(__file__).parent / "corpus").glob(f"{prop}-{name}-*.json"))]


def fail(msg: str) -> None:
    raise Violation(msg)


def require(cond: Any, msg: str) -> None:
    if not cond:
        raise Violation(msg)


def close(a: float, b: float, rel: float = 1e-9, abs_: float = 1e-9) -> bool:
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def require_close(a, b, what: str, rel: float = 1e-9, abs_: float = 1e-9) -> None:
    if not close(a, b, rel, abs_):
        raise Violation(f"{what}: got {a!r}, expected {b!r}")


def require_list_close(got, expected, what: str, rel: float = 1e-9, abs_: float = 1e-9) -> None:
    got, expected = list(got), list(expected)
    if len(got) != len(expected):
        raise Violation(f"{what}: got {len(got)} values {got!r}, expected {len(expected)} values {expected!r}")
    for i, (g, e) in enumerate(zip(got, expected)):
        if g is None or e is None:
            if g is not e:
                raise Violation(f"{what}[{i}]: got {g!r}, expected {e!r} (all: {got!r} vs {expected!r})")
            continue
        if not close(g, e, rel, abs_):
            raise Violation(f"{what}[{i}]: got {g!r}, expected {e!r} (all: {got!r} vs {expected!r})")


def expect_raises(exc_types, fn, what: str):
    """Run fn; it must raise one of exc_types. Returns the exception."""
    try:
        value = fn()
    except exc_types as e:
        return e
    raise Violation(f"{what}: expected {exc_types} but got {value!r}")

"""Reference for a stream and one compressor, written from the documentation (Campbell equations, chart interpolation).

Thermodynamics come from harness.fakefluid's own equation of state, not from the code under test.
"""
from __future__ import annotations

from dataclasses import dataclass, replace

from harness import fakefluid as ff
from harness.charts import interp

GAS_CONSTANT = 8.314472


@dataclass(frozen=True)
class S:
    """A stream: composition, equation of state, pressure, specific enthalpy, mass rate (kg/h)."""

    comp: dict
    eos: str
    p: float
    h: float
    mass: float

    @property
    def props(self):
        return ff.reference(self.comp, self.eos, self.p, h=self.h)

    @property
    def t(self):
        return self.props["temperature_kelvin"]

    @property
    def std_density(self):
        return ff.standard_density(self.comp, self.eos)

    @property
    def std(self):
        return self.mass * 24 / self.std_density

    @property
    def actual(self):
        return self.mass / self.props["density"]

    @property
    def moles(self):
        """kmol/h of each component."""
        total = sum(self.comp.values())
        mw = sum(v * ff.MW[n.replace("_", "-")] for n, v in self.comp.items()) / total
        return {n: self.mass / mw / 1000 * v / total for n, v in self.comp.items()}

    def at(self, p, t):
        return replace(self, p=p, h=ff.reference(self.comp, self.eos, p, t)["enthalpy_joule_per_kg"])


def stream(comp, eos, p, t, std=None, mass=None):
    h = ff.reference(comp, eos, p, t)["enthalpy_joule_per_kg"]
    if mass is None:
        mass = std * ff.standard_density(comp, eos) / 24
    return S(comp, eos, p, h, mass)


def speed_limits(curves, speed):
    """(minimum, maximum) rate at a speed: linear between the curves."""
    speeds = [c["speed"] for c in curves]
    return interp(speed, speeds, [c["rate"][0] for c in curves]), interp(speed, speeds, [c["rate"][-1] for c in curves])


def head_efficiency(curves, speed, rate):
    """Inside capacity at that speed. Between two curves: same relative rate on both, weighted by speed."""
    for c in curves:
        if c["speed"] == speed:
            return interp(rate, c["rate"], c["head"]), interp(rate, c["rate"], c["eff"])
    lo = [c for c in curves if c["speed"] < speed][-1]
    hi = [c for c in curves if c["speed"] > speed][0]
    w = (speed - lo["speed"]) / (hi["speed"] - lo["speed"])
    qmin = (1 - w) * lo["rate"][0] + w * hi["rate"][0]
    qmax = (1 - w) * lo["rate"][-1] + w * hi["rate"][-1]
    f = (rate - qmin) / (qmax - qmin)
    out = []
    for key in ("head", "eff"):
        a, b = (interp(c["rate"][0] + f * (c["rate"][-1] - c["rate"][0]), c["rate"], c[key]) for c in (lo, hi))
        out.append((1 - w) * a + w * b)
    return tuple(out)


def compress(s: S, head, eff):
    """Outlet stream: enthalpy from the work done, pressure from the Campbell equation with mean z and kappa, converged."""
    a = s.props
    h_out = s.h + head / eff
    z, k, p = a["z"], a["kappa"], None
    for _ in range(200):
        n1 = (k - 1) / (k * eff)
        new = s.p * (1 + head * n1 * a["molar_mass"] / (z * GAS_CONSTANT * a["temperature_kelvin"])) ** (1 / n1)
        if p is not None and abs(new - p) < 1e-12 * p:
            break
        p = new
        b = ff.reference(s.comp, s.eos, p, h=h_out)
        z, k = (a["z"] + b["z"]) / 2, (a["kappa"] + b["kappa"]) / 2
    return replace(s, p=p, h=h_out)


def head_for_pressure(s: S, p_out, eff_of_head):
    """Polytropic head lifting s to p_out, with eff = eff_of_head(head)."""
    a = s.props
    head, z, k = 0.0, a["z"], a["kappa"]
    eff = eff_of_head(head)
    for _ in range(300):
        n1 = (k - 1) / (k * eff)
        new = z * GAS_CONSTANT * a["temperature_kelvin"] / (n1 * a["molar_mass"]) * ((p_out / s.p) ** n1 - 1)
        if abs(new - head) < 1e-11 * max(new, 1):
            return new, eff
        head = new
        eff = eff_of_head(head)
        b = ff.reference(s.comp, s.eos, p_out, h=s.h + head / eff)
        z, k = (a["z"] + b["z"]) / 2, (a["kappa"] + b["kappa"]) / 2
    return head, eff


def power_mw(mass, dh):
    return mass * dh / 3600 / 1e6

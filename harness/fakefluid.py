"""A stand-in for the NeqSim Java library, which is not available offline.

Only the Java side is replaced (what the py4j gateway would reach): a small explicit equation of state with the calls
eCalc makes. Everything in /repo above it (wrapper, caches, fluid service, compressors) is the real code.
"""
import math

MW = {
    "water": 0.01801534, "nitrogen": 0.0280134, "CO2": 0.04400995, "methane": 0.01604246, "ethane": 0.03006904, "propane": 0.04409562,
    "i-butane": 0.0581222, "n-butane": 0.0581222, "i-pentane": 0.07214878, "n-pentane": 0.07214878, "n-hexane": 0.08617536,
}
HEAVY = ("water", "i-pentane", "n-pentane", "n-hexane")
CP = {n: 30.0 + 1100.0 * m + 0.7 * i for i, (n, m) in enumerate(MW.items())}  # J/mol/K
B = {n: 0.08 + 6.0 * m + 0.01 * i for i, (n, m) in enumerate(MW.items())}
J = {n: 150.0 + 20.0 * i for i, n in enumerate(MW)}
EOS = {"srk": (1.0, 1.0), "pr": (1.25, 1.1), "gerg": (0.9, 0.95)}
R = 8.31446261815324
FLASHES = {"TP": 0, "PH": 0, "new": 0}
FAULT = {"ph_drift": 0.0}  # injected: the PH flash stops this many J/kg from its target


def java_error(msg):
    from py4j.protocol import Py4JError

    return Py4JError(msg)


class System:
    eos = "srk"

    def __init__(self, t, p):
        self.t, self.p = float(t), float(p)
        self.x = {}
        self.moles = 1.0
        FLASHES["new"] += 1

    def addComponent(self, name, moles):  # noqa: N802
        self.x[name] = self.x.get(name, 0.0) + float(moles)

    def setTotalFlowRate(self, rate, unit):  # noqa: N802
        assert unit == "kg/hr"
        self.moles = rate / 3600.0 / self.getMolarMass()

    def setMixingRule(self, rule):  # noqa: N802
        assert rule == 2

    def init(self, n):
        pass

    def initProperties(self):  # noqa: N802
        pass

    def clone(self):
        c = type(self)(self.t, self.p)
        c.x, c.moles = dict(self.x), self.moles
        return c

    def setPressure(self, p, unit):  # noqa: N802
        assert unit == "bara"
        self.p = p

    def setTemperature(self, t, unit):  # noqa: N802
        assert unit == "K"
        self.t = t

    def check(self):
        if not (math.isfinite(self.p) and math.isfinite(self.t) and self.p > 0 and self.t > 0 and self.x):
            raise java_error(f"no solution at {self.p} bara and {self.t} K")

    # composition
    def fractions(self):
        total = sum(self.x.values())
        return {n: v / total for n, v in self.x.items()}

    def getMolarComposition(self):  # noqa: N802
        return list(self.fractions().values())

    def getComponentNames(self):  # noqa: N802
        return list(self.x)

    def getMolarMass(self):  # noqa: N802
        return sum(v * MW[n] for n, v in self.fractions().items())

    def getTotalNumberOfMoles(self):  # noqa: N802
        return self.moles

    # phases: the heavy components are saturated at y_max
    def saturation(self):
        return min(0.5, 0.01 * math.exp(min((self.t - 290.0) / 20.0, 50.0)) * math.sqrt(20.0 / self.p))

    def heavy(self):
        return sum(v for n, v in self.fractions().items() if n in HEAVY)

    def vapour(self):
        h, y = self.heavy(), self.saturation()
        return (1 - h) / (1 - y) if h > y * (1 + 1e-12) else 1.0

    def hasPhaseType(self, kind):  # noqa: N802
        return kind == "gas" and self.vapour() > 0

    def getPhaseNumberOfPhase(self, kind):  # noqa: N802
        return 0

    def getMoleFraction(self, phase):  # noqa: N802
        return self.vapour()

    def phaseToSystem(self, kind):  # noqa: N802
        assert kind == "gas"
        c = self.clone()
        v, h, y = self.vapour(), self.heavy(), self.saturation()
        if v < 1:
            c.x = {n: f * (y / h if n in HEAVY else (1 - y) / (1 - h)) for n, f in self.fractions().items()}
            c.moles = self.moles * v
        return c

    # properties
    def mix(self, table):
        return sum(v * table[n] for n, v in self.fractions().items())

    def z_(self, kind):
        return 1.0 / (1.0 + EOS[kind][0] * self.mix(B) * self.p / self.t)

    def density_(self, kind):
        return self.p * 1e5 * self.getMolarMass() / (self.z_(kind) * R * self.t) / math.sqrt(self.vapour())

    def h_(self, kind):
        return self.mix(CP) / self.getMolarMass() * (self.t - 250.0) - EOS[kind][1] * self.mix(J) * self.p

    def t_of_h(self, h, kind):
        return 250.0 + (h + EOS[kind][1] * self.mix(J) * self.p) * self.getMolarMass() / self.mix(CP)

    def getDensity(self, unit):  # noqa: N802
        assert unit == "kg/m3"
        return self.density_(self.eos)

    def getZ(self):  # noqa: N802
        return self.z_(self.eos)

    def getEnthalpy(self, unit):  # noqa: N802
        assert unit == "J/kg"
        return self.h_(self.eos)

    def getGamma2(self):  # noqa: N802
        cp = self.mix(CP)
        return cp / (cp - R)

    def getTemperature(self, unit):  # noqa: N802
        assert unit == "K"
        return self.t

    def getPressure(self, unit):  # noqa: N802
        assert unit == "bara"
        return self.p

    def getPhase(self, number):  # noqa: N802
        return Phase(self)


class Phase:
    def __init__(self, s):
        self.s = s

    def getMolarMass(self):  # noqa: N802
        return self.s.getMolarMass()

    def getDensity_GERG2008(self):  # noqa: N802
        return self.s.density_("gerg")

    def getProperties_GERG2008(self):  # noqa: N802
        p = [math.nan] * 16
        p[1], p[7], p[10] = self.s.z_("gerg"), self.s.h_("gerg") * self.s.getMolarMass(), self.s.mix(CP) * 1.02
        return p


class Operations:
    def __init__(self, system):
        self.s = system

    def TPflash(self):  # noqa: N802
        FLASHES["TP"] += 1
        self.s.check()

    def PHflash(self, h, unit):  # noqa: N802
        assert unit == "J/kg"
        FLASHES["PH"] += 1
        self.s.t = self.s.t_of_h(h + FAULT["ph_drift"], self.s.eos)
        self.s.check()

    def PHflashGERG2008(self, h_joule):  # noqa: N802
        FLASHES["PH"] += 1
        self.s.t = self.s.t_of_h(h_joule / self.s.moles / self.s.getMolarMass() + FAULT["ph_drift"], "gerg")
        self.s.check()


class Srk(System):
    eos = "srk"


class Pr(System):
    eos = "pr"


class _Namespace:
    def __init__(self, **kw):
        self.__dict__.update(kw)


MODULE = _Namespace(
    thermo=_Namespace(system=_Namespace(SystemSrkEos=Srk, SystemPrEos=Pr)),
    thermodynamicoperations=_Namespace(ThermodynamicOperations=Operations),
)


class Gateway:
    java_process = _Namespace(pid=0)
    gateway_parameters = _Namespace(port=0)
    jvm = _Namespace(neqsim=MODULE)

    def shutdown(self):
        pass


def install():
    """Replace the Java gateway (once per process) and start the service."""
    import ecalc_neqsim_wrapper.java_service as js
    from ecalc_neqsim_wrapper import NeqsimService

    js._start_server = lambda *a, **k: Gateway()
    if js._neqsim_service is None:
        NeqsimService.factory(use_jpype=False).initialize()


def fresh_service(reference=512, flash=100_000):
    """A new fluid service with caches of the given sizes."""
    from ecalc_neqsim_wrapper import CacheConfig, CacheService, NeqSimFluidService

    install()
    NeqSimFluidService.reset_instance()
    CacheService.clear_all()
    CacheService._caches.clear()
    NeqSimFluidService.configure(CacheConfig(reference_fluid_max_size=reference, flash_max_size=flash))
    return NeqSimFluidService.instance()


def service():
    from ecalc_neqsim_wrapper import NeqSimFluidService

    install()
    return NeqSimFluidService.instance()


DRY = {"nitrogen": 0.01, "CO2": 0.02, "methane": 0.85, "ethane": 0.08, "propane": 0.04}


def fluid_model(comp=None, eos="SRK"):
    from libecalc.process.fluid_stream.fluid_model import EoSModel, FluidComposition, FluidModel

    return FluidModel(eos_model=EoSModel(eos), composition=FluidComposition(**(comp or DRY)))


# ---------------------------------------------------------------- what the stand-in gives, computed directly
def reference(comp, eos, p, t=None, h=None):
    """Properties of the fluid at (p, t) or (p, h); independent of the code in /repo."""
    kind = eos.split("_")[-1].lower()
    s = {"srk": Srk, "pr": Pr}[kind](t or 300.0, p)
    for n, v in comp.items():
        if v > 0:
            s.addComponent(n.replace("_", "-"), v)
    prop = "gerg" if eos.startswith("GERG") else kind
    if h is not None:
        s.t = s.t_of_h(h, prop)
    cp = s.mix(CP) * (1.02 if prop == "gerg" else 1)
    return {
        "pressure_bara": p, "temperature_kelvin": s.t, "density": s.density_(prop), "z": s.z_(prop),
        "enthalpy_joule_per_kg": s.h_(prop), "kappa": cp / (cp - R), "vapor_fraction_molar": s.vapour(), "molar_mass": s.getMolarMass(),
        "system": s,
    }


def standard_density(comp, eos="SRK"):
    r = reference(comp, eos, 1.01325, 288.15)
    if r["vapor_fraction_molar"] < 0.9999:
        gas = r["system"].phaseToSystem("gas")
        return reference(gas.x, eos, 1.01325, 288.15)["density"]
    return r["density"]


def make_stream(rate_sm3_d, p, t, comp=None, eos="SRK", svc=None):
    return (svc or service()).create_stream_from_standard_rate(
        fluid_model=fluid_model(comp, eos), pressure_bara=p, temperature_kelvin=t, standard_rate_m3_per_day=rate_sm3_d
    )

L = "src/libecalc/"
BUGS = [
    dict(
        id="c15", property="P15",
        needs="a turbine whose loads are not listed in ascending order",
        breaks="loads above the one listed last are reported as invalid although the curve covers them",
        edits=[(L + "domain/infrastructure/energy_components/turbine/turbine.py", "self._maximum_load = max(self.loads)", "self._maximum_load = self.loads[-1]")],
        demo='''
import numpy as np
from libecalc.domain.infrastructure.energy_components.turbine.turbine import Turbine
t = Turbine(loads=[0.0, 20.0, 10.0], lower_heating_value=38.0, efficiency_fractions=[0.1, 0.4, 0.3], energy_usage_adjustment_factor=1.0, energy_usage_adjustment_constant=0.0)
r = t.evaluate(np.array([5.0, 15.0, 25.0]))
assert list(r.exceeds_maximum_load) == [False, False, True], r.exceeds_maximum_load
assert t.max_power == 20.0, t.max_power
''',
    ),
]

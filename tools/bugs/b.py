L = "src/libecalc/"
PR = "src/libecalc/process/"
FF = ["harness/fakefluid.py"]
BASE = '''
from mini import Run
def data(models, usage, fluid=True, columns=("R",)):
    return {
     "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
     "FACILITY_INPUTS": [], "FLUID": None,
     "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": 2}]}],
     "MODELS": models,
     "INSTALLATIONS": [{"NAME": "i", "HCEXPORT": 0, "FUEL": "f", "FUELCONSUMERS": [{"NAME": "c", "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": usage}]}],
     "START": "2020-01-01", "END": "2021-01-01"}
'''
BUGS = [
    dict(
        id="b13", property="P13",
        needs="two senders of one operational setting that pass their excess to the same receiver",
        breaks="only the last sender's excess reaches the receiver: rate is lost",
        edits=[(L + "domain/infrastructure/energy_components/legacy_consumer/system/consumer_function.py",
                "            rates_after_cross_over[cross_over_number - 1] += transfer_rate",
                "            rates_after_cross_over[cross_over_number - 1] = operational_setting.get_rate(cross_over_number - 1) + transfer_rate")],
        demo='''
from mini import Run
pump = "RATE,HEAD,EFFICIENCY\\n100,2000,70\\n200,1500,70\\n"
d = {
 "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
 "FACILITY_INPUTS": [{"NAME": "p", "TYPE": "PUMP_CHART_SINGLE_SPEED", "FILE": "p.csv", "UNITS": {"HEAD": "M", "RATE": "AM3_PER_HOUR", "EFFICIENCY": "PERCENTAGE"}}],
 "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": 2}]}],
 "INSTALLATIONS": [{"NAME": "i", "HCEXPORT": 0, "FUEL": "f", "GENERATORSETS": [{"NAME": "g", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "t",
   "CONSUMERS": [{"NAME": "c", "CATEGORY": "PUMP", "ENERGY_USAGE_MODEL": {"TYPE": "PUMP_SYSTEM",
     "PUMPS": [{"NAME": n, "CHART": "p"} for n in "abc"], "FLUID_DENSITY": 1000,
     "OPERATIONAL_SETTINGS": [{"CROSSOVER": [3, 3, 0], "RATES": [5000, 5100, 2400], "SUCTION_PRESSURE": 10, "DISCHARGE_PRESSURE": 158}]}}]}]}],
 "START": "2020-01-01", "END": "2021-01-01"}
d["FACILITY_INPUTS"].append({"NAME": "t", "TYPE": "ELECTRICITY2FUEL", "FILE": "t.csv"})
run = Run(d, {"s.csv": "DATE,L\\n2020-01-01,1\\n", "p.csv": pump, "t.csv": "POWER,FUEL\\n0,0\\n1000,1000\\n"})
rates = [m.inlet_liquid_rate_m3_per_day.values[0] for m in run.result.models]
assert abs(sum(rates) - 12500) < 1e-3, rates
''',
    ),
    dict(
        id="b17", property="P17",
        needs="a pump process unit with its own minimum flow above the rate, required to give less than the minimum head",
        breaks="the minimum head is read at the requested rate instead of the recirculated one, so the delivered pressure and the power are too high",
        edits=[(PR + "pump/pump.py",
                "self._pump_chart.minimum_head_as_function_of_rate(operating_rate_m3_per_hour)", "self._pump_chart.minimum_head_as_function_of_rate(rate_m3_per_hour)")],
        demo='''
from libecalc.domain.process.value_objects.chart import ChartCurve
from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData
from libecalc.process.pump.liquid_stream import LiquidStream
from libecalc.process.pump.pump import Pump
def curve(sp, rate, head):
    return ChartCurve(speed_rpm=sp, rate_actual_m3_hour=rate, polytropic_head_joule_per_kg=head, efficiency_fraction=[0.7] * len(rate))
chart = UserDefinedChartData(curves=[curve(1000.0, [100.0, 200.0, 300.0], [1000.0, 900.0, 700.0]), curve(2000.0, [150.0, 300.0, 500.0], [4000.0, 3600.0, 2800.0])], control_margin=0.0)
pump = Pump(chart, minimum_flow_rate_m3_per_hour=200.0)
r = pump.evaluate(LiquidStream(pressure_bara=10.0, density_kg_per_m3=1000.0, mass_rate_kg_per_h=120000.0), 12.0)
assert abs(r.operational_head_joule_per_kg - 900.0) < 1e-6, r
''',
    ),
    dict(
        id="b18", property="P18",
        needs="mixing of streams whose compositions are given on different scales (fractions in one, percent in the other)",
        breaks="the components of the stream given in percent count a hundred times too much",
        edits=[(PR + "fluid_stream/stream_mixer.py",
                "            normalized_comp = s.fluid_model.composition.normalized()\n            for component, mole_fraction in dataclasses.asdict(normalized_comp).items():",
                "            for component, mole_fraction in dataclasses.asdict(s.fluid_model.composition).items():")],
        files=FF,
        demo='''
import fakefluid as ff
from libecalc.process.fluid_stream.stream_mixer import StreamMixer
svc = ff.service()
a = ff.make_stream(1e5, 20.0, 300.0, {"methane": 1.0}, svc=svc)
b = ff.make_stream(1e5, 20.0, 300.0, {"methane": 50.0, "ethane": 50.0}, svc=svc)
m = StreamMixer(svc).mix_streams([a, b])
na, nb = (s.mass_rate_kg_per_h / s.molar_mass for s in (a, b))
want = 0.5 * nb / (na + nb)
assert abs(m.fluid_model.composition.ethane - want) < 1e-6, (m.fluid_model.composition.ethane, want)
''',
    ),
    dict(
        id="b19", property="P19",
        needs="several compressors with individual recirculation, pressure controlled by a common fraction, where recirculation of the first changes what the second gets",
        breaks="the range of the later loops is computed as if the earlier ones did not recirculate: later compressors run outside their charts",
        edits=[(PR + "process_solver/pressure_control/individual_asv.py",
                "            self._simulator.apply_configuration(configuration)\n            configurations.append(configuration)\n        return configurations\n",
                "            configurations.append(configuration)\n        self._simulator.apply_configurations(configurations)\n        return configurations\n")],
        files=FF,
        demo='''
import fakefluid as ff
from libecalc.domain.process.value_objects.chart import ChartCurve
from libecalc.presentation.yaml.mappers.charts.user_defined_chart_data import UserDefinedChartData
from libecalc.process.process_solver.float_constraint import FloatConstraint
from libecalc.process.process_solver.section_assembly import assemble_process_section
from libecalc.process.process_solver.solver_assembly import assemble_solver
from libecalc.process.process_solver.recirculation_loop import RecirculationLoop
from libecalc.process.process_units.compressor import Compressor
from libecalc.process.process_units.temperature_setter import TemperatureSetter
from libecalc.process.shaft import VariableSpeedShaft
svc = ff.service()
def curve(sp, f):
    return ChartCurve(speed_rpm=sp, rate_actual_m3_hour=[f * x * sp for x in (0.1, 0.15, 0.25)], polytropic_head_joule_per_kg=[x * sp * sp for x in (3e-4, 2.4e-4, 1e-4)], efficiency_fraction=[0.7] * 3)
def compressor(f):
    return Compressor(compressor_chart=UserDefinedChartData(curves=[curve(10000.0, f), curve(10500.0, f)], control_margin=0.0), fluid_service=svc)
shaft = VariableSpeedShaft()
cs = [compressor(1.0), compressor(0.6)]
units = []
for c in cs:
    shaft.connect(c)
    units += [TemperatureSetter(svc, required_temperature_kelvin=300.0), c]
a = assemble_process_section(process_units=units, anti_surge="INDIVIDUAL_ASV", pressure_control="INDIVIDUAL_ASV_RATE", fluid_service=svc)
loops = [h for h in a.configuration_handlers if isinstance(h, RecirculationLoop)]
s = assemble_solver(process_units=a.process_units, configuration_handlers=[shaft, *a.configuration_handlers], compressors=cs, recirculation_loops=loops,
                    shaft=shaft, pipeline_name="x", pressure_control_type="INDIVIDUAL_ASV_RATE", choke=None, choke_configuration_handler=None)
inlet = ff.make_stream(5e5, 20.0, 300.0, svc=svc)
sol = s.solver.find_solution([FloatConstraint(29.0)], inlet)
assert sol.success, sol
s.runner.apply_configurations(sol.configuration)
for c in cs:
    q = s.runner.run(inlet, to_id=c.get_id()).volumetric_rate_m3_per_hour
    assert c.minimum_flow_rate * (1 - 1e-6) <= q <= c.maximum_flow_rate * (1 + 1e-6), (c.minimum_flow_rate, q, c.maximum_flow_rate)
out = s.runner.run(inlet).pressure_bara
assert abs(out - 29.0) < 0.05, out
''',
    ),
    dict(
        id="b20", property="P20",
        needs="two trains that overflow into the same train",
        breaks="only the larger of the two overflows arrives: part of the stream is lost",
        edits=[(PR + "stream_distribution/common_stream_distribution.py",
                "            overflow_rate = sum(overflow_map[item_id])", "            overflow_rate = max(overflow_map[item_id], default=0.0)")],
        files=FF,
        demo='''
import fakefluid as ff
from libecalc.process.stream_distribution.common_stream_distribution import CommonStreamDistribution, HasExcessRate, Overflow
svc = ff.service()
class Train(HasExcessRate):
    def get_excess_rate(self, inlet_stream):
        return max(0.0, inlet_stream.standard_rate_sm3_per_day - 1000.0)
d = CommonStreamDistribution(ff.make_stream(1e4, 20.0, 300.0, svc=svc), {x: Train() for x in "abc"}, [0.4, 0.4, 0.2], [Overflow("a", "c"), Overflow("b", "c")], svc)
rates = [s.standard_rate_sm3_per_day for s in d.get_streams()]
assert abs(sum(rates) - 1e4) < 1e-3, rates
''',
    ),
    dict(
        id="b23", property="P23",
        needs="two fluids of the same composition with different equations of state flashed to the same pressure and enthalpy",
        breaks="the second one gets the cached answer of the first",
        edits=[("src/ecalc_neqsim_wrapper/fluid_service.py",
                "            \"PH\",\n            composition_key,\n            eos_model,\n", "            \"PH\",\n            composition_key,\n            eos_model is not None,\n")],
        files=FF,
        demo='''
import fakefluid as ff
svc = ff.fresh_service()
a = svc.flash_ph(ff.fluid_model(eos="SRK"), 20.0, 3e5)
b = svc.flash_ph(ff.fluid_model(eos="PR"), 20.0, 3e5)
want = ff.fresh_service().flash_ph(ff.fluid_model(eos="PR"), 20.0, 3e5)
assert b == want, (b, want)
''',
    ),
    dict(
        id="b21", property="P21",
        needs="a train with individual recirculation and equal pressure ratios whose later stage is cooled before the compressor and needs almost full recirculation",
        breaks="the largest recirculation is computed with the density before cooling, so the stage delivers too high a pressure",
        edits=[(L + "domain/process/compressor/core/train/stage.py",
                "            maximum_rate * float(result_no_recirculation.inlet_stream.density)\n", "            maximum_rate * float(inlet_stream_stage.density)\n")],
        files=FF,
        demo='''
import fakefluid as ff
from libecalc.domain.process.value_objects.chart import ChartCurve
import libecalc.domain.process.compressor.core.train.stage as stage_module
from mini import Run
ff.install()
def chart(name, f):
    return {"NAME": name, "TYPE": "COMPRESSOR_CHART", "CHART_TYPE": "VARIABLE_SPEED", "UNITS": {"HEAD": "JOULE_PER_KG", "RATE": "AM3_PER_HOUR", "EFFICIENCY": "FRACTION"},
            "CURVES": [{"SPEED": sp, "RATE": [f * sp, 2.5 * f * sp], "HEAD": [4e-4 * sp * sp, 2.5e-4 * sp * sp], "EFFICIENCY": [0.7, 0.7]} for sp in (10000, 11000)]}
models = [
 {"NAME": "m", "TYPE": "FLUID", "FLUID_MODEL_TYPE": "PREDEFINED", "EOS_MODEL": "SRK", "GAS_TYPE": "MEDIUM"},
 chart("ch", 0.1),
 chart("ch2", 0.05),
 {"NAME": "tr", "TYPE": "VARIABLE_SPEED_COMPRESSOR_TRAIN", "FLUID_MODEL": "m", "PRESSURE_CONTROL": "INDIVIDUAL_ASV_PRESSURE", "COMPRESSOR_TRAIN": {"STAGES": [
   {"COMPRESSOR_CHART": "ch", "INLET_TEMPERATURE": 30, "CONTROL_MARGIN": 0, "CONTROL_MARGIN_UNIT": "FRACTION"}, {"COMPRESSOR_CHART": "ch2", "INLET_TEMPERATURE": 10, "CONTROL_MARGIN": 0, "CONTROL_MARGIN_UNIT": "FRACTION"}]}},
]
d = {
 "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
 "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": 2}]}],
 "FACILITY_INPUTS": [{"NAME": "t", "TYPE": "ELECTRICITY2FUEL", "FILE": "t.csv"}],
 "MODELS": models,
 "INSTALLATIONS": [{"NAME": "i", "HCEXPORT": 0, "FUEL": "f", "GENERATORSETS": [{"NAME": "g", "CATEGORY": "TURBINE-GENERATOR", "ELECTRICITY2FUEL": "t",
   "CONSUMERS": [{"NAME": "c", "CATEGORY": "COMPRESSOR", "ENERGY_USAGE_MODEL": {"TYPE": "COMPRESSOR", "ENERGYFUNCTION": "tr", "RATE": 300000, "SUCTION_PRESSURE": 20, "DISCHARGE_PRESSURE": "S;PD"}}]}]}],
 "START": "2020-01-01", "END": "2020-01-31"}
s = "DATE,PD\\n" + "".join(f"2020-01-{i+1:02d},{30.2 + 0.15 * i}\\n" for i in range(30))
run = Run(d, {"s.csv": s, "t.csv": "POWER,FUEL\\n0,0\\n1000,1000\\n"})
m = next(x for x in run.result.models if x.name == "tr" or getattr(x, "stage_results", None))
for i, valid in enumerate(m.is_valid.values):
    target, got = 30.2 + 0.15 * i, m.stage_results[-1].outlet_stream_condition.pressure.values[i]
    assert valid and abs(got - target) < 1e-3, (valid, target, got)
''',
    ),
    dict(
        id="b32", property="P32",
        needs="a pipeline section with individual recirculation where units stand before a mixer or splitter without a compressor between",
        breaks="the mixer or splitter is moved in front of those units",
        edits=[(PR + "process_solver/section_assembly.py",
                "                solver_units.extend(pending_units)  # units without a compressor are left unchanged\n                pending_units = []\n                solver_units.append(unit)  # mixer/splitter stays outside the loop\n",
                "                solver_units.append(unit)  # mixer/splitter stays outside the loop\n                solver_units.extend(pending_units)  # units without a compressor are left unchanged\n                pending_units = []\n")],
        files=FF,
        demo='''
import fakefluid as ff
from libecalc.process.process_solver.section_assembly import assemble_process_section
from libecalc.process.process_units.temperature_setter import TemperatureSetter
from libecalc.process.process_units.mixer import Mixer
svc = ff.service()
t = TemperatureSetter(svc, required_temperature_kelvin=300.0)
m = Mixer.__new__(Mixer)
a = assemble_process_section(process_units=[t, m], anti_surge="INDIVIDUAL_ASV", pressure_control="COMMON_ASV", fluid_service=svc)
assert a.process_units[0] is t and a.process_units[1] is m
''',
    ),
]

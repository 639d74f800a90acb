IN = "src/libecalc/domain/infrastructure/energy_components/"
BUGS = [
    dict(
        id="b01", property="P01",
        needs="a resample of a stream-day rate series whose regularity varies inside one new step",
        breaks="the regularity of a resampled rate no longer matches the volumes: a stream-day rate is resampled to the wrong level",
        edits=[("src/libecalc/common/utils/rates.py",
                "                values=Rates.compute_cumulative_volumes_from_daily_rates(\n                    rates=self.to_stream_day().values,",
                "                values=Rates.compute_cumulative_volumes_from_daily_rates(\n                    rates=np.divide(self.to_calendar_day().values, max(max(self.regularity), 1e-12)).tolist(),")],
        demo='''
from datetime import datetime
from libecalc.common.time_utils import Frequency, Period, Periods
from libecalc.common.units import Unit
from libecalc.common.utils.rates import RateType, TimeSeriesRate
d = [datetime(2020, 1, 1), datetime(2020, 7, 1), datetime(2021, 1, 1)]
ts = TimeSeriesRate(periods=Periods([Period(d[0], d[1]), Period(d[1], d[2])]), values=[10.0, 10.0],
                    unit=Unit.STANDARD_CUBIC_METER_PER_DAY, rate_type=RateType.STREAM_DAY, regularity=[1.0, 0.5])
r = ts.resample(Frequency.YEAR)
assert abs(r.values[0] - 10.0) < 1e-9, r.values
''',
    ),
    dict(
        id="b02", property="P02",
        needs="two rate series with different regularity, both given per calendar day, are added",
        breaks="the regularity of the sum is averaged instead of following from the volumes, so conversion back to stream day is wrong",
        edits=[("src/libecalc/common/utils/rates.py",
                "                sum_stream_day = elementwise_sum(self.to_stream_day().values, other.to_stream_day().values)",
                "                sum_stream_day = elementwise_sum(self.values, other.to_stream_day().values)")],
        demo='''
from datetime import datetime
from libecalc.common.time_utils import Period, Periods
from libecalc.common.units import Unit
from libecalc.common.utils.rates import RateType, TimeSeriesRate
p = Periods([Period(datetime(2020, 1, 1), datetime(2021, 1, 1))])
def ts(v, r):
    return TimeSeriesRate(periods=p, values=[v], unit=Unit.STANDARD_CUBIC_METER_PER_DAY, rate_type=RateType.CALENDAR_DAY, regularity=[r])
s = (ts(5.0, 0.5) + ts(8.0, 0.8)).to_stream_day()
assert abs(s.values[0] - 20.0) < 1e-9, s.values
''',
    ),
    dict(
        id="b08", property="P08",
        needs="a load below the first power value of the electricity-to-fuel table",
        breaks="fuel below the table is extrapolated from the origin instead of being the first value",
        edits=[(IN + "generator_set/generator_set_model.py",
                "            fill_value=(min(fuel_values), max(fuel_values)),",
                "            fill_value=(fuel_values[0], max(fuel_values)),")],
        demo='''
from mini import Run
data = {
 "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
 "FACILITY_INPUTS": [{"NAME": "t", "TYPE": "ELECTRICITY2FUEL", "FILE": "t.csv"}],
 "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": 2}]}],
 "INSTALLATIONS": [{"NAME": "i", "HCEXPORT": 0, "FUEL": "f", "GENERATORSETS": [{"NAME": "g", "CATEGORY": "TURBINE-GENERATOR",
   "ELECTRICITY2FUEL": "t", "CONSUMERS": [{"NAME": "c", "CATEGORY": "BASE-LOAD", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "LOAD": 1}}]}]}],
 "START": "2020-01-01", "END": "2021-01-01"}
run = Run(data, {"s.csv": "DATE,L\\n2020-01-01,1\\n", "t.csv": "POWER,FUEL\\n20,200\\n5,50\\n10,100\\n"})
got = run.by_name["g"].energy_usage.values
assert got == [50.0], got
''',
    ),
    dict(
        id="b09", property="P09",
        needs="a fuel that changes at a date, with an emission factor taken from a time series",
        breaks="the factor of the second fuel is read from the start of the simulation instead of from the step itself",
        edits=[(IN + "fuel_model/fuel_model.py",
                "                variables_map_this_period = self._expression_evaluator.get_subset(\n                    start_index=start_index,\n                    end_index=end_index,\n                )",
                "                variables_map_this_period = self._expression_evaluator.get_subset(\n                    start_index=0,\n                    end_index=end_index - start_index,\n                )")],
        demo='''
from mini import Run
data = {
 "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
 "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": "S;F"}]}, {"NAME": "g", "EMISSIONS": [{"NAME": "co2", "FACTOR": "S;F"}]}],
 "INSTALLATIONS": [{"NAME": "i", "HCEXPORT": 0, "FUEL": {"2020-01-01": "f", "2021-01-01": "g"}, "FUELCONSUMERS": [
   {"NAME": "c", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": {"TYPE": "DIRECT", "FUELRATE": 1000}}]}],
 "START": "2020-01-01", "END": "2022-01-01"}
run = Run(data, {"s.csv": "DATE,F\\n2020-01-01,1\\n2021-01-01,3\\n"})
got = run.by_name["c"].emissions["co2"].rate.values
assert got == [1.0, 3.0], got
''',
    ),
    dict(
        id="b11", property="P11",
        needs="a direct emitter with a calendar-day rate while the regularity changes over time",
        breaks="the whole series is converted with the regularity of the first step",
        edits=[("src/libecalc/domain/infrastructure/emitters/venting_emitter.py",
                """        Returns the stream day emission rate values.

        The values are calculated by converting calendar day rates to stream day rates
        using the specified regularity, and then applying the given condition expression.
        \"\"\"

        # if regularity is 0 for a calendar day rate, set stream day rate to 0 for that step
        rate = self._time_series_expression.get_masked_values()
        rate_array = np.asarray(rate, dtype=np.float64)

        if self.rate_type == RateType.CALENDAR_DAY:
            rate_array = Rates.to_stream_day(
                calendar_day_rates=rate_array,
                regularity=self._regularity.values,
            )
""",
                """        Returns the stream day emission rate values.

        The values are calculated by converting calendar day rates to stream day rates
        using the specified regularity, and then applying the given condition expression.
        \"\"\"

        # if regularity is 0 for a calendar day rate, set stream day rate to 0 for that step
        rate = self._time_series_expression.get_masked_values()
        rate_array = np.asarray(rate, dtype=np.float64)

        if self.rate_type == RateType.CALENDAR_DAY:
            rate_array = Rates.to_stream_day(
                calendar_day_rates=rate_array,
                regularity=self._regularity.values[:1] * len(rate_array),
            )
""")],
        demo='''
from mini import Run
data = {
 "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
 "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": 1}]}],
 "INSTALLATIONS": [{"NAME": "i", "HCEXPORT": 0, "FUEL": "f", "REGULARITY": "S;R", "VENTING_EMITTERS": [
   {"NAME": "v", "CATEGORY": "COLD-VENTING-FUGITIVE", "TYPE": "DIRECT_EMISSION", "EMISSIONS": [
     {"NAME": "co2", "RATE": {"VALUE": 10, "UNIT": "TONS_PER_DAY", "TYPE": "CALENDAR_DAY"}}]}]}],
 "START": "2020-01-01", "END": "2022-01-01"}
run = Run(data, {"s.csv": "DATE,R\\n2020-01-01,1\\n2021-01-01,0.5\\n"})
got = run.by_name["v"].emissions["co2"].rate.values
assert max(abs(x - 10) for x in got) < 1e-9, got
''',
    ),
    dict(
        id="b12", property="P12",
        needs="a two-variable table whose variables are listed in another order than the columns, in a model with several time steps",
        breaks="the variables are passed in the order given by the user instead of the order of the columns",
        edits=[(IN + "legacy_consumer/tabulated/tabular_consumer_function.py",
                "                variables_map_by_name.get(variable_name)\n                for variable_name in self._tabular_energy_function.required_variables",
                "                values\n                for values in variables_map_by_name.values()")],
        demo='''
from mini import Run
data = {
 "TIME_SERIES": [{"NAME": "S", "TYPE": "DEFAULT", "FILE": "s.csv"}],
 "FACILITY_INPUTS": [{"NAME": "t", "TYPE": "TABULAR", "FILE": "t.csv"}],
 "FUEL_TYPES": [{"NAME": "f", "EMISSIONS": [{"NAME": "co2", "FACTOR": 1}]}],
 "INSTALLATIONS": [{"NAME": "i", "HCEXPORT": 0, "FUEL": "f", "FUELCONSUMERS": [
   {"NAME": "c", "CATEGORY": "FLARE", "ENERGY_USAGE_MODEL": {"TYPE": "TABULATED", "ENERGYFUNCTION": "t", "VARIABLES": [
     {"NAME": "GOR", "EXPRESSION": 1}, {"NAME": "RATE", "EXPRESSION": "S;F"}]}}]}],
 "START": "2020-01-01", "END": "2022-01-01"}
rows = "".join(f"{x},{y},{10 * x + y}\\n" for x in range(4) for y in range(4))
run = Run(data, {"s.csv": "DATE,F\\n2020-01-01,2\\n2021-01-01,3\\n", "t.csv": "RATE,GOR,FUEL\\n" + rows})
got = run.by_name["c"].energy_usage.values
assert max(abs(a - b) for a, b in zip(got, [21, 31])) < 1e-6, got
''',
    ),
]

prop("P01", "Resampling conserves totals",
     "Resampling a result to yearly, monthly or daily steps conserves the total volume over the covered period, and each reported cumulative, rate and average equals the one computed directly from the original steps. Point-in-time values are those in force at the new step, and a resampled step is valid only if every original step it overlaps is valid.",
     I, "every time vector (any irregular steps), every value and regularity series, every reporting frequency and choice of including start and end",
     "The existing tests resample a few hand-written series whose steps align with the new frequency; the property quantifies over all misaligned vectors.",
     [C + "utils/rates.py", C + "time_utils.py"], [("resample of rate, volume and point series", C + "utils/rates.py"), ("resample_periods", C + "time_utils.py")],
     "property-based testing: independent day-integral reference model", "Random series against an exact day-by-day integral; trusts the reference integral and float tolerance 1e-9.")
prop("P02", "Calendar-day and stream-day rates agree through regularity",
     "For every series a calendar-day rate equals the stream-day rate times the regularity, volumes follow the calendar-day rate, and adding, cutting, joining or indexing series keeps each value and regularity with its own time step. A regularity given in a model (constant, text, dated or from a time series, including 0) scales what is reported per calendar day and nothing else; values outside 0 to 1 are refused.",
     IC, "every rate and regularity series, every sequence of conversions and slices, every form of REGULARITY in a model",
     "Tests use regularities of 1 or a few constants; zero regularity, differing regularities in sums and index operations are not sampled.",
     [C + "utils/rates.py", D + "regularity.py"], [("Rates.to_calendar_day / to_stream_day", C + "utils/rates.py"), ("Regularity", D + "regularity.py")],
     "property-based testing: algebraic identities and whole-model reference", "Random series and small whole models against closed formulas.")
prop("P03", "Unit conversions are consistent",
     "Converting a value between any two compatible units and back returns the value, conversions agree with the physical definition of the units, and composing conversions equals the direct one. Converting between units that do not measure the same thing is refused.",
     I, "every pair of units and every value",
     "The tests check single conversions; consistency between all pairs is not stated.",
     [C + "units.py"], [("Unit.to", C + "units.py")],
     "property-based testing: table of physical factors, round trip", "All unit pairs, random values; trusts the physical factors listed in the check.")
prop("P04", "Expressions evaluate as documented; malformed ones are refused",
     "Every well-formed expression evaluates, in each time step independently, to the value given by the documented operators, precedence and associativity, with division by zero and missing values giving 0 and comparisons giving 1 or 0. Expressions with unbalanced parentheses, unknown tokens or references, malformed numbers, or operands and operators that do not add up are refused with an expression error. The text form of an expression parses back to the same expression.",
     ["inputs", "programs"], "every expression over the documented grammar, every mutated token list, every values of the referenced series",
     "Tests hold a table of about thirty expressions; precedence mixes, zero divisors and malformed inputs are an unbounded set.",
     ["src/libecalc/expression/expression.py", "src/libecalc/expression/expression_evaluator.py", "src/libecalc/expression/expression_tree.py"],
     [("lexer", "src/libecalc/expression/expression_evaluator.py"), ("shunting yard and tree evaluation", "src/libecalc/expression/expression_tree.py")],
     "grammar-based generation against a reference evaluator", "Random trees and mutated token lists against an independent parser/evaluator written from the documentation; comparisons whose operands differ by rounding only are skipped.")
prop("P05", "Time series files give each time step the documented value",
     "The time steps of a model are exactly the dates of the influencing time series, the dated settings, and START and END, within START and END; at each of them a referenced column has the value given by the documented interpolation and extrapolation rules, whatever the order of the rows, the position of the date column and the accepted date format. Files whose dates are duplicate, mixed or ambiguous, or whose values are not numeric, are refused.",
     IC, "every set of time series files, interpolation and extrapolation setting, date format, START and END",
     "Tests sample a handful of aligned series; interpolation between misaligned files with different settings is a product space.",
     [Y + "domain/time_series.py", Y + "domain/time_series_resource.py", Y + "domain/time_series_collections.py", Y + "mappers/variables_mapper/get_global_time_vector.py", Y + "yaml_entities.py"],
     [("fit_to_time_vector", Y + "domain/time_series.py"), ("get_global_time_vector", Y + "mappers/variables_mapper/get_global_time_vector.py"), ("_parse_time_vector", Y + "domain/time_series_resource.py")],
     "property-based testing of whole models against a reference interpolator; fault injection in files", "Random files through the public model interface; the reference interpolator is trusted.")
prop("P06", "Variables resolve to their definition in any declaration order",
     "Every variable evaluates to its definition at each time step, including definitions by other variables and dated definitions, whatever the order in which variables or dates are declared; before the first date it is 0. Models whose variables form a cycle or refer to something unknown are refused with a validation error.",
     ["inputs", "programs"], "every acyclic set of definitions, every declaration order, every injected cycle or missing reference",
     "Tests declare variables in dependency order with sorted dates.",
     [Y + "mappers/variables_mapper/variables_mapper.py", C + "variables.py"], [("_evaluate_variables", Y + "mappers/variables_mapper/variables_mapper.py")],
     "property-based testing: random definition graphs against a reference resolver", "Random graphs up to 6 variables in whole models.")
prop("P07", "Dated settings apply from their date until the next one",
     "Each time step uses exactly the dated definition (hydrocarbon export, regularity, fuel, consumer model, generator set model) whose date is the latest not after the step, definitions outside the simulated period have no effect, and a step before the first definition has none. Dates that are out of order, or required definitions lying entirely outside the simulated period, are refused with a validation error.",
     IC, "every set of dates relative to START, END and the time vector, for every setting that can be dated",
     "Tests have one or two switches aligned with the time vector; interactions of several dated settings are not sampled.",
     [C + "temporal_model.py", C + "time_utils.py", C + "variables.py", Y + "mappers/component_mapper.py"],
     [("define_time_model_for_period", C + "time_utils.py"), ("TemporalModel", C + "temporal_model.py"), ("get_subset_for_period", C + "variables.py")],
     "property-based testing: sets of days as model; whole-model reference", "Random dated settings against a day-set model and a whole-model reference.")
IN = D + "infrastructure/energy_components/"
prop("P08", "Generator sets cover their consumers and burn what the table says",
     "In every time step the power of a generator set is the sum of the power of its consumers, and its fuel is the documented piecewise linear function of that power: zero at no load, the first and last fuel value below and above the table. The reported capacity margin is the top of the table minus the load and the step is valid only if it is not negative; power drawn from shore includes the cable loss only while the category is power from shore, and the given maximum usage is reported unchanged.",
     IC, "every electricity-to-fuel table, load series, dated category and table, cable loss and maximum usage",
     "Tests use two or three tables with loads inside them; edges, dated changes and losses combine freely.",
     [IN + "generator_set/generator_set_component.py"], [("evaluate_fuel_consumption, power production", IN + "generator_set/generator_set_component.py")],
     "property-based testing of whole models against a reference evaluation", "Random whole models; trusts the reference evaluation in harness/assetgen.py.")
prop("P09", "Emissions equal fuel use times the factor of the fuel in force",
     "For every fuel consumer and generator set, each time step's emission of every substance is the fuel used times the factor of the fuel in force in that step, a fuel given on the component taking the place of the installation's; substances a fuel does not list are zero while it is in use. Fuels with duplicate emission names, duplicate fuels and unknown fuels are refused.",
     IC, "every set of fuels and factors, dated fuel choice on installation or component, fuel rates and regularity",
     "Tests have one or two fuels with constant factors.",
     [IN + "fuel_consumer/fuel_consumer.py", IN + "fuel_model/fuel_model.py"],
     [("evaluate_emissions", IN + "fuel_model/fuel_model.py")],
     "property-based testing of whole models against a reference evaluation", "Random whole models; trusts the reference evaluation.")
prop("P10", "Asset totals equal the sum of installations and of components",
     "In the result every component appears exactly once below its parent; fuel, power, hydrocarbon export and each emission of an installation is the sum over its components and of the asset the sum over installations, per calendar day, whatever the regularities. Cumulatives are the running sum of rate times length, and a step of an installation or asset is valid only if it is valid in every component below.",
     IC, "every tree of installations and components, their rates, validity and regularities",
     "Tests compare a few fixed models with snapshots.",
     ["src/libecalc/presentation/json_result/mapper.py", "src/libecalc/presentation/yaml/model.py"],
     [("aggregation", "src/libecalc/presentation/json_result/mapper.py"), ("get_validity", "src/libecalc/presentation/yaml/model.py")],
     "property-based testing of whole models against a reference evaluation and against the reported parts", "Random whole models with up to three installations.")
prop("P11", "Venting emitters emit what is given",
     "A venting emitter emits, in every time step where its conditions hold, exactly the given rate (in the given unit and rate type), or the oil rate times the emission factor, and nothing elsewhere; it uses no energy, and oil rates are available as storage rates. Duplicate emission names and units that do not fit are refused.",
     IC, "every set of emissions, units, rate types, conditions, oil rates and factors",
     "Tests use constants and one unit at a time.",
     [D + "infrastructure/emitters/venting_emitter.py"], [("emission rates", D + "infrastructure/emitters/venting_emitter.py")],
     "property-based testing of whole models against a reference evaluation", "Random whole models.")
prop("P12", "Direct and tabulated consumers use the documented energy",
     "A direct or tabulated consumer uses, in each time step, the given load or fuel rate or the value interpolated in its table, divided by one minus the power loss factor, and zero where its conditions do not hold or no model applies; rates given per calendar day are converted by the regularity. A step whose variables lie outside the table is invalid and adds nothing to any total, and tables that do not match the given variables are refused.",
     IC, "every load, table, condition, power loss, rate type, regularity and dated sequence of models",
     "Tests evaluate single models with hand-written points.",
     [IN + "legacy_consumer/tabulated/tabular_consumer_function.py", IN + "legacy_consumer/tabulated/tabular_energy_function.py", IN + "legacy_consumer/consumer_function/direct_consumer_function.py"],
     [("evaluate", IN + "legacy_consumer/tabulated/tabular_consumer_function.py")],
     "property-based testing of whole models against a reference evaluation", "Random whole models; two-variable tables are planes so that any linear interpolation gives one answer.")
prop("P13", "Consumer systems use the first operational setting that works",
     "In each time step a pump or compressor system uses the first of its operational settings, in the order given, for which every consumer can handle its rate at its pressures, and the last one if there is none; with cross-over each consumer keeps at most its maximum rate and passes exactly the excess to its receiver, so the total rate is kept. The energy of the system is the sum over its consumers at those rates, zero where its condition does not hold, and incomplete settings are refused.",
     IC, "every number of consumers, settings, cross-over graph, rate or rate-fraction, pressure, condition and power loss factor in each time step",
     "Tests run a few systems with fixed settings; which setting wins depends on the whole combination of rates, pressures and cross-over.",
     [IN + "legacy_consumer/system/consumer_function.py", IN + "legacy_consumer/system/utils.py"],
     [("evaluate operational settings", IN + "legacy_consumer/system/consumer_function.py"), ("cross-over", IN + "legacy_consumer/system/utils.py")],
     "property-based testing of whole models against a reference evaluation of every setting", "Random systems of 2-3 pumps or tabulated compressors; steps within 1e-7 of a limit are not judged.")
prop("P14", "Tabulated compressors interpolate, recirculate and choke as documented",
     "Inside the given data the energy is interpolated linearly (and equals the table at its points); outside it the rate is raised, the discharge pressure raised or the suction pressure lowered as little as needed to reach the data, and a point which can not be reached that way is invalid. Variables held constant limit in the direction they can not be adjusted, the maximum rate can always be handled, a zero rate uses nothing, and unusable data are refused with a clear error.",
     IC, "every table of one to three variables, in any row order, and every operating point and power loss factor",
     "Tests use three or four tables with a few operating points; the geometry (hull, projections) depends on the whole point set.",
     [D + "process/compressor/core/sampled/compressor_model_sampled.py", D + "process/compressor/core/sampled/compressor_model_sampled_3d.py"],
     [("evaluate", D + "process/compressor/core/sampled/compressor_model_sampled.py"), ("projections", D + "process/compressor/core/sampled/convex_hull_common.py")],
     "property-based testing of whole models against a geometric reference", "Random planar data in 1-3 variables; with three variables the reference is exact only inside and on grids and gives a lower bound elsewhere.")
CH = D + "process/value_objects/chart/"
prop("P16", "Charts give the documented limits, recirculation, choking and efficiency",
     "Whatever the order of its curves and points, a chart's minimum and maximum rate, head and speed are those of its (control margin adjusted) curves, interpolated linearly between points and between the end points of the curves. A point is raised to the minimum flow line and, with choking, to the minimum head, and is outside capacity exactly if it then lies above the maximum head or rate; the efficiency is the distance weighted mean of the nearest curve above and below and does not depend on the unit of the chart.",
     IC, "every well-formed set of chart curves, control margin and operating point",
     "Tests use two or three charts with a few operating points each.",
     [CH + "base.py", CH + "chart.py", CH + "compressor/compressor_chart.py"],
     [("limits and efficiency", CH + "base.py"), ("recirculation and capacity", CH + "compressor/compressor_chart.py")],
     "property-based testing: random fan-law charts against a reference implementation", "Random charts of 1-4 curves with 2-5 points; operating points within 1e-7 of a border are not judged there.")
prop("P17", "Pumps use the power of their operating point and keep mass balance",
     "The power of a pump is density times rate times head over efficiency at its operating point, after recirculating up to minimum flow and lifting to the minimum head of its chart (choking the surplus); it is valid exactly if that point lies inside the capacity of the chart, a margin in head included. A pump simulated as a process unit keeps the mass of its stream, delivers the required discharge pressure, and gives the same power.",
     IC, "every pump chart, unit of the chart, head margin, density, rate and pressure",
     "Tests use one chart with constant density and a few rates.",
     [D + "process/pump/pump.py", "src/libecalc/process/pump/pump.py", "src/libecalc/process/pump/pump_process_simulation.py"],
     [("evaluate", D + "process/pump/pump.py"), ("process pump", "src/libecalc/process/pump/pump.py")],
     "property-based testing: random charts against a reference implementation, unit and whole model", "Random fan-law charts; operating points within 1e-7 of a limit are not judged.")
W = "src/ecalc_neqsim_wrapper/"
PS = "src/libecalc/process/process_solver/"
prop("P19", "The process solver meets targets inside every chart, or fails for a reason",
     "For a section of compressors on a shaft, and for several sections in series on one or separate shafts, a solution runs every compressor inside its chart and gives the target pressure after each section: with the speed alone when some speed gives it, otherwise at the lowest possible speed with the selected pressure control (choke upstream or downstream, recirculation of all or each) and no negative setting. If the target is reachable a solution is found; if it is not, the failure names the direction or the compressor which is the reason. The answer does not depend on problems solved before.",
     IC, "every train of charts, composition, rate, pressure target and pressure control; every sequence of problems solved by the same solver",
     "Tests need the NeqSim library and hold a few trains with targets in the middle of the range.",
     [PS + "pipeline_section_solver.py", PS + "multi_pressure_solver.py", PS + "multi_shaft_solver.py", PS + "section_assembly.py", PS + "pressure_control/upstream_choke.py", PS + "finders/shaft_speed_finder.py"],
     [("PipelineSectionSolver", PS + "pipeline_section_solver.py"), ("MultiPressureSolver", PS + "multi_pressure_solver.py"), ("speed search", PS + "finders/shaft_speed_finder.py")],
     "property-based testing: reference simulation of trains, metamorphic (fresh solver)", "Random trains with an explicit equation of state behind the NeqSim gateway; targets within about 1 % of the ends of the reachable range are not judged; one listed finding (wet recirculation).")
SD = "src/libecalc/process/stream_distribution/"
prop("P20", "Distributing a stream loses nothing and overfills nobody who can pass on",
     "Splitting a stream over trains gives each its fraction plus what is passed on to it, less what it passes on; the rates add up to the inlet, the condition and composition are kept, and the order of declaration does not matter; overflow in a circle is refused. Of several settings the first is used that every train can handle, else the last. The rate a train is said to handle can be handled, and a larger one can not.",
     IC, "every set of trains, capacities, fractions, overflow graphs, settings, rates and target pressures",
     "Tests use two or three trains with one overflow and stand-ins for the capacity.",
     [SD + "common_stream_distribution.py", SD + "priorities_stream_distribution.py", PS + "feasibility_solver.py"],
     [("CommonStreamDistribution", SD + "common_stream_distribution.py"), ("find_first_valid", SD + "priorities_stream_distribution.py"), ("FeasibilitySolver", PS + "feasibility_solver.py")],
     "property-based testing: reference distribution over random graphs; reference train capacity", "Random overflow graphs with given capacities, and capacities of random trains against the reference simulation; no case within 2 % of the highest pressure.")
T = "src/libecalc/domain/process/compressor/core/train/"
prop("P21", "A compressor train runs where its stages, controls and targets say",
     "For every rate and pressures a train on one shaft uses the lowest speed which reaches the discharge pressure, else the configured pressure control at its slowest possible speed; every stage's inlet and outlet condition, head, efficiency, recirculation and power follow from its chart, margins, pressure drops and liquid removal. Streams in and out between stages keep their rate and fluid whatever their order, and with an intermediate pressure the part needing most speed sets it. What can not be run, or exceeds the maximum power, is reported with the reason and never as valid; the maximum rate reported is feasible, and a larger one is not.",
     IC, "every train of one to three stages, chart, margin, unit, fluid, pressure control, limit, and sequence of rates and pressures",
     "Nearly all tests of trains need the NeqSim library and a few recorded charts; the answer depends on the combination of stages, control and limits.",
     [T + "compressor_train_common_shaft.py", T + "base.py", T + "utils/common.py"],
     [("CompressorTrainCommonShaft", T + "compressor_train_common_shaft.py"), ("CompressorTrainModel", T + "base.py")],
     "property-based testing: random model files against a reference simulation of the train", "Model files with random trains run end to end with an explicit equation of state behind the NeqSim gateway; a reference finds speed, control and maximum rate by bisection; points within 0.4 % of a limit are not judged.")
prop("P22", "Simplified compressor trains follow the unified chart and their design points",
     "A simplified train splits the total pressure ratio equally over its stages, uses no more stages of unknown number than the largest ratio needs, and each stage runs on the unified chart scaled by its design point, with recirculation, choking, capacity flags, power and maximum rate following from that. A chart made from the input contains every point of that input and is not larger than needed; steps without flow cost nothing, whatever their pressures.",
     IC, "every simplified train, known or unknown stages, charts from design points or input, units, adjustments, limits, and sequence of rates and pressures",
     "Tests use a few recorded charts and sequences, most of them with the NeqSim library; whether a chart covers its input depends on the whole set of points.",
     [T + "simplified_train/simplified_train.py", "src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py", "src/libecalc/presentation/yaml/mappers/simplified_train_mapping_utils.py"],
     [("CompressorTrainSimplified", T + "simplified_train/simplified_train.py"), ("CompressorChartCreator", "src/libecalc/domain/process/value_objects/chart/compressor/chart_creator.py")],
     "property-based testing: random model files against a reference model of the unified chart", "Model files with random simplified trains run end to end with an explicit equation of state; charts are also made directly from random points. Heads are judged to 0.4 %, maximum rates to 1 % with a head known to 2 %, points near the borders of a chart are not judged.")
prop("P23", "The fluid service answers as without caches and never keeps a failed flash",
     "Whatever the calls made before and the size of the caches (0 included), each flash, standard density and rate conversion gives what a fresh calculation for that composition, equation of state, pressure, temperature or enthalpy gives. Failed or non-converged flashes are reported as errors and never reused, caches stay within their size, drop the least recently used entry first, and are emptied when the library process is closed.",
     ["inputs", "histories"], "every sequence of calls with nearly equal arguments and compositions, every cache size, faults of the library at any call",
     "Tests need the NeqSim library and flash a few fluids once; a stale or mixed-up cache entry needs a history of nearly equal calls.",
     [W + "cache_service.py", W + "fluid_service.py", W + "thermo.py"],
     [("LRUCache, CacheService", W + "cache_service.py"), ("NeqSimFluidService", W + "fluid_service.py")],
     "property-based testing: call histories against a cache-free model, fault injection", "The Java library is replaced by an explicit equation of state behind the gateway; everything above it is real.")
PU = PR + "process_units/" if PR.endswith("libecalc/process/") else "src/libecalc/process/process_units/"
prop("P18", "Process units keep mass, components and energy",
     "In every chain of process units, each component's flow, the total mass and the enthalpy are what the units put in or take out: mixing keeps component flows and enthalpy at the lowest pressure in any order, splitting keeps the state, removing liquid leaves exactly the gas, pressure drops are isothermal, and a recirculation loop changes only what is between its ends. A compressor delivers the pressure of its chart's head and efficiency at its actual rate and speed and adds the corresponding work; impossible operation (surge, stonewall, liquid, more pressure drop or offtake than available) is a typed error of that unit.",
     IC, "every chain of units, composition, equation of state, condition, rate and chart, speeds on and between curves",
     "Tests need the NeqSim library and use single units with one or two streams.",
     [PU + "mixer.py", PU + "splitter.py", PU + "choke.py", PU + "liquid_remover.py", PU + "compressor.py", "src/libecalc/process/fluid_stream/stream_mixer.py"],
     [("StreamMixer", "src/libecalc/process/fluid_stream/stream_mixer.py"), ("Compressor", PU + "compressor.py"), ("outlet pressure", "src/libecalc/domain/process/compressor/core/train/utils/common.py")],
     "property-based testing: random unit chains against balance equations and a reference compressor", "Random chains with an explicit equation of state behind the NeqSim gateway; the outlet pressure of a compressor is judged to 0.15 %.")
EXP = "src/libecalc/presentation/exporter/"
TU = "src/libecalc/domain/infrastructure/energy_components/turbine/turbine.py"
CB = "src/libecalc/domain/process/compressor/core/base.py"
prop("P15", "A turbine burns what its load and efficiency curve require",
     "For every power of the driven compressor the turbine load is that power after the power adjustments of compressor and turbine, and the fuel energy is the load divided by the efficiency interpolated in the turbine's curve at that load; no power gives no load and no fuel. A step is invalid exactly when the compressor is, or when the load is above the highest load of the curve, and the maximum rate of a compressor with turbine is the largest one the turbine can drive. Curves that cannot be interpolated are refused when the model is read.",
     IC, "every efficiency curve, heating value, adjustment and power, every dated change of the driven model",
     "Tests use one curve with a handful of loads and adjustments of 0 and 1; interpolation, limits and adjustments interact for all others.",
     [TU, CB], [("Turbine.evaluate", TU), ("CompressorWithTurbineModel", CB)],
     "property-based testing: reference turbine on random curves and loads", "Random curves, adjustments and loads, through the compressor model and whole models, against the closed formula.")
prop("P25", "The prognosis exports hold exactly the quantities of their categories",
     "In the long and short term prognosis tables of every installation, each column in each reported period is the volume, mass, energy or peak of exactly the consumers, generators, fuels, emissions and emitters whose (possibly dated) categories the column stands for, in the column's unit and rounded to six digits. Columns of another installation category are left out, rows are the reported periods, and sums over the rows do not depend on the reporting frequency and agree with the totals of the model.",
     IC, "every model: categories that change with time, fuels, emitters, cable loss, peak usage, regularity, uneven time steps, reporting frequency",
     "The tests check a few columns of a few models with yearly steps; each of about seventy columns selects over all combinations of categories and dates.",
     [EXP + "queries.py", EXP + "infrastructure.py", EXP + "configs/configs.py", EXP + "formatters/formatter.py"],
     [("queries", EXP + "queries.py"), ("InstallationExportable", EXP + "infrastructure.py"), ("LTPConfig, STPConfig", EXP + "configs/configs.py")],
     "property-based testing: random whole models against a reference table", "Every column of both tables is computed anew from the generated model and compared after rounding; consumers are direct, tabulated and one form of fuel driven compressor.")
RUN = "src/ecalc_cli/commands/run.py"
prop("P24", "Written results are the calculated results",
     "Running a model writes exactly the requested files, named after the model or the given prefix, in the chosen folder, replacing older content completely and touching nothing else. Every component, quantity, unit, time step and validity flag in the CSV and JSON files equals what the calculation gives at the chosen reporting frequency and date format, up to the documented rounding; rounding never changes a whole number, a sign or an already rounded number. The totals at each reported date are those of the model, whatever the frequency.",
     ["inputs", "configurations"], "every model, output frequency, date format, prefix, folder and combination of the output options; every number and precision",
     "The tests compare snapshots of a few models with one set of options; combinations of options and uneven time steps are not run.",
     [RUN, "src/ecalc_cli/io/output.py", "src/libecalc/infrastructure/file_utils.py", "src/libecalc/common/math/numbers.py", "src/libecalc/presentation/json_result/result/results.py"],
     [("run", RUN), ("get_result_output", "src/libecalc/infrastructure/file_utils.py"), ("Numbers", "src/libecalc/common/math/numbers.py")],
     "property-based testing: command line runs of random models against the calculation and a reference", "Random models and options through the command line program in a scratch directory; files are read back and compared with the calculation, and totals with the reference evaluation of the model.")
prop("P26", "Emission intensity is the accumulated CO2 per exported hydrocarbon",
     "At the end of every reported period the intensity is all CO2 emitted so far divided by all hydrocarbon exported so far, in kg per Sm3 and per barrel of oil equivalent, and with yearly reporting also that of each year alone. Where nothing has been exported it has no value, and a model without CO2 has no intensity; either way the run succeeds. It is the same for every reporting frequency, spelling of CO2, and source of the emission.",
     IC, "every model, emission source, regularity, export profile, uneven time steps and reporting frequency",
     "Tests use constant rates on two or three periods with the calculation in isolation.",
     ["src/ecalc_cli/emission_intensity.py", "src/libecalc/domain/emission/emission_intensity.py"],
     [("EmissionIntensityCalculator", "src/ecalc_cli/emission_intensity.py"), ("EmissionIntensity", "src/libecalc/domain/emission/emission_intensity.py")],
     "property-based testing: command line runs of random models against a reference", "Intensity files written by the command line program for random models, against the quotient of the sums computed from the model.")
prop("P30", "Results do not depend on order, splitting, horizon or unrelated parts",
     "Declaring fuels, facilities, models, installations, consumers, table columns or rows in another order changes no result. Dividing a time step into several with the same input, ending the model earlier, or starting it at a later date changes no rate, validity or detail of the remaining steps, and accumulated quantities only by what is left out. Adding further installations that use the same fuels and equipment models leaves every other result as it was, equal components get equal results, and the asset's totals grow accordingly.",
     ["inputs", "configurations", "histories"], "every model of direct, tabulated and system consumers, pumps, compressor trains, generators, emitters; every permutation, split, cut and addition",
     "Tests compare fixed models with recorded numbers; that equipment shared by consumers and steps carries nothing over shows only by comparing variants of one model.",
     [Y + "model.py" if Y.endswith("yaml/") else "src/libecalc/presentation/yaml/model.py", "src/libecalc/presentation/yaml/mappers/component_mapper.py", "src/libecalc/presentation/json_result/mapper.py"],
     [("YamlModel", "src/libecalc/presentation/yaml/model.py"), ("get_asset_result", "src/libecalc/presentation/json_result/mapper.py")],
     "property-based testing: metamorphic relations between variants of random whole models", "Models generated for the other properties are changed in ways that must not matter, and every reported series is compared by name.")

MP = "src/libecalc/presentation/yaml/mappers/"
prop("P32", "A process simulation is what its model describes, or it is refused",
     "Every pipeline of a process simulation holds the described units in order, cut into one section per constraint, with anti-surge loops, chokes, inlet and outlet where the chosen strategies put them, all compressors on one shaft, one connection between neighbours, and the target pressure on the last unit of its section. Streams, compositions, pressure drops, temperatures, offtakes, fractions, overflows, charts and events carry the described value in every period. Unknown or repeated names, uncovered compressors, incompatible strategies and missing constraints are refused with a validation error.",
     IC, "every list of units, constraints, strategies, references, streams and events, in every period; every fault of the listed kinds",
     "Tests map a few pipelines of two or three compressors; sections, loops and references combine freely and many refusals have no test.",
     [MP + "process_simulation_mapper.py", MP + "process/process_partitioner.py", MP + "process/build_sections.py", PR + "process_solver/section_assembly.py", PR + "process_pipeline/process_pipeline.py", MP + "ecalc_event_mapper.py", MP + "fluid_mapper.py"],
     [("ProcessSimulationMapper", MP + "process_simulation_mapper.py"), ("ProcessPartitioner", MP + "process/process_partitioner.py"), ("assemble_process_section", PR + "process_solver/section_assembly.py")],
     "property-based testing: random pipelines against a reference assembly; injected faults", "Random models with pipelines, simulations and events are read and compared part by part with an independent assembly; one sub-check breaks the model and requires a validation error.")

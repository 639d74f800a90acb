ORACLE.update({
"P01": "Series are generated on irregular days with gaps and zero regularity. The oracle spreads every original step over its days and integrates them exactly; rates, averages, cumulatives, values in force and validity of the resampled steps follow from that.",
"P02": "Conversions, sums, cuts, joins and index operations on generated series against a per-step model `(period, value, regularity)`; whole models with every form of REGULARITY (0 and 1 included, dated, from a time series) compared with the same model at regularity 1.",
"P03": "Every ordered pair of units: a hand-written table of physical factors and offsets decides which pairs are compatible and what they give; round trips and composition over all triples.",
"P04": "A grammar generates trees of all documented operators, printed with and without redundant blanks and parentheses; an evaluator written from the documentation gives the value per time step. Mutated token lists (dropped, doubled, swapped tokens, malformed numbers) are judged by an independent parser: accepted ones must evaluate alike, all others must be refused with the expression error. Powers of powers are printed without parentheses and evaluated from the right.",
"P05": "Random sets of CSV files (type, interpolation, extrapolation, date format, row order, column position, influence) in a random model; the time vector and every value come from an independent interpolator. Files with one injected fault must be refused.",
"P06": "Random definition graphs, plain and dated, declared in random order, inside whole models; a recursive resolver gives the values. Injected cycles and unknown references must be refused with a validation error.",
"P07": "Dated definitions are compared with the set of days on which each is in force; whole models with several dated settings against the reference evaluation; disorder and definitions outside the period must be refused.",
"P08": "harness/assetgen.py generates whole models (installations, fuels, generator sets, consumers, emitters, dated settings), harness/assetcheck.py evaluates the same specification by the documented formulas. This check compares generator power, fuel, margin, cable loss, validity.",
"P09": "Same generator; emissions are fuel times the factor in force, from the specification, and also from the reported fuel. A second sub-check injects duplicate and unknown fuels.",
"P10": "Same generator; totals from the specification and, independently, from the reported components (sums, running sums, validity, one occurrence of each component).",
"P11": "Same generator with venting emitters in all forms (direct, oil volume, units, rate types, conditions); faults must be refused.",
"P12": "Same generator with direct and tabulated consumers; two-variable tables are planes so that every linear interpolation agrees. Headers and variables that differ must be refused.",
"P13": "Random systems of pumps, tabulated compressors and compressor trains; the reference evaluates every setting, applies cross-over as documented and picks the first workable one. Incomplete settings must be refused.",
"P14": "Tables of one to three variables; a geometric reference (half-planes of the hull, lower faces, projections one variable at a time) gives the energy and which points can be reached; maximum rates are probed on both sides.",
"P15": "Turbine curves, loads, adjustments: interpolation and limits by the closed formula, through the compressor-with-turbine model and through whole models; the maximum rate is probed on both sides by running it. Curves are also listed out of order; then only the steps inside the curve and the validity beyond it are judged.",
"P16": "Charts made by fan laws with random distortion, shuffled, in all units and with control margins; a reference interpolates curves and end points, raises to the minimum flow line and finds capacity and efficiency.",
"P17": "The same charts as pumps in whole models and as process units; reference operating point, power, validity, mass balance. The reported head, rate and pressures are those required, and zero head and rate when the pump does not run.",
"P18": "Random chains of process units on explicit fluids; balances of components, mass and enthalpy over every unit, a reference compressor (polytropic head solved by bisection), and the kind of error for impossible operation.",
"P19": "Random sections (one to three, on one shaft) with every pressure control and anti-surge arrangement, built the way the mapper does it. A returned solution is replayed unit by unit with the reference compressor and must meet its target inside the charts at the slowest speed; a failure must be one the reference cannot solve either. Individual recirculation to equal pressure ratios must succeed wherever the reference, stage by stage, reaches every ratio with a clear margin; a sub-check with trains of up to four equal compressors asks for deep reductions. Cases that were rare and failed before a repair are kept in `harness/corpus` and always run.",
"P20": "Random trains behind overflow, common-stream and priority distributions; mass kept, each train within its own maximum rate found by probing, the feasibility solver's answer probed on both sides. Up to six items, several overflowing into one, and problems whose largest feasible rate is up to forty times the smallest.",
"P21": "Model files with trains of one to three stages, all controls, streams in and out, intermediate pressures, maximum power; a reference finds the slowest speed, the pressure control's setting and the maximum rate by bisection, and every reported number of the stages is recomputed from it. Two sub-checks are about models that must not run: more taken out ahead of a stage than has come in (refused or invalid), and streams, stages and rates that do not match (a stream of two stages, unknown or missing streams, too few or many rates, an intermediate pressure ahead of the first stage: refused with a validation error, after the same model ran without the fault). Just below a maximum rate the point must be feasible; three rare failing cases of the past are kept and always run.",
"P22": "Model files with simplified trains (known and unknown number of stages, charts from design points and from the input), against a reference of the published unified chart; charts made from random points must contain every point and touch at least one. Points clearly outside the chart are judged as well: the failure reported must be the one of the rate or head that is exceeded.",
"P23": "Histories of calls with nearly equal arguments, shared target enthalpies and compositions, small caches, faults injected in the library; every answer is compared with a fresh calculation, cache contents with a reference LRU, and the state after the library process is closed. The command line program is run with generated cache sizes, zero included: they are used, and the results are those of the default run.",
"P24": "The command line program runs random models in a scratch directory with random options; the files written, and only those, are parsed back and compared with the calculation and, for totals at every date, with the reference evaluation. Rounding is checked against decimal arithmetic.",
"P25": "All columns of both prognosis tables are recomputed from the specification of the random model by their category, unit and period.",
"P26": "Intensity files of the command line program for random models against quotients of running sums from the specification.",
"P30": "Two variants of a random model that must agree (permuted, split steps, cut at the end, later start, additional installations) are run and every reported series is compared by name.",
"P32": "Random pipelines, constraints, strategies, streams and events are read with the real mapper and compared part by part with an independent assembly; a second sub-check breaks one thing and requires a validation error. Pipelines have up to four sections with margins in both units, up to four of them with chains of overflows.",
})

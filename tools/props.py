"""Source of /verif/properties.jsonl (run tools/gen.py to regenerate it and MANIFEST.json)."""
P = []

def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        a["observe_at"] = observe
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier={"over": over, "text": text}, why_tests_cant=why, anchors=a))

prop("P01", "Water is conserved at every junction, store and across the whole network",
     "In every timestep and scenario the reported flows are a real routing of water: there are non-negative amounts on the connections such that what enters each junction equals what leaves it, after any declared unit conversion between domains. The change in stored volume over the step equals the net inflow times the step length, so nothing appears except at inputs and nothing vanishes except at outputs.",
     ["inputs", "configurations", "histories"],
     "every network topology, parameterisation, timestep length, scenario set, solver and solver option",
     "The tests assert flows of a few fixed small networks; they never re-derive the balance on an arbitrary graph, with several solvers, long histories or mixed domains.",
     ["pywr/solvers/cython_glpk.pyx", "pywr/solvers/cython_lpsolve.pyx", "pywr/_core.pyx"],
     [("route/edge columns and commit of flows", "pywr/solvers/cython_glpk.pyx: CythonGLPKSolver._solve_scenario, CythonGLPKEdgeSolver._solve_scenario"),
      ("lpsolve flow commit", "pywr/solvers/cython_lpsolve.pyx: CythonLPSolveSolver._solve_scenario"),
      ("storage update", "pywr/_core.pyx: Storage.after")],
     [("flow", "flow through each node per scenario"), ("volume", "volume of each storage per scenario")])

prop("P02", "Flow limits, storage limits and aggregate limits are never exceeded",
     "In every timestep and scenario each node's flow lies between its current minimum and maximum flow, each storage's volume stays between its current minimum and maximum volume, and a virtual store never releases more than it holds above its minimum. Limits declared over a group of nodes hold for the weighted sum of their flows, and declared flow ratios between group members hold exactly.",
     ["inputs", "configurations", "histories"],
     "every network, limit (constant or time/scenario varying), group of nodes, ratio, timestep and solver setting",
     "Tests check limits on single hand-made examples; combinations of binding limits, shared routes, changing factors and zero factors over many steps are not sampled.",
     ["pywr/solvers/cython_glpk.pyx", "pywr/solvers/cython_lpsolve.pyx", "pywr/_core.pyx"],
     [("node, storage, virtual-storage and aggregated rows", "pywr/solvers/cython_glpk.pyx: setup and _update_*_bounds"),
      ("limit accessors", "pywr/_core.pyx: Node.get_min_flow/get_max_flow, AggregatedNode")])

prop("P03", "Each timestep's allocation is the least-cost feasible allocation",
     "The flows chosen in each timestep and scenario minimise the total cost (sum over nodes of flow times the node's current cost, with released and refilled storage valued at the storage's cost) among all allocations that satisfy conservation and every current limit. Consequently a higher-priority demand is never left short while water it could use goes to a lower-priority one.",
     ["inputs", "configurations", "histories"],
     "every network, set of costs (including negative, equal and time-varying ones) and current state, for every solver",
     "Tests check the chosen allocation on hand-solved examples only; optimality over arbitrary networks and costs needs an independent optimum for every step.",
     ["pywr/solvers/cython_glpk.pyx", "pywr/solvers/cython_lpsolve.pyx", "pywr/_core.pyx"],
     [("objective coefficients", "pywr/solvers/cython_glpk.pyx: _update_route_costs/_solve_scenario"),
      ("cost accessors", "pywr/_core.pyx: Node.get_cost, StorageInput/StorageOutput.get_cost"),
      ("route discovery", "pywr/_model.pyx: Model.find_all_routes")])

prop("P04", "Solvers and solver options are interchangeable",
     "Running the same model with any available solver, or with any documented performance option of a solver whose preconditions the model meets, yields the same objective value in every timestep and the same flows and volumes wherever the least-cost allocation is unique. A solver refuses a model using a feature it does not support instead of ignoring the feature.",
     ["configurations", "inputs", "histories"],
     "every model, pairs of solvers and option settings, including repeated runs and infeasible steps",
     "The suite is run once per solver against the same fixed expectations; random models, varying bounds and repeated runs under every option are never compared with each other.",
     ["pywr/solvers/__init__.py", "pywr/solvers/cython_glpk.pyx", "pywr/solvers/cython_lpsolve.pyx"],
     [("solver registry and option parsing", "pywr/solvers/__init__.py"),
      ("use_unsafe_api, set_fixed_*_once, save_routes_flows, retry_solve", "pywr/solvers/cython_glpk.pyx: GLPKSolver"),
      ("feature compatibility check", "pywr/_model.pyx: Model.setup / solvers: settings")])

prop("P05", "Storage state follows its flows from its declared initial state",
     "Every run starts each storage at its declared initial volume or fraction of its maximum volume, and after each timestep its volume is the previous volume plus net inflow times the step length. Its reported proportional fullness is volume over the current maximum, and group storages report exactly the totals of their members.",
     ["inputs", "histories", "configurations"],
     "every storage configuration (absolute/proportional initial volumes, varying maximum volume, several inputs/outputs), timestep length and scenario",
     "Tests check initial volume and a handful of steps for constant limits; drift, varying maximum volume and combinations with groups over long histories are not covered.",
     ["pywr/_core.pyx", "pywr/nodes.py", "pywr/domains/groundwater.py"],
     [("reset and after of Storage and AggregatedStorage", "pywr/_core.pyx: Storage._reset_storage_only, Storage.after, AggregatedStorage.after"),
      ("initial volume evaluation", "pywr/_core.pyx: Storage.get_initial_volume / get_initial_pc"),
      ("aquifer level-volume relation", "pywr/domains/groundwater.py: KeatingAquifer")])

prop("P06", "Virtual storages account exactly for their member flows and reset on schedule",
     "A virtual storage falls by the factor-weighted flow of its member nodes times the step length in every timestep in which it is active, and is unchanged while inactive. Annual, seasonal and monthly variants are refilled exactly at the first timestep on or after their reset date (once per period, to the configured level), and a rolling variant gives water back exactly when a use leaves its window.",
     ["inputs", "histories", "configurations"],
     "every member set and factors, reset day/month/interval, season, window, timestep length and start date",
     "Tests use a few fixed dates with daily steps; resets falling between steps, leap days, multi-day steps, several resets per run and reruns are not explored.",
     ["pywr/_core.pyx", "pywr/nodes.py"],
     [("VirtualStorage.after, RollingVirtualStorage", "pywr/_core.pyx"),
      ("AnnualVirtualStorage, SeasonalVirtualStorage, MonthlyVirtualStorage before()", "pywr/nodes.py")])

prop("P07", "The simulation calendar is complete, ordered and correctly labelled",
     "A run visits every timestep from the start date while the step's start is not after the end date, each exactly once and in order, with consecutive steps abutting and the number of days equal to the real length of the step. Index, date, day-of-year, month, year and calendar-derived properties exposed for each step agree with the civil calendar, and the number of steps announced equals the number run.",
     ["inputs", "configurations"],
     "every start, end and step (integer days, pandas offsets and frequency strings, sub-daily), with leap years and month/year boundaries, and after re-starts at another index",
     "Tests sample a few ranges; leap-year, month-end and re-start combinations over all supported step kinds are not enumerated.",
     ["pywr/timestepper.py", "pywr/_core.pyx", "pywr/_model.pyx"],
     [("period construction and iteration", "pywr/timestepper.py: Timestepper.setup/__next__/reset"),
      ("Timestep properties", "pywr/_core.pyx: Timestep"),
      ("run loop", "pywr/_model.pyx: Model.run/step")])

prop("P08", "Re-running a model reproduces the same results; nothing leaks between runs",
     "Running a model, then resetting or running it again any number of times (including after stepping part-way, or after an earlier failed or interrupted run) gives exactly the results a freshly built model gives. Every component's state starts afresh at each run.",
     ["histories", "configurations", "fault_sequences"],
     "every sequence of setup, reset, step, partial run, failed run and run, on models mixing every stateful component",
     "Tests rerun only a few models and compare selected outputs; residual state in rarely-used stateful components after partial or failed runs is not sampled.",
     ["pywr/_model.pyx", "pywr/_core.pyx", "pywr/nodes.py", "pywr/parameters/_parameters.pyx", "pywr/parameters/_thresholds.pyx", "pywr/recorders/_recorders.pyx", "pywr/recorders/events.py"],
     [("Model.reset / component reset", "pywr/_model.pyx: Model.reset"),
      ("stateful components", "reset() of VirtualStorage family, DelayNode, FlowDelayParameter, thresholds with ratchet, licences, recorders")])

prop("P09", "Scenarios are independent and labelled correctly",
     "The result of any scenario combination within a multi-scenario run equals the result of a single run using that combination's data, whatever other scenarios are simulated beside it. The set of combinations simulated is the full product, the requested slices of it, or exactly the user-supplied combinations, and results are labelled with the matching scenario names and members.",
     ["inputs", "configurations"],
     "every number and size of scenarios, slices, user combinations and scenario-varying component",
     "Tests use one or two scenarios with fixed sizes and look at selected values; cross-talk and mislabelling under slices and user combinations with several data components are not compared with single runs.",
     ["pywr/_core.pyx", "pywr/parameters/_parameters.pyx", "pywr/recorders/_recorders.pyx"],
     [("ScenarioCollection combinations, multiindex, ScenarioIndex", "pywr/_core.pyx"),
      ("scenario-indexed parameters", "pywr/parameters/_parameters.pyx: ConstantScenarioParameter, ArrayIndexedScenarioParameter, DataFrameParameter, TablesArrayParameter"),
      ("per-scenario problem update", "pywr/solvers: solve loop")])

prop("P10", "Every parameter is evaluated once per step, after everything it depends on",
     "In each timestep every component a parameter refers to is evaluated before it, exactly once per scenario, so all consumers of a parameter (nodes, other parameters, recorders and the solver) see the same current value. Circular dependencies are reported as an error, and results never depend on the order in which components were declared.",
     ["inputs", "configurations", "programs"],
     "every dependency graph of parameters and recorders and every declaration order",
     "Tests have a few chains in one declaration order; the evaluation order of arbitrary graphs depends on names and insertion order and is not permuted.",
     ["pywr/_model.pyx", "pywr/_component.pyx", "pywr/parameters/_parameters.pyx", "pywr/parameters/_thresholds.pyx", "pywr/parameters/_control_curves.pyx"],
     [("component tree and topological order", "pywr/_model.pyx: component_tree, component_tree_flattened, before"),
      ("children/parents registration", "pywr/_component.pyx"),
      ("calc_values / get_value cache", "pywr/parameters/_parameters.pyx: Parameter")])

prop("P11", "Time-profile parameters follow the calendar",
     "Daily, weekly, monthly, harmonic, drawdown, radial-basis and discounting profiles return, for every timestep, the profile value belonging to that date: the same calendar day or month gives the same value in leap and non-leap years, interpolation is between the correct neighbouring months, and values outside the supplied profile are never used.",
     ["inputs", "configurations"],
     "every date in leap and common years, every profile, interpolation mode, reset date and base year, and every scenario row",
     "Tests check a year or two for one profile each; reset dates, interpolation at month ends, leap days and per-scenario profiles are sampled sparsely.",
     ["pywr/parameters/_parameters.pyx"],
     [("DailyProfileParameter, WeeklyProfileParameter, MonthlyProfileParameter and scenario variants", "pywr/parameters/_parameters.pyx"),
      ("UniformDrawdownProfileParameter, RbfProfileParameter, AnnualHarmonicSeriesParameter, DiscountFactorParameter", "pywr/parameters/_parameters.pyx")])

prop("P12", "External data is aligned to the simulation calendar and never silently wrong",
     "A time series, table or array supplied to a model is used with the value that belongs to the current date and scenario, after the declared up- or down-sampling. Data that leaves a timestep of the run without a value (because it does not cover the run or has a gap), has the wrong shape for its scenario, or fails its declared checksum is rejected rather than used.",
     ["inputs", "configurations", "fault_sequences"],
     "every data frequency, offset, length, dtype, file format, scenario subset and corrupted or incomplete input",
     "Tests use a few aligned files; misaligned, partial, mixed-frequency and scenario-sliced data are not enumerated.",
     ["pywr/dataframe_tools.py", "pywr/hashes.py", "pywr/h5tools.py", "pywr/parameters/_parameters.pyx"],
     [("align_and_resample_dataframe, read_dataframe, load_dataframe", "pywr/dataframe_tools.py"),
      ("DataFrameParameter, TablesArrayParameter, ArrayIndexed* parameters", "pywr/parameters/_parameters.pyx"),
      ("checksum verification", "pywr/hashes.py")])

prop("P13", "Arithmetic, aggregating and interpolating parameters equal their definitions",
     "In every timestep and scenario each arithmetic, aggregating, indexing, polynomial, piecewise or interpolating parameter equals its documented function of the current values of its inputs, and an indexing or scenario-selecting parameter picks exactly the designated element. Values outside an interpolation's or an array's declared range are handled as documented, never by reading unrelated data.",
     ["inputs", "configurations"],
     "every number and value of inputs (including negative, zero and equal values), function, nesting depth, index and scenario",
     "Tests check a few operand values per class; arbitrary nestings, boundary values and per-scenario differences are not covered.",
     ["pywr/parameters/_parameters.pyx", "pywr/parameters/_polynomial.pyx", "pywr/parameters/parameters.py"],
     [("AggregatedParameter, AggregatedIndexParameter, DivisionParameter, Min/Max/Negative/Offset", "pywr/parameters/_parameters.pyx"),
      ("IndexedArrayParameter, PiecewiseIntegralParameter", "pywr/parameters/_parameters.pyx"),
      ("Interpolated*, ScaledProfile, ScenarioWrapper", "pywr/parameters/parameters.py"),
      ("polynomials", "pywr/parameters/_polynomial.pyx")])

prop("P14", "Control curves and thresholds switch at exactly the right state",
     "A control-curve parameter selects or interpolates its value from the storage's fullness at the start of the timestep and the curve values of that timestep, with each boundary belonging to the band the documentation says. A threshold is active exactly when its declared comparison holds for the monitored quantity, and a ratcheting threshold stays active until the run is reset.",
     ["inputs", "histories", "configurations"],
     "every number of curves, values, ordering ties and crossing history, predicate, monitored quantity and scenario",
     "Tests set a few volumes by hand; crossings during simulation, exact ties, several curves and per-scenario histories are not explored.",
     ["pywr/parameters/_control_curves.pyx", "pywr/parameters/_thresholds.pyx"],
     [("ControlCurve*Parameter, WeightedAverageProfileParameter", "pywr/parameters/_control_curves.pyx"),
      ("AbstractThresholdParameter and subclasses, Multiple*", "pywr/parameters/_thresholds.pyx")])

prop("P15", "Parameters that depend on past or current state report that state exactly",
     "A parameter defined from earlier simulation results (previous flow, delayed flow, deficit, rolling mean, current storage, licence balance, hydropower target, polynomial or interpolated function of a flow or volume) equals the documented function of the flows and volumes that actually occurred, with the documented initial values before enough history exists. Licences never allow more water in their period than was licensed and become available again at the period's start.",
     ["histories", "inputs", "configurations"],
     "every flow history, delay, window, initial value, licence amount and refresh date, timestep length and scenario",
     "Tests drive short synthetic histories for one scenario; the relation to real simulated history over many steps, resets and scenarios is not recomputed.",
     ["pywr/parameters/_parameters.pyx", "pywr/parameters/licenses.py", "pywr/parameters/_hydropower.pyx", "pywr/parameters/parameters.py", "pywr/parameters/_polynomial.pyx", "pywr/parameters/groundwater.py", "pywr/_core.pyx"],
     [("FlowParameter, FlowDelayParameter, RollingMeanFlowNodeParameter, DeficitParameter, StorageParameter", "pywr/parameters/_parameters.pyx"),
      ("TimestepLicense, AnnualLicense and variants", "pywr/parameters/licenses.py"),
      ("HydropowerTargetParameter", "pywr/parameters/_hydropower.pyx"),
      ("previous flow bookkeeping", "pywr/_core.pyx: AbstractNode.after")])

prop("P16", "Decision variables round-trip and optimisers see the true model results",
     "Writing a component's decision values and reading them back gives the same values, within the declared bounds of the declared length, and a run afterwards behaves exactly as a model built with those values. The optimisation wrappers present each variable, objective and constraint of the model once, with the right size, bounds, direction and feasibility sense, and return for a candidate solution the values a direct run gives.",
     ["inputs", "configurations", "histories"],
     "every variable-capable component, bounds, set of objectives and constraints, direction and sequence of candidate evaluations",
     "Tests check bounds of some classes and run small optimisations whose results are only loosely asserted.",
     ["pywr/optimisation/__init__.py", "pywr/optimisation/platypus.py", "pywr/optimisation/pygmo.py", "pywr/parameters/_activation_functions.pyx", "pywr/parameters/_parameters.pyx"],
     [("cached variables/objectives/constraints", "pywr/optimisation/__init__.py"),
      ("PlatypusWrapper, PygmoWrapper", "pywr/optimisation/platypus.py, pygmo.py"),
      ("set/get_double_variables, bounds", "pywr/parameters")])

prop("P17", "Compound nodes behave as the simple networks they stand for",
     "A piecewise, multi-split, loss, delay, break, river-split, gauge, discharge or aquifer node gives the same flows as the explicit arrangement of simple nodes that its documentation describes. Losses are the stated fraction of net flow, delayed water emerges exactly the stated time later and none is lost, splits keep their stated proportions, and each slice of a piecewise node fills in cost order up to its own limit.",
     ["inputs", "configurations", "histories"],
     "every number of slices, costs, limits, loss factor, delay length, split factor (constant or varying), placement in a network, timestep and scenario",
     "Tests cover one or two arrangements for each node in isolation; placement in larger networks, parameterised factors, resets and interaction with other nodes are not sampled.",
     ["pywr/nodes.py", "pywr/domains/river.py", "pywr/domains/groundwater.py"],
     [("PiecewiseLink, MultiSplitLink, LossLink, DelayNode, BreakLink, AggregatedNode", "pywr/nodes.py"),
      ("RiverSplit, RiverSplitWithGauge, RiverGauge, Discharge, Catchment, Reservoir", "pywr/domains/river.py"),
      ("KeatingAquifer", "pywr/domains/groundwater.py")])

prop("P18", "Time-series recorders are faithful to what was simulated",
     "For every timestep and scenario a time-series recorder holds exactly the quantity it documents (flow, deficit, supplied ratio, cost, volume, level, area, parameter value, profile day, rolling mean, hydropower) of that step, in the right row and column and with the right dates and labels. Recording never changes the simulation.",
     ["inputs", "histories", "configurations"],
     "every recorder of this kind, model, timestep length, window, factor and scenario set, including reruns",
     "Tests check selected rows of one recorder each; all recorders on the same history against an independent log are not compared.",
     ["pywr/recorders/_recorders.pyx", "pywr/recorders/_hydropower.pyx", "pywr/recorders/_thresholds.pyx", "pywr/recorders/recorders.py"],
     [("NumpyArray* recorders, rolling recorders, threshold recorders", "pywr/recorders/_recorders.pyx, _thresholds.pyx"),
      ("HydropowerRecorder", "pywr/recorders/_hydropower.pyx"),
      ("Model.to_dataframe", "pywr/_model.pyx")])

prop("P19", "Summary recorders equal the statistic of the simulated series",
     "Totals, means, deficits, frequencies, minima, percentiles, duration curves, annual counts and totals, calibration scores, distribution estimates and aggregates across scenarios or recorders equal the documented statistic of the simulated series over the run. Both the per-scenario values and the single aggregated value use the configured aggregation function, and scores used as objectives are therefore the true ones.",
     ["inputs", "histories", "configurations"],
     "every aggregation function, weighting factor, threshold, percentile, season, ignore-nan flag, timestep length and scenario set",
     "Tests check particular functions on one model; the full table of functions over arbitrary series (ties, zeros, leap years, multi-day steps) is not evaluated.",
     ["pywr/recorders/_recorders.pyx", "pywr/recorders/_hydropower.pyx", "pywr/recorders/calibration.py", "pywr/recorders/kde.py", "pywr/recorders/recorders.py"],
     [("Aggregator, AggregatedRecorder", "pywr/recorders/_recorders.pyx"),
      ("Total/Mean/Deficit/FDC/Annual/Count recorders", "pywr/recorders/_recorders.pyx"),
      ("calibration scores", "pywr/recorders/calibration.py"), ("KDE recorders", "pywr/recorders/kde.py")])

prop("P20", "Recorded events are exactly the intervals in which the trigger held",
     "For each scenario the events reported are exactly the maximal runs of timesteps in which the trigger was active (those at least as long as a required minimum), with the correct start, end and duration, non-overlapping and in order. Durations and tracked statistics derived from events are the statistic of the values in each event and of each scenario's own events.",
     ["histories", "inputs", "configurations"],
     "every trigger history including events at the first and last step, minimum length, tracked quantity, aggregation and scenario set",
     "Tests use a couple of scripted trigger sequences; the full range of on/off histories with minimum lengths and several scenarios is not enumerated.",
     ["pywr/recorders/events.py", "pywr/recorders/_thresholds.pyx"],
     [("EventRecorder, EventDurationRecorder, EventStatisticRecorder", "pywr/recorders/events.py"),
      ("StorageThresholdRecorder, NodeThresholdRecorder", "pywr/recorders/_thresholds.pyx")])

prop("P21", "Files written by recorders contain exactly the simulated data",
     "Reading back a results file gives for every requested node and parameter exactly the simulated values, once per timestep and in order, with the scenario and time labels of the run, whatever the buffering, compression or file options. A complete file results whenever the run finishes, and a rerun replaces rather than corrupts it.",
     ["histories", "configurations", "inputs"],
     "every selection of nodes/parameters, format options, buffer size, number of timesteps and scenarios, and reruns",
     "Tests compare one buffer size and number of steps; buffers that do not divide the run, reruns and mixed selections are not enumerated.",
     ["pywr/recorders/recorders.py", "pywr/recorders/_tables_recorders.pyx", "pywr/h5tools.py"],
     [("CSVRecorder, TablesRecorder", "pywr/recorders/recorders.py"),
      ("TablesRecorder2 buffered writing", "pywr/recorders/_tables_recorders.pyx"), ("h5 store", "pywr/h5tools.py")])

prop("P22", "A model document means the same however it is arranged or loaded",
     "A model described in JSON behaves exactly like the same model built through the programming interface. The order of entries, inline versus named parameters and tables, splitting into included files, and loading from a file, string or dictionary do not change the results, and loading does not modify the caller's document.",
     ["inputs", "programs", "configurations"],
     "every document, permutation of its entries, partition into includes and way of loading it",
     "Tests load fixed documents in their written order; forward references, permutations and equivalence with the programmatic model are not sampled.",
     ["pywr/_model.pyx", "pywr/model.py", "pywr/nodes.py", "pywr/parameters/_parameters.pyx", "pywr/recorders/_recorders.pyx"],
     [("Model.load, _load_from_dict, includes", "pywr/_model.pyx"),
      ("load_parameter, load_recorder, load_parameter_values", "pywr/parameters/_parameters.pyx, pywr/recorders/_recorders.pyx"),
      ("node loading with lazy references", "pywr/nodes.py: Loadable, _model.pyx: _get_node_from_ref")])

prop("P23", "Invalid models and failed solves are reported, never silently simulated",
     "A structurally invalid or incomplete model (duplicate names, unknown or wrongly connected nodes, missing references, cycles through the wrong node kinds, missing initial volumes, out-of-range configuration) and a timestep with no feasible allocation each raise an error before results for it are produced. Valid models are never rejected.",
     ["inputs", "fault_sequences", "configurations"],
     "every single defect injected into a valid model and every timestep at which infeasibility appears, for every solver",
     "Tests cover individual error messages; systematic injection of defects into otherwise valid models, and infeasibility in later steps or scenarios, is not done.",
     ["pywr/_model.pyx", "pywr/nodes.py", "pywr/_core.pyx", "pywr/solvers/cython_glpk.pyx", "pywr/solvers/cython_lpsolve.pyx"],
     [("Model.check, check_graph, NamedIterator", "pywr/_model.pyx"), ("Connectable.connect checks", "pywr/nodes.py"),
      ("solver status handling", "pywr/solvers")])

prop("P24", "Linked models run in lock-step and exchange current values",
     "In a multi-model simulation every model advances through the same timesteps together and in the declared order, and a value exchanged between models is the providing model's value for that step (or of the previous step when the provider is solved later). Each model otherwise gives the same results as the same model run alone with those exchanged values supplied.",
     ["inputs", "configurations", "histories"],
     "every number and order of models, exchanged quantity, timestep, scenario set and repeated run",
     "Tests link two fixed models once; other orders, several quantities, step lengths and reruns are not explored.",
     ["pywr/model.py", "pywr/parameters/multi_model_parameters.py"],
     [("MultiModel.step/run/setup/load", "pywr/model.py"), ("OtherModel* parameters", "pywr/parameters/multi_model_parameters.py")])

prop("P25", "The compiled core is memory safe",
     "No model a user can build and run, and no sequence of runs, resets and rebuilds, makes the compiled core read or write outside its buffers, use freed memory, or execute undefined arithmetic. Memory is not leaked in proportion to the number of timesteps or runs.",
     ["inputs", "histories", "configurations"],
     "every model using the compiled nodes, parameters, recorders and solvers, including odd sizes, repeated setup and failing solves",
     "The test-suite runs an uninstrumented build, in which accesses outside a C buffer, uses of freed memory and leaks that do not crash are invisible.",
     ["pywr/solvers/cython_glpk.pyx", "pywr/solvers/cython_lpsolve.pyx", "pywr/_core.pyx", "pywr/parameters/_parameters.pyx", "pywr/recorders/_recorders.pyx", "pywr/recorders/_tables_recorders.pyx"],
     [("manual allocation and raw indexing", "pywr/solvers/cython_glpk.pyx, cython_lpsolve.pyx"),
      ("memoryviews with boundscheck off", "pywr/_core.pyx, pywr/parameters, pywr/recorders")])

prop("P26", "Bisection search returns the largest satisfying value, to tolerance",
     "When the constraint is satisfiable within the bounds and worsens monotonically, a search over one decision value ends with the model set to and simulated at a value that satisfies every constraint and is within the requested tolerance of the largest satisfying one. When no value satisfies it, or the search is misconfigured, that is reported as configured and the model is never left claiming an infeasible value satisfied the constraint.",
     ["inputs", "configurations", "histories"],
     "every monotone model response, bounds, tolerance, threshold position (including at or outside the bounds) and error option",
     "Tests try a couple of thresholds on one model.",
     ["pywr/utils/bisect.py", "pywr/_model.pyx", "pywr/recorders/_recorders.pyx"],
     [("BisectionSearchModel.run", "pywr/utils/bisect.py"), ("constraint violation", "pywr/recorders/_recorders.pyx: Recorder.is_*_constraint_violated")])

prop("P27", "Editing a model keeps its structure consistent and simulates what it shows",
     "After any sequence of connecting, disconnecting, renaming, adding, removing and re-parameterising through the public interface, names stay unique and resolve to the right object, removed things no longer take part, and the next run gives the same results as a model built directly in the final form. Changes made between runs always take effect on the next run.",
     ["histories", "programs"],
     "every sequence of structural edits interleaved with runs",
     "Tests perform single edits; sequences of edits between runs, and equality with a freshly built model, are not checked.",
     ["pywr/_model.pyx", "pywr/nodes.py", "pywr/_core.pyx", "pywr/_component.pyx"],
     [("NodeIterator/NamedIterator, dirty flag", "pywr/_model.pyx"), ("Connectable.connect/disconnect, name setters", "pywr/nodes.py"),
      ("component tree edits", "pywr/_component.pyx")])

"""Per check: technique and level note (the input of gen.py for MANIFEST.json)."""
NET = "Level exploration: held on the random models, solver settings and steps that the evidence counts; networks of up to about 40 nodes and 30 steps."
CHECKS = {
 "P01": dict(technique="runtime monitor of every step (state hooks through the Recorder interface) + offline flow-conservation checker: reported node flows must extend to edge flows, decided by an independent HiGHS model", note=NET),
 "P02": dict(technique="runtime monitor of every step + offline limit checker re-evaluating each limit from the model document (node, storage, virtual store, aggregate limits and ratios)", note=NET),
 "P03": dict(technique="runtime monitor of every step + differential oracle: the least-cost allocation of the same step computed by an independent HiGHS formulation", note=NET),
 "P05": dict(technique="runtime monitor of every step + trace checker of the storage balance, initial state, fullness, continuity and aggregated storage totals", note=NET),
 "P06": dict(technique="runtime monitor of every step + executable reference model of the five kinds of virtual storage stepped alongside the run", note=NET),
 "P07": dict(technique="trace checker of timesteps, their attributes and run positions against Python's civil calendar over random calendars and stepping orders", note="Level exploration: random start/end/step combinations including year ends, leap days and centuries."),
 "P04": dict(technique="runtime monitor of every step + differential trace comparison: the same random model under every solver and option setting, given by argument, document and environment; saved route flows summed against node flows", note=NET),
 "P08": dict(technique="runtime monitor of every step + trace comparison of a fresh model with one that has been run, stepped, interrupted by injected faults, failed, shortened and reset before", note=NET),
 "P09": dict(technique="runtime monitor of every step + differential trace comparison of each scenario combination with a single run on that combination's data; labels checked against an own enumeration", note=NET),
 "P10": dict(technique="probe parameters and recorders in random dependency graphs logging every call (order, once, fresh values) + recomputation of every parameter just before each allocation + trace comparison under renaming and reordering + circular dependencies", note="Level exploration: graphs of up to about 30 components."),
 "P11": dict(technique="recorder logging every profile parameter in every step of random calendars + reference profiles on Python's civil calendar; wrong profiles must be refused", note="Level exploration: random calendars around leap days, year ends and centuries, steps of 1 to 30 days and months, scenarios, changed values."),
 "P12": dict(technique="recorder logging every step's values of data-fed parameters + reference resampling per calendar day; gaps, missing cover, wrong shapes and checksums injected and required to be refused", note="Level exploration: CSV, gzip, Excel, HDF5, embedded and API data of seven frequencies in models of five step lengths."),
 "P13": dict(technique="recorder logging every parameter in every step of random parameter graphs + vectorised numpy reference of each definition; out-of-range lookups must raise", note="Level exploration: graphs of up to 15 parameters, up to 40 steps and 16 scenario combinations."),
 "P14": dict(technique="recorder logging fullness, volumes, flows, values and indices in every step of solved systems + reference of each band, boundary, predicate and ratchet evaluated on the logged state", note="Level exploration: whole-numbered systems of up to three reservoirs that sit exactly on curves and thresholds, up to 40 steps, up to 16 combinations, reruns."),
 "P15": dict(technique="recorder logging flows, volumes and parameter values in every step of solved systems (with state-dependent parameters feeding back into limits and costs) + each parameter recomputed from the logged history + day-by-day licence accounting", note="Level exploration: systems of up to three reservoirs, up to 40 steps (500 with licences), steps of 1 to 30 days and months."),
 "P16": dict(technique="monitored runs of one model written with candidate decision values, and of both optimisation wrappers, compared with fresh models built with those values; sizes, bounds, directions and feasibility compared with the document", note="Level exploration: nine kinds of variable, seven solver settings, up to 4 variables, 3 objectives and 3 constraints."),
    "P17": dict(technique="differential runtime monitoring of compound nodes against explicit simple-node networks, with online invariant monitors",
                note="Stages of every compound node kind in random networks, with three solvers, against independently built explicit networks."),
 "P18": dict(technique="own recorder logging flows, volumes, values and limits of every step + every time-series recorder's data, dates and labels recomputed from that log; bitwise trace comparison with a run without recorders", note="Level exploration: supply systems with a compound node, varying limits and costs, selections of combinations, documents and constructors, reruns."),
 "P19": dict(technique="own recorder logging every step + each summary recomputed from the log with own definitions of the statistics; aggregation over time, recorders and scenarios, constraint and objective flags checked at, below and above the value", note="Level exploration: up to 900 steps, up to 16 combinations, NaN, percentiles, scores, own density estimate."),
 "P20": dict(technique="own recorder logging every step's trigger, flows, volumes and values + events, durations, tracked values and statistics recomputed from that log; sum of durations against active steps", note="Level exploration: four kinds of trigger, minimum lengths, up to 900 steps and 16 combinations, documents and constructors, reruns."),
 "P21": dict(technique="files written by real runs read back with csv and PyTables and compared value by value with an own recorder's log; runs completed, repeated, stepped by hand, abandoned, shortened and interrupted by an injected fault", note="Level exploration: up to 30 steps, 16 combinations, selections, buffers around the number of steps, compression and table options, routes."),
 "P22": dict(technique="the same document run as written and rearranged (order, names, tables, files, includes, aliases, ways of loading, built through the API by an independent builder), with the step-by-step logs and the recorder results compared", note="Level exploration: random documents of about 60 parameter and 30 recorder kinds; domains and conversion factors are set after loading; a comparison ends early where two allocations have the same cost."),
 "P23": dict(technique="single defects injected into random valid models and infeasible timesteps constructed in them, each observed to raise before any result of the step is recorded; every valid model observed to load, pass its check and run", note="Level exploration: a defect is one the documentation or an existing check rules out; feasibility is judged by an independent LP."),
 "P24": dict(technique="recorders in every model of linked simulations logging the order of events and all values; exchanged values compared with the log of the model they come from, and every model repeated alone with the exchanged values supplied", note="Level exploration: 2 to 4 models, up to 5 links, seven solver settings, documents, files and the API, reruns, incompatible models."),
 "P25": dict(technique="compiled modules rebuilt with AddressSanitizer and UndefinedBehaviorSanitizer under the workloads of all other checks, odd histories and failing solves; LeakSanitizer and exact live-heap accounting per step, run, setup and model; results compared under different contents of fresh memory", note="Level exploration: third-party libraries are not instrumented; uninitialised reads are only seen through their effects."),
 "P26": dict(technique="monitored bisection searches compared with independent simulations on a grid and around the result; a watchdog on the number of simulations", note="Level exploration: monotone responses of random supply systems, bounds, tolerances, options and seven solver settings."),
 "P27": dict(technique="random edit sequences on live models (through the API, interleaved with runs) compared step by step with a model built directly in the final form; structural invariants observed after every edit", note="Level exploration: about 20 kinds of edits, sequences of up to about 12, with refused edits in between."),
}
NOT_APPLICABLE = {}

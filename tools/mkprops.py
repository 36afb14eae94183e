"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    anchors = {"files": files,
               "mechanism": [{"name": n, "where": w} for n, w in mech],
               "observe_at": observe, "hook_needed": None}
    if state:
        anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": anchors})

SOLV = ["pywr/solvers/cython_glpk.pyx", "pywr/solvers/__init__.py"]
p("C01", "Every allocation respects each node's flow limits",
  "In every time-step and scenario, the flow allocated to each node is never below its minimum flow and never above its maximum flow as those limits evaluate for that time-step and scenario (limits being constants or parameters; an infinite or NaN-free maximum means no upper limit). The flow reported for a node is the sum over the paths that pass through it, and an allocation that meets all the limits is never excluded by the solver's problem formulation.",
  ["inputs", "configurations", "histories"],
  "all minimum/maximum flows (negative, zero, equal, infinite), all costs, every solver route, every scenario, every supported network shape, on the route-based and the edge-based solver",
  "Tests solve a few dozen fixed networks with fixed numbers; a wrong row bound, coefficient or index shows only for particular limit combinations or topologies.",
  SOLV + ["pywr/_core.pyx", "pywr/nodes.py"],
  [("row per node with min/max flow bounds", "pywr/solvers/cython_glpk.pyx: setup/_solve_scenario"),
   ("flow commit along each route", "pywr/_core.pyx: AbstractNode.commit/commit_all"),
   ("min/max flow evaluation", "pywr/_core.pyx: Node.get_min_flow/get_max_flow")],
  ["node.flow after each step", "recorders attached to nodes"])
p("C02", "Water is conserved through links, domains and storages",
  "In every time-step and scenario a link's inflow equals its outflow, water entering the network equals water leaving it plus the change in storage (when water crosses between domains, each connected output's flow equals the sum of its inputs' flows divided by their conversion factors), and every storage's new volume equals its old volume plus net inflow times the time-step length in days.",
  ["inputs", "configurations", "histories"],
  "all feasible solver answers, all volumes, conversion factors, time-step lengths, scenarios and supported network shapes",
  "Tests check balances on a few solved models; the balance must hold for every solver answer, network and step length.",
  SOLV + ["pywr/_core.pyx"],
  [("cross-domain rows", "pywr/solvers/cython_glpk.pyx"), ("storage commit and after()", "pywr/_core.pyx: Storage")],
  ["node.flow", "storage.volume", "storage.current_pc"],
  [("_volume", "per-scenario stored volume", "pywr/_core.pyx: AbstractStorage")])
p("C03", "Storage volumes stay within their minimum and maximum",
  "Starting a time-step with a volume between the storage's minimum and maximum volume, no allocation the solver may return takes it below its minimum or above its maximum volume by the end of the step; a storage whose minimum equals its maximum exchanges no net water. Initial volumes follow the absolute or percentage initial volume the user gave, and the fractional volume reported is volume divided by maximum volume.",
  ["inputs", "histories", "configurations"],
  "all volumes, min/max volumes (constant or per-scenario parameter), time-step lengths, inputs/outputs slots and scenarios",
  "Tests use a handful of reservoirs with whole-number volumes.",
  SOLV + ["pywr/_core.pyx"],
  [("storage rows", "pywr/solvers/cython_glpk.pyx: _solve_scenario"), ("initial volume and reset", "pywr/_core.pyx: AbstractStorage/Storage.reset")],
  ["storage.volume", "storage.current_pc"])
p("C04", "The allocation problem minimises the network's total cost",
  "The quantity the solver minimises is exactly the sum over nodes of flow times that node's unit cost for the current time-step and scenario, with a storage's cost charged on releases and credited on fills, and paths are never cut, duplicated or made unavailable. Cost changes from one step or scenario to the next take effect immediately. If the solver finds no optimal allocation the step fails with an error rather than returning flows.",
  ["inputs", "configurations", "histories"],
  "all costs (constant, parameter, negative), every supported network shape, both formulations of the linear programme, all scenarios and time-steps",
  "Optimality of one solved example does not show the objective is right for all costs.",
  SOLV + ["pywr/model.py", "pywr/_model.pyx"],
  [("objective coefficients per route/edge", "pywr/solvers/cython_glpk.pyx: _solve_scenario"), ("route search", "pywr/_model.pyx: find_all_routes")],
  ["flows chosen by the solver", "the exported linear programme"])
p("C05", "Aggregated-node limits and flow ratios are enforced",
  "An aggregated node's weighted total of member flows always lies between its minimum and maximum flow, and when factors are given the member flows are always in those exact proportions (as a fixed ratio or as proportions of the total), including when the factors are parameters that change between steps. The weighted total counts every member, also when several members lie on the same path. The flow reported for an aggregated node is the weighted sum of its members' flows.",
  ["inputs", "configurations", "histories"],
  "all factors, flow weights, limits, member counts, shared paths, scenarios and time-steps",
  "Tests use a handful of two- or three-member aggregates with fixed factors.",
  SOLV + ["pywr/_core.pyx"],
  [("aggregated factor rows and min/max rows", "pywr/solvers/cython_glpk.pyx"), ("factor normalisation", "pywr/_core.pyx: AggregatedNode.get_factors_norm/get_constant_factors_norm")],
  ["aggregated node flow", "member node flows"])
p("C06", "Virtual storage accounts for exactly the flow it licenses",
  "An active virtual storage loses exactly the factor-weighted flow of its nodes times the time-step length each step, plus nothing else, and no allocation can take it below its minimum or above its maximum volume. When it is inactive its volume does not change and it places no restriction on flows; rolling virtual storages give back exactly the volume used the stated number of steps ago.",
  ["inputs", "histories", "configurations"],
  "all factors, volumes, step lengths, rolling window lengths, activity patterns and scenarios",
  "Tests run a few licence examples; bookkeeping errors show for particular histories only.",
  SOLV + ["pywr/_core.pyx", "pywr/nodes.py"],
  [("virtual storage rows", "pywr/solvers/cython_glpk.pyx"), ("VirtualStorage.after, RollingVirtualStorage", "pywr/_core.pyx")],
  ["virtual_storage.volume"])
p("C07", "Solver options and repeated solves do not change the problem posed",
  "The allocation problem posed in any time-step and scenario depends only on the current values of that scenario's limits, costs, factors and volumes: it is the same whatever was solved before it, whichever other scenarios exist, and whether or not the options for constant data are in use. No stale bound, coefficient or objective from an earlier step or another scenario survives.",
  ["histories", "configurations", "inputs"],
  "all sequences of two solves with arbitrary before/after values, all scenario pairs, route- and edge-based solver, fixed-data options on and off",
  "A stale coefficient shows only for specific before/after values in consecutive solves; tests compare final numbers on a few fixed models.",
  SOLV, [("fixed-once vs per-step updates", "pywr/solvers/cython_glpk.pyx: _update_nonconst_costs etc.")],
  ["flows of later steps", "exported linear programme"])
p("C08", "Scenario combinations enumerate exactly what was asked for",
  "With no user-defined combinations, the scenario combinations are exactly the full product of the (sliced) scenarios in row-major order, each once, with consecutive global identifiers; with user-defined combinations they are exactly those listed, in order. Out-of-range, wrongly shaped or duplicate definitions are rejected, and combination names and ensemble names match their indices. Slices, user combinations and scenarios edited after a run are what the next run executes and reports.",
  ["inputs", "configurations"],
  "all scenario counts, sizes, slices (start/stop/step) and user combinations within bounds",
  "Tests use a few fixed sizes and slices.",
  ["pywr/_core.pyx"],
  [("ScenarioCollection.setup/get_combinations", "pywr/_core.pyx"), ("Scenario.slice", "pywr/_core.pyx")],
  ["model.scenarios.combinations", "model.scenarios.multiindex", "recorder dataframes"])
p("C09", "Time-steps cover the run period and carry correct calendar fields",
  "The time-steps run from the start date to the end date in order without gap or overlap, each with a consecutive index, its true length in days and calendar fields (day, month, year, day of year, leap-year flag, position in a 366-day or 53-week profile) consistent with its date. Resetting restarts the sequence from the beginning, and changes of start, end or step size take effect on the next reset.",
  ["inputs", "configurations"],
  "all start and end dates and step sizes within bounds, leap and non-leap years",
  "Tests sample a few dates; leap-year and week-boundary cases are rare.",
  ["pywr/timestepper.py", "pywr/_core.pyx"],
  [("Timestepper.setup/next", "pywr/timestepper.py"), ("Timestep fields", "pywr/_core.pyx: Timestep")],
  ["model.timestepper", "timestep attributes"])
p("C10", "Components are evaluated after everything they depend on",
  "In every time-step each parameter and recorder is evaluated after all of the components it depends on and exactly once per scenario, its before/after hooks run once per step in dependency order, and every component is set up and reset once. A circular dependency is rejected rather than evaluated in an arbitrary order.",
  ["configurations", "schedules"],
  "all dependency graphs up to the stated size",
  "Ordering bugs need particular dependency shapes; tests use a few.",
  ["pywr/_model.pyx", "pywr/_component.pyx"],
  [("component graph topological order", "pywr/_model.pyx"), ("children/parents registration", "pywr/_component.pyx")],
  ["order in which component values are computed"])
p("C11", "A reset returns every component to its initial state",
  "After a reset, running the same model again produces the same results as the first run: stored volumes, rolling memories, activation states, recorder totals and counts and all other run-time state are restored, whatever happened in the previous run. Restart values computed in the first run never leak into the second.",
  ["histories", "inputs"],
  "all two-run histories of the stated length with arbitrary values, for each stateful node, parameter and recorder",
  "Tests rarely run twice; leaks need specific state at the end of the first run.",
  ["pywr/_core.pyx", "pywr/nodes.py", "pywr/parameters/_parameters.pyx", "pywr/recorders/_recorders.pyx"],
  [("reset methods", "every component's reset()")],
  ["node state, parameter values, recorder values after reset"])
p("C12", "Aggregated parameters combine their members as named",
  "An aggregated parameter's value in every scenario is exactly the named combination (sum, product, mean, min, max, median, any, all) of its members' values for that step and scenario, whatever the number, order or kind of its members; index aggregation likewise. Adding or removing members and serving constant or per-scenario members does not change that.",
  ["inputs", "configurations"],
  "all member values and member counts within bounds, all aggregation names",
  "Tests use fixed triples of values.",
  ["pywr/parameters/_parameters.pyx"],
  [("AggregatedParameter/AggregatedIndexParameter.calc_values", "pywr/parameters/_parameters.pyx")],
  ["parameter.get_value / get_all_values / get_index"])
p("C13", "Profile parameters return the entry for the current date",
  "Daily, weekly, monthly, interpolated and per-scenario profile parameters return exactly the entry (or the documented interpolation between entries) for the time-step's date in every year, leap or not, and in every scenario; the value on a boundary date equals the profile entry itself. Profiles of the wrong length are rejected.",
  ["inputs"],
  "all profile values and all dates of leap and non-leap years",
  "Tests check a few dates of one or two years.",
  ["pywr/parameters/_parameters.pyx"],
  [("profile value lookups", "pywr/parameters/_parameters.pyx: *Profile*Parameter")],
  ["parameter.get_value"])
p("C14", "Time-series and array parameters return the right step and scenario",
  "Array-, dataframe- and table-backed parameters return in every time-step exactly the source value for that step (after the documented resampling or alignment to the model's time-steps) and, when tied to a scenario, for that scenario's index, including when the scenario is sliced or combinations are user-defined. Data that do not cover the simulation or the scenario are rejected.",
  ["inputs", "configurations"],
  "all data values, series lengths, scenario sizes, slices and combinations within bounds",
  "Tests use a few files.",
  ["pywr/parameters/_parameters.pyx", "pywr/parameters/parameters.py", "pywr/dataframe_tools.py"],
  [("ArrayIndexed*/DataFrameParameter", "pywr/parameters/")],
  ["parameter.get_value"])
p("C15", "Control curve parameters select the band the storage is in",
  "A control-curve parameter compares the storage's volume (as the documented fraction or amount at the start of the step) with the curves in order and returns the value (or index) for the first curve at or below it, and the last value when it is below all; interpolating variants are exact at the curves and linear in between, never leaving the range of the two neighbouring values. The result depends only on the current step's curve values, volume and scenario.",
  ["inputs"],
  "all volumes, curve levels and values, numbers of curves within bounds",
  "Tests sample a few volumes; equality with a curve and degenerate bands are measure-zero cases.",
  ["pywr/parameters/_control_curves.pyx"],
  [("ControlCurve*Parameter", "pywr/parameters/_control_curves.pyx")],
  ["parameter.get_value / get_index"])
p("C16", "Threshold parameters switch exactly at their threshold",
  "A threshold parameter is in state 1 exactly when its monitored quantity (storage, flow, parameter, recorder, date) satisfies the stated comparison (less than, greater than, equal, at most, at least) with the threshold and otherwise in state 0, returning the associated value when values are given; multiple thresholds return the position in the ordered list. A ratcheting threshold once triggered stays triggered for the scenario until reset.",
  ["inputs", "histories"],
  "all monitored values, thresholds, comparison kinds, ratchet histories and scenarios",
  "Equality and ratchet interplay are rarely sampled.",
  ["pywr/parameters/_thresholds.pyx", "pywr/recorders/_thresholds.pyx"],
  [("AbstractThresholdParameter.index/after", "pywr/parameters/_thresholds.pyx")],
  ["parameter.get_index / get_value"])
p("C17", "Delayed, rolling and cumulative parameters report exact history",
  "Parameters and nodes that look back in time (flow delay, rolling mean of flow or of a parameter, deficit, discount factor) return exactly the stated function of the previous steps' values, with the documented initial value until enough history exists, independently per scenario.",
  ["histories", "inputs"],
  "all value histories and window lengths within bounds, all scenarios",
  "Ring-buffer wrap-around errors need particular window/length combinations.",
  ["pywr/parameters/_parameters.pyx", "pywr/parameters/parameters.py"],
  [("ring-buffer memories", "pywr/parameters/_parameters.pyx")],
  ["parameter.get_value"])
p("C18", "Arithmetic transform parameters compute their documented function",
  "Constant, minimum, maximum, negative, negative-minimum/maximum, offset, division, piecewise-index, interpolated, polynomial and activation-function parameters return exactly their documented function of their inputs in every step and scenario, including at thresholds and at zero, and interpolation passes through its data points.",
  ["inputs"],
  "all input values, coefficients and thresholds within bounds",
  "Tests evaluate a few points.",
  ["pywr/parameters/_parameters.pyx", "pywr/parameters/parameters.py", "pywr/parameters/_polynomial.pyx", "pywr/parameters/_activation_functions.pyx"],
  [("calc_values/value of each parameter", "pywr/parameters/")],
  ["parameter.get_value"])
p("C19", "Hydropower target and production calculations are mutually inverse",
  "The flow computed for a hydropower target produces, through the production calculation with the same head, efficiency and unit conversions, exactly that target power (unless limited by the stated minimum/maximum flow or head), and recorded energy is power times the step's duration. Head is the water level minus the turbine elevation and never negative.",
  ["inputs"],
  "all targets, levels, elevations, efficiencies, densities, conversion factors within bounds",
  "Tests evaluate a few numbers.",
  ["pywr/parameters/_hydropower.pyx", "pywr/recorders/_hydropower.pyx"],
  [("hydropower_calculation and inverse", "pywr/parameters/_hydropower.pyx")],
  ["parameter value", "recorder values"])
p("C20", "Abstraction licences never allow more than the licensed volume",
  "Over every licence period the volume allowed step by step by a licence never adds up to more than the licensed amount, the remaining allowance is exactly the licensed amount minus use so far, and the allowance is restored in full exactly at the start of a new period and never otherwise.",
  ["histories", "inputs"],
  "all use histories and licence amounts, over year boundaries",
  "Tests sample a few histories.",
  ["pywr/parameters/licenses.py", "pywr/nodes.py"],
  [("licences", "pywr/parameters/licenses.py")],
  ["licence value per step"])
p("C21", "Virtual storages reset on the stated dates and only then",
  "Annual, seasonal, monthly and rolling licences held as virtual storages are reset to their stated volume at the first step on or after each reset date (and the stated number of months apart) and at no other step, seasonal ones are active exactly between their start and end dates, and re-running the model gives the same schedule.",
  ["histories", "inputs"],
  "all reset dates, run start dates and step sizes within bounds, volumes and scenarios",
  "Tests run a few date combinations.",
  ["pywr/nodes.py", "pywr/_core.pyx"],
  [("AnnualVirtualStorage/SeasonalVirtualStorage/MonthlyVirtualStorage.before", "pywr/nodes.py")],
  ["virtual_storage.volume, active"])
p("C22", "Compound nodes behave as the single element they stand for",
  "A piecewise link passes exactly the sum of its parts with each part's own limit and cost, a multi-split link divides its flow in the stated ratio, a loss link loses exactly the stated share of (net or gross) flow, a break link's flow in equals its flow out, a delay node releases exactly what entered the stated number of steps before, and river gauges and splits honour their minimum residual flow and cost.",
  ["inputs", "configurations", "histories"],
  "all limits, costs, factors, delays and flows within bounds, all scenarios",
  "Tests solve a few examples.",
  ["pywr/nodes.py", "pywr/domains/river.py"],
  [("compound node construction and after()", "pywr/nodes.py")],
  ["node flows"])
p("C23", "Array recorders hold exactly what happened in each step and scenario",
  "For every time-step and scenario, array recorders hold exactly the flow, deficit, supplied ratio, curtailment ratio, cost, volume, level, parameter value or parameter index that occurred then, scaled by the stated factor, and rows and columns are never shifted, mixed or overwritten. Their data frames label steps and scenarios accordingly.",
  ["inputs", "histories", "configurations"],
  "all values over the stated number of steps and scenarios",
  "Tests compare a few constant series, where shifts and mixes are invisible.",
  ["pywr/recorders/_recorders.pyx"],
  [("NumpyArray*Recorder.after", "pywr/recorders/_recorders.pyx")],
  ["recorder.data", "recorder.to_dataframe()"])
p("C24", "Running totals, means and counts equal the recorded history's",
  "Totals, means, deficits, supplied ratios, minimum/maximum volumes, counts of steps or of failures, and annual counts and totals equal the corresponding function of the full per-step history for each scenario, weighted by step length where stated, including years and steps that straddle a boundary.",
  ["inputs", "histories"],
  "all value histories within bounds, all step lengths, scenarios and reset dates",
  "Running-sum errors need particular histories.",
  ["pywr/recorders/_recorders.pyx", "pywr/recorders/_thresholds.pyx", "pywr/recorders/recorders.py"],
  [("incremental recorders", "pywr/recorders/_recorders.pyx")],
  ["recorder.values()", "recorder.aggregated_value()"])
p("C25", "Scenario and temporal aggregation is the named statistic",
  "Aggregated recorder values are exactly the named statistic (sum, mean, min, max, median, product, percentile, percentile of a score, non-zero count, custom function) over time and then over scenarios, ignoring missing values only when asked; results do not depend on the number or order of scenarios beyond that statistic.",
  ["inputs", "configurations"],
  "all values, sizes and aggregation names within bounds",
  "Tests use fixed arrays.",
  ["pywr/recorders/_recorders.pyx"],
  [("Aggregator", "pywr/recorders/_recorders.pyx")],
  ["recorder.values()", "recorder.aggregated_value()"])
p("C26", "Event recorders report exactly the maximal runs of threshold states",
  "For each scenario the recorded events are exactly the maximal runs of consecutive steps whose threshold is active and that last at least the minimum length, with the true start, end, duration and per-event statistic; nothing is recorded twice, merged or lost at the end of the run.",
  ["histories", "inputs"],
  "all on/off histories within bounds, minimum lengths and scenarios",
  "Tests use a few histories.",
  ["pywr/recorders/events.py"],
  [("EventRecorder.after/finish", "pywr/recorders/events.py")],
  ["recorder.events", "event dataframes"])
p("C27", "Constraint satisfaction and objective sense are reported correctly",
  "A recorder used as a constraint is violated exactly when its aggregated value is below its lower bound or above its upper bound (or differs from its equality bound), the model is feasible exactly when no constraint is violated, and optimisation wrappers hand objectives, constraints and variables to the optimiser with the right sign, order and bounds and apply a solution to exactly the variables it describes.",
  ["inputs", "configurations"],
  "all aggregated values, bounds and solution vectors within bounds",
  "Tests use a few values.",
  ["pywr/recorders/_recorders.pyx", "pywr/optimisation/__init__.py", "pywr/optimisation/platypus.py", "pywr/_model.pyx"],
  [("Recorder.is_constraint_violated", "pywr/recorders/_recorders.pyx"), ("variable maps", "pywr/optimisation/__init__.py")],
  ["model.is_feasible()", "values handed to the optimiser"])
p("C28", "Optimisation variables round-trip through parameters",
  "Setting an optimisation variable's values on a parameter and reading them back returns the same values, the reported lower and upper bounds have the same size and order as the variables, and the parameter's subsequent value is the documented function of the values set, for real and integer variables alike.",
  ["inputs"],
  "all vectors of variable values and sizes within bounds",
  "Tests set a few vectors.",
  ["pywr/parameters/_parameters.pyx", "pywr/parameters/_control_curves.pyx", "pywr/parameters/_activation_functions.pyx"],
  [("set_double_variables/get_double_variables", "pywr/parameters/")],
  ["parameter API"])
p("C29", "Statistical recorders match their definitions",
  "Flow-duration-curve, deviation, percentile, RMSE, MAE, MSE, Nash-Sutcliffe, percent-bias and standard-deviation-ratio recorders return exactly their defining statistic of the recorded series for each scenario, whatever the data order, and against the right observed target.",
  ["inputs"],
  "all recorded series within bounds",
  "Tests use a few series.",
  ["pywr/recorders/_recorders.pyx", "pywr/recorders/calibration.py", "pywr/recorders/recorders.py"],
  [("calibration recorders", "pywr/recorders/calibration.py")],
  ["recorder.values()"])
p("C30", "Loading a model document builds exactly the described model",
  "Loading a document creates each named node, edge, parameter and recorder once, whatever the order of definition, resolves every reference to the named component, keeps names unique, rejects unknown or circular references with an error, and merges included documents without losing or overwriting definitions silently.",
  ["programs", "configurations"],
  "all small documents within bounds",
  "Tests load a few dozen documents.",
  ["pywr/_model.pyx", "pywr/model.py", "pywr/parameters/_parameters.pyx"],
  [("ModelDocument loading", "pywr/_model.pyx")],
  ["model.nodes, model.parameters, model.recorders"])
p("C31", "Coupled models advance together and exchange current values",
  "In a multi-model run all sub-models take the same time-steps in the declared order, and a value read from another sub-model is that sub-model's value for the current step (or the previous step when it runs later), for the same scenario index.",
  ["schedules", "histories", "configurations"],
  "all orders and values of two or three sub-models within bounds",
  "Tests run a few coupled models.",
  ["pywr/model.py", "pywr/parameters/multi_model_parameters.py"],
  [("MultiModel.step", "pywr/model.py")],
  ["sub-model flows and parameter values"])
p("C32", "Bisection finds the highest feasible value",
  "Searching for the largest feasible value of a parameter returns a value at which the model is feasible, within the stated tolerance of the true feasibility threshold, never evaluates outside the given bounds, and reports an error when no value in the bounds is feasible.",
  ["inputs", "histories"],
  "all thresholds, bounds and tolerances within bounds",
  "Tests search one or two models.",
  ["pywr/utils/bisect.py"],
  [("BisectionSearchModel", "pywr/utils/bisect.py")],
  ["returned value"])
p("C33", "Groundwater, catchment and level relations are honoured",
  "Level- and area-storage relations, the Keating groundwater relation and catchment and discharge nodes return flows, levels and areas that lie on the defined relation for every volume, including at the end points of the data.",
  ["inputs"],
  "all volumes, levels and coefficient values within bounds",
  "Tests evaluate a few points.",
  ["pywr/domains/groundwater.py", "pywr/parameters/groundwater.py", "pywr/domains/river.py", "pywr/_core.pyx"],
  [("KeatingAquifer", "pywr/domains/groundwater.py"), ("Storage.get_level/get_area", "pywr/_core.pyx")],
  ["node.get_level", "parameter values"])
p("C34", "Tables written during a run hold every recorded step",
  "HDF5 and CSV outputs written during a run contain, for every time-step, node and scenario, exactly the recorded value, in step order and with the declared index of scenarios and routes; data frames and Sankey links made from the saved files carry those same values.",
  ["histories", "inputs"],
  "all runs", "I/O paths are sampled only.",
  ["pywr/recorders/_tables_recorders.pyx", "pywr/recorders/recorders.py", "pywr/h5tools.py", "pywr/notebook/sankey.py"],
  [("TablesRecorder", "pywr/recorders/_tables_recorders.pyx")],
  ["output files"])
p("C35", "Input files are verified against their declared checksum",
  "An input file with a declared checksum is accepted exactly when its content has that checksum under the named algorithm, and a mismatch stops the load.",
  ["inputs"],
  "all file contents", "Tests hash one or two files.",
  ["pywr/hashes.py", "pywr/dataframe_tools.py", "pywr/parameters/_parameters.pyx", "pywr/_model.pyx"],
  [("check_hash", "pywr/hashes.py"), ("read_dataframe", "pywr/dataframe_tools.py"), ("TablesArrayParameter.load", "pywr/parameters/_parameters.pyx")], ["model load"])
p("C36", "The model holds exactly the nodes, connections and components built",
  "After any sequence of creating, renaming, connecting, disconnecting and deleting, looking up by name, iterating over, counting and membership of a model's nodes, parameters and recorders give exactly those created and not deleted, in the order made, with unique names; deleting a node removes its parts and connections and nothing else, and the next run poses the problem of the remaining network. Route finding returns exactly the simple paths between the nodes or classes asked for that satisfy the allowed classes, length and domains, ordered by name. Checking a model fails exactly when a node that has to lie on a path from an input to an output does not, and warns exactly when some parameter is used by nothing. A run's result reports its steps, scenarios and solver, the model's combined frame holds each recorder's frame under its name, and every node and component is finished once a run, also when a step fails.",
  ["configurations", "histories"],
  "all networks over a few nodes, all sequences of edits, every kind of node and every parameter attribute, a failure at any step",
  "Tests build and edit a handful of networks; a stale registry, route or problem after an edit shows only for particular sequences and node kinds.",
  ["pywr/_model.pyx", "pywr/_component.pyx", "pywr/_core.pyx", "pywr/nodes.py"],
  [("find_all_routes, check, check_graph, find_orphaned_parameters", "pywr/_model.pyx: Model"), ("NodeIterator, NamedIterator, ModelResult", "pywr/_model.pyx"),
   ("connect, disconnect", "pywr/nodes.py: Connectable"), ("name, components", "pywr/_core.pyx: AbstractNode; pywr/_component.pyx: Component")],
  ["model.nodes, model.components, model.find_all_routes, model.check", "the problem posed in the next run", "ModelResult, Model.to_dataframe"])
p("C37", "Schematics and flow diagrams show the model's network",
  "The schematic of a model, whether made from the model or from its document, shows exactly its nodes - each compound node once, virtual and aggregated nodes not at all - with their class and position, and connects two of them exactly when the network connects them; with attributes it lists each node's own attribute values and names the parameters they refer to. The links of a flow diagram made from stored routes carry, for each pair of ends, the sum over the routes between them of the flow aggregated over the chosen time-steps and scenarios, leaving out exactly the routes, loops and small flows asked to be left out.",
  ["inputs", "configurations"],
  "all kinds of nodes, connections and positions of small networks; all stored route flows, selections and thresholds",
  "Tests draw one model and one diagram and look at a few of their names.",
  ["pywr/notebook/__init__.py", "pywr/notebook/sankey.py"],
  [("pywr_model_to_d3_json, pywr_json_to_d3_json, get_node_attr", "pywr/notebook/__init__.py"), ("routes_to_sankey_links", "pywr/notebook/sankey.py")],
  ["PywrSchematic.graph", "links returned by routes_to_sankey_links"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))

"""Writes /verif/properties.jsonl (kept as a script so that wording is edited in one place)."""
import json, pathlib

P = []


def prop(id, title, statement, over, qtext, why, files, mechanism, observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": list(observe)},
    })


S = "src/calliope/"
prop("C01", "Merging nested configuration is exact, precedence-respecting and isolated",
     "Merging definition B into definition A yields, at every dotted path, B's value where B defines one and A's value everywhere else, except that a null in B never wipes out a whole section of A. Without permission to override, a path defined on both sides raises a key error; with the replacement marker, exactly the marked section is replaced by the new content and everything outside it is untouched. A plain value never silently becomes a section: merging a section onto one raises a key error. The merged-in definition B is never modified.",
     ["inputs"], "all pairs of nested mappings (any depth, key overlap, nulls, lists, scalars) and all override/replacement flags",
     "Tests sample a dozen literal pairs; the claim is for every pair of trees and every flag combination.",
     [S + "attrdict.py"],
     [("AttrDict.union", S + "attrdict.py:union"), ("AttrDict.set_key", S + "attrdict.py:set_key")],
     ["AttrDict.union"])
prop("C02", "Dotted-path access, flat view and copies of nested mappings agree",
     "Setting a value at a dotted path makes exactly that path read back as the value (a mapping set onto a section is merged into it), leaves every other path unchanged, and creates missing or null parents; deleting a path removes it, and its parent if that became empty, and nothing else. The flat view lists every leaf path exactly once with its value, and rebuilding a mapping from its flat or nested view gives an equal mapping. A copy shares no nested mapping with the original, so changing one never changes the other.",
     ["inputs", "histories"], "all nested mappings with string keys, all dotted paths, all sequences of set/get/delete/copy operations",
     "Tests use one fixed fixture dictionary and a few paths.",
     [S + "attrdict.py"],
     [("AttrDict.set_key/get_key/del_key", S + "attrdict.py"), ("AttrDict.keys_nested/as_dict/copy", S + "attrdict.py")],
     ["AttrDict"])
prop("C03", "Template inheritance: local values win, nearest template next, no leftovers",
     "After template resolution every item that names a template holds its own values, plus every value from the template chain that it does not itself define, with the nearest template in the chain taking precedence over those it inherits from. No template definitions or template references remain in the resolved definition, and items naming no template are unchanged. A circular chain of templates raises a model error instead of looping or resolving partially.",
     ["inputs"], "all definitions: any template graph (chains, diamonds, cycles, any declaration order) and any nested placement of template references",
     "Tests cover one hand-written template file; precedence depends on graph shape and declaration order.",
     [S + "preprocess/model_definition.py"],
     [("TemplateSolver", S + "preprocess/model_definition.py:TemplateSolver")],
     ["TemplateSolver", "Model definition"])
prop("C04", "Override and scenario precedence when a model is defined",
     "The effective model definition gives, at every setting, the value from the highest-priority source that sets it: initialisation keywords, then the override dictionary, then the overrides of the chosen scenario, then the base definition. Scenarios expand recursively to exactly the set of overrides they name, two overrides of one scenario that set the same option raise a model error, and unknown override names raise a model error. Override definitions that are not selected have no effect on the model.",
     ["inputs", "configurations"], "all base definitions, override sets, scenario graphs, scenario strings and override dictionaries",
     "Tests check a few literal combinations; precedence is a statement over every path of every source.",
     [S + "preprocess/model_definition.py"],
     [("_load_scenario_overrides", S + "preprocess/model_definition.py"), ("_load_overrides_from_scenario", S + "preprocess/model_definition.py"), ("_combine_overrides", S + "preprocess/model_definition.py")],
     ["prepare_model_definition", "calliope.read_dict"])
prop("C05", "Math layering: later math files win, base math first, sources unmutated",
     "The math used to build a model is the base math overlaid, in order, with the math of the run mode and then each requested extra math in the user's order, where later layers win option by option and components untouched by a layer keep their earlier definition. An unknown math name raises a model error, and the stored source math is never modified by building from it. Two active components of different kinds can never share a name.",
     ["configurations", "inputs"], "all mode / extra-math / ignore-mode-math configurations and all user math dictionaries",
     "Tests check particular file combinations.",
     [S + "preprocess/model_math.py", S + "schemas/math_schema.py"],
     [("get_math_priority", S + "preprocess/model_math.py"), ("build_math", S + "preprocess/model_math.py"), ("initialise_math", S + "preprocess/model_math.py")],
     ["Model.math"])
prop("C06", "Configuration updates change exactly what was asked and nothing else",
     "Updating a configuration object returns a new object in which exactly the named (dotted) options have the new values and every other option keeps its value, while the original object is unchanged. Updates are validated like a fresh configuration: unknown options and values of the wrong type are rejected. Build- and solve-time keyword overrides therefore affect only the options named.",
     ["inputs", "configurations"], "all configuration objects, all dotted option updates, all sequences of updates",
     "Tests check a few options; frame conditions over all other options are not asserted.",
     [S + "schemas/general.py", S + "schemas/config_schema.py", S + "schemas/math_schema.py"],
     [("CalliopeBaseModel.update", S + "schemas/general.py:update")],
     ["Model.config"])
prop("C07", "Where-conditions select exactly the index combinations they describe",
     "A component condition evaluates, at every index combination, to the Boolean meaning of its text: a bare input name means the value is defined (not missing, not infinite), a bare decision variable or expression name means it exists there, and comparisons hold only where the value, or the input's default when missing, satisfies them. NOT binds tightest, AND and OR combine left to right with equal precedence, operators are case-insensitive and parentheses group, while any/all over dimensions, fixed-dimension subsets, dotted configuration references and references to undefined inputs (false) follow the same meaning. Evaluating a condition never alters the data it reads.",
     ["inputs", "programs"], "all condition strings of the grammar and all input arrays (any dimensions, missing and infinite entries)",
     "Tests evaluate a few dozen literal strings on one fixed dataset.",
     [S + "backend/where_parser.py"],
     [("EvalAnd/EvalOr/EvalNot", S + "backend/where_parser.py"), ("DataVarParser", S + "backend/where_parser.py"), ("ComparisonParser", S + "backend/where_parser.py"), ("SubsetParser", S + "backend/where_parser.py")],
     ["where_parser.generate_where_string_parser"])
prop("C08", "Math components are built exactly where their conditions hold",
     "A variable, expression or constraint exists at an index combination of its declared dimensions exactly when that combination is part of the defined node-technology-carrier set (when more than one of these dimensions is used), the component's own condition holds and, for equations, the condition of one of its equations (including sub-expression and slice conditions) holds there. If two equations of one component apply to the same index the build fails with an error rather than silently choosing one. Nothing is built outside that set, and inactive components are never built.",
     ["inputs", "programs"], "all component definitions (dimensions, conditions, multi-equation cases) and all input data",
     "Tests check selected components on fixed models.",
     [S + "backend/parsing.py", S + "backend/backend_model.py"],
     [("ParsedBackendComponent.generate_top_level_where_array", S + "backend/parsing.py"), ("_eval_equations", S + "backend/backend_model.py"), ("combine_definition_matrix_and_foreach", S + "backend/parsing.py")],
     ["backend.get_constraint", "backend.get_variable"])
prop("C09", "Math strings evaluate to the arithmetic they state",
     "An equation string evaluates to the expression a reader of ordinary arithmetic sees: a leading sign applies to its operand before other operators, powers before multiplication and division, those before addition and subtraction, with parentheses overriding and equal-precedence operators taken left to right. Missing input values take the input's declared default, slices select exactly the named labels, and each $name is replaced by its defined alternatives, one equation per combination with the conjunction of their conditions. The two sides of a comparison keep their order and operator.",
     ["programs", "inputs"], "all expression strings of the grammar over all arrays and all sub-expression/slice alternatives",
     "Tests enumerate some literal strings with scalar values.",
     [S + "backend/expression_parser.py", S + "backend/parsing.py"],
     [("EvalSignOp", S + "backend/expression_parser.py"), ("EvalOperatorOperand", S + "backend/expression_parser.py"), ("ParsedBackendComponent.parse_equations", S + "backend/parsing.py"), ("EvalSlicedComponent", S + "backend/expression_parser.py")],
     ["expression_parser.generate_equation_parser", "backend.get_constraint"])
prop("C10", "Math helper functions compute what they document, at every index",
     "Sums skip missing entries and sum over exactly the requested dimensions; conditional sums include exactly the entries selected; group sums put every entry in exactly its group; rolling by n moves each entry n places cyclically; lookups and index selections return the value at the looked-up label; defaults fill exactly the missing entries; conditional choice takes the first argument exactly where the condition holds. Helpers used in conditions give the Boolean meaning of the same. No helper modifies its arguments.",
     ["inputs"], "all arrays (dimensions, sizes, missing entries), all dimension lists, all lookup arrays and shifts",
     "Tests use a fixed small dataset and check shapes or a few values.",
     [S + "backend/helper_functions.py"],
     [("Sum, WhereAny/All, SelectFromLookupArrays, GetValAtIndex, Roll, DefaultIfEmpty, Where, GroupSum, GroupDatetime, SumNextN, ReduceCarrierDim...", S + "backend/helper_functions.py")],
     ["helper_functions registry"])
prop("C11", "Changing an input after the build equals building with the new input",
     "After input values, variable bounds or fixed variables are changed on a built model, the optimisation problem is the one that a fresh build with the changed data would produce: every constraint, expression, bound and objective that depends on the data, directly or through other components, uses the new values and nothing else changes. Missing entries in the update leave the existing values alone. Unfixing restores the variable to free, and re-fixing or re-solving uses the current values.",
     ["histories", "inputs"], "all update sequences on all inputs/variables of all built models",
     "Tests update a few parameters on one model and check the solver objects, not equality with a fresh build.",
     [S + "backend/backend_model.py", S + "backend/pyomo_backend_model.py"],
     [("update_input", S + "backend/backend_model.py"), ("_find_all_references/_rebuild_references", S + "backend/backend_model.py"), ("update_variable_bounds / fix_variable", S + "backend/pyomo_backend_model.py")],
     ["Model.backend"])
prop("C12", "Operate mode: windows tile the horizon once and storage carries over",
     "In operate mode every timestep of the model appears exactly once and in order in the results, taken from the window that starts most recently at or before it. Each window is optimised with exactly the input data of its own look-ahead horizon, and starts from the storage level at the end of the kept part of the previous window. Solving again starts from the first window and gives the same results.",
     ["inputs", "configurations", "histories"], "all horizon/window lengths, timeseries lengths (including single-window and ragged final windows) and input data",
     "Tests use two window settings on one model.",
     [S + "model.py"],
     [("_prepare_operate_mode_inputs", S + "model.py"), ("_solve_operate", S + "model.py"), ("_recalculate_storage_initial", S + "model.py")],
     ["Model.solve"])
prop("C13", "SPORES: slack cost limit, scoring rule and numbering of alternatives",
     "Every alternative generated respects the cost limit of baseline cost times one plus the slack, and is found with the penalty scores that the chosen scoring rule derives from earlier capacities: scores apply only to tracked technologies that exist, use the documented relevance threshold, and accumulate on previous scores where the rule says so. Results are numbered consecutively from the baseline (0), and continuing from existing results keeps them and adds only the missing alternatives.",
     ["inputs", "histories", "configurations"], "all capacity results, score histories, thresholds, scoring rules and restart points",
     "Tests run a few SPORES on one model and compare selected numbers.",
     [S + "model.py", S + "math/spores.yaml"],
     [("_spores_update_model", S + "model.py"), ("_solve_spores", S + "model.py"), ("total_system_cost_max", S + "math/spores.yaml")],
     ["Model.results"])
prop("C14", "A saved model loads back as the same model",
     "Saving a model to file and reading it back gives the same inputs, results, dimensions, attributes and configuration, including Boolean, string, missing and list-valued data, and the reloaded model can be rebuilt and solved to the same result. Saving never changes the in-memory model. YAML written from a definition reads back as an equal definition, and imported files merge in without overriding the importing file unless that is allowed.",
     ["inputs", "histories"], "all models, datasets (dtypes, attributes) and nested definitions; all save/load cycles",
     "Tests round-trip one example model and compare selected fields.",
     [S + "io.py", S + "model.py"],
     [("save_netcdf/read_netcdf", S + "io.py"), ("to_yaml/read_rich_yaml", S + "io.py")],
     ["Model.to_netcdf", "calliope.read_netcdf"])
prop("C15", "Reported results are the solver's values, only sub-threshold noise is zeroed",
     "Every value in the results equals the solver's value for that variable or expression at that index, and entries that were not built stay missing. Before reporting, exactly the values whose magnitude is below the configured threshold are replaced by zero: values at or above it, missing and infinite values are unchanged, every results array is treated alike, and a zero threshold changes nothing. Post-processed arrays and shadow prices are attached only when a solution or the request for them exists.",
     ["inputs", "configurations"], "all results datasets, thresholds and solver outcomes",
     "Tests check one threshold on one model.",
     [S + "model.py", S + "backend/backend_model.py"],
     [("_apply_zero_threshold", S + "model.py"), ("load_results", S + "backend/backend_model.py")],
     ["Model.results"])
prop("C16", "Data tables load every cell to the right place",
     "Every cell of a data table ends up, unchanged, at the input parameter and index labels that its row headers, column headers and the declared extra dimensions say, after the requested selection and dropping of dimensions and renaming of dimension names. Undefined cells stay undefined, later tables take precedence over earlier ones cell by cell, and template entries apply to exactly the declared table. Duplicate or inconsistent index definitions raise an error rather than dropping data.",
     ["inputs", "configurations"], "all tables (shape, headers, missing cells) and all table definitions (rows, columns, select, drop, add_dims, rename_dims)",
     "Tests use a handful of small CSVs.",
     [S + "preprocess/data_tables.py", S + "preprocess/model_data.py"],
     [("DataTable", S + "preprocess/data_tables.py"), ("ModelDataBuilder.build", S + "preprocess/model_data.py")],
     ["Model.inputs"])
prop("C17", "Time subsetting, resampling and clustering keep the right data and weights",
     "A time subset keeps exactly the timesteps inside the inclusive range with values unchanged; resampling aggregates every source timestep into exactly the interval containing it, with sum for resolution and the declared method per input; clustering maps every date to one representative date whose profiles are kept and whose weight equals the number of dates it represents. Total represented hours are preserved by resampling and clustering, and resolution equals the spacing of timesteps. Inputs without a time dimension are unaffected.",
     ["inputs", "configurations"], "all regular time series, subset ranges, resample frequencies and cluster maps",
     "Tests use one fixed model and a couple of frequencies.",
     [S + "preprocess/time.py", S + "preprocess/model_data.py"],
     [("resample", S + "preprocess/time.py"), ("cluster", S + "preprocess/time.py"), ("add_inferred_time_params", S + "preprocess/time.py")],
     ["Model.inputs"])
prop("C18", "Node, technology and link definitions map faithfully to input arrays",
     "Every value defined for a technology, node or technology-at-node appears at exactly the corresponding index of the corresponding input, node-level values taking precedence over the technology-level value, and nothing appears for technologies not listed at a node. Every indexed entry lands at exactly its index labels. Each transmission link exists at exactly its two end nodes, carrying in at both ends unless one-way, in which case only from its start to its end.",
     ["inputs"], "all model definitions: nodes, technologies, indexed data, links, activation switches",
     "Tests check selected entries of small models.",
     [S + "preprocess/model_data.py"],
     [("ModelDataBuilder._inherit_defs", S + "preprocess/model_data.py"), ("_links_to_node_format", S + "preprocess/model_data.py"), ("_param_dict_to_array", S + "preprocess/model_data.py")],
     ["Model.inputs"])
prop("C19", "Cleaning of inputs keeps all and only what the model uses",
     "After preprocessing, the existence matrix is true exactly where a technology has an inflow or outflow carrier at a node, and node/technology/carrier data outside it is removed while data inside it is unchanged. Dimension labels that no defined combination uses are dropped, and data defined with explicit missing values counts as undefined. Missing link distances are filled from node coordinates in the requested unit, never overwriting given values, and missing colours are filled without altering given ones.",
     ["inputs"], "all input datasets before cleaning",
     "Tests check selected fields on small models.",
     [S + "preprocess/model_data.py"],
     [("ModelDataCleaner.clean", S + "preprocess/model_data.py")],
     ["Model.inputs"])
prop("C20", "Model lifecycle gates: no stale or accidental overwrite of problem or results",
     "A model cannot be solved before it is built, cannot be built again without force once built, and cannot be solved again without force once results exist; a refused operation leaves inputs, configuration, built problem and results as they were. With force, the result is the same as from a fresh model. Configuration given at build or solve time is remembered, and the status flags always say whether a problem and results exist.",
     ["histories"], "all sequences of build/solve/force calls and failures",
     "Tests check individual transitions.",
     [S + "model.py"],
     [("Model.build", S + "model.py"), ("Model.solve", S + "model.py")],
     ["Model"])
prop("C21", "Carrier balance and conversion: nothing is created or lost",
     "In every feasible solution of the base formulation, at every node, carrier and timestep, total outflow minus inflow minus export plus unmet demand plus unused supply is zero. Conversion technologies and transmission links deliver exactly the efficiency-adjusted input, summed over carriers (and both ends of a link), and demand and supply technologies exchange exactly, or at most or at least, their declared sink and source amounts scaled by the declared unit (absolute, area or capacity). These relations hold wherever the corresponding technology is defined and whatever subset of inputs is given.",
     ["inputs", "programs"], "all models (dimensions, data, missing inputs) and all feasible solutions",
     "Tests compare generated LP files for some components on fixed data.",
     [S + "math/base.yaml", S + "backend/backend_model.py", S + "backend/parsing.py"],
     [("system_balance, balance_conversion, balance_transmission, balance_demand, balance_supply_*", S + "math/base.yaml")],
     ["Model.results", "backend.get_constraint"])
prop("C22", "Storage evolves by the stated dynamics and stays within its limits",
     "In every feasible solution of the base formulation the stored amount at each timestep equals the amount at the previous step, reduced by the hourly loss over the previous step's duration, plus efficiency-adjusted inflow (or source) minus outflow. The first step starts from the initial fraction of capacity, or wraps around from the last step when storage is cyclic; with both, the final level after loss equals the initial level. Stored amount never exceeds capacity nor falls below the reserve fraction.",
     ["inputs"], "all storage parameters, timestep resolutions, horizons and feasible solutions",
     "Tests compare generated LP text for one fixed case per component.",
     [S + "math/base.yaml"],
     [("balance_storage, balance_supply_with_storage, set_storage_initial, storage_max, storage_discharge_depth_limit", S + "math/base.yaml")],
     ["Model.results"])
prop("C23", "Operation respects installed capacity, ramping, link symmetry and system limits",
     "In every feasible solution of the base formulation flows never exceed installed capacity times timestep length (times parasitic efficiency for outflow) nor fall below a declared minimum share; ramping between consecutive timesteps stays within the declared fraction; links have equal capacity at both ends; exported flow is part of outflow. Node area limits, system-wide capacity limits, capacity-to-storage ratios and area-per-capacity relations hold wherever they are declared and are absent elsewhere.",
     ["inputs"], "all models and feasible solutions",
     "Tests compare LP text for one fixed case per component.",
     [S + "math/base.yaml"],
     [("flow_out_max, flow_in_max, flow_out_min, ramping_*, symmetric_transmission, area_use_*, flow_capacity_*", S + "math/base.yaml")],
     ["Model.results"])
prop("C24", "Total cost is the sum of its parts and the objective weighs it as declared",
     "Every reported cost equals annualised investment plus fixed operation plus weighted time-dependent operation cost of the same technology, node and cost class, each computed from capacities and flows by the documented formula, with annualisation by interest rate and lifetime and scaling by the modelled share of the year. Transmission links' costs are split evenly over both ends. The default objective equals the sum over cost classes of weight times cost plus the penalty on unmet demand, weighted by timestep.",
     ["inputs"], "all cost inputs (any subset defined), capacities and flows",
     "Tests check a few hand-computed totals.",
     [S + "math/base.yaml"],
     [("cost*, global expressions; min_cost_optimisation", S + "math/base.yaml")],
     ["Model.results"])
prop("C25", "Decision variables get their declared bounds, domain and defaults everywhere",
     "Every built variable has exactly the lower and upper bound declared for it at its index, taking the value given, else the input's default, with infinite bounds meaning unbounded, and integer variables are integer. Variables are reported and referenced at exactly the indices at which they exist, and absent ones count as their declared default in expressions. Fixing, unfixing and bound changes touch only the requested indices.",
     ["inputs"], "all variable definitions, bound inputs (missing, infinite, scalar, subset of dimensions) and index sets",
     "Tests check chosen variables on fixed models.",
     [S + "backend/backend_model.py", S + "backend/pyomo_backend_model.py"],
     [("_get_variable_bound / add_variable", S + "backend/backend_model.py"), ("PyomoBackendModel.add_variable", S + "backend/pyomo_backend_model.py")],
     ["backend.get_variable", "backend.get_variable_bounds"])

out = pathlib.Path(__file__).resolve().parents[1] / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))

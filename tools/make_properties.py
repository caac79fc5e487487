"""Source of /verif/properties.jsonl (run: python tools/make_properties.py)."""
import json, pathlib

S = "src/calliope/"
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {
            "files": [S + f for f in files],
            "state": [dict(name=a, meaning=b, where=S + c) for a, b, c in state],
            "mechanism": [dict(name=a, where=S + b) for a, b in mechanism],
            "observe_at": list(observe),
            "hook_needed": None,
        },
    })


prop("C01", "Nested dictionaries edit and merge like plain trees",
     "After any sequence of dotted-key reads, writes, deletions and merges, a model-definition dictionary holds exactly what applying the documented rules (later value wins, sub-blocks are merged key by key, an empty value never wipes a block, a replacement marker swaps a whole block, a deleted last child removes its parent) to a plain nested tree gives. A merge that is not allowed to override raises when a leaf is defined twice. Copies are independent of their source and the right-hand side of a merge is never changed.",
     ["histories"], "all sequences of dictionary operations up to the stated depth over a fixed alphabet of keys and values",
     "Tests run one operation on one hand-written dictionary; merge bugs need combinations (None over block, marker plus override, write after delete).",
     ["attrdict.py"], [("set/get/del/union with dotted keys", "attrdict.py")],
     [("tree", "nested key/value content", "attrdict.py")], ["as_dict", "keys_nested", "as_dict(flat)"])

prop("C02", "Model definitions compose by a fixed priority",
     "The definition a model is built from is the base file with, in increasing priority, its templates, its own values, the overrides of the chosen scenario, the override dictionary and initialisation keywords; an imported file may add to the file that imports it but not redefine its keys. Every key takes the value of the highest-priority source that gives one, untouched keys keep theirs, and no result depends on the order of override names within a scenario. Undefined, doubly specified or circular references raise an error.",
     ["configurations", "inputs"], "all assignments of a small key set to the priority layers, all template inheritance graphs and scenario expressions of bounded size, all import trees of bounded depth",
     "Each source is tested on its own or in one pair; the ordering claim is over every combination of sources and keys.",
     ["preprocess/model_definition.py", "io.py", "attrdict.py", "model.py"],
     [("scenario/override application", "preprocess/model_definition.py"), ("template resolution", "preprocess/model_definition.py"), ("import statement", "io.py")],
     [], ["model.config", "model.definition", "model.runtime.applied_overrides"])

prop("C03", "Configuration objects are immutable and update like a fresh start",
     "Updating a configuration with any (nested or dotted) set of options yields a new configuration that equals one created from the merged options, leaves the original unchanged, and survives a dump and reload. Options that are unknown or out of their documented range are always rejected, however they are supplied.",
     ["histories", "inputs"], "all update sequences up to the stated depth over an alphabet of valid and invalid options of the init, build and solve groups",
     "Tests update one option once; immutability and update/merge equivalence are statements about every chain of updates.",
     ["schemas/config_schema.py", "schemas/general.py", "schemas/__init__.py", "model.py"],
     [("frozen models and update()", "schemas/general.py"), ("option schema", "schemas/config_schema.py")], [], ["model_dump", "model.config"])

prop("C04", "Applied math is the ordered overlay of the selected math files",
     "The math applied to a model is the base math, overlaid by the math of the chosen mode, overlaid by the requested extra math in the listed order: for every component attribute the last math that sets it wins and everything else is kept. Asking for a math that does not exist, or ending with two active components of the same name, always raises, and the math library itself is unchanged by building from it.",
     ["configurations"], "all ordered selections of up to three extra maths from a small library (including clashes), in every mode",
     "Tests check single overlays; the claim ranges over every order and every combination of overlays.",
     ["preprocess/model_math.py", "schemas/math_schema.py", "model.py"],
     [("priority order and union", "preprocess/model_math.py"), ("unique names", "schemas/math_schema.py")], [], ["model.math.build", "model.runtime.math_priority"])

prop("C05", "Where strings mean boolean algebra over the model data",
     "For any where string built from data existence, comparisons (with defaults filled in), configuration values, set subsets, the any/defined helpers, not, and, or and brackets, the selected index elements are exactly those for which the boolean formula is true. `and`/`or` combine left to right unless bracketed. Missing or infinite data counts as absent, names without data select nothing, and an element outside the definition matrix is never selected.",
     ["programs", "inputs"], "all where-string syntax trees up to the stated size over a data alphabet containing missing, infinite, zero, boolean, string and multi-dimensional data",
     "Unit tests evaluate hand-picked strings; precedence, negation and missing-data rules interact and have to hold for every formula.",
     ["backend/where_parser.py", "backend/parsing.py", "backend/helper_functions.py"],
     [("where grammar", "backend/where_parser.py"), ("combination with foreach and definition matrix", "backend/parsing.py")], [], ["evaluate_where"])

prop("C06", "Expression strings mean ordinary arithmetic over the model data",
     "For any expression built from numbers, inputs, variables, +, -, *, /, **, brackets, slices and comparison operators, the built term at every index element equals the arithmetic value under standard operator precedence of the data matched by dimension name, with documented defaults replacing missing elements.",
     ["programs", "inputs"], "all expression trees up to the stated number of operators over an alphabet of scalars and arrays of different dimensions, rendered with and without redundant brackets",
     "Unit tests evaluate hand-picked strings; operator precedence and default filling must hold for every nesting.",
     ["backend/expression_parser.py", "backend/parsing.py", "backend/backend_model.py", "backend/pyomo_backend_model.py"],
     [("expression grammar and evaluation", "backend/expression_parser.py")], [], ["evaluate_expression", "global expressions"])

prop("C07", "Each selected index element gets exactly one equation",
     "For any component with several equations, sub-expressions and slices, every index element selected by the component's own conditions receives the expression of the one equation (and sub-expression alternatives) whose condition it meets. If two alternatives apply to the same element, or the equation that applies (or one side of a constraint) has no value there, an error is raised; elements outside the selection stay empty.",
     ["programs", "configurations"], "all components with up to two equations, two sub-expressions with up to two alternatives each, and all assignments of their conditions to subsets of a small index",
     "The product expansion of equations and alternatives has far more combinations than the tests list, and overlap checks must fire in each.",
     ["backend/parsing.py", "backend/backend_model.py"],
     [("equation/sub-expression product", "backend/parsing.py"), ("overlap detection", "backend/backend_model.py")], [], ["backend constraints/global expressions"])

prop("C08", "Helper functions compute their documented array operation",
     "For every small array and every argument, sum, roll, sum-next-n, lookup selection, value-at-index, where, group-sum, group-by-datetime, carrier reduction, any and defined return exactly the documented elementwise result, including missing entries, wrap-around, duplicate groups and single-element dimensions.",
     ["inputs"], "all arrays over a small value alphabet with dimension lengths up to the stated bound and all arguments in range",
     "Unit tests check one array per helper; off-by-one and missing-value errors hide in other shapes and arguments.",
     ["backend/helper_functions.py"], [("helper functions", "backend/helper_functions.py")], [], ["helper results inside expressions and where strings"])

prop("C09", "An edited optimisation problem equals one built afresh",
     "After any sequence of input updates, bound updates, fixing and unfixing, objective switches and component additions or deletions on a built problem, the problem that would be sent to the solver has the same variables, bounds, constraints and objective as one built from scratch from the final inputs with the same remaining edits. This holds for every backend, and rejected edits change nothing.",
     ["histories"], "all operation sequences up to the stated depth over an alphabet of edits (scalar and partial updates, updates that add, remove or retouch conditions), on each backend",
     "Tests apply one edit to one component; stale references, rebuild order and lost components only show after particular sequences.",
     ["backend/backend_model.py", "backend/pyomo_backend_model.py", "backend/gurobi_backend_model.py"],
     [("in-place parameter update / rebuild of references", "backend/backend_model.py")],
     [("references", "which components use a component", "backend/backend_model.py"), ("backend dataset", "arrays of solver objects", "backend/backend_model.py")], ["problem matrix read from the solver interface"])

prop("C10", "Both solver interfaces build the same problem",
     "For any model definition and math, the optimisation problem assembled through the Pyomo interface and through the Gurobi interface has the same variables with the same bounds and domains, the same constraints and the same objective, and the same arrays of inputs are exposed.",
     ["configurations", "programs"], "all combinations of the stated model features and a family of custom math components",
     "Tests compare a few components per backend; equivalence is over every feature combination.",
     ["backend/pyomo_backend_model.py", "backend/gurobi_backend_model.py", "backend/backend_model.py"],
     [("two implementations of the backend API", "backend/")], [], ["problem matrix read from each solver interface"])

prop("C11", "The model life cycle never loses or mislabels results",
     "Over any sequence of build, solve, save, reload and edit calls, with or without force, a model refuses to solve before it is built, refuses to overwrite a built problem or existing results unless forced, and reports built and solved states, termination condition and results of the last successful solve. A call that fails leaves the previous results and inputs as they were, and a forced repeat gives the same answer as a first run.",
     ["histories", "fault_sequences"], "all call sequences up to the stated depth including infeasible problems and failing solver calls",
     "Tests follow a few straight-line scripts; state errors need specific orders of calls.",
     ["model.py", "backend/backend_model.py"],
     [("build/solve guards", "model.py")], [("is_built / is_solved / results", "life-cycle state", "model.py")], ["is_built", "is_solved", "results", "runtime"])

prop("C12", "Rolling-horizon operation covers every time step once",
     "For any admissible window, horizon and time series length, operate mode returns exactly one result per time step in order; each window is optimised over its own horizon of input data, and each starts from the storage level at the end of the previous window. Repeating the run gives the same results, and the model's own inputs are unchanged apart from helper coordinates.",
     ["configurations", "histories"], "all (window, horizon, length) triples up to the stated length and all re-run sequences up to the stated depth",
     "Tests use two window/horizon pairs on one series; boundary cases (partial last window, horizon equal to window, single window, re-solve) are combinations.",
     ["model.py", "backend/backend_model.py", "math/operate.yaml"],
     [("window loop and storage hand-over", "model.py")], [("start window index", "which window the built problem represents", "model.py")], ["results.timesteps", "storage", "problem data at each solver call"])

prop("C13", "SPORES runs are scored, bounded and restartable",
     "Every alternative stays within the allowed slack of the baseline cost, is scored exactly by the chosen algorithm applied to the technologies tracked, and is labelled with its run number. A run stopped after any number of alternatives and continued gives the same alternatives as an uninterrupted run, and saved per-run files hold exactly the completed runs.",
     ["histories", "crash_points"], "all split points of a run, all scoring algorithms, tracking subsets and fault positions up to the stated number of alternatives",
     "Tests run one configuration; equivalence of interrupted and uninterrupted runs is over all interruption points.",
     ["model.py", "math/spores.yaml", "io.py"],
     [("SPORES loop and scoring", "model.py")], [("spores_score / baseline cost", "problem state carried between runs", "model.py")], ["results over the spores dimension", "saved files"])

prop("C14", "Saving and loading a model loses nothing, and a failed save harms nothing",
     "A model saved to NetCDF at any stage and read back has the same inputs, results, configuration, definition, math and life-cycle state, and building it gives the same optimisation problem; saving does not modify the model. If writing fails at any point, the model in memory stays as it was and a later save succeeds.",
     ["inputs", "crash_points"], "all attribute value types and nestings up to the stated depth, all model stages, all points at which a write step can fail",
     "Round-trip tests use two example models; losses depend on value types, and failure points are not tested at all.",
     ["io.py", "model.py"], [("attribute (de)serialisation", "io.py")], [], ["read_netcdf(save_netcdf(x))"])

prop("C15", "Tabular and YAML definitions give the same model data",
     "Data given as a CSV file or data frame in any row/column layout, with dimensions selected, dropped, added or renamed in that order, yields the same model inputs as the equivalent YAML definition. Later tables override earlier ones element by element, YAML overrides tables, and ambiguous or incomplete tables raise a model error instead of loading silently; results exported to CSV read back equal to the results.",
     ["inputs", "configurations"], "all layouts of a small data cube over rows, columns and added dimensions, all select/drop/rename combinations, all orders of overlapping tables",
     "Tests load fixed tables; equivalence is over every layout and every order.",
     ["preprocess/data_tables.py", "preprocess/model_data.py", "io.py"],
     [("table restructuring", "preprocess/data_tables.py"), ("merge into dataset", "preprocess/model_data.py")], [], ["model.inputs", "CSV files"])

prop("C16", "Technologies exist exactly where and as they are defined",
     "For any arrangement of nodes, technologies, links and activity switches, a technology exists at exactly the active nodes that list it (links at both their active ends, one-way links only in their direction), with the carriers it declares; each input value is the one set at the node if any, else the technology's own. Switching an item off, or dropping its node by subsetting, is the same as never having defined it.",
     ["configurations"], "all activity assignments and override placements over a small system of nodes, technologies and links",
     "Tests deactivate one item at a time in one model; equivalence with absence is over all combinations.",
     ["preprocess/model_data.py", "preprocess/model_definition.py"],
     [("node/tech inheritance, deactivation, links", "preprocess/model_data.py"), ("definition matrix", "preprocess/model_data.py")], [], ["model.inputs.definition_matrix", "model.inputs"])

prop("C17", "Subsetting, resampling and clustering conserve time",
     "For any subset, resampling or clustering of a time series, the kept period is exactly the one requested, every output step aggregates exactly its own input steps with the documented method (sums for energy, means for rates), the step durations and weights add up to the represented period, and every original day maps to one representative day. Loading an already processed model does not process it again.",
     ["inputs", "configurations"], "all series lengths, subset bounds, resampling steps and day-to-representative assignments up to the stated bounds",
     "Tests use one year of data with one setting; conservation is over all lengths, bounds and assignments.",
     ["preprocess/time.py", "preprocess/model_data.py"],
     [("resample/cluster/subset", "preprocess/time.py")], [], ["model.inputs"])

prop("C18", "The built base problem admits exactly the physically valid dispatches",
     "For any small energy system, a plan of capacities, flows and storage levels satisfies the built constraints if and only if it balances every carrier at every node and step, respects efficiencies, losses, capacities, source and sink requirements, ramping, minimum output and initial, cyclic and depth-of-discharge storage rules; its objective value is its total annualised investment and operating cost. The solved optimum equals the cheapest valid plan.",
     ["configurations", "inputs"], "all plans on an integer grid for each system of a family covering every base technology type and feature, compared with an explicit-state dispatch model explored exhaustively",
     "Tests compare constraint names and example-model numbers; that no plan is wrongly allowed or forbidden needs the whole space of plans.",
     ["math/base.yaml", "backend/backend_model.py", "backend/pyomo_backend_model.py", "backend/parsing.py"],
     [("base math", "math/base.yaml")], [], ["constraint matrix of the built problem", "solver optimum"])

prop("C19", "Reported results follow from the solution",
     "Reported results are the solver's values on exactly the built index, with values below the zero threshold in magnitude replaced by zero and nothing else changed. Derived indicators (capacity factors, total generation, levelised cost, curtailment, net unmet demand) equal their documented formula on the solver's values (the threshold then applies to them as well), and are present exactly where their condition holds.",
     ["inputs", "configurations"], "all solution vectors over a small value alphabet around the threshold, on a family of small systems",
     "Tests check indicators on example models; the claims are over all solution values.",
     ["model.py", "backend/backend_model.py", "math/base.yaml", "backend/pyomo_backend_model.py"],
     [("postprocessed math", "math/base.yaml"), ("zero threshold", "model.py")], [], ["model.results"])

prop("C20", "Shadow prices reported are those requested, for the problem solved",
     "After any sequence of solves with different shadow-price requests, the results hold a shadow price for exactly the valid constraints last requested, indexed as the constraint, and equal to the change in the objective per unit change of that constraint's right-hand side. Unknown names are ignored with a warning, and integer problems give none.",
     ["histories", "inputs"], "all sequences of requests up to the stated depth on continuous and integer problems and both tracking ways",
     "Tests request prices once per model; stale tracking needs sequences.",
     ["backend/backend_model.py", "backend/pyomo_backend_model.py", "backend/gurobi_backend_model.py", "model.py"],
     [("shadow price tracking", "backend/backend_model.py")], [("tracked constraints", "requests carried between solves", "backend/backend_model.py")], ["model.results", "backend.shadow_prices"])

prop("C21", "Command-line runs and run scripts cover each requested run once",
     "For any model file, scenario, override and output options, the command-line run gives the same inputs, results and problem files as the equivalent Python calls, writes every output asked for and nothing else, signals failure and infeasibility by its exit code, and leaves existing result or model directories untouched. Generated scenario files and run scripts contain every requested combination or scenario exactly once with the options given, each run uses its own output path, and cluster scripts request the tasks and resources asked for.",
     ["configurations", "inputs"], "all combinations of command-line options and all override group lists up to the stated size, for every script type",
     "Tests invoke single option sets; coverage of runs is over all combinations.",
     ["cli.py", "util/generate_runs.py"],
     [("click commands", "cli.py"), ("script generation", "util/generate_runs.py")], [], ["output files", "generated scripts"])

prop("C22", "Invalid models are refused, valid ones are not",
     "A model definition is refused with an error exactly when it breaks a documented check (missing base technology, unbounded negative cost, infinite requirement, distance on non-links, partial coordinates, bad export carrier, storage fraction outside [0, 1], and mode-specific rules), and merely warned about for the documented warnings. A refused build leaves no built problem behind.",
     ["configurations"], "all combinations of faulty and sound settings over a small system, one or two at a time",
     "Tests trigger each check once from one model; false refusals and masked errors need combinations.",
     ["backend/backend_model.py", "math/base.yaml", "math/operate.yaml", "preprocess/model_data.py"],
     [("checks section", "math/base.yaml"), ("check evaluation", "backend/backend_model.py")], [], ["model.build outcome"])

prop("C23", "The model is a function of its definition",
     "Loading and building the same definition always gives the same inputs and the same optimisation problem: neither hash seeds, nor the order in which nodes, technologies, parameters or math components of equal standing are listed, nor models loaded earlier in the session change it. Loading and building never changes the dictionaries, data frames and files they were given.",
     ["schedules", "configurations"], "all permutations of the definition's listings, all interleavings of two models' life cycles up to the stated depth, and a fixed list of hash seeds",
     "Tests run in one order and process; the claim is over all orders.",
     ["model.py", "preprocess/model_data.py", "preprocess/model_definition.py", "backend/parsing.py", "backend/backend_model.py"],
     [("preprocessing pipeline", "preprocess/"), ("math build order", "backend/backend_model.py")], [], ["model.inputs", "problem matrix"])

prop("C24", "Optional built-in math keeps its documented meaning",
     "With the unit-commitment math, a plan satisfies the built constraints if and only if unit counts, operating units, asynchronous flow and purchase rules hold; with the inter-cluster storage math, storage levels follow the original day sequence. Adding an optional math does not change the meaning of systems that use none of its inputs.",
     ["configurations", "inputs"], "all integer plans for a family of small systems using each optional feature",
     "Tests compare text of the constraints; meaning is over the space of plans.",
     ["math/milp.yaml", "math/storage_inter_cluster.yaml"],
     [("optional math", "math/")], [], ["constraint matrix of the built problem"])

prop("C25", "Math documentation shows what is built",
     "The generated math documentation lists every active component of the math exactly once and, when limited to a given model, exactly those components the model builds; each is shown with its index sets, conditions, references, default and unit, and documenting a model changes neither its math nor its inputs.",
     ["configurations", "programs"], "all combinations of the stated custom components and model features, for each output format",
     "Tests compare fixed strings for fixed components.",
     ["backend/latex_backend_model.py", "postprocess/math_documentation.py"],
     [("LaTeX backend", "backend/latex_backend_model.py")], [], ["written documentation"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(p) + "\n" for p in P))
print(len(P))

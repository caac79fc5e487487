NOTES = {
 "C01": ("explicit-state BFS over dictionary operation histories, every transition replayed on the real class",
         "Exhaustive within the stated depth and alphabet; trusts the plain-tree reference model in mc/c01.py."),
 "C02": ("explicit-state exploration of definition-composition programs (imports, overrides, scenarios, override dicts, templates), each replayed on the real loader",
         "Exhaustive within the stated numbers of files, overrides and keys; trusts the reference composition in mc/c02.py."),
 "C03": ("explicit-state exploration of configuration update histories, each replayed on the real class",
         "Exhaustive within the stated depth and alphabet; trusts the plain-dict reference model in mc/c03.py."),
 "C04": ("explicit-state exploration of math overlay programs (ordered selections, modes, math dictionaries, re-selection on load), each replayed on the real loader",
         "Exhaustive over the stated math library and lattice; trusts the plain-tree overlay in mc/c04.py."),
 "C05": ("exhaustive enumeration of where-string syntax trees up to the stated size, each evaluated by the real backend and by a reference boolean evaluator",
         "Exhaustive over the stated grammar fragment and data alphabet; trusts the reference evaluator in mc/c05.py."),
 "C06": ("exhaustive enumeration of expression trees up to the stated number of operators, each built by the real backends and evaluated at several variable assignments against ordinary arithmetic",
         "Exhaustive over the stated operators, leaves and shapes; arithmetic identity is judged at fixed evaluation points chosen to separate the leaves."),
 "C07": ("exhaustive enumeration of equation / sub-expression / slice / where combinations of a component, each built by the real backends and compared with an element-by-element selection oracle",
         "Exhaustive over the stated where alphabet and equation counts; trusts the selection oracle in mc/c07.py."),
 "C08": ("exhaustive enumeration of small arrays (all missing patterns, symbolic entries) and helper arguments, each evaluated by the real helper and by a loop over plain dictionaries",
         "Exhaustive over the stated array shapes and arguments; one family of the two-lookup selection strides the second lookup in the quick tier."),
 "C09": ("explicit-state exploration of edit histories of a built problem (all sequences of the stated edits to the stated depth), each replayed on both real interfaces and the extracted solver problem compared with one built afresh from the reference state",
         "Exhaustive over the stated edit alphabet and depth; trusts the reference input state in mc/c09.py and the fresh build as oracle."),
 "C10": ("exhaustive enumeration of system-feature sets, example models and single components, each assembled by the real code through both solver interfaces and the two extracted solver problems compared element by element",
         "Exhaustive over the stated feature sets and component forms; each interface is the oracle of the other (faults common to both are the business of C05-C09 and C18)."),
 "C11": ("explicit-state breadth-first search of the life-cycle protocol plus all operation sequences to the stated depth, every transition replayed on the real model and compared with the reference state (results, problem held, options, flags)",
         "Exhaustive over the stated operations and depths; expected results come from a fresh model of the same variant."),
 "C12": ("exhaustive enumeration of series lengths, windows and horizons; each run's sequence of solver calls is recorded and every window's extracted problem compared with a fresh build of its slice",
         "Exhaustive over the stated lengths, windows, horizons and data patterns; the fresh build of a slice is the oracle for a window."),
 "C13": ("explicit exploration of (scores, capacities) with the solver's answers enumerated by a scripted stand-in, compared with a reference scorer; exhaustive split, crash and write-fault points on real runs",
         "Exhaustive over the stated capacity patterns, sequences, algorithms, thresholds, tracking choices, split points and faults; each traced problem is read from the solver interface."),
 "C14": ("exhaustive enumeration of attribute values, texts, array types and life-cycle stages through save/load, and fault injection at every write step of a save",
         "Exhaustive over the stated alphabets and stages; every write step of a save fails once before and once after it took effect."),
 "C15": ("exhaustive enumeration of table layouts, restructuring options and source orders against the equivalent YAML definition",
         "Exhaustive over the stated cubes, layouts, option combinations and source placements; trusts the small interpreter of the documented restructuring order in mc/c15.py."),
 "C16": ("exhaustive enumeration of activity switches, node/technology subsets, value placements and link options on the real loader, against the reduced definition and the documented rules",
         "Exhaustive over the stated switches, subsets, placements and link options; two oracles: the definition without the switched-off items, and the rules restated in mc/c16.py."),
 "C17": ("exhaustive enumeration of subset bounds, resampling rules, series shapes and day-to-representative assignments on the real loader, each compared with plain arithmetic on (time, value) lists; settings replayed through save/load",
         "Exhaustive over the stated series, bounds, rules and assignments; trusts the list arithmetic in mc/c17.py; bins of resampling follow pandas' calendar conventions."),
 "C18": ("explicit-state enumeration: all plans of a grid allowed by the documented dispatch rules and all plans allowed by the rows extracted from the built problem, layer by layer over partial plans; the two sets and every plan's cost must be equal, and the solver's optimum must be a valid, cheapest plan",
         "Exhaustive over the stated systems and grids; trusts the rules restated in mc/plans.py; values between grid points are covered only by the solver's optimum."),
 "C19": ("exhaustive enumeration of scripted solver answers (all combinations of a value alphabet around the zero threshold at chosen variables) through the real results path, every result and indicator compared with the documented formula; plus real runs in all modes",
         "Exhaustive over the stated systems, alphabets and thresholds; the solver is replaced by a stand-in that returns the chosen values; trusts the formulas restated in mc/c19.py."),
 "C20": ("exhaustive enumeration of solve histories (requests, problem edits, solvers) on a real model, every reported price compared with finite-difference slopes of the optimal cost, for both interfaces and all modes",
         "Exhaustive over the stated requests and history lengths; prices at degenerate optima must lie between the left and right slopes."),
 "C24": ("explicit-state enumeration: all integer plans of a grid allowed by the documented unit-commitment rules against all plans allowed by the extracted rows; all flow plans of clustered systems against the level followed over the original days, with exact elimination of the virtual variables",
         "Exhaustive over the stated systems, assignments of days and grids; trusts the rules restated in mc/plans.py and mc/c24.py."),
 "C21": ("exhaustive enumeration of command-line invocations (sources x outputs x existing targets x solvers x modes), override groups and script requests, every file left behind compared with the Python calls; generated shell scripts are executed with a stand-in that records each run",
         "Exhaustive over the stated options and lists; the Python calls are the oracle for runs; Windows scripts are read by a small parser."),
 "C22": ("exhaustive enumeration of valid and invalid definitions (every documented rule x every combination of the values it looks at x ways of giving them x modes) through loading and building, compared with the rules restated as predicates",
         "Exhaustive over the stated values and combinations; trusts the documented rules restated in mc/c22.py."),
 "C25": ("exhaustive enumeration of systems, switched-off components and custom components (kind x index sets x condition x equation form x attributes x activity), each documented in every scope and format and taken apart by a small reader, compared with the math definition and with the problem the solver interface builds",
         "Exhaustive over the stated components and systems; formulas are compared by symbols, equations, index sets, conditions that apply, sense and domain, not by their arithmetic."),
 "C23": ("exhaustive enumeration of the orders of every listing of a rich definition, of all interleavings of the life cycles of two models, and of a list of hash seeds (one fresh process each), each compared with a reference run; deep comparison of the caller's objects before and after",
         "Exhaustive over the stated listings, orders (all permutations of short listings, swaps/rotations/reversal of long ones), interleavings and pairs; hash seeds are a fixed list."),
}
NA = {}

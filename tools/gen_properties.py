#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate it)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

NOUNIT = "The runnable tests reach the analysis core only through CLI exit codes and the GUI model; no test looks at a single analysis number, and even the (unbuildable) unit tests use a fixed set of models. "

prop("C01", "Minimal cut sets are exactly right for every algorithm",
  "For every valid fault tree, the BDD, ZBDD and MOCUS algorithms each report exactly the set of minimal cut sets of the top event whose order does not exceed the configured product-order limit: nothing missing, nothing non-minimal, no duplicates, no spurious products. "
  "For non-coherent trees (analysed without the prime-implicant option) a cut set is a minimal set of basic events whose occurrence, with all the others not occurring, makes the top event true or whose subset of true points does (the minimal elements of the monotone hull). "
  "Constant tops are reported as the empty set or as the single empty (unity) product.",
  ["inputs", "configurations"],
  "All well-formed fault trees (all connectives and/or/not/nand/nor/xor/iff/imply/atleast/cardinality/null, complemented arguments, shared gates, modules, house events and constants) x 3 algorithms x product-order limits.",
  NOUNIT + "The preprocessor and the three algorithms apply dozens of structure-triggered rewrites (modules, merging, common arguments, Boolean optimisation, coalescing), each needing particular shapes of sharing.",
  ["src/preprocessor.cc", "src/pdag.cc", "src/bdd.cc", "src/zbdd.cc", "src/mocus.cc", "src/fault_tree_analysis.cc"],
  [("graph construction from the model", "src/pdag.cc"), ("preprocessing rewrites", "src/preprocessor.cc"), ("BDD to ZBDD conversion, minimisation and truncation", "src/zbdd.cc"), ("MOCUS expansion", "src/mocus.cc")],
  ["products of each analysed top event (report <sum-of-products>, RiskAnalysis results)"])

prop("C02", "Prime implicants are exactly the prime implicants of the top event",
  "With the prime-implicant option, the reported products of any valid fault tree, coherent or not, are exactly the prime implicants of the top event's Boolean function over literals (events and complements) whose order does not exceed the product-order limit. "
  "Every reported product is an implicant, no literal can be dropped from it, and no prime implicant within the limit is missing or repeated.",
  ["inputs", "configurations"],
  "All well-formed fault trees up to the sizes enumerated by the reference model x product-order limits.",
  NOUNIT + "Prime implicants use a separate consensus path through the decision diagrams and modules that no runnable test executes on a non-coherent model.",
  ["src/zbdd.cc", "src/bdd.cc", "src/preprocessor.cc", "src/fault_tree_analysis.cc"],
  [("prime-implicant conversion with consensus", "src/bdd.cc, src/zbdd.cc"), ("preprocessing that keeps the function", "src/preprocessor.cc")],
  ["products of each analysed top event with --prime-implicants"])

prop("C03", "Exact top-event probability equals the true probability",
  "When no approximation is requested, the reported probability of any top event equals the sum, over all combinations of independent basic-event states that make the top event true, of the combination's probability, up to floating-point rounding. "
  "This holds for coherent and non-coherent trees, shared events, modules, house events and constants, and does not depend on the product-order limit or on whether prime implicants are requested.",
  ["inputs", "configurations"],
  "All well-formed fault trees and all basic-event probabilities in [0,1] (including 0 and 1) x BDD configurations.",
  NOUNIT + "An error in complement edges, module handling, node sharing or preprocessing changes numbers only.",
  ["src/bdd.cc", "src/probability_analysis.cc", "src/preprocessor.cc", "src/pdag.cc"],
  [("BDD construction with complement edges and modules", "src/bdd.cc"), ("memoised traversal", "src/probability_analysis.cc")],
  ["probability of <sum-of-products>, probability analysis result"])

prop("C04", "Approximate probabilities follow their definitions and bounds",
  "With the rare-event approximation the reported probability is the sum of the probabilities of the reported products, capped at 1; with the min-cut-upper-bound approximation it is one minus the product over the products of (1 - product probability). "
  "A product's probability is the product of its literals' probabilities, and its contribution is that value divided by the sum over all products. "
  "For coherent trees with no effective order limit, exact <= MCUB <= rare-event.",
  ["inputs", "configurations"],
  "All well-formed fault trees and probabilities x {ZBDD, MOCUS, BDD} x {rare-event, MCUB} x product-order limits.",
  NOUNIT + "The CLI tests only check that the options are accepted.",
  ["src/probability_analysis.cc", "src/fault_tree_analysis.cc", "src/reporter.cc", "src/settings.cc"],
  [("rare-event and MCUB calculators", "src/probability_analysis.cc"), ("product probability", "src/fault_tree_analysis.cc")],
  ["probability, product probability and contribution attributes"])

prop("C05", "Importance factors match their definitions",
  "For each basic event occurring in the products, the reported factors satisfy: MIF is the partial derivative of the (exact or approximate, as configured) top probability with respect to the event's probability, that is P(top | event certain) - P(top | event impossible); CIF = p*MIF/P, RAW = 1+(1-p)*MIF/P, DIF = p*RAW, RRW = P/(P - p*MIF). "
  "The occurrence count equals the number of reported products containing the event, and exactly the events occurring in products are reported.",
  ["inputs", "configurations"],
  "All well-formed fault trees and probabilities x {exact BDD, rare-event, MCUB} x algorithms; events inside modules, complemented and shared events.",
  NOUNIT + "Importance output is never inspected by the runnable tests.",
  ["src/importance_analysis.cc", "src/importance_analysis.h", "src/bdd.cc", "src/probability_analysis.cc"],
  [("BDD derivative with module recursion", "src/importance_analysis.cc"), ("conditional re-evaluation for approximations", "src/importance_analysis.h")],
  ["<importance> report element, importance analysis result"])

prop("C06", "Common-cause failure models redistribute failure as defined",
  "With CCF analysis enabled, replacing a group's members by the common-cause events yields exactly the results of the tree in which each member is an OR of one independent event per subset of the group containing it, with the subset probabilities given by the beta-factor, MGL, alpha-factor or phi-factor formula for the provided factors and levels. "
  "Without CCF analysis the members behave as ordinary independent basic events with the group distribution. "
  "Malformed groups (missing, duplicate or out-of-range factor levels, fewer than two members, phi factors not summing to 1, non-probability factors) are rejected.",
  ["inputs", "configurations"],
  "All fault trees with one or more CCF groups of 2..5 members, all four models, all numbers of factors, with or without explicit levels, any member order, CCF on and off.",
  NOUNIT + "No runnable test loads a model with a CCF group and looks at the result.",
  ["src/ccf_group.cc", "src/ccf_group.h", "src/pdag.cc", "src/initializer.cc"],
  [("model-specific probability formulas", "src/ccf_group.cc"), ("proxy gates and CCF events", "src/ccf_group.cc"), ("substitution in the graph", "src/pdag.cc")],
  ["products, probability and importance with --ccf; <ccf-event> elements"])

prop("C07", "Expressions evaluate to their Open-PSA meaning",
  "Every expression a model may contain (constants, parameters, mission time, arithmetic, trigonometric, logical, comparison, conditional and switch operators, exponential, GLM, Weibull, the periodic-test variants, and the mean of every random deviate) evaluates to the value its mathematical definition gives for its argument values, for any nesting. "
  "A basic event's reported probability is that value at the system mission time.",
  ["inputs"],
  "All well-typed expression trees over in-domain argument values, and all non-negative mission times.",
  NOUNIT + "Expression values are sampled at a handful of points even in the unbuildable unit tests.",
  ["src/expression/exponential.cc", "src/expression/numerical.h", "src/expression/boolean.h", "src/expression/conditional.h", "src/expression/random_deviate.cc", "src/expression.h", "src/initializer.cc", "src/parameter.h"],
  [("expression classes", "src/expression/*"), ("expression construction by element name", "src/initializer.cc")],
  ["basic-event probability in reports and through the API"])

prop("C08", "Accepted expressions stay in range; out-of-domain input is rejected",
  "A model is rejected when an expression's argument lies outside the mathematical domain of its operator, or when a basic event's value or whole sampling range is not a probability. "
  "Conversely, when a model is accepted, every interval the tool derives for an expression contains the expression's mean value and, for bounded distributions, every value that sampling can produce, so that no division by zero, invalid logarithm or invalid distribution parameter is ever evaluated.",
  ["inputs"],
  "All expression trees including constants on and around the domain boundaries, deviates as arguments, and every operator with a restricted domain.",
  NOUNIT + "Interval arithmetic over arbitrary nesting is only probed at single points.",
  ["src/expression.h", "src/expression.cc", "src/expression/numerical.cc", "src/expression/numerical.h", "src/expression/random_deviate.cc", "src/expression/exponential.cc", "src/expression/conditional.cc", "src/event.cc", "src/initializer.cc"],
  [("per-operator domain checks", "src/expression/*"), ("interval propagation", "src/expression.h"), ("probability range check of basic events", "src/event.cc")],
  ["accept / reject of the model, interval, value and samples of expressions"])

prop("C09", "Uncertainty analysis samples and summarises correctly",
  "Each Monte Carlo trial evaluates the configured top-event probability at one joint sample of all deviates, where an expression shared by several events takes one value per trial and non-deviate events keep their mean; the reported mean, standard deviation, confidence range, error factor, quantiles and density histogram are the statistics of exactly those trials. "
  "Consequently quantiles are non-decreasing and lie within the sampled range, histogram weights sum to one, all sampled probabilities lie in [0,1], and constant models give zero spread. "
  "Sampling distributions have the mean and shape stated by the model, and the same seed gives identical results.",
  ["inputs", "configurations"],
  "All fault trees with any mixture of uniform, normal, lognormal, gamma, beta and histogram deviates and deterministic events; all trial, quantile and bin counts; all seeds; all approximations.",
  NOUNIT + "The one CLI test of --uncertainty checks the exit code only.",
  ["src/uncertainty_analysis.cc", "src/uncertainty_analysis.h", "src/expression/random_deviate.cc", "src/expression.cc", "src/risk_analysis.cc"],
  [("reset / sample per trial", "src/expression.cc, src/uncertainty_analysis.cc"), ("statistics accumulators", "src/uncertainty_analysis.cc"), ("seeding", "src/risk_analysis.cc")],
  ["<measure> report element, uncertainty analysis result"])

prop("C10", "Event-tree sequences collect exactly what their paths prescribe",
  "For an initiating event, each sequence's result is the disjunction (sum, for expressions) over all event-tree paths ending in it of the conjunction (product) of everything collected along the path, where set-house-event instructions affect only formulas collected later on the same path, if-then-else and rules follow the functional-event states of that path, and links continue in the linked tree. "
  "Every sequence reachable from the initiating event is reported once with the probability of that combination, and unreachable ones are not.",
  ["inputs", "programs"],
  "All valid event trees: nested forks, named branches, shared sequences, instructions on initial states, branches, paths and sequences, rules, blocks, links, collect-formula and collect-expression trees.",
  NOUNIT + "No runnable test runs an event tree.",
  ["src/event_tree_analysis.cc", "src/event_tree_analysis.h", "src/event_tree.h", "src/instruction.h", "src/risk_analysis.cc", "src/initializer.cc"],
  [("path collection with context", "src/event_tree_analysis.cc"), ("formula cloning under set instructions", "src/event_tree_analysis.cc"), ("instruction visitors", "src/instruction.h")],
  ["<initiating-event> and sequence results in the report"])

prop("C11", "Alignment phases are analysed as if each were its own model",
  "With alignments defined, the results for every (alignment, phase) pair equal the results of the same model without alignments whose house events are set as the phase prescribes and whose mission time is multiplied by the phase's time fraction. "
  "Phases do not influence each other, their order does not matter, and the model and settings are unchanged afterwards; alignments whose fractions are outside (0,1] or do not sum to one are rejected.",
  ["inputs", "histories"],
  "All models with one or more alignments of one or more phases, any set-house-event combinations, time-dependent events, fault trees and event trees.",
  NOUNIT + "No runnable test loads an alignment; leakage between phases needs a sequence of phases to show.",
  ["src/risk_analysis.cc", "src/alignment.cc", "src/initializer.cc", "src/parameter.h"],
  [("context application and restoration", "src/risk_analysis.cc"), ("fraction checks", "src/alignment.cc")],
  ["per-phase results in the report"])

prop("C12", "Substitutions rewrite the analysed formula or cut sets as defined",
  "A declarative substitution makes the analysis compute the top event conjoined with (hypothesis implies target); a non-declarative substitution removes its source events from, and adds its target to, each minimal cut set that satisfies the hypothesis, after which the reported sets are again minimal. "
  "All invalid substitutions (non-coherent or nested hypotheses, irrelevant or effect-free ones, conflicts between substitutions, duplicated events, CCF members, non-declarative ones with exact analysis, a declared type that does not match) are rejected.",
  ["inputs", "configurations"],
  "All fault trees with any valid set of delete-terms, recovery-rule and exchange-event substitutions x algorithms x limits; and all invalid combinations.",
  NOUNIT + "No runnable test loads a substitution.",
  ["src/substitution.cc", "src/pdag.cc", "src/zbdd.cc", "src/initializer.cc"],
  [("declarative substitutions in graph construction", "src/pdag.cc"), ("cut-set rewriting", "src/zbdd.cc, src/fault_tree_analysis.h"), ("validation", "src/substitution.cc, src/initializer.cc")],
  ["products and probability of models with substitutions; accept / reject"])

prop("C13", "Names resolve by scope, and model layout does not change results",
  "A reference resolves to the element in its own component if there is one, otherwise to the public element of that name or to the element at the given full path; private elements are invisible outside their component except by full path. "
  "Consequently semantics-preserving changes of layout - declaration order, splitting the model over several input files or including files, moving definitions to model data, nesting in components with qualified references, typed versus untyped references, consistent renaming - leave every analysis result unchanged.",
  ["inputs", "programs"],
  "All models with nested components, public and private roles, shadowed names, references of every kind (basic, house, gate, untyped event, parameter), and all permutations and splits of the definitions.",
  NOUNIT + "Name resolution has one code path per element type and combination of scopes; tests use single examples.",
  ["src/initializer.cc", "src/element.h", "src/element.cc", "src/model.h", "src/model.cc", "src/fault_tree.cc", "src/xml.cc"],
  [("local, public and path lookup", "src/initializer.cc"), ("roles and full paths", "src/element.cc")],
  ["analysis results and accept / reject of models"])

prop("C14", "Ill-formed models are always rejected with an error, never analysed",
  "A model that violates a documented validity rule - cyclic gates, parameters, rules, branches or links; undefined, duplicate or redefined elements; wrong argument counts or min/max numbers; misordered or repeated functional events; mixed collect instructions; links outside sequences; missing expressions for probability analysis; unit mismatches; duplicate files, duplicate attributes - is rejected with a reported error and a non-zero exit before any analysis, wherever in the model the violation sits. "
  "Removing the violation makes the same model acceptable.",
  ["inputs", "programs"],
  "All valid models x every violation class injected at every possible place.",
  NOUNIT + "Each rule is tried at one place in one small file at best; cycle detection depends on traversal history.",
  ["src/initializer.cc", "src/cycle.h", "src/cycle.cc", "src/event.cc", "src/fault_tree.cc", "src/event_tree.cc", "src/element.cc", "src/model.cc", "src/parameter.cc"],
  [("cycle detection", "src/cycle.h"), ("formula arity and nesting checks", "src/event.cc"), ("event-tree validation", "src/initializer.cc")],
  ["exit status and error output of the CLI; exception type at the API"])

prop("C15", "No input file can crash the tool or corrupt memory",
  "For any bytes given as a model or project file, and any option values, the tool (as long as memory, stack and time suffice) either finishes normally or reports an error and exits with status 1: it never terminates by a signal, violates an internal assertion, reads or writes memory it should not, or invokes undefined behaviour.",
  ["inputs", "configurations"],
  "All byte strings as input and project files (random, mutated and grammar-generated well- and ill-formed models), all combinations of analysis options.",
  NOUNIT + "Tests contain a fixed set of malformed files and run without sanitizers.",
  ["src/xml.cc", "src/xml.h", "src/initializer.cc", "src/project.cc", "src/scram.cc", "src/preprocessor.cc", "src/bdd.cc", "src/zbdd.cc", "src/reporter.cc", "src/ext"],
  [("schema validation before use", "src/xml.cc, share/input.rng"), ("exceptions caught at the entry point", "src/scram.cc")],
  ["process exit status, sanitizer reports"])

prop("C16", "Saving a model and loading it back preserves the model",
  "For every model within the saveable subset (fault trees of public gates with any connectives, basic events with constant or exponential probability, house events, labels and attributes), writing the model to a file yields a well-formed, schema-valid input file which loads back into a model with the same elements, labels, attributes, formulas and expressions and the same analysis results, and saving that again yields the same definitions. "
  "Characters special to XML in labels and attributes survive the round trip. A model outside that subset is refused with an error, and the target file stays as it was.",
  ["inputs"],
  "All saveable models, all legal text in names, labels and attribute values, all connectives the saver supports, complemented arguments.",
  NOUNIT + "The serialisation tests cannot be built here, and only compare one or two files.",
  ["src/serialization.cc", "src/xml_stream.h", "src/initializer.cc", "gui/mainwindow.cpp"],
  [("model writer", "src/serialization.cc"), ("XML escaping", "src/xml_stream.h")],
  ["--serialize output; Serialize API; reload"])

prop("C17", "Reports are schema-valid and say exactly what was computed",
  "For every successfully analysed model and every combination of analysis options, the report is a well-formed XML document that conforms to the shipped report schema, whatever characters names and labels contain. "
  "It contains one entry per analysed top event, sequence and phase for each requested analysis and none for analyses not requested; its counts, order distribution, product lists, probabilities, warnings, unused-element lists and settings section agree with the analysis results to the printed precision. "
  "Top events are exactly the gates that no other gate of their fault tree references.",
  ["inputs", "configurations"],
  "All valid models x all analysis option combinations x indented or compact output, to a file or to standard output.",
  NOUNIT + "The runnable tests discard report contents.",
  ["src/reporter.cc", "src/xml_stream.h", "src/risk_analysis.cc", "src/fault_tree.cc", "share/report.rng"],
  [("report writer", "src/reporter.cc"), ("stream escaping and nesting", "src/xml_stream.h"), ("top-event discovery", "src/fault_tree.cc")],
  ["report XML versus API results"])

prop("C18", "Analysis is deterministic and leaves no trace",
  "Running the tool twice on the same files with the same options and seed gives the same report apart from time stamps and timings, in the same order, in fresh processes. "
  "Loading or analysing one model never influences the results for another loaded in the same process, analysing a model leaves its definition, mission time and house-event states as they were, and re-analysing it gives the same results. "
  "Logging verbosity, indentation and output destination do not change results.",
  ["inputs", "histories", "configurations"],
  "All models (several top events, event trees, alignments, CCF groups, deviates) x all options x histories of loads and analyses in one process.",
  NOUNIT + "Tests run one analysis per process and never compare two runs.",
  ["src/risk_analysis.cc", "src/fault_tree.cc", "src/event_tree_analysis.cc", "src/expression/random_deviate.cc", "src/pdag.cc", "src/scram.cc", "src/logger.cc"],
  [("seeding per analysis", "src/risk_analysis.cc"), ("clearing of marks and indices in the model", "src/pdag.cc, src/fault_tree.cc, src/cycle.h")],
  ["reports of repeated runs; API results of repeated analyses"])

prop("C19", "Probability-over-time and SIL metrics follow from the time curve",
  "With a time step set, the reported curve gives, at time 0, every multiple of the step below the mission time and at the mission time itself, the top probability of the model evaluated with that mission time. "
  "The average PFD is the trapezoid average of the curve, the average PFH that of probability divided by time (0 at time 0), and each safety-integrity bucket holds the fraction of time the (piecewise-linear) curve spends in it, so the fractions of each histogram are non-negative and, as long as the values lie within the buckets (failure rates up to one per hour), sum to one. "
  "With no time evolution the single value falls in exactly one bucket.",
  ["inputs", "configurations"],
  "All models with time-dependent events x mission times x time steps (dividing or not dividing the mission time) x probability methods.",
  NOUNIT + "The CLI tests never pass --sil or --time-step together with a look at the result.",
  ["src/probability_analysis.cc", "src/probability_analysis.h", "src/reporter.cc", "src/settings.cc"],
  [("time stepping", "src/probability_analysis.cc"), ("integration and bucket partition", "src/probability_analysis.cc")],
  ["<curve> and <safety-integrity-levels> report elements"])

prop("C20", "Options mean the same from the command line and the project file",
  "The settings a run uses are the project file's options overridden by exactly those options given on the command line, with documented defaults otherwise (an algorithm chosen on the command line brings its default approximation and drops prime implicants); equivalent settings from either source give the same results, and project input files are resolved relative to the project file. "
  "Out-of-range values, contradictory algorithm, approximation and prime-implicant combinations, unknown names and newer or malformed project versions are rejected, whatever the order in which options are given.",
  ["inputs", "configurations"],
  "All combinations and orders of options and values, valid and invalid, split in any way between project file and command line.",
  "The CLI tests exercise about twenty fixed command lines and two project files and look at exit codes only.",
  ["src/scram.cc", "src/settings.cc", "src/settings.h", "src/project.cc", "share/project.rng"],
  [("option parsing and merging", "src/scram.cc"), ("constraints between settings", "src/settings.cc"), ("project reading", "src/project.cc")],
  ["exit status, settings section and results of the report; settings object"])

prop("C21", "External code is loaded only on request and called faithfully",
  "Unless the user explicitly allows external libraries, a model that declares one is rejected and no library is opened or code run. "
  "When allowed, an extern-function expression evaluates to the value the named C function returns for its argument values in declared order and type (for every supported combination of int and double parameters and result), both for mean values and for samples; missing libraries, missing symbols, wrong argument counts and unsupported signatures are rejected. Library paths are relative to the model file, whatever the working directory, and reports name the libraries and functions that nothing uses.",
  ["inputs", "configurations"],
  "All supported signatures (up to five int/double parameters), argument values and nesting; allow flag on and off; broken declarations.",
  "The extern tests cannot be built here; the runnable tests never pass --allow-extern.",
  ["src/expression/extern.h", "src/expression/extern.cc", "src/initializer.cc", "src/scram.cc"],
  [("allow-extern gate", "src/initializer.cc"), ("signature encoding and call", "src/expression/extern.h, src/initializer.cc")],
  ["accept / reject; expression values"])

prop("C22", "GUI edits undo and redo exactly, keeping proxies and model in step",
  "After any sequence of model edits made through the undo stack (adding, removing and renaming events and fault trees, changing labels, probabilities, states, flavors, formulas, event types and the model name), undoing n steps restores exactly the model state n edits ago and redoing them restores the later state. "
  "At every point the GUI's element views, parent lists and containers agree with the underlying model, exactly one change notification is emitted per effective change, and the model can be saved and reloaded to the same content.",
  ["histories"],
  "All sequences of edit, undo and redo operations over any starting model.",
  "The GUI tests run each command once, with one undo and one redo, on a fresh one-element model.",
  ["gui/model.h", "gui/model.cpp", "gui/command.h", "gui/elementcontainermodel.cpp", "gui/elementcontainermodel.h"],
  [("involution and inverse commands", "gui/command.h, gui/model.h"), ("proxy tables", "gui/model.cpp")],
  ["proxy getters, signals, serialised model"])

prop("C23", "The fault tree generator honours its parameters",
  "For every accepted parameter set, the generator script ends and writes a fault tree that is acyclic, connected from its root, free of unused or undefined elements and valid as tool input, with exactly the requested numbers of basic events, house events and common-cause groups, all probabilities within the requested bounds, and gate types only from those with positive weight, each with a legal number of arguments. The same parameters and seed give the same output; the nested and the Aralia output describe the same tree as the plain one; the description and summary in the output are those of the parameters and the tree. In trees of many hundred events, the requested averages (arguments per gate, shares of gate types, common events; the number of gates, if constrained) are met approximately. "
  "Every parameter outside of its documented range is rejected with an error and without output.",
  ["inputs", "configurations"],
  "All generator parameter combinations and seeds, for XML, nested and Aralia output. (Parameters that cannot be satisfied together, such as too few events for the arguments of a gate or an unsatisfiable number of gates, may be rejected.)",
  "The script tests generate two trees with one parameter set and check the size and schema.",
  ["scripts/fault_tree_generator.py", "scripts/fault_tree.py"],
  [("parameter validation and factors", "scripts/fault_tree_generator.py"), ("tree construction and output", "scripts/fault_tree.py, scripts/fault_tree_generator.py")],
  ["generated XML and Aralia text, tool acceptance"])

prop("C24", "An output that cannot be written completely is reported as an error",
  "Whenever a report or a saved model cannot be written completely (the disk or the quota is full, the target is a directory or in a directory that does not exist), to a file or to standard output, the tool exits with status 1 and says so, and the library throws an IOError. "
  "Success means that the complete document has been written. A failure does not influence what is written later.",
  ["inputs", "fault_sequences"],
  "All reports and saved models x every size at which writing starts to fail x file, standard output and library interfaces.",
  NOUNIT + "No test makes a write fail.",
  ["src/xml_stream.h", "src/reporter.cc", "src/serialization.cc", "src/scram.cc"],
  [("stream errors checked at the end", "src/xml_stream.h"), ("opening of the output file", "src/reporter.cc, src/serialization.cc")],
  ["exit status and error output of the tool; exceptions of the API; the file"])

prop("C25", "The GUI analyses the current model with the settings it shows",
  "Running the analysis in the GUI gives, for exactly the top gates of the current (edited) model, the results of the library for the settings in force: those of the project file, changed by what was entered and accepted in the settings dialog, and by nothing else. The dialog shows the settings in force and always a consistent combination (prime implicants only with BDD and without approximation, approximations with ZBDD and MOCUS, importance only with probability). "
  "Products, orders, probabilities, contributions and importance factors in the views and in the exported report are those results, with nothing lost, repeated or altered by sorting and searching. Results are withdrawn, with their tabs and the export, as soon as the model changes.",
  ["histories", "configurations"],
  "All models x project files x histories of dialog inputs, analyses, edits, undo and redo, sorting and searching.",
  "The GUI tests cover the model commands only; no test opens the dialog, runs an analysis or looks at its results in the GUI.",
  ["gui/settingsdialog.cpp", "gui/mainwindow.cpp", "gui/producttablemodel.cpp", "gui/importancetablemodel.cpp", "gui/reporttree.cpp"],
  [("settings dialog", "gui/settingsdialog.cpp"), ("analysis and withdrawal of results", "gui/mainwindow.cpp"), ("result views", "gui/producttablemodel.cpp, gui/importancetablemodel.cpp, gui/reporttree.cpp")],
  ["dialog widgets, result tables, report tree, tabs, exported report"])

prop("C26", "Fault tree diagrams in the GUI follow the model",
  "A fault tree diagram draws exactly what is below its top gate: each gate once with its connective (k/n for combinations), every argument under its gate by kind (house event, basic or undeveloped event, gate), further occurrences of a gate as transfers with the mark on the gate they refer to, labels and names of the events, without overlaps. "
  "After any sequence of edits, undo and redo the open diagrams show the current model, and activating a symbol leads to the event that it shows.",
  ["histories"],
  "All models and sequences of edits, undo and redo with diagrams open.",
  "No test draws a diagram.",
  ["gui/diagram.cpp", "gui/diagram.h", "gui/model.cpp"],
  [("drawing and transfers", "gui/diagram.cpp"), ("redrawing on change notifications", "gui/diagram.cpp, gui/model.h")],
  ["items of the graphics scene"])

prop("C27", "Documents of the GUI: opening, saving and closing lose nothing",
  "The main window loses no edit silently: leaving a modified model (new model, closing the window) asks first, Cancel and every save that fails or is cancelled keep the window and the model as they were, and opening files saves the edits before. "
  "Saving writes the whole model to its only file, or asks for one if there is none or several; the automatic save does so only for modified models with one file. Every save that fails (full disk, missing directory) shows a message and leaves the target, all other files and the modified state as they were. "
  "Opening files adds exactly their content to that of the open files; files that are refused change nothing. No other file on the disk changes. The list of recent files has the last five opened, newest first, and lives through restarts as do the preferences.",
  ["histories", "faults"],
  "All sequences of edits, undo, new, open, recent files, save, save as, automatic save, close, restart, with any answers to the dialogs, files that are valid, in parts, duplicate, invalid or missing, and failures of saves.",
  "No test of the GUI opens or saves a file.",
  ["gui/mainwindow.cpp", "gui/preferencesdialog.cpp", "src/serialization.cc"],
  [("open, new, save, close", "gui/mainwindow.cpp MainWindow::addInputFiles, createNewModel, saveToFile, closeEvent"), ("recent files and preferences", "gui/mainwindow.cpp updateRecentFiles, savePreferences; gui/preferencesdialog.cpp")],
  ["content of the files on the disk", "modified state, title, lists and tables of the window"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
import re
for p in P:
    assert len(p["title"]) <= 80, p["id"]
print(len(P))

"""Writes /verif/properties.jsonl (kept as a script only to keep the JSON tidy)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

CORE, MODEL, API = "cheval/core.py", "cheval/model.py", "cheval/api.py"
LDF, FILL, PARSE, EXPR = "cheval/ldf/api.py", "cheval/ldf/missing_data.py", "cheval/parsing/ast_transformer.py", "cheval/parsing/expressions.py"

p("C01", "Parallel probability evaluation equals the logit definition on every schedule",
  "A stochastic run returns, for every decision unit, exactly the multinomial or nested logit probabilities, top-level logsum term and per-alternative logsum terms that the mathematical definition gives for that unit's utilities, with probabilities over elemental alternatives summing to one. The result is bit-for-bit the same whatever number of threads is used, however the rows are divided among workers and in whatever order or interleaving the workers execute, and is always written against the right decision unit and alternative.",
  ["schedules", "inputs", "configurations"],
  "For every tree shape, utility table, precision and scaling option, every thread count, every division of rows into work chunks and every execution order or preemption of the workers.",
  "The tests run one or two fixed tables with one thread, so only the sequential schedule is ever observed; a row computed from, or written to, another worker's data shows only under particular schedules.",
  [CORE, MODEL],
  [("worker_multinomial_probabilities / worker_nested_probabilities: one row per parallel iteration, no state shared between rows", "cheval/core.py:~383-455"),
   ("multinomial_probabilities / nested_probabilities", "cheval/core.py:131-248"),
   ("ChoiceModel.run_stochastic, _flatten, _build_nested_stochastic_frame", "cheval/model.py")],
  observe=["ChoiceModel.run_stochastic return values"])

p("C02", "Discrete draws depend only on the model and the seed",
  "With a given integer seed (or a random-state object in a given state), a discrete run returns the same choices and logsum terms whatever the number of threads, the division and order of work, the state in which any thread's or the process's random generators were left by earlier work, and whatever ran before in the process. With one draw per unit the choice is the inverse-CDF selection for that unit from one uniform stream generated from the seed in decision-unit order, and a unit's draws do not depend on any other unit's utilities.",
  ["schedules", "histories", "configurations"],
  "For every model, seed, number of draws, thread count, chunking, execution order and preemption point of workers, and every prior history of random-number use in the process.",
  "Tests compare one seeded run on one thread; a draw taken inside the parallel region, or from a global generator, agrees with itself on that schedule and diverges only on others.",
  [CORE, MODEL],
  [("random numbers are generated sequentially before the parallel loop (generate_rand_*_for_parallel)", "cheval/core.py:91-104"),
   ("per-row seeds for multi-draw sampling", "cheval/core.py sample_multi"),
   ("seed normalisation", "cheval/model.py run_discrete")],
  observe=["ChoiceModel.run_discrete return values"])

p("C03", "Discrete draws are valid and follow the model's probabilities",
  "Every draw is an available elemental alternative: never one whose probability is zero, never a nest, never out of range, for any value the random source can produce and however probabilities round. Draws of one unit follow that unit's probabilities, are independent between draws and between decision units, and the alternative reported (as category, label or position) is the one that was drawn.",
  ["inputs", "schedules", "configurations"],
  "For every utility table (zero-probability alternatives anywhere, rounding of cumulative sums, single dominating alternatives), every random draw including the extremes of the interval, every draw count and output format.",
  "Tests sample a few hundred ordinary draws; the extremes of the unit interval and sums that round below one occur about once in 2^53 draws.",
  [CORE, MODEL],
  [("sample_once, logarithmic_search, nbf_cumsum, sample_multi", "cheval/core.py:32-118"),
   ("nested parents get probability zero", "cheval/core.py nested_probabilities step 4"),
   ("_convert_result", "cheval/model.py")],
  observe=["ChoiceModel.run_discrete return values"])

p("C04", "Infeasible or invalid utilities are always reported, never turned into results",
  "A run in which any decision unit has no feasible alternative (all utilities too low), an overflowing utility or a not-a-number utility raises the utility-bounds error, no matter which row it is, which worker evaluates the row, how many rows are bad or in what order workers run; no result is ever returned for it. When the infeasibility check is disabled for a stochastic run, infeasible units get probability zero for every alternative and logsum term zero, and all other units are unaffected; a run with no bad unit never raises it.",
  ["schedules", "inputs", "fault_sequences"],
  "For every position and number of bad rows, every schedule and thread count, multinomial and nested models, single and multiple draws, both settings of the check.",
  "Tests raise the error from a one-row or one-thread table; whether an error raised by a worker other than the calling thread survives is a scheduling question.",
  [CORE, MODEL],
  [("UtilityBoundsError raised for logsum <= 0", "cheval/core.py multinomial_probabilities, nested_probabilities"),
   ("NaN check after utility evaluation", "cheval/model.py _evaluate_utilities")],
  observe=["exceptions and return values of run_stochastic / run_discrete"])

p("C05", "Model results refine the reference model over any history of use",
  "After any sequence of building, declaring, assigning, re-assigning, extending and running a model, a run returns what the textbook evaluation of its current tree, current expressions and currently assigned data gives: each utility is the sum of its partial utilities and of every applicable expression, evaluated with ordinary arithmetic and aligned by decision unit and alternative label. Repeating a run without changing anything gives the same result, and a run is unaffected by earlier runs, whichever expression groups those evaluated and whether they kept or released the data.",
  ["histories", "programs", "configurations"],
  "For every interleaving of construction, assignment, tree edits, expression groups and runs; every expression built from scalars, vectors, tables, links, matrices, per-alternative literals, filters, comparisons and logical operators; every evaluation block size and thread count.",
  "Tests run each model exactly once and never edit it afterwards, so state carried from one operation to the next is invisible to them.",
  [MODEL, API, PARSE, EXPR],
  [("ChoiceModel._evaluate_utilities and cached utility table", "cheval/model.py"),
   ("symbol assignment and alignment", "cheval/api.py *Symbol.assign/_get"),
   ("expression translation", "cheval/parsing/ast_transformer.py"),
   ("tree construction and cached choice index", "cheval/model.py _create_node, choices")],
  observe=["run_stochastic logsum terms (hence utilities) and probabilities"])

p("C06", "A failed or interrupted run changes nothing that later results depend on",
  "When a run, pre-evaluation or partial-utility operation fails at any point (an error raised by an expression, a logger, an allocation or the evaluation engine, or an interrupt delivered at any instant), the model afterwards behaves either as if the operation had never been started or as if it had completed: choices, partial utilities, expressions and, where the operation did not itself release it, assigned data are those of one of the two states. Retrying therefore gives exactly the result a fresh model would have given.",
  ["fault_sequences", "crash_points", "histories"],
  "For every crash point inside each operation, every kind of failure, and every sequence of failed attempts followed by retries.",
  "Tests never make an operation fail half-way; a table modified in place before the failure only shows when the operation is tried again.",
  [MODEL, API],
  [("utilities are accumulated in place in the cached table", "cheval/model.py _evaluate_utilities"),
   ("preval commits the cached utilities, drops the group and cleans the scope in separate steps", "cheval/model.py preval"),
   ("validation before mutation in add_partial_utilities", "cheval/model.py")],
  observe=["results of runs after the failure compared with the two admissible models"])

p("C07", "Copies and subsets of a model are independent and exact",
  "A copied model, with each choice of what to copy, holds exactly what was asked for, and a subset model gives for its decision units exactly the results the full model gives for them. After copying, no operation on either model (assigning data, adding expressions or partial utilities, pre-evaluating, running, dropping groups, clearing) changes the results of the other, in any order or interleaving of the two.",
  ["histories", "schedules", "configurations"],
  "For every point of a model's history at which a copy or subset is taken, every mask, every combination of copy options and every interleaving of later operations on the original and its copies.",
  "Tests do not copy models at all beyond construction; aliasing shows only when both copies are used further.",
  [MODEL, API],
  [("ChoiceModel.copy / copy_subset", "cheval/model.py"), ("Symbol.copy", "cheval/api.py"), ("ExpressionGroup.copy", "cheval/api.py")],
  observe=["results of runs on both models"])

p("C08", "Caller threads using their own models or shared tables do not affect each other",
  "Several caller threads that each use their own model (including copies and subsets of one prepared model, and models whose tables are shared, linked frames read by all of them) get exactly the results each would get if it ran alone, however the threads interleave. Concurrent reads of the same linked frame return what a single reader gets, including first-use computation of links.",
  ["schedules", "fault_sequences"],
  "For every interleaving of the threads at every preemption point, including interrupting one of them, with numbers of threads, models and shared tables varied.",
  "Tests are single-threaded; sharing through class attributes, cached indexers or scratch arrays only matters when another thread runs in between.",
  [MODEL, API, LDF, "cheval/parsing/expressions.py"],
  [("each model owns its scope, cached table and locals", "cheval/model.py"), ("lazy link indexers", "cheval/ldf/api.py indexer_and_missing")],
  observe=["results returned to each thread"])

p("C09", "Adding partial utilities is exact on every schedule",
  "Adding a table of partial utilities increases the utility of exactly the named decision units and alternatives by exactly the given amounts, once, leaving all others untouched, whether rows or columns are a reordered subset or match exactly, for both numeric precisions, and in whatever chunks, order and interleaving the parallel addition runs. Tables that do not fit (unknown labels, or mismatch when expansion was not allowed) are refused with the model unchanged, and the given table is never modified.",
  ["schedules", "inputs", "fault_sequences"],
  "For every table shape, subset, order and sequence of additions, every division of cells into chunks and every order or preemption of the workers.",
  "Tests add one table on one thread; an addition split across workers so that a cell is missed or done twice depends on the chunking.",
  [CORE, MODEL],
  [("fast_indexed_add and its four parallel variants", "cheval/core.py:~456-504"), ("add_partial_utilities", "cheval/model.py")],
  observe=["per-alternative logsum terms of a following run"])

p("C10", "Rejected edits leave no trace",
  "When an edit of a model or of a linked frame is refused (an invalid or inconsistent expression, an invalid choice name or scale, data of the wrong shape, index or type, an invalid declaration or link), every later operation behaves as if the edit had not been attempted: what was valid and runnable before stays so and gives the same results. Corrected edits are then accepted as they would have been originally.",
  ["histories", "fault_sequences"],
  "For every refused edit placed at any point of any history of accepted edits and runs.",
  "Tests check at most that an exception is raised, not what the model does after it.",
  [API, MODEL, PARSE, LDF],
  [("ExpressionGroup.append parses before appending", "cheval/api.py"), ("_create_node validates names and scales", "cheval/model.py"),
   ("Symbol.assign checks before storing", "cheval/api.py"), ("link_to validates before registering", "cheval/ldf/api.py")],
  observe=["results of runs after the refusal compared with a model never given the edit"])

p("C11", "Pre-evaluating a group of expressions does not change results",
  "Pre-evaluating an expression group and then running (the model itself, or copies and subsets with further symbols assigned) gives the results obtained by evaluating all expressions together, except that a group kept with its expressions is then counted again. Clearing symbols during pre-evaluation removes only symbols that no expression outside the group uses, so that every other group and every expression without a group can still run after it.",
  ["histories", "configurations", "fault_sequences"],
  "For every division of expressions into groups with any sharing of symbols, every order of pre-evaluations, copies, subsets and assignments, each option setting.",
  "Tests do not exercise pre-evaluation; its set arithmetic matters only when symbols are shared between groups.",
  [MODEL, API],
  [("ChoiceModel.preval", "cheval/model.py"), ("ExpressionGroup symbol bookkeeping", "cheval/api.py")],
  observe=["results of runs after pre-evaluation; exceptions"])

p("C12", "Linked lookups always follow the keys, through any derived frame",
  "Looking up a column through a link, or through a chain of links, gives each row the value held by the row with the matching key in the linked frame, and the fill value where there is none. This holds for the frame itself and for every frame derived from it (filtering, slicing, reordering, sampling, sorting, grouping, copying, adding columns), in any sequence of derivations; a derived frame that no longer has what the link needs loses the link or refuses, and never returns another row's value.",
  ["histories", "inputs", "crash_points"],
  "For every sequence of derivations, key structure (columns, index levels, several keys, missing and duplicate keys, either side unique), chain depth and both immediate and deferred link computation.",
  "Tests check some thirty single-step slices of one small pair of tables; misalignment needs a second derivation or an unusual one.",
  [LDF],
  [("_LinkMeta indexers", "cheval/ldf/api.py:~84-212"), ("__finalize__, _take_with_is_copy, _slice, _reindex_with_indexers, copy", "cheval/ldf/api.py"),
   ("_LinkNode/_LinkLeaf lookups", "cheval/ldf/api.py")],
  state=[("flat indexer", "position in the target of each row's match, -1 when missing", "cheval/ldf/api.py _LinkMeta")],
  observe=["values returned by link lookups"])

p("C13", "Aggregations over links cover exactly each row's own matches",
  "An aggregation through a one-to-many link gives each row the named statistic of the given column or expression over exactly the linked rows that carry that row's key, and a fill value for rows without any match. Linked rows with missing keys belong to no one, and the result does not depend on the order of rows in either frame, on when the link was computed, or on lookups made before.",
  ["inputs", "histories", "schedules"],
  "For every key multiset including missing keys and unmatched rows, every aggregation and column type, on original and derived frames, directly or at the end of a chain.",
  "Tests aggregate one five-row table with all keys present.",
  [LDF],
  [("_LeafAggregation._Aggregator", "cheval/ldf/api.py"), ("_make_indexer grouping", "cheval/ldf/api.py")],
  observe=["aggregation results"])

p("C14", "When a link is computed never changes what it returns",
  "Deferring the computation of a link to its first use, computing it in advance, recomputing it, or having any of those fail or be interrupted at any point and then used again, gives the same lookup and aggregation results as computing it at once. After keys are edited and links explicitly refreshed, results follow the new keys entirely.",
  ["crash_points", "schedules", "histories"],
  "For every order of linking, first use, refresh, derivation and edit; every interrupt point inside the computation; every interleaving of several first users.",
  "Tests use deferred links in a handful of straight-line cases and never interrupt or refresh after an edit.",
  [LDF],
  [("link_to(precompute=), precompute, compute_indexers, indexer_and_missing", "cheval/ldf/api.py")],
  state=[("flat_indexer / other_grouper / _missing_indices", "three fields that must change together", "cheval/ldf/api.py _LinkMeta")],
  observe=["values returned by link lookups and aggregations"])

p("C15", "Lookups, evaluations and runs never alter the caller's data",
  "No lookup, aggregation, evaluation, pivoting, slicing or other derivation of a frame (unless asked to be in-place), model assignment or model run changes the data, index, columns or links of the frames, series and arrays the caller passed in or reads from, whether it completes, fails or is interrupted. Modifying the result of a link lookup does not change what later lookups return.",
  ["histories", "crash_points", "fault_sequences"],
  "For every sequence of reading operations on every data layout (views, shared blocks, all-matching links, unfilled rows), interrupted anywhere.",
  "Tests look at returned values only; a write through a view damages an input nobody re-reads.",
  [LDF, API, MODEL, "cheval/utils.py"],
  [("lookups copy before filling", "cheval/ldf/api.py _resolve_history"), ("convert_series/to_numpy return views that must not be written", "cheval/utils.py"),
   ("utility accumulation writes only the model's own table", "cheval/model.py")],
  observe=["fingerprints of every caller-owned object before and after"])

p("C16", "Fill values apply where they were set and temporary ones are always undone",
  "A fill value set for one column, one frame or for all frames applies to exactly those lookups, with the column setting before the frame setting before the default, until it is changed or reset. Fill values set temporarily are in force for the whole of their block and are restored on leaving it in every way (normally, by an error, by an interrupt, nested, or when a later name in the same call is invalid).",
  ["histories", "fault_sequences", "crash_points"],
  "For every sequence of settings, temporary blocks, nesting, resets, failures inside blocks and lookups on several frames.",
  "Tests set one default once; leaving a block by an exception, and leaks between frames, are never tried.",
  [LDF, FILL],
  [("SeriesFillManager", "cheval/ldf/missing_data.py"), ("set_column_fill, set_fill_defaults, temporary_fill_defaults, reset_fill_defaults", "cheval/ldf/api.py")],
  observe=["values returned for unmatched rows"])

p("C17", "Observing a run does not change it, and reports what happened",
  "Attaching a logger or tracing one decision unit changes no result. The trace of a decision unit lists, in evaluation order, each evaluated expression with that unit's accumulated utilities after it, for any unit label; the logger is told of each expression exactly once, in order, including when the run fails at a later one.",
  ["fault_sequences", "histories", "inputs"],
  "For every unit label (including zero-like and multi-part labels), every set of expressions and groups, loggers that fail at any call, repeated runs.",
  "Tests never attach a logger and trace one unit of one model.",
  [MODEL],
  [("debug_id / debug_results", "cheval/model.py _evaluate_utilities"), ("logger calls", "cheval/model.py")],
  observe=["debug_results, logger records, run results"])

p("C18", "Reading and writing tables through faulty streams is all-or-error",
  "Reading a table into a linked frame from a stream that delivers data in any pieces gives exactly the table the underlying reader gives, as a linked frame; if the stream fails, the error reaches the caller. Writing a linked frame produces byte for byte what writing its plain data would, links excluded; if the stream fails or is interrupted, the error reaches the caller and the frame with its links is unchanged and can be written again.",
  ["fault_sequences", "crash_points", "inputs"],
  "For every sequence of short reads, read errors, truncated input, write errors, full disks and interrupts at any call.",
  "Tests never read or write a stream that fails.",
  [LDF],
  [("read_csv, read_table, read_fwf, read_", "cheval/ldf/api.py"), ("to_csv", "cheval/ldf/api.py")],
  observe=["frames read, bytes written, exceptions"])

p("C19", "The package imports and reports a version whatever the system commands do",
  "Importing the package and asking its version never fails, hangs or raises, whichever of the version-control commands it consults is missing, refuses, fails, prints nothing or prints malformed output, at any position in the sequence of commands. When the commands succeed the version is the one they describe, and when they do not the version is the documented unknown placeholder.",
  ["fault_sequences"],
  "For every sequence of outcomes of the version-control commands, each independently succeeding, failing or returning malformed output.",
  "Tests import the package in one working environment only.",
  ["cheval/_version.py", "cheval/__init__.py"],
  [("get_versions, git_pieces_from_vcs, run_command, render", "cheval/_version.py")],
  observe=["value of the version or exception at import"])

p("C20", "A run never uses missing, stale or mismatched data",
  "A run whose expressions need a symbol that is undeclared, unassigned, released by an earlier run, or emptied by a change of decision units refuses with the not-ready error before computing anything, and names of reserved words cannot be declared. After decision units or choices change, every result, index and stored utility reflects the new ones only; data that does not match them is refused on assignment.",
  ["histories", "fault_sequences"],
  "For every interleaving of decision-unit changes, tree edits, declarations, assignments (matching and mismatching), clearing, failed attempts and runs.",
  "Tests assign everything once in the intended order.",
  [MODEL, API],
  [("validate", "cheval/model.py"), ("decision_units setter empties symbols", "cheval/model.py"), ("clear_scope", "cheval/model.py"), ("assign checks", "cheval/api.py")],
  observe=["exceptions and results of runs"])

p("C21", "Unsupported expression syntax is rejected",
  "Expressions outside the supported language (subscripts, comprehensions, unknown functions, several filters, conditional expressions) are rejected with a syntax error when added, and supported ones are accepted.",
  ["inputs"], "For every expression text.",
  "Tests sample a few dozen texts.", [PARSE, EXPR],
  [("ExpressionParser", "cheval/parsing/ast_transformer.py")])

p("C22", "Default fill values follow the column's data type",
  "The default fill of an unmatched lookup is determined by the column's data type alone (zero for integers, not-a-number for floats and categories, false for booleans, empty text for strings, not-a-time for dates).",
  ["inputs"], "For every data type.",
  "Tests cover a few types.", [FILL], [("infer_dtype and default table", "cheval/ldf/missing_data.py")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")

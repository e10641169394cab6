TRUST = (" Trusts rustc's MIR construction and name resolution, the fact extractor, and the documented behaviour of std "
         "and third-party crates; nothing is executed.")

prop("C01", "Proof output and processor failures always reach the caller",
     "If writing or flushing a proof, self-checking it, or a registered proof processor fails, the solve or close call "
     "in progress reports that error instead of a result, and the command line tool reports the error instead of a satisfiable, unsatisfiable or verified verdict. "
     "Apart from destructors, no fallible step in the libraries or the tool has its error silently dropped.",
     ["fault_sequences", "inputs"],
     "every point at which an I/O operation or a proof processor can fail, for every instance and API call sequence",
     "Tests inject two failures (one small buffer, one failing processor); they cannot enumerate every fallible call and every point of failure.",
     ["varisat/src/proof.rs", "varisat/src/solver.rs", "varisat-cli/src/main.rs", "varisat-cli/src/check.rs", "varisat-lrat/src/lib.rs",
      "varisat-checker/src/lib.rs", "varisat-checker/src/state.rs"],
     [("handle_io_errors / handle_self_check_result store the error in the solver state", "varisat/src/proof.rs"),
      ("solve and close_proof return the stored error", "varisat/src/solver.rs check_for_solver_error"),
      ("solve_finished / close_proof flush the proof", "varisat/src/proof.rs"),
      ("the CLI closes the proof and flushes LRAT output before announcing a verdict", "varisat-cli/src/main.rs, check.rs")],
     "result-flow (every error value is consumed) and must-pass-through on exploded MIR graphs",
     "Every call returning a Result with an I/O, checker, parser or solver error is followed to a consumer; error edges of the proof handlers "
     "must store the error; success returns must cross flush and the error query." + TRUST)

prop("C02", "A solver that hit an unrecoverable error never searches again",
     "Once solve or close has reported an error other than an interruption, every later solve call panics instead of continuing from "
     "an inconsistent state. While an error is pending no further round of the search runs and no further proof step is processed.",
     ["fault_sequences", "histories"],
     "every sequence of API calls after a failure at any point",
     "The tests cover two failures followed directly by one more solve call.",
     ["varisat/src/solver.rs", "varisat/src/state.rs", "varisat/src/schedule.rs", "varisat/src/proof.rs"],
     [("state_is_invalid assertion", "varisat/src/solver.rs solve"),
      ("non-recoverable errors set state_is_invalid", "varisat/src/solver.rs check_for_solver_error"),
      ("schedule_step stops on a pending error", "varisat/src/schedule.rs"),
      ("add_step skips output while an error is pending", "varisat/src/proof.rs")],
     "typestate / dominance on exploded MIR graphs",
     "Path-sensitive over the inlined control flow of solve, close and the proof entry points." + TRUST)

prop("C03", "Proofs and self-checking can only be enabled on an unused solver",
     "Starting a proof, self-checking or a proof processor succeeds only while no clause has been added and no variable has been used; "
     "afterwards the call panics and changes nothing. The solver never goes back to counting as unused.",
     ["histories"],
     "every sequence of public API calls before the proof-enabling call",
     "Three tests check a single preceding add_clause; other ways to change the solver are not sampled.",
     ["varisat/src/solver.rs", "varisat/src/load.rs", "varisat/src/variables.rs", "varisat/src/state.rs"],
     [("formula_is_empty assertions", "varisat/src/solver.rs"),
      ("formula_is_empty cleared on the first clause or variable", "varisat/src/load.rs load_clause, varisat/src/variables.rs global_from_user")],
     "guard dominance and who-may-write analysis on exploded MIR graphs",
     "Covers every public method that can reach a write of the proof configuration." + TRUST)

prop("C04", "Every change to the clause set and variable names is logged in the proof",
     "Whenever the solver adds an input clause, learns, strengthens, shortens or deletes a clause, fixes a variable, changes assumptions, "
     "renames, hides or deletes a variable, or reports a model or failed assumptions, the corresponding step is sent to the active proof outputs. "
     "No path performs such a change without the step.",
     ["inputs", "histories", "configurations"],
     "every formula, API call sequence and solver configuration that reaches a change of the clause database, units or variable maps",
     "Self-checked tests only cover the clause shapes and schedules random formulas happen to produce.",
     ["varisat/src/load.rs", "varisat/src/cdcl.rs", "varisat/src/unit_simplify.rs", "varisat/src/clause/reduce.rs", "varisat/src/binary.rs",
      "varisat/src/variables.rs", "varisat/src/assumptions.rs", "varisat/src/model.rs", "varisat/src/proof.rs"],
     [("proof::add_step / proof::add_clause called next to every mutation", "varisat/src/*.rs"),
      ("active proof outputs receive each step", "varisat/src/proof.rs add_step")],
     "value-flow analysis (symbolic terms, no solver) of every path that changes clauses, units, names, assumptions or models, paired with the proof steps sent; completeness by enumerating the writers and callers in the compiler's MIR",
     "Walks every path of the functions that change clauses, units and maps, and compares the change with the proof steps sent on that path; writers and callers outside the walked functions are violations." + TRUST)

prop("C05", "Native proofs decode to exactly the steps that were encoded",
     "For every kind of proof step, decoding what the encoder wrote gives back a step of the same kind with the same field values and consumes exactly the written fields; "
     "no two kinds share a code, and a decoder never accepts a variable, literal or hash width outside the supported range. "
     "Malformed input produces an error, never a panic or an unbounded up-front allocation.",
     ["inputs"],
     "every proof step value and every byte sequence given to the decoder",
     "Only an integer round-trip is tested; end-to-end tests never exercise rarely used steps or malformed input.",
     ["varisat-internal-proof/src/binary_format.rs", "varisat-internal-proof/src/vli_enc.rs"],
     [("write_step / parse_step tables", "varisat-internal-proof/src/binary_format.rs")],
     "abstract interpretation of the encoder composed with the decoder on MIR, with symbolic field values and intervals",
     "The integer code is abstracted as one item per written integer (its own round trip is C27); lists are abstracted by emptiness and a representative element." + TRUST)

prop("C06", "DRAT output contains every clause addition and deletion",
     "In text and binary DRAT, each derived clause, each proven unit and each clause deletion is written as one complete line with the literals of the step, "
     "with deletions marked as such; only steps that do not change the clause set are omitted. Both encodings cover the same steps.",
     ["inputs", "configurations"],
     "every proof step and output format",
     "The external DRAT checker is not available to the tests, so DRAT output is never checked.",
     ["varisat/src/proof/drat.rs", "varisat/src/proof.rs"],
     [("drat_step dispatch", "varisat/src/proof/drat.rs")],
     "abstract interpretation of MIR with symbolic proof steps",
     "Each step kind is interpreted with arbitrary literals in both encodings and the written tokens compared with one table." + TRUST)

prop("C07", "The checker accepts a derived clause or deletion only after verifying it",
     "A clause derived in a proof becomes available to later steps only after its unit propagation check succeeded; irredundant clauses are removed only when "
     "satisfied by a unit or subsumed by the clause just derived; variables are deleted only when no user name and no clause uses them, and a clause justifies a deletion only while it is itself present. "
     "A proof is accepted only if every step passed and an explicit end step was reached.",
     ["inputs"],
     "every sequence of proof steps, including adversarial proofs",
     "Each rejection is tested with one hand-written proof; combinations and other paths are not.",
     ["varisat-checker/src/state.rs", "varisat-checker/src/rup.rs", "varisat-checker/src/clauses.rs", "varisat-checker/src/variables.rs"],
     [("check_step and its helpers", "varisat-checker/src/state.rs"), ("check_clause_with_hashes", "varisat-checker/src/rup.rs")],
     "abstract interpretation of the MIR of every checker step over symbolic clause, unit and variable tables",
     "Every path that stores or deletes a clause or returns Ok must have passed the check it depends on, for the same clause and literals." + TRUST)

prop("C08", "Checked models and failed assumptions were verified against the formula",
     "The checker reports a model to processors only after it was found free of contradictions, consistent with all known units, containing all current "
     "assumptions, and satisfying every stored clause, and only while the formula is not known to be unsatisfiable. It reports failed assumptions only if "
     "they are current assumptions and either contradict each other or their negation was verified as a clause.",
     ["inputs"],
     "every model and failed assumption step in every checker state",
     "Each single rejection has one test; the conjunction for all models cannot be sampled.",
     ["varisat-checker/src/state.rs", "varisat-checker/src/sorted_lits.rs"],
     [("check_model_step, check_failed_assumptions_step", "varisat-checker/src/state.rs")],
     "abstract interpretation of the MIR of the model and failed assumption steps over symbolic tables",
     "Requires each of the listed tests, with its rejecting outcome, on every path to the report." + TRUST)

prop("C09", "The DIMACS parser accepts exactly well-formed input, in any chunking",
     "The parser accepts exactly the documented grammar: comments, at most one header before any clause, and clauses of in-range literals each ended by a zero; "
     "it fails for unexpected characters, literals or header counts out of range, a malformed or repeated header, a dangling minus sign, a final clause without "
     "terminator, or counts that contradict the header. Each literal is delivered with its sign and each clause ends where its zero is. "
     "Once parsing has failed the parser refuses further input. Dividing the input into chunks makes no difference.",
     ["inputs"],
     "every byte sequence, in every division into chunks",
     "Tests cover a couple of dozen malformed strings, all in one chunk.",
     ["varisat-dimacs/src/lib.rs"],
     [("parse_chunk, eof, check_header, parse_header_line", "varisat-dimacs/src/lib.rs")],
     "abstract interpretation of the parser's MIR in lock step with a reference automaton of the grammar; guard dominance",
     "Decides the control behaviour for every byte in every parser state and the range guards; numeric values are symbolic terms." + TRUST)

prop("C10", "Configuration updates are range checked and all-or-nothing",
     "Applying a configuration update either validates every present value against its documented range and then applies all of them, or reports an error and "
     "leaves the configuration and the running solver unchanged. Every configuration option can be set and is honoured by updates.",
     ["configurations", "inputs"],
     "every configuration update",
     "No test exercises configuration errors.",
     ["varisat/src/config.rs", "varisat-internal-macros/src/lib.rs", "varisat/src/solver.rs", "varisat/src/context.rs"],
     [("generated SolverConfigUpdate::apply", "varisat-internal-macros/src/lib.rs"), ("config_changed", "varisat/src/context.rs")],
     "abstract interpretation of the macro-expanded MIR",
     "Enumerates the fields of the configuration from the type and requires check, write and merge for each." + TRUST)

prop("C11", "No stale clause reference survives garbage collection or deletion",
     "When clause storage is compacted, every place that holds references into it is updated or emptied before it is used again. "
     "A clause that justifies a current assignment is never deleted by database reduction.",
     ["histories", "configurations"],
     "every point in a search at which garbage collection or clause deletion may run",
     "Tests trigger collection only on a few random formulas; a stale reference usually still reads plausible data.",
     ["varisat/src/clause/gc.rs", "varisat/src/clause/db.rs", "varisat/src/clause/reduce.rs", "varisat/src/prop/graph.rs", "varisat/src/prop/watch.rs"],
     [("collect_garbage_now", "varisat/src/clause/gc.rs"), ("asserting-clause test before deletion", "varisat/src/clause/db.rs")],
     "type-based holder enumeration, term-based abstract interpretation, liveness and dominance over MIR",
     "Every field whose type can contain a clause reference; the collector, the deletion guard and the forgetting of top-level reasons for arbitrary contents; every call that may collect; every point where clauses are simplified." + TRUST)

prop("C12", "Per-variable tables always cover every allocated variable",
     "Whenever a new variable or literal is introduced in the solver, the checker or a formula, every table indexed by variables or literals is extended to "
     "cover it before it can be used, by an amount matching how it is indexed.",
     ["inputs", "histories"],
     "every order in which variables are introduced",
     "A missing or short resize only shows for particular variable orders and table growth patterns.",
     ["varisat/src/context.rs", "varisat/src/variables.rs", "varisat-checker/src/variables.rs", "varisat-formula/src/cnf.rs"],
     [("set_var_count", "varisat/src/context.rs"), ("ensure_var", "varisat-checker/src/variables.rs")],
     "MIR inventory of index expressions, and term-based abstract interpretation of the functions that extend tables",
     "Derives the per-variable and per-literal tables from how they are indexed, then requires that introducing a variable extends each one far enough before the variable is used. "
     "Tables indexed through raw pointers are outside the inventory." + TRUST)

prop("C13", "Temporary marks and assignments are always undone",
     "Glue computation, conflict analysis, assumption conflict analysis and the checker's propagation check mark literals, levels or temporary assignments in shared tables. "
     "They leave those tables clean on every exit, including error exits, and shared buffers are emptied before they are filled, so no operation can influence a later one through leftovers.",
     ["inputs", "histories", "fault_sequences"],
     "every execution path of the operations using shared scratch state",
     "Leftover marks only change a later, unrelated call; tests rarely combine the two.",
     ["varisat/src/analyze_conflict.rs", "varisat/src/assumptions.rs", "varisat/src/glue.rs", "varisat-checker/src/rup.rs", "varisat-checker/src/state.rs"],
     [("cleanup loops of conflict analysis, glue computation and RUP checks", "varisat/src/analyze_conflict.rs, varisat/src/glue.rs, varisat-checker/src/rup.rs")],
     "acquire/release pairing over every exit of exploded MIR graphs (cleanup lists, mark counters, clearing loops, undo trails)",
     "Every mark that is set must be listed, counted or cleared over the same collection, and every exit must lie behind the completed cleanup; anything else is reported. Assumed: marked literals of the current decision level are on the trail; panics are no exits." + TRUST)

prop("C14", "Unsafe code cannot be reached with out-of-bounds or mistyped data",
     "Safe callers of the library cannot cause undefined behaviour: unsafe code is confined to a reviewed set of operations, reinterpreting casts only involve "
     "types with guaranteed identical layout, and unchecked accesses are preceded by the bounds check that justifies them or are unsafe to call.",
     ["programs", "inputs"],
     "every safe use of the public API",
     "Undefined behaviour usually does not fail a test.",
     ["varisat/src/clause/alloc.rs", "varisat/src/clause/header.rs", "varisat/src/clause.rs", "varisat-checker/src/clauses.rs", "varisat/src/prop"],
     [("bounds checks before unchecked access", "varisat/src/clause/alloc.rs"), ("repr(transparent) / repr(C) annotations", "varisat-formula/src/lit.rs, varisat/src/clause/header.rs")],
     "unsafe-operation inventory on MIR; layout obligations on casts; dominating bounds checks in inlined control flow graphs with linear arithmetic; distance analysis of moving pointers",
     "Every unsafe operation in the workspace is matched with an obligation; anything not matched is reported. Assumed: lengths in clause headers stay as stored by the allocator (three or more literals), code generated by the partial_ref derive macro is right, and header and literal words are not overwritten with other data." + TRUST)

prop("C15", "The command line tool's verdict, exit code and printed answer agree",
     "The tool prints SATISFIABLE with a model and exits 10 only when solving returned satisfiable, prints UNSATISFIABLE and exits 20 only when it returned "
     "unsatisfiable, prints UNKNOWN and exits 0 only when solving or finishing the proof failed or was interrupted, prints VERIFIED and exits 0 only when proof checking succeeded, prints NOT VERIFIED and exits 1 when "
     "it failed, and exits nonzero with no verdict otherwise. Before a verdict the whole given input was read and every requested proof output was set up in the requested format and completely written.",
     ["inputs", "fault_sequences"],
     "every input, option combination and failure of the tool",
     "The command line tool has no tests.",
     ["varisat-cli/src/main.rs", "varisat-cli/src/check.rs"],
     [("main_with_err, check_main", "varisat-cli/src/main.rs, varisat-cli/src/check.rs")],
     "abstract interpretation of the MIR of the tool's main functions with arbitrary arguments and arbitrary outcomes of every library call",
     "Reads printed verdicts and exit codes off each path and matches them with the outcome of the solve or check call." + TRUST)

prop("C16", "Models, cores and results are only reported in the matching solver state",
     "A model is available exactly after a satisfiable result and a failed core exactly after an unsatisfiable one; adding a clause or changing assumptions withdraws "
     "outdated answers, and unconditional unsatisfiability is never withdrawn. Querying an answer never panics.",
     ["histories"],
     "every sequence of public API calls",
     "Tests query answers directly after solving only.",
     ["varisat/src/solver.rs", "varisat/src/state.rs", "varisat/src/load.rs", "varisat/src/assumptions.rs", "varisat/src/cdcl.rs", "varisat/src/model.rs"],
     [("sat_state transitions", "varisat/src/load.rs, varisat/src/assumptions.rs, varisat/src/cdcl.rs, varisat/src/model.rs")],
     "state-machine extraction: every write of the state, with its guards, against an allowed transition table",
     "Every write of the result state in the program and every accessor is enumerated." + TRUST)

prop("C17", "User, global and solver variable names stay one-to-one and correctly recycled",
     "The mappings between user, internal and solver variables stay mutually inverse; a name handed out for a new variable is never in use, and a name is offered for "
     "reuse exactly while it is not in use; the solver name of a variable that a clause or a current assumption contains is kept. Every clause, assumption, model and core crosses the interface through these mappings.",
     ["histories"],
     "every interleaving of adding, hiding, observing and using variables",
     "Tests hide and re-use variables in two fixed patterns.",
     ["varisat/src/variables.rs", "varisat/src/variables/var_map.rs", "varisat/src/load.rs", "varisat/src/solver.rs", "varisat/src/unit_simplify.rs"],
     [("VarBiMap insert/remove", "varisat/src/variables/var_map.rs"), ("freelists", "varisat/src/variables.rs")],
     "term-based abstract interpretation of MIR on an arbitrary state of the name maps, and who-may-write analysis",
     "Every function that binds, unbinds, hides, shows or deletes a name is interpreted; on every path both directions of a map, the freelists, deletion marks and proof steps must change together, and "
     "only unused names may be bound. Before a solver variable is removed it must be known to be isolated and not assumed, variables become isolated only with a unit clause, and loading a clause that "
     "is stored marks all its variables as occurring. That initially hidden variables have no user name (and others do) is assumed as the induction hypothesis." + TRUST)

prop("C18", "Hidden, witness and assumed variables cannot be misused",
     "Adding a clause or assumption over a witness variable panics, changing the mode of an assumed variable panics, and a variable counts as assumed exactly from the "
     "assume call naming it until the next assume call. Hiding removes the user name and makes it available for reuse.",
     ["histories"],
     "every interleaving of assume, solve, hide, witness and sample calls",
     "Two tests check hiding and witnessing directly after assume.",
     ["varisat/src/variables.rs", "varisat/src/assumptions.rs", "varisat/src/load.rs"],
     [("set_sampling_mode, global_from_user", "varisat/src/variables.rs"), ("assumed flags", "varisat/src/assumptions.rs")],
     "guard dominance and flag set/clear pairing on exploded MIR graphs",
     "Every write of the assumption and sampling flags is enumerated and must be guarded or paired." + TRUST)

prop("C19", "Clause database bookkeeping matches the stored clauses",
     "Every change of a clause's tier or deletion mark updates the per-tier counts, the per-tier lists and the amount of reclaimable storage together, and every stored "
     "long clause is watched. Deleted clauses are never propagated after the next rebuild of the watch lists.",
     ["histories", "configurations"],
     "every sequence of clause additions, tier changes, deletions and collections",
     "Only a unit test of tier changes on a handful of clauses exists.",
     ["varisat/src/clause/db.rs", "varisat/src/clause/gc.rs", "varisat/src/prop/watch.rs"],
     [("add_clause, set_clause_tier, delete_clause", "varisat/src/clause/db.rs")],
     "term-based and bit-exact abstract interpretation of MIR, per database operation and tier; MIR inventory of writers",
     "Each database operation, each tier, with arbitrary stored clauses; every writer of tiers, marks, counters and lists must be one of the interpreted operations." + TRUST)

prop("C20", "LRAT output reports every clause event with the right identifier",
     "The LRAT and compressed LRAT writers emit an addition for every checked derived clause with its identifier, literals and hints, and a deletion for every removed "
     "clause, both encodings in the same order and terminated; deletions that wait for the identifier they need are written before the next addition and when the writer is flushed "
     "or dropped; a failed write is reported, and a successful flush has passed everything on.",
     ["inputs", "configurations"],
     "every sequence of checked steps in both encodings",
     "The LRAT checker is not available to the tests; they only look at two small outputs for errors.",
     ["varisat-lrat/src/lib.rs"],
     [("WriteLrat process_step", "varisat-lrat/src/lib.rs")],
     "abstract interpretation of MIR to output tokens and writer state",
     "Each kind of step, each encoding and each writer state, with arbitrary identifiers, literals and hints; identifiers are assumed to stay below 2^62." + TRUST)

prop("C21", "Proof transcripts report each user-visible step faithfully",
     "The transcript produced while checking contains one entry for each input clause, assumption change, model, failed core, variable mode change and derived empty clause, "
     "expressed in user variable names (a model leaves out variables the user has no name for), and no other entries; every registered transcript processor gets each entry, a failing "
     "processor is reported, and the command line's transcript prints a line with the right kind and count for every run of like entries that is followed by another entry.",
     ["inputs", "histories"],
     "every sequence of checked proof steps",
     "No test looks at transcripts.",
     ["varisat-checker/src/transcript.rs", "varisat-cli/src/check/transcript.rs"],
     [("transcript_step", "varisat-checker/src/transcript.rs")],
     "abstract interpretation of MIR against a table of entries",
     "Every kind of checked step with arbitrary contents, any number of processors, and every state of the command line's printer (by induction over the states it reaches)." + TRUST)

prop("C22", "Every accepted checker mutation is reported to all proof processors",
     "Each time the checker adds, derives, removes or changes the redundancy of a clause, changes a variable's user name or mode, or accepts assumptions, a model or failed "
     "assumptions, every registered processor and transcript receives exactly the matching event with the same identifier and literals, and a processor's error stops checking.",
     ["inputs", "histories"],
     "every sequence of proof steps and every set of processors",
     "Processors in tests are LRAT writers whose output is not verified.",
     ["varisat-checker/src/state.rs", "varisat-checker/src/clauses.rs", "varisat-checker/src/variables.rs", "varisat-checker/src/processing.rs"],
     [("process_step", "varisat-checker/src/processing.rs")],
     "abstract interpretation of the MIR of every checker step with symbolic tables and a record of reports",
     "Every mutation of the checker's clause and variable state must reach the matching event on every success path." + TRUST)

prop("C23", "Solving is deterministic",
     "The same sequence of API calls with the same configuration always gives the same results, models, cores and proofs: no decision in the libraries depends on time, "
     "randomness, memory addresses, threads, the environment or state shared between solvers.",
     ["histories", "schedules"],
     "every run of every call sequence",
     "A test cannot tell a rare dependence on ambient state from a deterministic run.",
     ["varisat/src", "varisat-checker/src", "varisat-lrat/src", "varisat-internal-proof/src", "varisat-formula/src", "varisat-dimacs/src"],
     [("only deterministic hashing and no ambient inputs", "Cargo.toml of each crate")],
     "whole-program effect analysis: no nondeterminism source among resolved callees, types and casts",
     "Covers every function compiled into the libraries, including generic code; third-party crates are judged by the entry points used." + TRUST)

prop("C24", "The libraries touch nothing but the memory, readers and writers given to them",
     "Library code performs no file system, network, process, environment, console or thread operations and never terminates the process; all input and output goes "
     "through the readers, writers and processors the caller supplies (plus the logging facade).",
     ["inputs", "histories", "programs"],
     "every library call",
     "Tests cannot observe all side effects.",
     ["varisat/src", "varisat-checker/src", "varisat-lrat/src", "varisat-internal-proof/src", "varisat-formula/src", "varisat-dimacs/src"],
     [("no such calls in library crates", "varisat/src/lib.rs and the other library crates")],
     "whole-program effect analysis over resolved callees (who-may-call)",
     "Every resolved call in the library crates is classified." + TRUST)

prop("C25", "Proof steps with arbitrary variables never crash the checker",
     "Whatever variables and literals a proof step names, the checker either processes the step or returns an error; it never accesses its per-variable tables out of bounds and never panics.",
     ["inputs"],
     "every proof step over any representable variable, in every checker state",
     "Tests use proofs over known variables.",
     ["varisat-checker/src/state.rs", "varisat-checker/src/variables.rs", "varisat-checker/src/clauses.rs", "varisat-checker/src/rup.rs"],
     [("ensure_var before indexing, checked lookup otherwise", "varisat-checker/src")],
     "abstract interpretation of the MIR of every checker step with symbolic variable indices and table lengths",
     "Every indexing of a per-variable table reachable from a proof step must be preceded by the extension of the tables for the same variable." + TRUST)

prop("C26", "Assignment, trail and decision bookkeeping change together",
     "Whenever the solver assigns a variable it records the reason, level and trail entry, and whenever it retracts an assignment it restores the variable as a decision "
     "candidate, saves its phase and resets propagation, so that backtracking and restarting always restore a consistent earlier state. A decision or assumption opens exactly one level and only "
     "assigns an unassigned literal; a learned clause is stored and its first literal assigned with that clause as reason after backtracking to the analysed level.",
     ["histories", "inputs"],
     "every search path",
     "Inconsistent bookkeeping only corrupts later search on particular formulas.",
     ["varisat/src/prop/assignment.rs", "varisat/src/prop/graph.rs", "varisat/src/decision.rs", "varisat/src/assumptions.rs"],
     [("enqueue_assignment, backtrack", "varisat/src/prop/assignment.rs"), ("conflict_step", "varisat/src/cdcl.rs"), ("prove_units, resurrect_unit", "varisat/src/unit_simplify.rs")],
     "term-based abstract interpretation of MIR on an arbitrary solver state, and who-may-write analysis",
     "Each function that assigns, retracts, decides, learns or removes top-level units is interpreted on an arbitrary state; on every path the set of changed bookkeeping must be the matching one. "
     "Long clause propagation (raw pointers) is not interpreted: that it only enqueues unassigned literals is not decided; the heap order inside the decision heuristic is not part of it." + TRUST)

prop("C27", "Variable length integers in native proofs round-trip for all 64-bit values",
     "Decoding an encoded unsigned 64-bit integer gives back the same integer and consumes exactly the bytes written for it, whether or not the buffered fast paths "
     "are taken; no encoding is longer than the space reserved for it.",
     ["inputs"], "every 64-bit value and every state of the read and write buffers", "Tests sample random values.",
     ["varisat-internal-proof/src/vli_enc.rs"], [("write_u64, read_u64", "varisat-internal-proof/src/vli_enc.rs")],
     "abstract interpretation of encoder and decoder MIR over symbolic bits",
     "One run per bit length (0..64) and buffer state; the value's bits are symbols, so each run covers all values of that length." + TRUST)

# ---- not applicable: quantify over runtime values
NA = "quantifies over runtime values of the search; no sound static argument in reach bounds them: "
prop("C28", "Variable and literal conversions are mutually consistent",
     "For every representable variable and either sign: building a literal from a variable, index, code or DIMACS number and reading back the variable, index, code, sign, or DIMACS "
     "number gives what went in; a literal's code is twice its index plus one when negative; negation flips only the sign; xor with a bool flips the sign iff it is true; "
     "map_var changes only the variable; ordering and equality are those of the code; Display prints the DIMACS number.",
     ["inputs"],
     "every representable variable and literal",
     "Unit tests check a few small variables; the largest ones need the top bits of the code.",
     ["varisat-formula/src/lit.rs"],
     [("Lit and Var", "varisat-formula/src/lit.rs")],
     "symbolic-term interpretation of MIR",
     "Each conversion is interpreted once with an unconstrained variable and sign." + TRUST)

prop("C29", "Proof steps reach every proof consumer unchanged except for renaming",
     "Every proof step passed to the proof module is, in each configuration, sent to the native proof output and to the on-the-fly self checker exactly once, in the order passed, "
     "with the same kind and fields; only variable names are translated from solver to global names where the step requires it and hashes are narrowed or computed as the hash width requires. "
     "A step is skipped only when the configured output does not contain it. Input clauses reach the self checker as input before solving and as proof steps afterwards.",
     ["inputs", "configurations"],
     "every proof step, format, checker and hash width",
     "Tests use few steps per configuration and cannot compare the step sent with the step received.",
     ["varisat/src/proof.rs", "varisat/src/proof/map_step.rs"],
     [("add_step", "varisat/src/proof.rs"), ("MapStep::map", "varisat/src/proof/map_step.rs")],
     "abstract interpretation of MIR with symbolic proof steps",
     "Each step kind is interpreted with arbitrary field values in every configuration." + TRUST)

prop("C30", "DIMACS output lists exactly the given clauses",
     "write_dimacs_header writes `p cnf <variables> <clauses>` with the given counts; write_dimacs_clauses writes, for each clause in order, the DIMACS numbers of its literals in order and a terminating zero on a line of its own; "
     "write_dimacs writes the header with the formula's variable and clause count followed by its clauses. Nothing else is written, and every failed write is returned as an error.",
     ["inputs", "faults"],
     "every formula, clause iterator and header, and every point of a failing write",
     "Round trip tests use small random formulas and writers that never fail.",
     ["varisat-dimacs/src/lib.rs"],
     [("write_dimacs", "varisat-dimacs/src/lib.rs")],
     "abstract interpretation of MIR to output token structure",
     "Formulas of any size are interpreted through loop summaries." + TRUST)

prop("C31", "Variable declarations of a proof are checked",
     "The checker accepts a user name only for a variable that is not hidden and has no name, and only if the name is the index of a known variable and not used for another variable; it accepts the removal of a name only for a named variable, "
     "which becomes hidden and frees the name; it lets a variable be deleted only if it has no user name and no clause of two or more literals contains it, which resets it and removes its unit clause; only named variables can be turned into sampling variables. "
     "Every declaration meeting these conditions is accepted and recorded as declared. Formula clauses and assumptions may only use sampling variables; new variables start as unnamed sampling variables.",
     ["inputs", "histories"],
     "every sequence of declaration steps over arbitrary variables, names and checker states",
     "Tests contain one proof per rejection; acceptance and bookkeeping depend on the state left by earlier declarations.",
     ["varisat-checker/src/variables.rs", "varisat-checker/src/state.rs"],
     [("add_user_mapping, remove_user_mapping, ensure_sampling_var", "varisat-checker/src/variables.rs"), ("check_delete_var_step, check_change_sampling_mode", "varisat-checker/src/state.rs")],
     "abstract interpretation of MIR with symbolic table entries",
     "Step contents and checker state are arbitrary; one symbolic entry per table stands for every variable." + TRUST)

prop("N01", "Satisfiable and unsatisfiable answers are correct",
     "Solve returns satisfiable exactly when the clauses and assumptions have a common satisfying assignment.",
     ["inputs", "histories", "configurations"], "every formula", "Random formulas only.",
     ["varisat/src"], [("CDCL search", "varisat/src/cdcl.rs")], na=NA + "functional correctness of the whole CDCL search.")
prop("N02", "A reported model satisfies every clause and assumption",
     "Every returned model satisfies all clauses added so far and all assumptions.",
     ["inputs", "histories"], "every satisfiable instance", "Random formulas only.",
     ["varisat/src/model.rs"], [("model reconstruction", "varisat/src/model.rs")], na=NA + "truth of the model depends on completeness of propagation.")
prop("N03", "A failed core is itself contradictory with the formula",
     "The reported subset of assumptions is unsatisfiable together with the clauses.",
     ["inputs", "histories"], "every failing assumption set", "One formula family.",
     ["varisat/src/assumptions.rs"], [("analyze_assumption_conflict", "varisat/src/assumptions.rs")], na=NA + "validity of the traversed implication graph (leftover marks are covered by C13).")
prop("N04", "Solving terminates",
     "Every solve call without interruption eventually returns.",
     ["inputs"], "every formula", "Small formulas only.",
     ["varisat/src/schedule.rs"], [("restart and learning schedule", "varisat/src/schedule.rs")], na=NA + "termination measure over learned clauses.")
prop("N06", "DIMACS writing then parsing returns the same formula",
     "Writing a formula and parsing it back yields the identical clause list.",
     ["inputs"], "every formula", "Random samples.",
     ["varisat-dimacs/src/lib.rs"], [("write_dimacs, parse", "varisat-dimacs/src/lib.rs")], na="value-level round trip through decimal conversion.")
prop("N07", "Decisions pick the most active variable",
     "Each decision selects an unassigned variable of maximal activity.",
     ["histories"], "every heap state", "Two heap unit tests.",
     ["varisat/src/decision/vsids.rs"], [("binary heap", "varisat/src/decision/vsids.rs")], na="heap order is an invariant over floating point runtime values; it affects only performance.")

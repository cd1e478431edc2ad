#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os, sys
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

# ---------------------------------------------------------------- JS front end
p("C01", "Parsing is total, deterministic and cancellable for every source text",
  "For every UTF-8 text, every dialect (Js, Jsx, Ts, Tsx, Dts, Ecma) and source type, parsing returns either a syntax tree or a structured syntax error whose location lies inside the text on character boundaries; it never panics, aborts or loops. Parsing the same text twice gives the same result. Parsing under a cancellation flag that stays unset gives the same result as plain parsing, and under a set flag it reports cancellation and nothing else.",
  ["inputs", "configurations", "fault_sequences"], "every text x dialect x source type x moment at which cancellation is requested",
  "Unit tests parse a few hundred fixed snippets; totality, location bounds and cancellation equivalence quantify over all texts, including truncated, mutated and non-ASCII ones.",
  ["parse-js/src/lib.rs", "parse-js/src/lex/mod.rs", "parse-js/src/parse/mod.rs", "parse-js/src/loc.rs", "parse-js/src/error.rs"],
  [("token buffering, checkpoints and re-lexing", "parse-js/src/parse/mod.rs"), ("lexer mode switching", "parse-js/src/lex/mod.rs"), ("cancellation polling", "parse-js/src/parse/mod.rs")],
  ["return value of parse_with_options / parse_with_options_cancellable", "process exit status"])
p("C02", "The strict ECMAScript dialect accepts exactly the ECMAScript grammar",
  "In the strict ECMAScript dialect, a text in the supported language is accepted as a script or as a module exactly when the ECMAScript syntactic grammar accepts it under that goal. In particular every valid program is accepted, and a program made ungrammatical (a missing, extra or misplaced token, a reserved word used as a binding, a misplaced await/yield/super/import/export/break/continue, TypeScript-only or JSX syntax) is rejected.",
  ["inputs", "configurations"], "every source text x {script, module}",
  "Acceptance is a statement about an infinite language; the tests list a few dozen accepted and rejected snippets.",
  ["parse-js/src/parse/expr/mod.rs", "parse-js/src/parse/stmt/mod.rs", "parse-js/src/parse/class_or_object.rs", "parse-js/src/parse/import_export.rs", "parse-js/src/lex/mod.rs"],
  [("context-sensitive keyword rules (ParseCtx)", "parse-js/src/parse"), ("automatic semicolon insertion", "parse-js/src/parse/mod.rs"), ("regex/division disambiguation", "parse-js/src/lex/mod.rs")],
  ["Ok/Err of parse_with_options with Dialect::Ecma"])
p("C03", "Every syntax node carries a correct, nested source span",
  "Every node of a returned syntax tree has a byte span that lies inside the text, falls on character boundaries, and covers the spans of its children; siblings in a list appear in source order without overlapping. The text a node spans is that node's own text: a statement's, expression's, function's or literal's span starts at its first token and ends at its last.",
  ["inputs"], "every parsed program and every node in it",
  "Diagnostics, hover, source maps and span-keyed caches rely on the spans of all nodes; tests look at a handful of them.",
  ["parse-js/src/loc.rs", "parse-js/src/ast/node.rs", "parse-js/src/parse"],
  [("Node::loc construction", "parse-js/src/parse/mod.rs"), ("span arithmetic", "parse-js/src/loc.rs")],
  ["loc of every node of the serialised tree"])
p("C04", "Literals denote the value ECMAScript gives them",
  "For every numeric, BigInt, string, template and regular expression literal in every legal spelling (radix prefixes, separators, exponents, legacy octal, all escape forms, line continuations, lone surrogates, astral characters, CR/LF normalisation), the decoded value the parser exposes is the value an ECMAScript engine computes for that literal. Rejected spellings are the ones the language rejects.",
  ["inputs"], "every literal spelling in every literal position",
  "The literal spellings are unbounded and every downstream tool (minifier folding, optimizer, type checker literal types) consumes the decoded value; tests sample a few escapes.",
  ["parse-js/src/parse/expr/lit.rs", "parse-js/src/num.rs", "parse-js/src/lex/mod.rs", "emit-js/src/escape.rs"],
  [("literal decoding", "parse-js/src/parse/expr/lit.rs"), ("JsNumber parsing and printing", "parse-js/src/num.rs")],
  ["literal values and code-unit side tables on the tree", "V8's value of the same literal"])
p("C05", "The syntax tree has the structure the language grammar prescribes",
  "For every valid program the returned tree describes the same program as the language specification: the same statements and expressions, with the same operator precedence and associativity, automatic semicolon insertion, declaration kinds, patterns, class and object members, function flags and module items, and for the TypeScript dialects the same declarations and type syntax. Nothing is dropped, reordered or attached to the wrong parent.",
  ["inputs", "programs"], "every valid program in the JS, JSX and TypeScript dialects",
  "A misparsed construct changes the meaning of everything downstream while still parsing; tests check shapes of individual snippets, not of all nestings.",
  ["parse-js/src/parse", "parse-js/src/operator.rs", "parse-js/src/ast"],
  [("precedence climbing", "parse-js/src/parse/expr/mod.rs"), ("cover grammar re-interpretation", "parse-js/src/parse/expr/util.rs"), ("type grammar", "parse-js/src/parse/type_expr.rs")],
  ["serialised tree compared with independent parsers"])
p("C06", "Emitting a tree and parsing it back gives the same program",
  "For every program the parser accepts, printing its tree (from the syntax tree and from the lowered tree, in canonical and minified mode, with either statement-separator and quote style) yields text that parses again under the same dialect to the same program. Printing is deterministic, and printing the re-parsed tree yields the same text again.",
  ["programs", "configurations"], "every parseable program x emitter x emit options",
  "Token gluing, parenthesisation, statement-start restrictions and ASI hazards arise from combinations of neighbours that no finite list of snippets covers.",
  ["emit-js/src/emitter.rs", "emit-js/src/expr.rs", "emit-js/src/expr_js.rs", "emit-js/src/stmt.rs", "emit-js/src/hir.rs", "emit-js/src/precedence.rs", "emit-js/src/asi.rs", "emit-js/src/stmt_start.rs", "emit-js/src/escape.rs", "emit-js/src/ts_type.rs"],
  [("precedence-driven parentheses", "emit-js/src/precedence.rs"), ("token boundary separation", "emit-js/src/emitter.rs"), ("ASI hazard rules", "emit-js/src/asi.rs"), ("statement-start rules", "emit-js/src/stmt_start.rs")],
  ["text returned by emit_top_level_diagnostic / emit_hir_file_diagnostic"])
p("C07", "Every identifier resolves to the binding ECMAScript scoping gives it",
  "For every valid script or module, the scope analysis links each identifier reference to exactly the declaration ECMAScript scoping rules select (var/let/const/class/function/param/catch/import bindings, hoisting, parameter scopes, named function and class expressions, shadowing), and leaves it unresolved exactly when it is a free or dynamically scoped name. Two references share a symbol if and only if they denote the same binding.",
  ["programs", "configurations"], "every valid program x {global, script, module} mode",
  "Renaming, dead-code removal and lowering rely on the answer for every reference in every nesting of scopes; tests check a few nestings.",
  ["semantic-js/src/js/declare.rs", "semantic-js/src/js/resolve.rs", "semantic-js/src/js/mod.rs", "semantic-js/src/assoc/js.rs"],
  [("declaration hoisting", "semantic-js/src/js/declare.rs"), ("reference resolution", "semantic-js/src/js/resolve.rs")],
  ["declared_symbol / resolved_symbol of every identifier"])
p("C08", "Minifying JavaScript never changes what the program does",
  "For every JavaScript program (script, global script or module), the minified output is a valid program that, run in an ECMAScript engine, produces the same sequence of observable effects, the same completion (value returned, exception thrown) and the same exported or global bindings as the original. Only function names and source text, which minification is allowed to change, are exempt.",
  ["programs", "configurations"], "every terminating program x top-level mode",
  "Semantic preservation quantifies over programs and their executions; unit tests compare text of selected rewrites and never run the result.",
  ["minify-js/src/lib.rs", "minify-js/src/opt", "minify-js/src/rename/mod.rs", "emit-js/src/hir.rs", "semantic-js/src/js"],
  [("constant folding, DCE, statement/control-flow/property rewrites", "minify-js/src/opt"), ("identifier renaming", "minify-js/src/rename/mod.rs")],
  ["minified text executed in V8 next to the original"])
p("C09", "Erasing TypeScript gives the JavaScript the TypeScript compiler would run",
  "For every TypeScript program in the supported language, the minifier's JavaScript output contains no TypeScript syntax and behaves at run time like the TypeScript compiler's own output: enums, namespaces, parameter properties, class fields, import/export elision, type assertions, overloads, abstract and declare members.",
  ["programs", "configurations"], "every supported TypeScript program x erase options",
  "Lowering interacts with scoping, merging and evaluation order; the tests compare output text for single constructs.",
  ["minify-js/src/ts_erase.rs", "minify-js/src/ts_lower/mod.rs", "minify-js/src/lib.rs"],
  [("type erasure and runtime lowering", "minify-js/src/ts_erase.rs")],
  ["erased output executed in V8 next to tsc's transpiled output"])
p("C10", "Minified output is hygienic, deterministic, stable and never breaks exports",
  "For every input the minifier accepts, running it again on the same input (in any process or thread) gives byte-identical output, its output is accepted when minified again, free (global) names, property names, exported names and names visible to direct eval or with are never renamed, and no renamed binding captures or is captured by another. When the input is rejected, structured diagnostics with in-range spans are returned and the output buffer is left untouched.",
  ["programs", "configurations", "schedules"], "every input text x options x concurrent use",
  "Capture-freedom and determinism quantify over all name environments and runs; tests look at particular small outputs.",
  ["minify-js/src/rename/mod.rs", "minify-js/src/lib.rs"],
  [("rename planning and reserved names", "minify-js/src/rename/mod.rs")],
  ["minified bytes", "binding structure of the minified text by an independent scope analyser"])
# ---------------------------------------------------------------- optimizer
p("C11", "The optimizing compiler's output behaves like its input program",
  "For every program the optimizer compiles without an unsupported-syntax diagnostic, the JavaScript it decompiles to behaves in an ECMAScript engine like the input: same observable effects in the same order, same thrown exceptions. A program it cannot handle is rejected with diagnostics, never miscompiled.",
  ["programs", "configurations"], "every supported program x top-level mode",
  "SSA construction, value numbering, pruning and structuring interact over arbitrary control flow; the tests check IL shapes of small functions.",
  ["optimize-js/src/lib.rs", "optimize-js/src/il/s2i", "optimize-js/src/opt", "optimize-js/src/ssa", "optimize-js/src/decompile", "optimize-js/src/eval/consteval.rs"],
  [("AST to IL lowering", "optimize-js/src/il/s2i"), ("dominance-based value numbering", "optimize-js/src/opt/optpass_dvn.rs"), ("SSA rename/deconstruct", "optimize-js/src/ssa"), ("control-flow structuring", "optimize-js/src/decompile/structurer.rs")],
  ["decompiled text executed in V8 next to the input"])
p("C12", "Optimizer results are well-formed and identical on every run and thread",
  "For every program, compilation terminates with a control-flow graph in which every edge leads to an existing block, every block is reachable from the entry, every variable read is defined on every path to it, and dominators, post-dominators, liveness and loop information agree with their textbook definitions on that graph. Compiling the same source again, or concurrently on many threads, gives the same program.",
  ["programs", "schedules"], "every supported program x thread schedule",
  "Graph invariants must hold for all control flow shapes and the parallel lowering for all schedules; unit tests construct a few graphs by hand.",
  ["optimize-js/src/cfg", "optimize-js/src/dom/mod.rs", "optimize-js/src/analysis", "optimize-js/src/ssa", "optimize-js/src/lib.rs"],
  [("CFG construction and pruning", "optimize-js/src/cfg"), ("dominator computation", "optimize-js/src/dom/mod.rs"), ("dataflow analyses", "optimize-js/src/analysis")],
  ["ProgramFunction bodies returned by compile_source", "public analysis results"])
# ---------------------------------------------------------------- HIR
p("C13", "Lowering to HIR is deterministic, complete and span-accurate",
  "For every file, lowering gives the same definitions, bodies and identifiers on every run; every function-like construct, class, variable, import and export of the source has its definition; identifiers are unique, spans lie inside the file and span lookups return the innermost item covering an offset. Editing inside one body, or adding unrelated code after it, does not change the identifiers of the other definitions.",
  ["programs", "histories"], "every program and every body-local edit of it",
  "ID stability is a relation between pairs of programs and span lookup quantifies over all offsets; tests compare a few pairs.",
  ["hir-js/src/lower.rs", "hir-js/src/span_map.rs", "hir-js/src/ids.rs", "hir-js/src/fingerprint.rs"],
  [("stable content-hash ids", "hir-js/src/ids.rs"), ("span index", "hir-js/src/span_map.rs")],
  ["LowerResult tables", "SpanMap queries at every offset"])
# ---------------------------------------------------------------- types
p("C14", "Type interning is canonical and independent of order and thread schedule",
  "Interning structurally equal types always yields the same identifier, and different types different identifiers; unions and intersections are normalised so that member order, duplication and nesting do not matter. Identifiers, rendered text and snapshots depend only on the set of types, not on the order in which or the threads from which they were interned, and restoring a snapshot reproduces every type under its identifier.",
  ["histories", "schedules"], "every set of types x insertion order x interleaving of interning threads",
  "Canonicity must hold for all insertion histories and thread interleavings; the tests try a few orders.",
  ["types-ts-interned/src/store.rs", "types-ts-interned/src/kind.rs", "types-ts-interned/src/ids.rs", "types-ts-interned/src/shape.rs"],
  [("content-hash identifiers and sharded interning", "types-ts-interned/src/store.rs"), ("union/intersection canonicalisation", "types-ts-interned/src/store.rs")],
  ["TypeId values, type_kind, snapshot and display across orders and threads"],
  state=[("interned tables", "id to kind maps for types, shapes, objects, signatures, names", "types-ts-interned/src/store.rs")])
p("C15", "Assignability obeys its laws and does not depend on query history",
  "For every pair of types the assignability, comparability and strict-subtype answers are the same whatever was asked before, with caches of any size, shared or disabled, and from any thread; assignability is reflexive, respects never/unknown/any, unions and intersections, and an explanation exists exactly when the answer is no. On the structural fragment shared with TypeScript the answer equals the TypeScript compiler's.",
  ["inputs", "histories", "schedules"], "every pair of (possibly recursive) types x query history x cache configuration",
  "Coinductive caching makes answers depend on history if wrong; tests ask each question once on a fresh context.",
  ["types-ts-interned/src/relate.rs", "types-ts-interned/src/cache.rs"],
  [("coinductive relation with in-progress assumptions", "types-ts-interned/src/relate.rs"), ("bounded sharded cache", "types-ts-interned/src/cache.rs")],
  ["RelateCtx answers and explanations", "tsc isTypeAssignableTo on the same types"])
p("C16", "Type-level evaluation computes what TypeScript computes",
  "For conditional, distributive, mapped (with modifiers and key remapping), keyof, indexed-access, template-literal and intrinsic string types over finite types, evaluation terminates within its limits and yields the type the TypeScript compiler yields. The result is independent of earlier evaluations and of cache configuration.",
  ["inputs", "histories"], "every type expression of the fragment x evaluation history",
  "Type-level programs nest arbitrarily; tests evaluate single operators.",
  ["types-ts-interned/src/eval.rs"], [("evaluator with caches and limits", "types-ts-interned/src/eval.rs")],
  ["evaluated types compared with tsc's checker"])
# ---------------------------------------------------------------- checker
p("C17", "Type-check results do not depend on order, threads or process",
  "For every project, the diagnostics, exported symbols and displayed types are identical across repeated runs, fresh processes, permuted root and file order, and any number of concurrent callers querying the same program.",
  ["programs", "configurations", "schedules"], "every project x root order x query order x thread interleaving",
  "Order dependence only shows for particular combinations of files, query orders and hash seeds; tests use one order.",
  ["typecheck-ts/src/program", "typecheck-ts/src/db", "typecheck-ts/src/check"],
  [("salsa queries and stable ids", "typecheck-ts/src/db/queries.rs"), ("diagnostic sorting", "diagnostics/src/lib.rs")],
  ["Program::check, exports_of, display_type"])
p("C18", "Incremental re-checking equals checking from scratch",
  "After any sequence of file edits, option changes and interleaved queries on a program, its diagnostics, exports and types equal those of a new program created directly with the final texts and options.",
  ["histories"], "every sequence of edits, option changes, queries and cancellations",
  "Staleness appears only for particular edit/query sequences across module dependencies; tests apply one edit.",
  ["typecheck-ts/src/program", "typecheck-ts/src/db"],
  [("input invalidation", "typecheck-ts/src/db/mod.rs"), ("body and declaration caches", "typecheck-ts/src/program/state")],
  ["Program::check after edits versus a fresh Program"])
p("C19", "Cancelling or racing queries never corrupts later answers",
  "A cancelled check stops with a cancellation error and leaves the program usable: once cancellation is cleared, all answers equal those of a program that was never cancelled. Concurrent queries neither deadlock nor race on memory.",
  ["schedules", "fault_sequences"], "every moment of cancellation x concurrent query mix",
  "The cancellation instant and interleaving are unbounded; the tests cancel once before starting.",
  ["typecheck-ts/src/program", "typecheck-ts/src/db/queries.rs", "typecheck-ts/src/check/hir_body.rs"],
  [("cancellation token", "typecheck-ts/src/program"), ("unsafe Send/Sync AST index and host pointers", "typecheck-ts/src/check/hir_body.rs, typecheck-ts/src/db/queries.rs")],
  ["results after cancellation", "ThreadSanitizer reports"])
p("C20", "The checker is total: no crash, no internal error, spans always valid",
  "For every set of source files, including syntactically broken, cyclic, duplicated, missing or enormous ones, checking returns; it never panics, overflows the stack or reports an internal compiler error, and every diagnostic label and type query span lies inside its file on character boundaries.",
  ["inputs", "configurations"], "every set of files x compiler options",
  "Totality is a claim about all inputs; tests feed curated projects.",
  ["typecheck-ts/src/check", "typecheck-ts/src/program", "typecheck-ts/src/db"],
  [("panic capture and ICE diagnostics", "typecheck-ts/src/program"), ("recursion and instantiation limits", "types-ts-interned/src/eval.rs")],
  ["returned diagnostics", "process exit status"])
p("C21", "The checker accepts and rejects what TypeScript accepts and rejects",
  "For programs of the supported core language, a program the TypeScript compiler accepts gets no error, a program with an injected type error (wrong argument, wrong assignment, missing property, unknown name, bad return, wrong arity, missing export) is rejected at that place, and the displayed type of an expression is the TypeScript compiler's type.",
  ["programs"], "every program of the core fragment x injected error",
  "Agreement with tsc is a claim over all programs; the harness compares a small fixture set.",
  ["typecheck-ts/src/check/hir_body.rs", "typecheck-ts/src/check/decls.rs", "typecheck-ts/src/check/overload.rs", "typecheck-ts/src/check/infer.rs", "typecheck-ts/src/check/flow_narrow.rs"],
  [("expression checking", "typecheck-ts/src/check/hir_body.rs"), ("overload resolution and inference", "typecheck-ts/src/check/overload.rs"), ("control-flow narrowing", "typecheck-ts/src/check/flow_narrow.rs")],
  ["diagnostics and types compared with tsc 5.9"])
p("C22", "A program snapshot restores to an equivalent program",
  "Taking a snapshot of a checked program, serialising it and restoring it gives a program with the same diagnostics, exports, symbols and types, and a snapshot of the restored program is the same again.",
  ["programs"], "every checked project",
  "Round-trip fidelity must hold for every kind of definition and type; tests restore two projects.",
  ["typecheck-ts/src/program/snapshot.rs", "types-ts-interned/src/store.rs"], [("snapshot encode/restore", "typecheck-ts/src/program/snapshot.rs")],
  ["answers of Program::from_snapshot versus the original"])
p("C23", "Module resolution finds the file TypeScript's resolver finds",
  "For every directory layout, package.json content and specifier, Node-style resolution returns the same file as the TypeScript compiler's resolver under the corresponding settings, or none exactly when that resolver finds none, and depends only on the file system's content.",
  ["inputs", "configurations"], "every layout x specifier x importing file",
  "exports/imports maps, conditions, patterns, index files and extension precedence combine without bound; tests try single features.",
  ["typecheck-ts/src/resolve/ts_node.rs", "typecheck-ts/src/resolve"], [("Node resolution algorithm", "typecheck-ts/src/resolve/ts_node.rs")],
  ["resolved path compared with ts.resolveModuleName"])
p("C24", "tsconfig loading agrees with TypeScript",
  "For every tsconfig (comments, extends chains, include/exclude/files, paths, target/lib/module/jsx/strict flags, types), the project loader selects the same root files and effective options as the TypeScript compiler, and reports malformed or cyclic configurations as errors.",
  ["inputs", "configurations"], "every configuration file and directory tree",
  "Inheritance, globbing and defaulting combine without bound; tests use a few fixed projects.",
  ["typecheck-ts-cli/src/tsconfig.rs", "typecheck-ts-cli/src/main.rs"], [("extends merging and glob matching", "typecheck-ts-cli/src/tsconfig.rs")],
  ["files and options of the loaded project compared with ts.parseJsonConfigFileContent"])
# ---------------------------------------------------------------- infrastructure
p("C25", "Diagnostics are rendered, ordered and deduplicated deterministically",
  "For every source text and span set, rendering returns text whose line and column numbers are those of the span, quotes exactly the covered lines, clamps out-of-range spans instead of failing, and is the same on every run. Sorting diagnostics is a total order that does not depend on input order, and path normalisation is idempotent.",
  ["inputs"], "every text (any newline style, any Unicode) x every span set x every permutation",
  "Line/column arithmetic over arbitrary Unicode and newline mixes is untested beyond ASCII examples.",
  ["diagnostics/src/lib.rs", "diagnostics/src/render.rs", "diagnostics/src/files.rs", "diagnostics/src/paths.rs"],
  [("line index and clamping", "diagnostics/src/render.rs"), ("diagnostic ordering", "diagnostics/src/lib.rs")],
  ["rendered text compared with a reference line/column model"])
p("C26", "Conformance bookkeeping loses, duplicates and misreports no case",
  "Shards of every test list partition it exactly, whatever the shard count; expectation manifests classify each id by the most specific matching entry; outcome summaries conserve counts, and an unexpected result is never reported as expected or the other way round. A test that exceeds its time budget is reported as timed out and its cancellation is signalled, and one that finishes in time never is.",
  ["inputs", "configurations", "schedules"], "every test list x shard split x expectation manifest x completion order",
  "Conservation over all lists, manifests and timings is outside the few fixed examples tested.",
  ["conformance-harness/src/shard.rs", "conformance-harness/src/expectations.rs", "conformance-harness/src/report.rs", "conformance-harness/src/timeout.rs", "typecheck-ts-harness/src/expectations.rs"],
  [("shard assignment", "conformance-harness/src/shard.rs"), ("expectation lookup", "conformance-harness/src/expectations.rs"), ("timeout manager thread", "conformance-harness/src/timeout.rs")],
  ["shard contents, lookups, summaries and cancellation flags"])
# ---------------------------------------------------------------- runtime
p("C27", "The JavaScript VM executes programs as ECMAScript specifies",
  "For every program in the VM's supported language, execution produces the same observable effects, completion value or thrown error, and microtask order as a conforming ECMAScript engine; unsupported constructs are reported as such.",
  ["programs"], "every supported program",
  "Evaluation order, coercions, scoping and abrupt completions combine without bound; tests run short snippets.",
  ["vm-js/src/exec.rs", "vm-js/src/ops.rs", "vm-js/src/object_ops.rs", "vm-js/src/builtins.rs", "vm-js/src/property.rs", "vm-js/src/promise_jobs.rs"],
  [("statement/expression evaluator", "vm-js/src/exec.rs"), ("internal methods and descriptors", "vm-js/src/object_ops.rs"), ("builtins", "vm-js/src/builtins.rs")],
  ["trace and completion compared with V8"])
p("C28", "Garbage collection is invisible to programs and never frees live objects",
  "A program's behaviour is the same whether the heap is collected at every allocation or never: everything reachable from roots survives unchanged, handles to collected objects are detected as stale and never alias new objects, and unreachable memory is reclaimed so heap accounting returns to its baseline.",
  ["programs", "schedules", "histories"], "every program x every collection schedule, every sequence of heap operations",
  "A missing root only shows when a collection happens at exactly that allocation; tests collect at a few fixed points.",
  ["vm-js/src/heap.rs", "vm-js/src/handle.rs", "vm-js/src/exec.rs", "vm-js/src/env.rs"],
  [("mark-sweep tracing and root scopes", "vm-js/src/heap.rs"), ("generation-checked handles", "vm-js/src/handle.rs")],
  ["traces under different GC thresholds", "heap accounting", "stale-handle errors"])
p("C29", "VM budgets, interrupts and heap limits always stop a program cleanly",
  "Every program run under a fuel budget, a deadline, an interrupt flag or a heap limit stops with the corresponding termination reason soon after the limit is reached, script code cannot catch or outlive it, and the embedding can keep using the runtime afterwards. A program that needs less than its limits is unaffected by them.",
  ["programs", "fault_sequences"], "every program x every budget value (every point of interruption)",
  "Each fuel value interrupts at a different point of evaluation; tests use one or two values on one loop.",
  ["vm-js/src/vm.rs", "vm-js/src/exec.rs", "vm-js/src/heap.rs"],
  [("tick/budget accounting", "vm-js/src/vm.rs"), ("heap limit checks", "vm-js/src/heap.rs")],
  ["termination reason, trace prefix, later runs on the same runtime"])
p("C30", "WebIDL conversions and overload resolution follow the WebIDL specification",
  "For every JavaScript value and every IDL type and extended attribute, conversion gives the value or the exception WebIDL prescribes (modular, clamped and range-enforced integers, floats, strings, enums, dictionaries, sequences, unions), and overload resolution selects the overload the specification's algorithm selects.",
  ["inputs"], "every value x IDL type x extended attribute; every overload set x argument list",
  "Integer wrap-around, clamping and ties range over all doubles; tests sample a few values.",
  ["webidl/src/convert.rs", "webidl/src/overload.rs", "webidl/src/to_js.rs"],
  [("integer conversion", "webidl/src/convert.rs"), ("overload resolution", "webidl/src/overload.rs")],
  ["conversion results compared with a reference model run in V8"])
p("C31", "The command-line tools report exactly what the libraries compute",
  "For every input file, option set and failure (unreadable file, invalid UTF-8, syntax error, timeout), each command-line tool terminates with an exit status that says whether it succeeded, prints or writes the library's result unchanged, keeps JSON output machine-readable, and never leaves a partly written or clobbered output file after an error.",
  ["inputs", "configurations", "fault_sequences"], "every invocation x input x failure",
  "Exit status and output integrity under all failures are outside the few invocations tested.",
  ["minify-js-cli/src/main.rs", "parse-js-cli/src/main.rs", "typecheck-ts-cli/src/main.rs"],
  [("argument and IO handling", "minify-js-cli/src/main.rs")],
  ["exit status, stdout, stderr and output files of the binaries"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
ids = [x["id"] for x in P]; assert len(set(ids)) == len(ids)
print(len(P), "properties")

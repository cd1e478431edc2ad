"""The checks: one entry per claimed property."""

CHECKS = {
    "C01": {
        "technique": "crash, hang, determinism and cancellation monitor over hostile byte streams in all six dialects",
        "level_note": "No observed input (grammar-derived, mutated, truncated, nested, random) made the parser panic, abort, hang, return different results on repetition or ignore a cancellation flag.",
        "rule": "one input counts when it was parsed in all dialects, twice, and once cancelled, and at least one dialect accepted it or rejected it with a located error",
        "parts": [{"crate": "hjs", "check": "C01", "secs": {"quick": 15, "thorough": 400}}],
        "min_evaluations": 500,
    },
    "C03": {
        "technique": "structural monitor over every node of every observed tree (span containment, order, text anchoring) plus comparison of spans with a reference parser's",
        "level_note": "In every observed tree of the six dialects every span is inside its parent, anchored at token boundaries, and equal to acorn's span for the ECMAScript dialects.",
        "rule": "one program counts when a dialect accepted it and the spans of all its nodes were judged",
        "parts": [{"crate": "hjs", "check": "C03", "secs": {"quick": 12, "thorough": 300}}, {"crate": "hjs", "check": "C03t", "secs": {"quick": 10, "thorough": 300}}],
        "min_evaluations": 2000,
    },
    "C04": {
        "technique": "differential value monitor: every literal spelling is decoded by the parser, printed again, and both values are compared with V8's",
        "level_note": "Every observed literal (numbers near rounding boundaries, radixes, separators, BigInts, all escapes, lone surrogates, templates cooked and raw, regex flags; valid and invalid spellings; as expression and as property name) had V8's value or was rejected like in V8, and its printed forms denote the same value. Regular expression patterns are not judged for validity.",
        "rule": "one literal counts when V8 and at least one dialect gave a verdict on it (value compared, or both rejected)",
        "parts": [{"crate": "hjs", "check": "C04", "secs": {"quick": 15, "thorough": 300}}],
        "min_evaluations": 2000,
    },
    "C05": {
        "technique": "differential tree monitor: every parse of generated programs is compared online against acorn's tree",
        "level_note": "Every observed parse (strict, JS and JSX dialects) of a generated or mutated program gave, node for node, the tree of the reference parser. Trusts acorn's grammar where it accepts; programs are bounded in size.",
        "rule": "one program counts when at least one dialect and acorn both accepted it and the full canonical trees were compared",
        "parts": [{"crate": "hjs", "check": "C05", "secs": {"quick": 22, "thorough": 600}}],
        "min_evaluations": 2000,
    },
    "C06": {
        "technique": "round-trip monitor: print, reparse, compare trees, print again, for AST and HIR printers in every option combination",
        "level_note": "Every observed tree printed in every option combination parses back to the same tree (up to the printer's documented lexical freedom) and prints to the same text again.",
        "rule": "one program counts when a dialect accepted it and all option combinations were printed, reparsed and compared",
        "parts": [{"crate": "hjs", "check": "C06", "secs": {"quick": 14, "thorough": 400}}, {"crate": "hjs", "check": "C06h", "secs": {"quick": 12, "thorough": 300}}],
        "min_evaluations": 2000,
    },
    "C07": {
        "technique": "differential monitor of the scope analysis: the symbol of every identifier is compared online with an independent scope analyser's partition",
        "level_note": "In every observed script (both top-level modes) and module, two identifiers share a symbol exactly when eslint-scope gives them one variable, and an identifier is unresolved exactly when it has none. Names of sloppy block functions (Annex B) and references through `with` are not judged.",
        "rule": "one program counts when at least one identifier's resolution was compared",
        "parts": [{"crate": "hjs", "check": "C07", "secs": {"quick": 15, "thorough": 400}}],
        "min_evaluations": 2000,
    },
    "C08": {
        "technique": "trace monitoring: the program and its minified form run in V8, event logs compared",
        "level_note": "Every observed execution of a generated program and of its minified form produced the same event trace. Trusts V8 as the reference semantics; programs are bounded in size and run time.",
        "rule": "one generated or corpus program counts when both executions completed and more than 3 trace events were compared",
        "parts": [{"crate": "hjs", "check": "C08", "secs": {"quick": 25, "thorough": 700}}],
        "min_evaluations": 500,
    },
    "C09": {
        "technique": "differential trace monitoring: generated TypeScript programs are erased by the minifier and by the TypeScript compiler, both outputs run in V8, and their event logs and exports are compared",
        "level_note": "For every observed TypeScript program (annotations, assertions, enums and const enums in both modes, namespaces, classes with modifiers, overloads, parameter properties, fields under both define and assign semantics, type-only imports and exports, ambient declarations) the emitted JavaScript produced the event log, exports and object shapes of tsc's output.",
        "rule": "one program counts when both executions completed and their traces were compared",
        "parts": [{"crate": "hjs", "check": "C09", "secs": {"quick": 20, "thorough": 400}}],
        "min_evaluations": 500,
    },
    "C10": {
        "technique": "monitor over minifications: repeated, concurrent and second-generation runs are compared byte for byte, the binding structure of each output is judged by an independent scope analyser, and the buffer and diagnostics of every rejection are checked",
        "level_note": "Every observed output is the same on every run and thread and is accepted again; it introduces no free name or property name, keeps exports, globals and names visible to eval or with, and where the tree is unchanged its renaming is a bijection of bindings. Every observed rejection leaves the buffer untouched and carries in-range spans.",
        "rule": "one input counts when its output's binding structure was judged, or its rejection's buffer and spans were",
        "parts": [{"crate": "hjs", "check": "C10", "secs": {"quick": 20, "thorough": 500}}],
        "min_evaluations": 500,
    },
    "C11": {
        "technique": "trace monitoring: generated programs and the optimizer's output run in V8, event logs compared",
        "level_note": "Every observed program of the generated subset (scripts and modules with numbers, strings, booleans, structured control flow, local arrays and objects; no user functions or side effects inside operands) was rejected with diagnostics or produced the same event trace before and after optimization. Known defects outside the subset are listed as findings.",
        "rule": "one program counts when both executions completed and their traces were compared",
        "parts": [{"crate": "hjs", "check": "C11", "secs": {"quick": 22, "thorough": 500}}],
        "min_evaluations": 500,
    },
    "C12": {
        "technique": "invariant monitor over every optimizer stage: graphs, dominance, post-dominance, liveness, loops and register assignment are compared with brute-force references, definitions are checked on all paths, and concurrent compilations are compared",
        "level_note": "Every observed stage of every observed compilation (and of random graphs) has a well-formed graph; dominance, post-dominance, loops and live sets equal brute-force recomputation; every read is defined on all paths; two live values never share a register; concurrent compilations are identical.",
        "rule": "one compiled function or random graph counts when all its stages were judged",
        "parts": [{"crate": "hjs", "check": "C12", "secs": {"quick": 18, "thorough": 400}}],
        "min_evaluations": 500,
    },
    "C13": {
        "technique": "invariant and metamorphic monitor over HIR lowerings: ids, indexes and every span lookup are compared with brute force, definitions with the TypeScript compiler's syntax tree, and ids across a second lowering, code added after, and an edit inside one body",
        "level_note": "Every observed lowering is reproducible; ids are unique and all tables agree; at every byte offset each span index returns the innermost item; definitions (functions, classes and members, variables, parameters, types, enums, import bindings) are exactly those of the TypeScript syntax tree, in number, name and span; and definitions outside an edited body, or before added code, keep their ids.",
        "rule": "one program counts when its lowering had definitions and every comparison was made",
        "parts": [{"crate": "hjs", "check": "C13", "secs": {"quick": 20, "thorough": 400}}],
        "min_evaluations": 500,
    },
    "C14": {
        "technique": "metamorphic monitor over the interner: generated types are interned in perturbed orders and shapes, from racing threads and into restored stores, and every id, display and snapshot is compared with an independent normal form",
        "level_note": "In every observed store two types share an id exactly when their reference normal forms are equal, whatever the order, duplication, nesting or thread schedule of the construction; snapshots are byte-identical and restore to the same ids, kinds and displays.",
        "rule": "one case is a set of generated types: interned sequentially, perturbed, permuted, on racing threads (a third of the cases), and through a snapshot; counts when all comparisons were made",
        "parts": [{"crate": "hts", "check": "C14", "secs": {"quick": 15, "thorough": 400}}],
        "min_evaluations": 500,
    },
    "C15": {
        "technique": "law, history and schedule monitor over the relation engine (fresh contexts against shared, tiny, absent and concurrently shared caches), plus differential comparison with the TypeScript checker on structural types",
        "level_note": "Every observed answer is the same on a fresh context and under any query history, cache size and thread schedule; reflexivity, never, unknown, any, union and intersection laws hold; a no carries an explanation; and on the structural fragment (primitives, literals, arrays, tuples, object types, methods, functions, unions, intersections of disjoint objects, recursive aliases; strict options) each answer is the one of tsc 5.9.",
        "rule": "one case is a set of types all pairs of which were asked; C15t: all pairs compared with tsc's answer",
        "parts": [{"crate": "hts", "check": "C15", "secs": {"quick": 12, "thorough": 400}}, {"crate": "hts", "check": "C15t", "secs": {"quick": 10, "thorough": 300}}],
        "min_evaluations": 500,
    },
}

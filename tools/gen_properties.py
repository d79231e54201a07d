#!/usr/bin/env python3
"""Writes properties.jsonl (kept as code so that long records stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

p("C01", "Compilation always returns an answer",
  "Compiling any list of expressions with any flags, match identifiers and scan mode ends with either a database or a compile error. "
  "It never panics, aborts, hangs or overflows a default (2 MiB) thread stack, whatever characters the expressions contain and however long, deeply nested or numerous they are. "
  "This holds in builds with and without debug assertions.",
  ["inputs", "configurations"], "every expression text (any Unicode), flag set, mode, list length",
  "The tests compile one literal and one empty list; the input space is unbounded and the failing shapes (a group that is not first, a non-ASCII character, conflicting flags) are never touched.",
  ["src/lib.rs", "src/compiler.rs", "src/parser.rs", "src/nfagraph/ng.rs", "src/smallwrite/smallwrite_build.rs", "src/util/report_manager.rs"],
  [("errors are returned, not raised", "src/parser.rs Context::parse/main"), ("length limit before parsing", "src/compiler.rs add_expression")],
  observe=["rescan::compile", "rescan::compile_multi"])

p("C02", "Exactly the well-formed expressions are accepted",
  "A single expression compiles if and only if it is at most 16,000 bytes long, contains only ASCII characters, has balanced parentheses, does not begin with an unknown or unsupported control verb, and is not given both the QUIET and the SOM_LEFTMOST flag. "
  "No other flag, and no scan mode or match identifier, changes whether it is accepted.",
  ["inputs", "configurations"], "every expression text and every combination of the eleven flags, six modes",
  "Whether a string is accepted depends on its whole text; tests accept four fixed strings and reject none through the parser.",
  ["src/parser.rs", "src/compiler.rs", "src/parser/control_verbs.rs"],
  [("sequence stack", "src/parser.rs push_sequence/pop_sequence"), ("flag check", "src/compiler.rs ParsedExpression::new")],
  observe=["rescan::compile"])

p("C03", "The parse tree mirrors the expression text",
  "The parse tree of an accepted expression is one root sequence (capture index 0) in which groups nest exactly as the parentheses do, and the capture indices count the opening parentheses from 1 in text order. "
  "Each '|' splits the innermost enclosing group (or the whole expression) into alternatives, which appear in text order and may be empty. "
  "Every other character appears exactly once, in text order, in the sequence it was written in.",
  ["inputs"], "every accepted expression", "Three fixed one- or two-character strings are compared with an expected dump; nesting, numbering and alternation interact only in longer inputs.",
  ["src/parser.rs", "src/parser/component_sequence.rs", "src/parser/component_alternation.rs", "src/parser/component.rs"],
  [("push/pop of sequences", "src/parser.rs"), ("add_alternation/finalize", "src/parser/component_sequence.rs"), ("tree walk", "src/parser/component*.rs walk_*")],
  state=[("sequences", "open groups", "src/parser.rs Context"), ("group_index", "next capture index", "src/parser.rs Context")],
  observe=["parse tree of each compiled expression"], hook="walk of the parse tree")

p("C04", "A literal character matches itself, and its other case under CASELESS",
  "Every ASCII character of an expression other than '(', ')' and '|' stands for the character class that contains exactly that character, or, if CASELESS is set and it is an ASCII letter, exactly its upper- and lower-case forms. "
  "This holds in the parse tree as well as for the automaton built for an expression that is not a plain literal, and depends neither on the position of the character nor on the other flags.",
  ["inputs", "configurations"], "every ASCII character, in every context, under every flag combination",
  "One test parses 'a'; caseless parsing is never exercised.",
  ["src/parser.rs", "src/parser/ascii_component_class.rs", "src/parser/component_class.rs", "src/util/charreach.rs", "src/nfagraph/ng_builder.rs"],
  [("AsciiComponentClass::add", "src/parser/ascii_component_class.rs"), ("make_caseless", "src/util/charreach.rs"), ("add_char_reach", "src/nfagraph/ng_builder.rs")],
  observe=["classes in the parse tree", "vertices of the expression graph"], hook="parse tree and graph observers")

p("C05", "A rejected expression is located exactly",
  "The error for an unmatched ')', for a non-ASCII character and for a missing ')' has a message that contains 'index N', where N is the byte offset, in the expression as given, of that ')', of that character, or of the '(' of the innermost group still open at the end; for an unknown or unsupported control verb, N is the offset of the verb's name, and the message names the verb. "
  "The first offending character in text order is the one reported, and a missing ')' is only reported if there is none. "
  "The error is of the located-parse kind, except for a missing ')' which is a plain parse error.",
  ["inputs"], "every rejected expression", "No test looks at the message or kind of a parser error.",
  ["src/parser.rs", "src/parser/control_verbs.rs", "src/util/compile_error.rs"],
  [("offset of a group", "src/parser.rs push_sequence"), ("index of a character", "src/parser.rs main"), ("start + 2", "src/parser/control_verbs.rs")],
  observe=["CompileError Display and kind"], hook="error kind accessor")

p("C06", "Flags and a leading control verb set exactly the modes they name",
  "An expression is parsed case-insensitively, with dot-all, multi-line, UCP and UTF-8 mode if and only if the respective flag is given or, for the latter two, it begins with the control verb (*UCP), or (*UTF8) or (*UTF); no flag or verb affects another mode. "
  "Only one verb is recognised, at the very beginning: it is removed, and the rest is parsed as if it had been given alone, except that a verb-like text at the beginning of that rest, as anywhere else, is an ordinary group; so is one with an empty name or without ')'. "
  "One expression's modes never affect another expression in the same compilation.",
  ["inputs", "configurations", "histories"], "every flag set, verb, remainder, and sequence of expressions",
  "Tests call the verb reader on six strings with default modes, never through the parser and never followed by a second expression.",
  ["src/parser/control_verbs.rs", "src/parser/parser_util.rs", "src/compiler.rs", "src/parser.rs"],
  [("read_control_verbs", "src/parser/control_verbs.rs"), ("ParseMode::new", "src/parser/parser_util.rs")],
  observe=["mode after parsing", "parse tree"], hook="mode observer")

p("C07", "A batch is compiled element by element and errors name the first culprit",
  "compile_multi processes every expression, in order, with its own flags and match identifier: it succeeds if and only if every expression compiles by itself and no two conflict, and compiling one expression alone is the same as a batch of one. "
  "On failure the error carries the zero-based index of the first expression that cannot be added, and its text ends with 'in expression <index>'. "
  "An empty list, and lists of different lengths, are rejected.",
  ["inputs", "histories"], "every list of (expression, flags, identifier), including lists of different lengths",
  "The only multi-expression test passes an empty list.",
  ["src/lib.rs", "src/compiler.rs", "src/util/compile_error.rs"],
  [("zip loop with set_expression_index", "src/lib.rs compile_multi_int")],
  observe=["rescan::compile_multi", "CompileError Display"], hook="trace of the expressions processed")

p("C08", "Expressions that share a match identifier agree on SINGLEMATCH",
  "A compilation fails if and only if it contains an otherwise invalid expression or two expressions with the same match identifier of which only one has the SINGLEMATCH flag, whatever the expressions look like. "
  "The conflict is reported for the first expression that disagrees with the first one of the same identifier, and the message gives both indices ('index N') and the identifier ('match ID N'). "
  "The set of expressions is considered exhaustible as a whole exactly if all of them have the flag.",
  ["inputs", "histories"], "every list of expressions, flags and identifiers", "No test registers two expressions.",
  ["src/util/report_manager.rs", "src/nfagraph/ng.rs", "src/lib.rs"],
  [("register_ext_report", "src/util/report_manager.rs")],
  state=[("external_id_map", "first registration per identifier", "src/util/report_manager.rs"), ("global_exhaust", "all expressions so far are single-match", "src/util/report_manager.rs")],
  observe=["rescan::compile_multi"], hook="report manager observer")

p("C09", "Resource limits are enforced exactly at the limit",
  "With limits on the number of expressions, on the byte length of an expression and on the number of internal reports, a compilation that stays at or below every limit is not rejected because of them, and one that exceeds any of them is rejected with an error that says so, before the excess takes effect. "
  "The number of expressions is checked before any expression, the length of an expression before its content; running out of reports is a resource-limit error, and an expression or list that exceeds no limit is never refused with one. "
  "By default, the limits are 8,000,000 expressions, 16,000 bytes, and 32,000,000 reports.",
  ["inputs", "configurations"], "every combination of limits and inputs around them, and the default limits", "No test reaches a limit.",
  ["src/lib.rs", "src/compiler.rs", "src/grey.rs", "src/util/report_manager.rs"],
  [("comparisons with the settings", "src/lib.rs, src/compiler.rs, src/util/report_manager.rs"), ("default settings", "src/grey.rs")],
  observe=["compile with explicit settings"], hook="compile with explicit limits")

p("C10", "Plain literals, and only they, go to the literal matcher unchanged",
  "An expression is handed to the literal matcher exactly once if it contains at least one character and no '|' (grouping does not matter), and is turned into an automaton otherwise, also if literal handling is switched off or the literal mixes case-sensitive with case-insensitive letters. "
  "The literal handed over has the same characters in the same order, letters being upper-case and marked case-insensitive under CASELESS and verbatim otherwise. It may match anywhere: it is neither anchored nor bound to the end of the data. "
  "It is tagged with a report that stands for the expression's match identifier, QUIET flag and, if SINGLEMATCH is given, the exhaustion key of that identifier. "
  "If start-of-match is requested for a literal, its report tells its length instead, and the need for start-of-match is recorded; otherwise, it is not.",
  ["inputs", "configurations"], "every expression, flag set and identifier", "One test compiles a literal and only checks that it succeeds.",
  ["src/parser/shortcut_literal.rs", "src/nfagraph/ng.rs", "src/util/ue2string.rs", "src/compiler.rs"],
  [("ConstructLiteralVisitor", "src/parser/shortcut_literal.rs"), ("add_literal", "src/nfagraph/ng.rs")],
  observe=["literals given to the literal matcher", "graphs built"], hook="literal and graph observers")

p("C11", "The small-write tries hold exactly the short literals",
  "After any sequence of literals has been added, unless small-write has been given up, the literals spelled in the case-sensitive and in the case-insensitive prefix tree are exactly those that were added and are at most as long as the small-write buffer limit (70 by default), each with exactly the reports it was added with. "
  "Each prefix has one vertex, and no vertex exists that is not a prefix of an added literal. A tree counts as empty exactly if no literal has been added to it, and its set of reports consists of those of its literals. "
  "Small-write is given up exactly if it is disabled, if there are more patterns or more such literals than the settings allow (10,000 each by default), or if a tree needs more than 8,000 vertices including its root.",
  ["histories", "configurations"], "every sequence of literals and every setting", "No test inspects the tries.",
  ["src/smallwrite/smallwrite_build.rs", "src/nfagraph/ng.rs"],
  [("add_to_trie", "src/smallwrite/smallwrite_build.rs"), ("poisoned", "src/smallwrite/smallwrite_build.rs")],
  state=[("lit_trie, lit_trie_nocase", "prefix trees", "src/smallwrite/smallwrite_build.rs")],
  observe=["tries after a compilation or a sequence of additions"], hook="trie snapshot")

p("C12", "The minimum width is the length of the shortest literal",
  "After a compilation, the minimum width of the set is the length of the shortest expression that was handed to the literal matcher, and infinite if there was none. "
  "It does not depend on the order of the expressions, nor on their flags or identifiers.",
  ["inputs", "histories"], "every list of expressions", "Nothing reads the width in any test.",
  ["src/nfagraph/ng.rs", "src/util/depth.rs"], [("min over literals", "src/nfagraph/ng.rs add_literal")],
  state=[("min_width", "shortest matching corpus", "src/nfagraph/ng.rs")], observe=["set of expressions after compilation"], hook="Ng snapshot")

p("C13", "Internal report identifiers are a stable bijection",
  "Requesting an internal identifier for equal reports (same kind, match identifier, offset adjustment, exhaustion key, quietness and distance) always returns the same number, and for different reports different numbers; the numbers are handed out densely from 0 in order of first request. "
  "Looking up a number returns the report it was handed out for, also after later requests, registrations and refused requests. "
  "A request for a new report is refused with a resource-limit error exactly if the limit of reports has been reached, and changes nothing.",
  ["histories"], "every sequence of requests", "The report manager has no tests.",
  ["src/util/report_manager.rs", "src/util/report.rs"], [("two-way map", "src/util/report_manager.rs get_internal_id")],
  state=[("report_ids", "reports by identifier", "src/util/report_manager.rs"), ("report_id_to_internal_map", "inverse", "src/util/report_manager.rs")],
  observe=["results of a sequence of requests"], hook="run a sequence of requests")

p("C14", "Exhaustion keys are dense, stable and distinct",
  "Each key (a match identifier of a SINGLEMATCH literal expression) gets one exhaustion key: the same one on every request, different from that of every other identifier, and numbered from 0 in order of first request. "
  "Expressions without SINGLEMATCH neither get nor consume one.",
  ["histories"], "every sequence of requests, and every list of expressions", "The report manager has no tests.",
  ["src/util/report_manager.rs", "src/nfagraph/ng.rs"], [("get_exhaustible_key", "src/util/report_manager.rs")],
  state=[("to_exhaustible_key_map", "key per identifier", "src/util/report_manager.rs")], observe=["keys after a compilation"], hook="report manager observer")

p("C15", "A database remembers its scan mode and can always be scanned",
  "A database compiled for block, streaming (with any start-of-match horizon or none) or vectored mode is a database of that kind, whatever the expressions and flags. "
  "Scanning any data with it succeeds, and leaves the data and the kind of the database as they were. "
  "The start-of-match precision is 8, 4 and 2 bytes for the large, medium and small streaming horizon, 8 for vectored mode, and 0 otherwise.",
  ["inputs", "configurations", "histories"], "every mode, expression set, data, and repeated scans", "Tests use block mode only and never scan.",
  ["src/lib.rs", "src/rose/rose_build.rs", "src/runtime.rs", "src/util/compile_context.rs"],
  [("mode flags", "src/lib.rs Mode"), ("mode of the engine", "src/rose/rose_build.rs"), ("scan", "src/runtime.rs")],
  observe=["rescan::scan", "mode of a database"], hook="database mode accessor, scratch constructor")

p("C16", "Compilations do not depend on history",
  "The outcome of a compilation (database or error with its text, and everything built on the way) is a function of its arguments: it is the same whenever, and after whatever other successful or failed compilations and scans, it is made in a process. "
  "Compilations running in other threads have no influence on it either.",
  ["histories", "inputs"], "every sequence of compilations in one process", "Each test makes one compilation.",
  ["src/lib.rs", "src/compiler.rs", "src/parser.rs", "src/nfagraph/ng.rs"], [("all state is created per compilation", "src/lib.rs compile_multi_int")],
  observe=["rescan::compile_multi", "full trace of a compilation"], hook="trace of a compilation")

p("C17", "Character classes behave as sets of bytes under all updates",
  "After any sequence of adding and removing single bytes, adding an inclusive byte range or a list of bytes, flipping one or all bytes, filling, clearing, and in-place or by-value union, intersection, symmetric difference and complement, a character class contains exactly the bytes that a set of 0..=255 would contain. "
  "Equality holds exactly if the members are the same, hashes and a total order are consistent with it, and size, emptiness and fullness agree with the members; a reversed range is refused by a panic.",
  ["histories", "inputs"], "every sequence of updates from every set", "Tests use a few sets; ranges are checked only from the empty set and only by their ends and size.",
  ["src/util/bitfield.rs", "src/util/charreach.rs"], [("64-bit words and masks", "src/util/bitfield.rs")],
  state=[("bits", "four words", "src/util/bitfield.rs")], observe=["membership of all 256 bytes"], hook="class wrapper")

p("C18", "Queries enumerate the members of a class in order",
  "For every character class, the first, last, next-after-b (for every byte b, member or not) and n-th (for every n) queries return exactly the respective member in ascending order, or nothing if there is none. "
  "So does the textual form, which lists the members in ascending order as Latin-1 characters.",
  ["inputs"], "all 2^256 classes and all arguments", "Tests query sparse, full and single-byte classes, and 'next' only from members.",
  ["src/util/bitfield.rs", "src/util/charreach.rs"], [("find_first/last/next/nth", "src/util/bitfield.rs"), ("Display", "src/util/charreach.rs")],
  observe=["query results"], hook="class wrapper")

p("C19", "Predicates of a class agree with its members",
  "For every character class: alphabetic means non-empty and only ASCII letters; caseless-pair means exactly the two cases of one ASCII letter; bit-5-insensitive means closed under flipping bit 5; ASCII means no byte above 0x7f; UTF-8-start means no byte below 0xc0. "
  "For every two classes: subset and overlap mean what they mean for sets. Constructors from one byte, a range, a list of bytes, and 'dot' contain exactly these bytes.",
  ["inputs"], "all classes and pairs of classes", "Four of the seven predicates are tested on a handful of classes, three not at all.",
  ["src/util/charreach.rs"], [("predicates", "src/util/charreach.rs")], observe=["predicate results"], hook="class wrapper")

p("C20", "Case folding is exact ASCII case folding",
  "Making a class caseless adds, for each ASCII letter in it, the other case of that letter, and changes nothing else. "
  "The character helpers map and classify exactly the ASCII letters: lower- and upper-casing affect only letters of the other case, and a character is a letter if and only if its two forms differ.",
  ["inputs"], "all classes, all 256 characters", "Neither is tested.",
  ["src/util/charreach.rs", "src/util/compare.rs"], [("make_caseless", "src/util/charreach.rs"), ("mytolower/mytoupper", "src/util/compare.rs")], observe=["class after folding"], hook="class wrapper")

p("C21", "Bit vector and and/compare mask represent the class",
  "Filling a bit vector of at least 32 bytes sets bit (c mod 8) of byte (c div 8) exactly for the members c of the class, clears the other bits of the first 32 bytes, and leaves further bytes alone. "
  "The and/compare mask of a class accepts every member of a non-empty class and has exactly those and-bits set on which all members agree; that of the empty class accepts nothing.",
  ["inputs"], "all classes, any prior content of the vector", "Neither function is tested.",
  ["src/util/charreach.rs"], [("fill_bitvector", "src/util/charreach.rs"), ("make_and_cmp_mask", "src/util/charreach.rs")], observe=["vector, masks"], hook="class wrapper")

p("C22", "Literals are values: faithful content, equality and total order",
  "A literal holds the characters pushed to it, in order, with their case sensitivity, case-insensitive letters being stored in upper case; its length, emptiness and 'any case-insensitive character' agree with that. "
  "Two literals are equal exactly if characters and sensitivities are equal; the order is total, consistent with equality, and compares the characters before the sensitivities. "
  "A literal is of mixed sensitivity exactly if it has both a case-sensitive and a case-insensitive letter, other characters not counting.",
  ["inputs", "histories"], "all literals, pairs and triples of literals", "One test compares two empty literals.",
  ["src/util/ue2string.rs"], [("push", "src/util/ue2string.rs"), ("PartialEq/Ord", "src/util/ue2string.rs"), ("mixed_sensitivity", "src/util/ue2string.rs")],
  observe=["elements, comparisons"], hook="literal wrapper")

p("C23", "Alignment helpers round to the nearest multiple",
  "Rounding a value up (down) to 16, to a power of two n up to 128, or up to a cache line of 64 bytes gives the smallest multiple not below (the largest multiple not above) the value, for every value of every unsigned width for which the result is representable.",
  ["inputs"], "all values of 8 to 64 bits, all powers of two", "The helpers have no tests; one is used with arguments below 193 only.",
  ["src/util/ue2common.rs"], [("mask arithmetic", "src/util/ue2common.rs")], observe=["results"], hook="re-export")

p("C24", "Depths are exact, ordered, and refuse what they cannot hold",
  "A depth made from an integer of either width holds exactly that count if it is at most 2^31 - 2, and creation fails otherwise; no count is infinite. "
  "Depths compare as their counts do, infinity being above every count and equal to itself; equality and order agree.",
  ["inputs"], "all 32-bit values, boundary 64-bit values, all pairs around the boundaries", "Depths have no tests.",
  ["src/util/depth.rs"], [("TryFrom, Ord", "src/util/depth.rs")], observe=["conversion and comparison"], hook="depth wrapper")

p("C25", "Textual dumps denote what they describe",
  "The description of a character class, as plain text or for a graph label, read back by its own notation (escapes, ranges, mnemonics for word, digit and space characters, negation), denotes exactly that class, whatever the class. "
  "The dump of a parse tree shows the same nesting, capture indices and classes as the tree.",
  ["inputs"], "all classes and expressions", "Three dumps of trivial expressions are compared with fixed text.",
  ["src/util/dump_charclass.rs", "src/parser/dump.rs"], [("describe_class", "src/util/dump_charclass.rs"), ("dump_tree", "src/parser/dump.rs")], observe=["dumped text"], hook="dump functions compiled in")

p("C26", "The automaton of an expression has one position per character",
  "The automaton built for an expression has, besides start, floating start, accept and accept-at-end, one vertex per literal character of the expression, in text order, that accepts exactly that character's class; start and floating start accept every byte. "
  "A new automaton has exactly the edges from start to floating start, from floating start to itself, and from accept to accept-at-end. "
  "It is vacuous exactly if some edge leads from a start to an accept vertex, and its reports are those of the vertices with an edge to an accept vertex.",
  ["inputs", "configurations"], "all expressions; all small graphs with reports", "Graphs are not tested.",
  ["src/nfagraph/ng_holder.rs", "src/nfagraph/ng_builder.rs", "src/parser/component.rs"],
  [("NgHolder::new", "src/nfagraph/ng_holder.rs"), ("note_positions", "src/parser/*.rs"), ("is_vacuous, all_reports", "src/nfagraph/ng_holder.rs")],
  observe=["graph of an expression"], hook="graph snapshot and query")

p("C27", "Connections between positions respect anchors",
  "When sets of positions of an automaton are connected, every position of the first set is connected to every one of the second, except that: the floating start is never connected to an anchored (no-float) position, nor to anything if it is itself marked so; the start is not connected to an empty position that is not anchored, nor to a position that is both anchored and must float; and a position that asserts a multi-line start is never connected to accept-at-end. "
  "A connection to accept goes to one fresh position instead. Initially, exactly start and floating start are connected to floating start.",
  ["inputs", "configurations"], "all small sets of flagged positions", "Not tested.",
  ["src/parser/build_state.rs"], [("filter_edges, connect_successors", "src/parser/build_state.rs")],
  state=[("successors", "connections per position", "src/parser/build_state.rs")], observe=["successors"], hook="connect positions and list successors")

p("C28", "The runtime implementation fits the resources in use",
  "The literal-only runtime is chosen exactly if there are floating literals and the database uses none of outfixes, suffixes, leftfixes, anchored or end-of-data matching, states, delayed literals, group checks and, when streaming, long-literal checks; otherwise the full runtime is chosen. "
  "The other recorded resources make no difference.",
  ["configurations"], "all combinations of resources and modes", "Not tested.",
  ["src/rose/rose_build_bytecode.rs", "src/rose/rose_build_resources.rs"], [("is_pure_floating, pick_runtime_impl", "src/rose/rose_build_bytecode.rs")], observe=["runtime of a database"], hook="choice for given resources")

p("C30", "The small-write builder gives up on automata it cannot handle",
  "When the automaton of an expression is offered to the small-write builder, small-write is given up exactly if it has been given up before, start-of-match is requested for the expression, the automaton is vacuous, or one of the automaton's reports has a minimum match length. "
  "The literals that have been added before stay as they are, and an automaton offered after small-write has been given up changes nothing.",
  ["inputs", "configurations", "histories"], "all small automata, minimum lengths, prior literals and settings", "Not tested, and not yet called.",
  ["src/smallwrite/smallwrite_build.rs", "src/nfagraph/ng_holder.rs", "src/nfagraph/ng.rs"],
  [("add_expression", "src/smallwrite/smallwrite_build.rs"), ("pointer to the report manager", "src/nfagraph/ng.rs new")],
  state=[("poisoned", "given up", "src/smallwrite/smallwrite_build.rs")], observe=["builder before and after"], hook="builder with an automaton")

p("C31", "No invalid memory access and no data race",
  "Whatever is compiled, scanned, dumped or built through safe interfaces, also by several threads at the same time, no operation accesses memory outside of live objects, reads uninitialised memory, races with another thread, or breaks another rule whose violation is undefined behaviour in Rust (the experimental aliasing rules aside). Whether an operation succeeds or is refused makes no difference.",
  ["inputs", "histories", "schedules"], "all inputs and histories", "Tests observe results, not accesses; the library contains unsafe code and a self-reference.",
  ["src/nfagraph/ng.rs", "src/compiler.rs", "src/parser/shortcut_literal.rs", "src/smallwrite/smallwrite_build.rs"],
  [("Pin and NonNull", "src/nfagraph/ng.rs new, src/smallwrite/smallwrite_build.rs add_expression"), ("get_unchecked_mut", "src/compiler.rs, src/parser/shortcut_literal.rs")],
  observe=["every memory access of the process"], hook="all of them")

p("C32", "Memory grows in proportion to the input, and is given back",
  "Compiling n expressions of b bytes altogether, successfully or not, never has more than 64 KiB + 2,048 (b + n) bytes of heap memory allocated at a time, and allocates no more than 64 KiB + 4,096 b + 8,192 n bytes altogether, whatever the shape of the expressions, their flags, match identifiers and order, and the mode. "
  "Once its result has been dropped, nothing remains allocated that accumulates: compiling the same again leaves nothing behind, and thousands of compilations of different expressions leave less than 1 MiB. "
  "A scan allocates at most 4 KiB, however long the data, and leaves nothing behind.",
  ["inputs", "configurations", "histories"], "every list of expressions, flags, identifiers and modes; every sequence of compilations and scans",
  "Tests neither count allocations nor compile anything long, and a leak or quadratic growth changes no result.",
  ["src/parser.rs", "src/parser/component_sequence.rs", "src/nfagraph/ng.rs", "src/util/report_manager.rs", "src/smallwrite/smallwrite_build.rs", "src/runtime.rs"],
  [("moving of sequences", "src/parser.rs push_sequence/pop_sequence"), ("maps by identifier", "src/util/report_manager.rs"), ("growth of the tries", "src/smallwrite/smallwrite_build.rs add_to_trie")],
  observe=["the allocator of the process"], hook="none but to obtain a scratch space")

p("C33", "The time to compile grows in proportion to the input",
  "Compiling n expressions of b bytes altogether, successfully or not, and dropping the result takes at most 20,000 + 1,000 b + 2,000 n steps, whatever the shape of the expressions, their flags, match identifiers and order, the mode, and what has been compiled before. A step is a basic block of an optimised build, or the copying, filling or comparing of 16 bytes. "
  "A scan of b bytes takes at most 20,000 + 1,000 b steps.",
  ["inputs", "configurations", "histories"], "every list of expressions, flags, identifiers and modes; every sequence of compilations",
  "Tests neither measure time nor compile anything long; quadratic or exponential time changes no result.",
  ["src/parser.rs", "src/parser/component_sequence.rs", "src/parser/shortcut_literal.rs", "src/nfagraph/ng.rs", "src/util/report_manager.rs", "src/smallwrite/smallwrite_build.rs"],
  [("moving of sequences", "src/parser.rs push_sequence/pop_sequence"), ("maps by identifier", "src/util/report_manager.rs"), ("limit on the tries", "src/smallwrite/smallwrite_build.rs")],
  observe=["the basic blocks that are executed (compiler instrumentation)"], hook="none but to obtain a scratch space")

p("C34", "A parse tree is walked completely, in order, and only until refused",
  "A walk over a parse tree announces every component exactly once before and once after its parts, the parts in the order of the text, and the component itself once between every two neighbouring parts of it; a character, which has no parts, is announced before, during and after. "
  "If the visitor refuses a component, the walk ends at once with the visitor's error, and nothing is announced any more.",
  ["inputs", "fault_sequences"], "every expression; every component at which a visitor may refuse",
  "The only visitors in the library ignore what is announced between parts, and refuse only at the first component that is no literal.",
  ["src/parser/component.rs", "src/parser/component_sequence.rs", "src/parser/component_alternation.rs", "src/parser/component_class.rs", "src/parser/ascii_component_class.rs"],
  [("walk_component", "src/parser/component.rs"), ("walk_component_sequence", "src/parser/component_sequence.rs"), ("walk_component_alternation", "src/parser/component_alternation.rs")],
  observe=["the announcements to a recording visitor"], hook="verif::Tree::walk")

p("C35", "A dump ends where its writer fails",
  "Writing the description of a character class, its list of members, the dump of a parse tree, or the message of a compile error fails if and only if the writer fails; what has been written until then is the beginning of the whole text, and nothing is written any more.",
  ["inputs", "fault_sequences"], "every class, tree and error; every write that may fail, every size of the writer",
  "Tests write to strings, which never fail.",
  ["src/util/dump_charclass.rs", "src/parser/dump.rs", "src/util/charreach.rs", "src/util/compile_error.rs"],
  [("describe_class", "src/util/dump_charclass.rs"), ("dump_tree", "src/parser/dump.rs"), ("Display", "src/util/compile_error.rs")],
  observe=["what reaches a writer that fails"], hook="verif::Class::describe_to, verif::Tree::dump_to")

p("C36", "Flag sets are sets of eleven flags with fixed values",
  "The flags have the values of their Hyperscan namesakes: CASELESS 1, DOTALL 2, MULTILINE 4, SINGLEMATCH 8, ALLOWEMPTY 16, UTF8 32, UCP 64, PREFILTER 128, SOM_LEFTMOST 256, COMBINATION 512, and QUIET 1024. "
  "A number stands for a set of flags exactly if it has no other bit; combining, comparing and querying sets does what it does for sets, and the debug form of a set names exactly its flags.",
  ["inputs"], "every 16-bit number; every pair of flag sets", "No test looks at the values of flags.",
  ["src/lib.rs"], [("Flags", "src/lib.rs")], observe=["rescan::Flags"])

p("C37", "Each expression is compiled as what was asked for",
  "What the compiler notes about an expression that it accepts, and about the automaton that it builds for it, is the expression's position in the list, its match identifier, and its SINGLEMATCH, QUIET and PREFILTER flags as given for this expression; it is noted as UTF-8 if and only if the UTF8 flag is given or it begins with (*UTF8) or (*UTF). "
  "Neither the text, other flags, nor other expressions make a difference.",
  ["inputs", "configurations"], "all expressions, flags, identifiers and lists",
  "Later stages rely on these notes, long after the flags themselves are gone; no test reads them.",
  ["src/compiler.rs", "src/compiler/expression_info.rs", "src/nfagraph/ng_builder.rs"],
  [("ParsedExpression::new", "src/compiler.rs"), ("NfaBuilder::get_graph", "src/nfagraph/ng_builder.rs")],
  observe=["the ExpressionInfo of each expression and automaton"], hook="verif::take")

p("C29", "Scanning reports exactly the matches of the compiled expressions",
  "Scanning data with a database reports, for each compiled expression, its match identifier and the end offset of every match of the expression in the data, and nothing else.",
  ["inputs", "configurations"], "all expression sets and data", "Not implemented at this commit.",
  ["src/runtime.rs", "src/rose/block.rs"], [("scan", "src/runtime.rs")], observe=["rescan::scan"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for r in P:
        f.write(json.dumps(r, ensure_ascii=False) + "\n")

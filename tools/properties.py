# Executed by mkdocs.py. prop(id, title, statement, over, text, why, files, [(mechanism, where)], technique, note)
I = ["inputs"]
IC = ["inputs", "configurations"]
SAMPLED = "Existing tests parse or format a fixed list of hand-written plans; "

prop("P01", "Parsed text means the plan the format documentation says",
 "For every text that follows the documented grammar, in any of the spellings it allows (optional spaces, quoting and escapes, explicit or implied types, anchors, signatures, section and addendum order, one-line or multi-line tables, line endings), parsing succeeds and yields exactly the plan the text denotes: every relation, input order, expression, literal, type, function and type reference, output mapping, extension payload, declaration and version. Nothing is added, dropped, reordered or attached to the wrong relation.",
 I, "all well-formed texts: every relation kind, expression, literal, type, declaration set and spelling, in every combination",
 SAMPLED + "the meaning of a text is decided by combinations of nesting, spelling and declarations that a list cannot cover.",
 [G, PS, PR, PE, PT, PX, CH], [("chunking and indentation tree", CH), ("relation lowering", PR), ("expression lowering", PE)],
 "property-based testing: generated plan model written out by an independent writer in random spellings, parse result compared with the model",
 "Random exploration from a recorded choice sequence; the oracle is an independent writer built from GRAMMAR.md. Bounded nesting (relations 4, expressions 3, types 2).")

prop("P02", "Formatting a representable plan loses nothing",
 "For every plan the text format can express, formatting reports no error and writes the documented canonical text, and parsing that text gives back a plan equal to the original, field for field. This holds with extension relations, tables and addenda whose types are registered.",
 I, "all plans within the documented feature set, with arbitrary values, names, anchors and shapes",
 SAMPLED + "round trips are only tried on hand-picked plans, mostly starting from text, so values the text writer never sees in tests (extreme numbers, odd names, clashing anchors, unusual mappings) are unreached.",
 [TR, TE, TT, TP, TX, TF, TV, TA, PR, PE, PT], [("plan writer", TP), ("relation writer", TR), ("expression writer", TE), ("parser", PS)],
 "property-based testing: generated plans, formatted text compared with an independent canonical writer and reparsed (round trip)",
 "Random exploration; exact comparison of text with the independent writer and of the reparsed protobuf with the original.")

prop("P03", "Accepted text survives formatting and reparsing unchanged",
 "For every text the parser accepts, if formatting the resulting plan reports no error then the formatted text parses again, to an equal plan, and formatting that plan gives the same text. In particular nothing the parser accepts is written back with a different meaning.",
 I, "all texts, well-formed or mutated, that the parser accepts",
 "Tests only round-trip texts a maintainer thought of; whatever else the grammar lets through is never formatted and read again.",
 [G, PS, PR, PE, TR, TE, TT], [("grammar leniency", G), ("writer", TR)],
 "mutation-based fuzzing of valid texts (token, byte, line and splice mutations) with a format/reparse fixed-point oracle",
 "Random exploration around the grammar: accepted mutants are the evaluated cases.")

prop("P04", "Parsing any text returns a plan or an error, never a crash",
 "For every string, with or without registered extensions, parsing returns a plan or an error: it does not panic, abort, overflow or fail to end. The same holds for reading JSON, YAML and binary plans from arbitrary bytes.",
 I, "all strings and byte sequences, with nesting up to a fixed bound",
 "Tests feed a few malformed lines; the parser's internal unwraps and assertions are reached by combinations of valid and broken pieces.",
 [PS, PR, PE, PT, PX, PC, "src/json.rs", "src/cli.rs"], [("error returns instead of unwraps", PR), ("rule iterator", PC)],
 "fuzzing: random, grammar-token and mutated texts, run in a watched child process; a panic, abort or hang is a failure",
 "Random exploration; nesting depth is bounded because the recursive-descent parser uses the machine stack.")

prop("P05", "Formatting any plan returns text, never a crash",
 "For every protobuf plan, however malformed (missing inputs and kinds, unknown enum values, dangling anchors, out-of-range fields and dates, mismatched lengths, unsupported relations, garbage extension payloads), and every combination of output options, formatting returns text and a list of problems. It does not panic, abort or hang.",
 IC, "all protobuf messages that decode as a plan, times all output options",
 "Tests format a handful of malformed plans; each unchecked field access or arithmetic step in the writer is reachable by some plan nobody wrote.",
 [TR, TE, TT, TP, TX, TV], [("error tokens in place of failures", TF), ("value writer", TV)],
 "structure-aware fuzzing: generated plans mutated through their protobuf descriptors and raw bytes, under random options",
 "Random exploration; the oracle is the absence of panics, aborts and hangs.")

prop("P06", "Formatting never drops plan content silently",
 "For every plan and every single change to its content (any field of a relation, expression, literal, type, declaration or payload that is not listed as metadata), the formatted text changes or a problem is reported. A plan with content the text cannot show is never formatted as if it did not have that content; whatever is formatted without a problem and can be read back reads back as the same plan.",
 I, "all plans and all single-field edits of them, except relation hints, advanced extensions of the plan and of named tables, expected type URLs, aggregate filters, phases, invocations and orderings (documented as not shown), and content without effect (computed columns and measures that are not in the output mapping, an identity mapping, unreferenced grouping expressions, deprecated fields beside their replacements, order of declarations, undecoded bytes of a payload, contents of binary literals unless their display is on)",
 "The set of protobuf fields is large and tests assert the presence of what they expect, never the absence of loss.",
 [TR, TE, TT, TV, TP], [("failure tokens for unsupported content", TF), ("literal writer", TE)],
 "metamorphic testing: reflection over the protobuf schema edits random fields of a generated plan, one after the other; text or problems must differ after each, and what is written without a problem must read back equal",
 "Random exploration over fields by descriptor; exclusions are the documented metadata fields.")

prop("P07", "Every literal value survives exactly, at any extreme",
 "For every literal of a supported kind (booleans, integers of each width, 32- and 64-bit floats, strings, dates, times, timestamps and precision variants, day-time intervals, typed nulls), with either nullability, formatting writes a text that parses back to the bit-identical value, kind, precision and nullability, in every position a literal can appear. Every documented spelling of a number, date or time denotes the value it reads as.",
 I, "all values of all literal kinds; all decimal spellings",
 "Tests use a few values per kind; rounding, sign, calendar and precision errors show only at particular values.",
 [TE, PE, "src/precision.rs", TV], [("literal writer", TE), ("literal parser", PE), ("precision handling", "src/precision.rs")],
 "property-based testing: dense and boundary values per literal kind, round trip and comparison with an independent calendar and decimal oracle",
 "Random and boundary exploration of value space.")

prop("P08", "Literals that do not denote a value are rejected",
 "Every literal whose text does not denote a value of its stated type (a number out of range, a kind that does not fit the type, an impossible date or time, a malformed or mismatched interval or precision, a fraction finer than the precision holds, an untyped null) makes parsing fail. No such literal is wrapped, truncated, defaulted or reinterpreted.",
 I, "all texts in literal position that are not values of the stated type",
 "Tests reject a few bad literals; silent wrap-around or truncation shows only for values just past a boundary.",
 [PE, "src/precision.rs", PT], [("checked numeric parsing", PE), ("interval and precision validation", "src/precision.rs")],
 "property-based testing: generated invalid literals by class, each in several positions, must be rejected; neighbouring valid ones accepted",
 "Random exploration of invalid classes decided by an independent validity oracle.")

prop("P09", "Types keep their kind, nullability, precision and nesting",
 "For every type the format supports (simple types, precision types, intervals, lists, user-defined types with parameters), in every position a type can appear, formatting and parsing preserve kind, nullability at every level, precision, parameters and the referenced declaration. Type names that are unknown, malformed or carry invalid parameters are rejected.",
 I, "all supported types to bounded depth, in columns, casts, function results, typed nulls, type parameters and extension columns; all malformed type texts",
 "Tests cover each type name once or twice; nullability at inner levels and names that begin like other names need combinations.",
 [PT, TT, G], [("type parser", PT), ("type writer", TT)],
 "property-based testing: generated types in all positions, compared with an independent writer, round trip, and rejection of generated malformed types",
 "Random exploration to nesting depth 4.")

prop("P10", "Any string or name survives escaping and stays on its line",
 "For every Unicode string used as a string literal, column name, table name, output name, extension argument or extension or argument name, formatting writes it within the line of its relation, quoted exactly when it is not a plain identifier, and parsing recovers the identical string. No content of a string can change the structure of the plan around it.",
 I, "all Unicode strings in all positions of names and strings",
 "Tests try a few special characters; injection and escaping faults depend on particular characters and positions.",
 [TT, TE, PC, PE, G], [("name quoting and escaping", TT), ("unescaping", PC)],
 "property-based testing: adversarial Unicode strings in every name and string position, round trip, line count and quoting oracle",
 "Random exploration of Unicode with an emphasis on format metacharacters, controls and combining marks.")

prop("P11", "References resolve to the right declaration or are rejected",
 "For every set of declared functions and types and every reference by name, signature, anchor or both, parsing resolves to the one declaration the documented rules select (anchor decides and must agree with the name; a full signature must be unique; a bare name must be unambiguous) and otherwise fails. For every plan, formatting writes each reference with enough of signature and anchor that it denotes the same declaration again, and a reference to an undeclared anchor is reported.",
 I, "all declaration sets, including clashing names, signatures and anchors across kinds, and all spellings of references",
 "Ambiguity depends on the whole declaration set; tests use two or three fixed sets.",
 [SI, PE, PT, TE, TT], [("name resolution", SI), ("reference writer", TE)],
 "model-based testing: generated declaration sets with clashes, every reference spelling compared with an independent resolution model, in both directions",
 "Random exploration with small name pools so that clashes are common.")

prop("P12", "Output columns and field numbers stay correct through every relation",
 "For every relation tree, the column references written after a relation denote exactly its output mapping over the columns its inputs emit, whatever the emit kinds, join types and widths below it; an omitted or identity mapping and an explicit one that mean the same are written the same (except for a named-table read, which writes an explicit mapping out). Mappings the text cannot express faithfully are reported, not approximated.",
 I, "all relation trees with arbitrary output mappings, including duplicates, permutations, omissions and out-of-range indices",
 "Widths compose through the tree; tests check one or two levels with common mappings.",
 [TR, PR], [("emitted width computation", TR), ("emit construction", PR)],
 "property-based testing: plans with non-canonical and out-of-range emits; oracle is an evaluator that gives each output column's provenance",
 "Random exploration; the oracle compares the meaning (column provenance) of original and reparsed plans.")

prop("P13", "Aggregates keep their grouping sets, measures and output order",
 "For every aggregation (any number of grouping sets, shared or repeated grouping expressions, empty sets, measures, and output mapping), formatting and reparsing yields an aggregation with the same grouping sets in the same order, the same output columns, each the same grouping expression or measure; what cannot be written that way is reported. Texts with several grouping sets parse to exactly the sets and output columns written.",
 I, "all aggregate relations, in canonical or non-canonical representation",
 "The mapping between grouping expressions, references and output columns is a bookkeeping problem whose faults need particular repetitions and orders.",
 [PR, TR], [("grouping set parsing and deduplication", PR), ("aggregate writer", TR)],
 "property-based testing: arbitrary aggregate relations, semantic comparison of original and reparsed (sets of expressions, measures, output provenance)",
 "Random exploration; comparison is by meaning, not by representation.")

prop("P14", "Layout and spelling do not change the meaning",
 "For every text, valid or not, changing only the layout the format declares insignificant (blank lines, trailing spaces, line endings, spaces around separators, one-line versus continued tables) or replacing a spelling by an equivalent one gives the same plan or is rejected alike. Changes of indentation that alter the tree are never treated as layout.",
 I, "all texts times all layout edits",
 "Each layout rule is tested alone at one place; equivalence everywhere is a relation between infinitely many pairs.",
 [G, CH, PS], [("line chunking", CH), ("whitespace rules", G)],
 "metamorphic testing: pairs of texts differing in layout or spelling only, results compared, also on mutated invalid texts",
 "Random exploration of text pairs.")

prop("P15", "Output options change presentation only",
 "For every plan and every setting of indentation, literal type visibility, anchor visibility and table line threshold, the text differs only in what the option says, and (where indentation is two spaces and no option hides needed types or anchors) parses to the same plan. Each option's effect is exactly as documented.",
 IC, "all plans times all output option combinations",
 "Tests set one option on one plan; interactions of options with clashing names, nested types or tables are unreached.",
 [TF, TR, TE, TT, TP], [("option handling", TF)],
 "property-based testing: plans times options, compared with an independent writer for those options and reparsed",
 "Random exploration of the product of plans and options.")

prop("P16", "Declared extensions are kept exactly and conflicts are rejected",
 "For every list of extension locations and declarations, the declaration set keeps each with its anchor, kind and name, lists them in a fixed order, writes them in the documented section and reads the section back to the same set; anchors are separate per kind. A duplicate anchor within a kind, a reference to an undeclared location and a malformed declaration line are rejected.",
 ["inputs", "histories"], "all sequences of declaration operations and all declaration sections",
 "Ordering, per-kind anchor spaces and conflict detection depend on the whole sequence of insertions.",
 [SI, PX, TX, TP], [("declaration store", SI), ("section parser", PX)],
 "stateful model-based testing: random operation sequences on the declaration set against a reference model, plus section text round trips and corruptions",
 "Random exploration of histories up to 12 operations.")

prop("P17", "Extension argument values survive the text exactly",
 "For every extension argument value (string, integer, float, boolean, null, enum, expression, and tuples of these nested), positional or named, formatting and parsing recover the identical value and its kind, in order and under its name; the one exception is an expression that is just a literal of a default type, which reads back as the bare scalar that converts to it. Typed access to an argument yields the value only when the kind matches, and otherwise an error.",
 I, "all argument values to bounded nesting, in all extension kinds",
 "Tests use a few scalar arguments; confusion between kinds arises for values whose text resembles another kind.",
 [AR, PE, TX, G], [("argument parser", PE), ("argument writer", TX), ("typed conversions", AR)],
 "property-based testing: generated values through a pass-through extension type, round trip and exhaustive kind-by-conversion comparison",
 "Random exploration; nesting of tuples bounded to 3.")

prop("P18", "Extensions see exactly their arguments and leftovers are rejected",
 "For every extension type and every argument list, the extension receives exactly the positional arguments, named arguments and output columns written; arguments it does not consume make parsing fail, and so do missing required ones and errors it reports. An argument list is accepted exactly when the extension consumed everything and succeeded.",
 ["inputs", "programs"], "all argument lists times all access patterns of an extension",
 "Which arguments count as handled depends on the sequence of accesses; tests use two example extensions.",
 [AR], [("access tracking", AR)],
 "stateful model-based testing: random access programs over random argument lists against a model of consumption, through the registry and through text",
 "Random exploration of access programs up to 8 steps.")

prop("P19", "The extension registry keeps names, kinds and payload types apart",
 "For every sequence of registrations, each kind of extension is its own namespace: a name or payload type already taken within a kind is refused without changing the registry, and every lookup, by name or by payload type, finds exactly the extension registered under that kind or reports that there is none. Cloning a registry or registering in another order does not change lookups.",
 ["histories"], "all registration sequences over all kinds, names and payload types",
 "Collisions across kinds and partial effects of refused registrations need particular sequences.",
 [RE], [("registration checks", RE)],
 "stateful model-based testing: random registration and lookup sequences against a reference map",
 "Random exploration over a family of extension types with colliding names and payload types.")

prop("P20", "Extensions and addenda attach to their own relation, in order",
 "For every plan with extension relations, extension tables, enhancements and optimizations, each is written under and parsed back onto the relation it belongs to, in order, with its inputs and the columns of its inputs as context. An extension that is not registered makes parsing fail, and on formatting is shown as a visible problem while the rest of the plan is unaffected.",
 IC, "all relation trees with extension nodes and addenda, under full, partial and empty registries",
 "Attachment depends on indentation, order and neighbours; tests place one addendum on one relation.",
 [PS, PR, TA, TX, RE], [("addendum collection", PS), ("addendum writer", TA), ("extension relation writer", TR)],
 "property-based testing: trees dense in extensions, with registries missing a random subset; exact text and plan oracles",
 "Random exploration.")

prop("P21", "Structurally wrong plans are rejected",
 "Every text that is well-formed except for one structural fault (wrong number of inputs, skipped indentation, orphan or misplaced addendum or continuation line, unknown relation or section, section out of order, duplicate argument, mapping or references where not allowed, unbalanced or trailing text, missing relation parts, Set inputs of different widths) fails to parse. No fault is repaired by guessing or by ignoring part of the text.",
 I, "all valid texts times all single structural corruptions",
 "Tests try each fault once in a tiny plan; a fault deep in a plan or next to particular neighbours may be swallowed.",
 [PS, PR, CH, PX], [("tree building", PS), ("arity checks", PR), ("chunking", CH)],
 "mutation testing of valid texts: one corruption of a known class is injected at a random place and must be rejected",
 "Random exploration; every corruption class is invalid by the documentation.")

prop("P22", "Parse errors point at the line that is wrong",
 "For every text with a single faulty line, the reported error names that line's number in the given text and quotes it (for a table continued over several lines, a line of that table), wherever the line is and whatever blank lines, continuation lines or line endings precede it.",
 I, "all valid texts times one corrupted line",
 "Line counting drifts only with particular combinations of blank, continued and skipped lines.",
 [CH, PS, PX, "src/parser/errors.rs"], [("chunk line numbers", CH), ("error context", "src/parser/errors.rs")],
 "fault injection: corrupt one line of a generated text and compare the reported location",
 "Random exploration.")

prop("P23", "Converting between file formats preserves the plan",
 "For every plan and every pair of formats among text (for the plans it can express), JSON, YAML and binary protobuf, converting with the command line tool or library gives a file that reads back as the same plan, and any chain of conversions ends with the same plan. Formats are chosen by option or by file extension, case-insensitively, and an unrecognised one is an error.",
 IC, "all plans times all pairs and chains of formats, and all file names",
 "Tests convert two example plans between a few pairs.",
 ["src/cli.rs", "src/json.rs"], [("format readers and writers", "src/cli.rs"), ("JSON reading", "src/json.rs")],
 "property-based testing: plans through random conversion chains, compared at the end; format detection against a table",
 "Random exploration through in-memory readers and writers and scratch files.")

prop("P24", "The command line never reports success for a wrong result",
 "For every input and option combination, conversion and validation succeed only if the output is complete; problems found while formatting, unreadable or malformed inputs, wrong formats and failed writes lead to a reported failure. Validation succeeds exactly when the text parses, and its output is the canonical text of the plan.",
 ["inputs", "configurations", "fault_sequences"], "all inputs, options and write failures at any byte",
 "Tests run the happy path and one or two failures; partial writes and formatting problems in combination are unreached.",
 ["src/cli.rs", "src/main.rs"], [("outcome reporting", "src/cli.rs"), ("exit code", "src/main.rs")],
 "property-based testing with fault injection: failing writers and readers at every offset, malformed inputs and plans with formatting problems",
 "Random exploration plus enumeration of write-failure offsets; also through the built executable.")

prop("P25", "JSON plans read the same in both payload encodings",
 "For every plan, reading its JSON form yields the same plan whether extension payloads are written as a type URL with base64 bytes or as inlined typed JSON for message types whose descriptors are registered. Malformed JSON and payloads of unknown type are errors, never a plan with missing payloads.",
 I, "all plans with extension payloads, in both JSON encodings",
 "Tests use one or two payloads; nested, repeated and default-valued payload fields are unreached.",
 ["src/json.rs"], [("two-stage JSON reading", "src/json.rs")],
 "differential testing: generated plans serialised in both encodings by independent means, parsed and compared",
 "Random exploration.")

prop("P26", "Results depend only on the input",
 "For every input, parsing and formatting give the same result every time: repeated, on any thread, concurrently with other calls, after any other calls, and with registries built in any order. A call that fails leaves no trace in later calls.",
 ["inputs", "schedules", "histories"], "all inputs and all interleavings with other calls",
 "Hash iteration order, shared state and leftovers of failed calls show only across runs and threads.",
 ["src/lib.rs", PS, TP, RE], [("no shared mutable state", "src/lib.rs")],
 "property-based testing: random call histories across threads sharing a registry, results compared with isolated runs",
 "Random exploration of histories and thread interleavings.")

prop("P27", "A problem in one place leaves the rest of the output intact",
 "For every plan with unsupported or malformed parts (a relation, expression, type, literal, enum value or extension payload), formatting shows a visible marker at each such part and reports a problem for it, and every line that does not involve that part is identical to the output without the problem. Problems are reported exactly when something could not be written faithfully.",
 I, "all plans times one injected malformed part",
 "Tests check the marker for a few faults in tiny plans, not that the surroundings are untouched.",
 [TF, TR, TE, TV], [("error tokens", TF)],
 "fault injection: one malformed part is planted in a generated plan and the text compared line by line with the healthy text",
 "Random exploration of fault kinds and positions.")

prop("P28", "Version headers are kept exactly or rejected",
 "For every version (numbers, producer, commit hash), the header is written with the documented lines, omitted only when there is nothing to say, and read back to the same version with any plan after it; a value that cannot stand on its line is reported. Malformed version lines, numbers out of range, unknown or repeated fields and headers in the wrong place are rejected.",
 I, "all version values and all version header texts",
 "Tests use one version; limits, empty parts and odd producers are unreached.",
 [TP, PS], [("version section", PS), ("version writer", TP)],
 "property-based testing: generated versions round-tripped against the documented text, generated malformed headers rejected",
 "Random exploration.")

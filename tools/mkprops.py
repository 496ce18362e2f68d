#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    P.append({"id":id,"title":title,"statement":statement,
      "quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a})

G="src/parser/expression_grammar.pest"
p("C01","Accepted text survives parse, format and parse again unchanged",
 "For every text plan the parser accepts, and whose references name columns that exist, formatting the resulting plan with default options reports no error (intervals beyond the range Substrait allows and unspecified nullability are reported, but still written) and produces text that the parser accepts and turns into exactly the same protobuf plan. Formatting that second plan gives the same text again, so canonical text is a fixed point.",
 ["inputs"],"every accepted text plan over the documented grammar: all standard and extension relations, expressions, literals, types, addenda, section layouts and optional spellings (nesting depth bounded)",
 "Existing round-trip tests replay some hundred hand-written plans that are already in canonical form; the guarantee is over all combinations of relation, expression, literal, type and spelling.",
 ["src/lib.rs","src/parser/structural.rs","src/parser/relations.rs","src/parser/expressions.rs","src/textify/plan.rs","src/textify/rels.rs","src/textify/expressions.rs",G],
 [("parse entry","src/lib.rs: parse / Parser::parse"),("format entry","src/lib.rs: format"),("relation parsers","src/parser/relations.rs"),("relation rendering","src/textify/rels.rs")])
p("C02","Representable plans survive format and parse unchanged",
 "For every protobuf plan whose content the text format can express, formatting it with default options reports no error and parsing the text yields an equivalent plan: the same relation tree, expressions, literals, types, declarations and version, with the same output columns in the same order. Equivalence only ignores differences that denote the same output: an absent, direct or identity output mapping, computed columns that are never output or are shared, integer versus expression fetch counts, the older in-place form of grouping expressions, and unused ordering of declarations.",
 ["inputs"],"every protobuf plan in the expressible subset, including the alternative protobuf encodings of the same plan",
 "Tests start from text, so protobuf encodings that the parser itself never produces (absent common, identity emit, deprecated fetch and grouping fields, hidden or shared computed columns) are hardly reached, let alone in combination.",
 ["src/lib.rs","src/textify/rels.rs","src/textify/expressions.rs","src/textify/plan.rs","src/parser/relations.rs","src/parser/structural.rs"],
 [("relation rendering","src/textify/rels.rs: Relation::from_rel"),("emit classification","src/parser/relations.rs: make_emit / parse_emit")])
p("C03","The parser answers every input with a plan or an error, never a crash",
 "For every input string whose brackets and relations are nested to a bounded depth, parsing returns a plan or a parse error; it never panics, overflows, aborts or fails to terminate. The same holds for parsing with any extension registry and for the file readers (text, JSON, YAML, protobuf bytes) behind the command line.",
 ["inputs"],"every byte string: random bytes, token soups, mutated valid plans, truncated files, extreme numbers and Unicode",
 "Tests only feed a few dozen malformed plans; a panic needs one unlucky combination of grammar alternative and conversion step.",
 ["src/parser/common.rs","src/parser/structural.rs","src/parser/relations.rs","src/parser/expressions.rs","src/parser/types.rs","src/parser/extensions.rs","src/parser/chunks.rs","src/cli.rs","src/json.rs"],
 [("conversion of grammar matches","src/parser/common.rs: RuleIter, unescape_string"),("line chunker","src/parser/chunks.rs"),("file readers","src/cli.rs: Format::read_plan")])
p("C04","The formatter renders every plan, marking and reporting what it cannot",
 "For every protobuf plan, including malformed and unsupported ones, formatting returns text without panicking or hanging. Every relation, expression, literal, type, enum value, reference or required field that cannot be rendered appears in the text as a !{...} token and adds at least one entry to the returned error list, a plan that renders without any reported error contains no such token outside quoted strings, and everything else in the plan is rendered just as it would be without the bad part. Optional attributes for which the text format has no syntax (hints, type variations) are outside this property.",
 ["inputs"],"every protobuf plan: arbitrary field values, missing required fields, unknown enum values, unresolved anchors, undecodable extensions, out-of-range indices",
 "The space of malformed plans is unbounded; tests cover a handful of missing fields one at a time.",
 ["src/textify/foundation.rs","src/textify/rels.rs","src/textify/expressions.rs","src/textify/types.rs","src/textify/values.rs","src/textify/addenda.rs","src/textify/plan.rs"],
 [("failure tokens","src/textify/foundation.rs: Scope::failure, MaybeToken"),("missing values","src/textify/values.rs: Value::Missing")])
p("C05","Each text relation becomes exactly the protobuf relation it denotes",
 "Parsing a text relation produces the protobuf relation of that kind with exactly the written arguments: table names and schemas, rows, conditions, join types, set operations, sort fields and directions, fetch bounds, grouping sets, measures, join post-filters and inputs in written order. The recorded output mapping selects exactly the written output columns: direct if they are all direct columns in order, otherwise an explicit list in which computed columns number on from the input columns (semi, anti, single and mark joins always record the explicit list).",
 ["inputs"],"every well-formed relation tree, with every relation kind at every position and every output column list",
 "Tests check single relations over a one- or two-column input with one output list; wrong numbering, swapped inputs or a misread enum shows only for particular widths, kinds and nestings.",
 ["src/parser/relations.rs","src/parser/structural.rs",G],
 [("relation parsers","src/parser/relations.rs: RelationParsePair impls"),("tree assembly","src/parser/structural.rs"),("emit classification","src/parser/relations.rs: make_emit")])
p("C06","Rendered text states exactly what the plan contains, in canonical form",
 "For every supported plan the default rendering is the documented canonical text: one line per relation (virtual tables with three or more rows: one line per row), indented under its parent in input order, with exactly the plan's arguments and exactly its output columns as selected by its output mapping. Nothing in the supported subset is dropped, duplicated, reordered or attributed to another relation.",
 ["inputs"],"every plan in the supported subset and every output mapping, compared with an independent renderer",
 "Snapshot tests pin a few dozen outputs; the rendering of column numbering, emit selection, grouping sets and nesting depends on combinations of widths and kinds that they do not sample.",
 ["src/textify/rels.rs","src/textify/values.rs","src/textify/plan.rs","src/textify/expressions.rs","src/textify/addenda.rs"],
 [("relation rendering","src/textify/rels.rs"),("layout","src/textify/plan.rs, src/textify/foundation.rs")])
p("C07","Literal values keep value, type and nullability in both directions",
 "Every literal of a supported type (booleans, i8 to i64, fp32, fp64, strings, dates, times and timestamps of precision 0, 3, 6 and 9 with and without time zone, day intervals, typed nulls) is rendered as its documented text and reads back as the same value with the same type, precision and nullability. Every accepted alternative spelling (T or space, / or - in dates, shorter fractions, explicit default type) denotes that same value, and a spelling that the ascribed type cannot hold, such as an out-of-range number, a fraction finer than the precision, an impossible date or a leap second, is rejected rather than changed (a float denotes the nearest value). A literal of picosecond precision is shown down to the nanosecond and the loss is reported.",
 ["inputs"],"every literal value over its whole range, including boundaries, negative times before 1970, years outside 0..9999, escapes and all Unicode characters",
 "Value spaces are huge and the tests pick round numbers; off-by-one day, sign, rounding, fraction-width and escape errors appear only at particular values.",
 ["src/textify/expressions.rs","src/parser/expressions.rs","src/parser/common.rs","src/precision.rs"],
 [("literal rendering","src/textify/expressions.rs: write_literal_value"),("literal parsing","src/parser/expressions.rs: to_*_literal"),("escapes","src/parser/common.rs: unescape_string")])
p("C08","Types keep kind, parameters and nullability wherever they appear",
 "Every supported type (simple types, lists, precision timestamps and times, day intervals, user-defined types with type parameters) is rendered as its documented text and parsed back to the same type, with the same nullability at every nesting level, in every position a type can occur: columns, function results, casts, literal ascriptions, nulls and type parameters. Types the parser does not support, unknown type names and parameters that do not fit are rejected, and types outside that set are either rendered in their documented form or reported.",
 ["inputs"],"every type expression to a bounded depth, in every syntactic position, any letter case for compound names",
 "Tests enumerate each type once at top level; nesting times nullability times position is combinatorial.",
 ["src/textify/types.rs","src/parser/types.rs",G],
 [("type rendering","src/textify/types.rs"),("type parsing","src/parser/types.rs")])
p("C09","Function and type references always resolve to the declared anchor",
 "However many functions and types are declared, and however their names, signatures, URNs and anchors collide, a reference printed by the formatter parses back to the same anchor, and it carries a signature or anchor only when the name alone would be ambiguous. A written reference resolves to the single declaration that matches its name, signature and anchor (an URN written in the reference does not help to choose, but must be that declaration's); an ambiguous, contradictory or undeclared reference is rejected, and a plan that uses an undeclared anchor is reported by the formatter.",
 ["inputs"],"every set of extension declarations and every reference to it, over functions, types and type variations sharing names, base names, signatures, URNs and anchor numbers",
 "Disambiguation depends on the whole set of declarations; tests use sets of two or three.",
 ["src/extensions/simple.rs","src/textify/types.rs","src/parser/expressions.rs","src/parser/types.rs"],
 [("name lookup","src/extensions/simple.rs: lookup_function, find_by_name, find_by_base_name"),("rendering","src/textify/types.rs: NamedAnchor")])
p("C10","Version and extension declarations survive exactly",
 "Parsing the Version and Extensions sections yields exactly the written version numbers, producer, git hash, URNs, functions, types and type variations with their anchors, ordered by anchor, whatever order and grouping they were written in. Formatting a plan prints each of its declarations exactly once, in anchor order under the right heading, and omits an absent version or empty headings.",
 ["inputs"],"every set of declarations with sparse, large or unordered anchors and every version record",
 "Tests use a few declarations with small consecutive anchors, already in canonical order.",
 ["src/extensions/simple.rs","src/parser/structural.rs","src/parser/extensions.rs","src/textify/plan.rs"],
 [("declaration tables","src/extensions/simple.rs: SimpleExtensions"),("version parsing","src/parser/structural.rs"),("rendering","src/textify/plan.rs")])
p("C11","Extension relations and addenda carry their arguments faithfully",
 "For every registered extension used as a relation (leaf, single, multi), an extension table, an enhancement or an optimization, parsing hands the handler exactly the written positional arguments, named arguments and output columns and stores exactly the message it returns; formatting prints exactly the arguments the handler gives, so both directions round-trip. Addenda stay attached to their relation, in the order table detail, enhancement, optimizations; an unregistered or failing extension is reported as an error on its own line and leaves the rest of the plan intact (relations above it may not know how many columns it has).",
 ["inputs","configurations"],"every argument list over strings, integers, floats, booleans, nulls, enums, nested tuples, references and expressions; every extension kind, relation position and number of addenda",
 "Tests define a few handlers with two or three scalar arguments; nested tuples, quoted names, mixed columns and several addenda on deep trees are not sampled.",
 ["src/extensions/registry.rs","src/extensions/args.rs","src/parser/extensions.rs","src/parser/structural.rs","src/textify/extensions.rs","src/textify/addenda.rs","src/textify/rels.rs"],
 [("argument access","src/extensions/args.rs: ArgsAccess"),("addendum lines","src/textify/addenda.rs"),("addendum parsing","src/parser/structural.rs")])
p("C12","The extension registry resolves by kind and name and rejects conflicts",
 "After any sequence of registrations, looking up or decoding an extension of a given kind by name or by type URL reaches exactly the handler registered for that kind, and the four kinds never see each other's entries. A registration that would reuse a name or type URL already taken within its kind fails and leaves the registry unchanged; conversions of argument values succeed exactly for values of the requested kind (untyped scalars also serving as expressions), and unread arguments are an error.",
 ["histories","inputs"],"every sequence of registrations over colliding names, type URLs and kinds, and every argument list against every requested type",
 "Tests make one or two registrations each; state corruption needs a longer history with conflicts.",
 ["src/extensions/registry.rs","src/extensions/args.rs","src/extensions/any.rs"],
 [("registration","src/extensions/registry.rs: ExtensionRegistry::register"),("lookup","src/extensions/registry.rs: decode_with_context, parse_with_type"),("conversions","src/extensions/args.rs: TryFrom impls")])
p("C13","Converting between text, JSON, YAML and protobuf never changes the plan",
 "The command line's convert reads and writes the same plan in every pair of the formats text, JSON, YAML and protobuf: any chain of conversions that starts from a plan the text format can express ends with an equal plan, and binary, JSON and YAML carry every plan with finite numbers and known enum values unchanged, whether or not the text format supports it. JSON input may use snake_case or lowerCamelCase field names, and the standard inlined form of extension messages whose descriptors are registered.",
 ["inputs","programs"],"every plan and every chain of formats, with and without registered extension descriptors",
 "Tests convert one or two plans between a few pairs.",
 ["src/cli.rs","src/json.rs"],
 [("format readers and writers","src/cli.rs: Format::read_plan, write_plan"),("JSON parsing","src/json.rs: parse_json")])
p("C14","A parse error names the line and text that caused it",
 "When exactly one line of an otherwise valid text plan is broken, whatever comes before or after it, the parse error gives the one-based number of that line and its text (for a relation written over several lines, the first of them). Comments on structure count too: a line with wrong indentation, an unknown section, a misplaced or duplicate declaration, an unresolved reference, a bad literal or a relation with the wrong number of inputs is blamed on its own line.",
 ["inputs"],"every position in every plan at which one line can be broken, after any number of blank lines, sections and multi-line relations, with LF or CRLF line ends",
 "Tests assert line numbers for a few errors near the top of short plans; the bookkeeping depends on sections, blank lines, continuation lines and the moment a relation is assembled.",
 ["src/parser/errors.rs","src/parser/structural.rs","src/parser/chunks.rs"],
 [("error context","src/parser/errors.rs: ParseContext"),("line counting","src/parser/chunks.rs, src/parser/structural.rs")])
p("C15","Text that violates the format's rules is rejected, not reinterpreted",
 "The parser rejects a text plan with a wrong number of inputs for a relation, unequal set-operation widths, sections out of order or repeated, content before any section, text after a relation's closing bracket, bad indentation, repeated version details, duplicate anchors, declarations whose URN is not declared, unresolved names, references whose URN contradicts the declaration, duplicate or unknown named arguments, negative fetch bounds, values that do not fit their type, misplaced, repeated or unregistered addenda, continuation lines that belong to no multi-line relation, or aggregate outputs that are neither grouping expression nor call. It never drops, reorders or repairs such content silently.",
 ["inputs"],"every valid plan with any one of these rules broken at any place",
 "Tests break each rule once in a minimal plan; the check can be bypassed at another position, nesting depth or relation kind.",
 ["src/parser/structural.rs","src/parser/relations.rs","src/parser/extensions.rs","src/parser/expressions.rs","src/extensions/simple.rs"],
 [("arity checks","src/parser/relations.rs: expect_one_child"),("section order","src/parser/structural.rs"),("duplicate checks","src/extensions/simple.rs")])
p("C16","Parsing and formatting are pure: same input, same result, on any thread",
 "The result of parsing or formatting depends only on its arguments: repeating a call, running other calls (including failing ones) before it, or running calls concurrently on several threads that share one registry and the same plans gives byte-for-byte the same plans, texts, error lists and messages as a lone first call. A parser or registry value that has reported an error still behaves like a fresh one, formatting does not modify the plan, and the short entry points give what the full ones give with the default options and an empty registry.",
 ["schedules","histories"],"every history and every interleaving of parse and format calls on shared registries and plans",
 "Tests call each function once per fresh value on one thread; hash order, caches and shared state show only over histories and schedules.",
 ["src/lib.rs","src/textify/foundation.rs","src/extensions/registry.rs","src/extensions/simple.rs","src/parser/structural.rs"],
 [("error queue","src/textify/foundation.rs: ErrorQueue"),("shared registry","src/extensions/registry.rs"),("ordered tables","src/extensions/simple.rs")])
p("C17","The command line's outcome, output and messages match what happened",
 "convert and validate succeed exactly when the input was read in its format, the output was written and no formatting issue occurred; every other run ends in an error or in the issue outcome, and the process exit status is zero exactly on success. Text output is written in full even when formatting issues occurred and then every issue is listed on the error stream; a run that fails to read its input writes no plan and leaves an existing output file as it was, a plan can be converted in place; the explicit format wins over the one detected from the file extension, and a standard stream needs an explicit one.",
 ["inputs","configurations"],"every combination of command, input and output format, file or stream, extension, option and valid, lossy, malformed or missing input",
 "Tests cover a few combinations in-process; the matrix of formats, streams, detection and failure kinds is not sampled.",
 ["src/cli.rs","src/main.rs"],
 [("commands","src/cli.rs: Cli::run_with_io, run_convert, run_validate"),("detection","src/cli.rs: Format::from_extension"),("exit status","src/cli.rs: Cli::run")])
p("C18","Any name can be used: quoting is applied exactly when needed and inverted",
 "Names of tables, columns, root outputs, extension relations, addenda and named arguments may be arbitrary strings, including empty ones, quotes, backslashes, control characters, keywords and any Unicode: the formatter prints a name bare exactly if it is an identifier and otherwise quoted and escaped on one line, and parsing gives the same name back. No name can change the structure of the text around it.",
 ["inputs"],"every string in every name position",
 "Tests use a few names with a space or quote in one position each.",
 ["src/textify/types.rs","src/parser/common.rs","src/textify/rels.rs","src/textify/values.rs","src/parser/relations.rs","src/parser/extensions.rs"],
 [("quoting","src/textify/types.rs: Name"),("unescape","src/parser/common.rs: unescape_string, Name")])
p("C19","Layout and optional spellings never change the parsed plan",
 "Optional spaces the grammar allows, blank lines, CRLF line ends, inline or one-row-per-line virtual tables, letter case of compound type names, redundant anchors, signatures, u! prefixes and default type ascriptions, parenthesised single grouping sets, argument order in Fetch, and order and grouping of declarations do not change the parsed plan. Two spellings of the same plan always parse to the same protobuf.",
 ["inputs"],"every plan and every combination of optional spellings of it",
 "Tests try single whitespace variants on single lines.",
 [G,"src/parser/structural.rs","src/parser/chunks.rs","src/parser/expressions.rs","src/parser/types.rs","src/parser/relations.rs"],
 [("grammar","src/parser/expression_grammar.pest"),("continuation lines","src/parser/chunks.rs"),("indentation","src/parser/structural.rs")])
p("C20","Output options change only what they document",
 "For every plan and every combination of output options, each option affects exactly its own part of the text and no other: anchors and signatures of references, literal type suffixes, direct columns instead of emitted ones, the indentation unit, the virtual-table layout threshold, binary literal contents; an option that no part of the text depends on changes nothing. The verbose preset, showing anchors or literal types always, and any virtual-table threshold still give text that parses to the same plan.",
 ["inputs","configurations"],"every plan crossed with every combination of output options",
 "Tests flip single options on single expressions; interactions between options and with unusual plans are not covered.",
 ["src/textify/foundation.rs","src/textify/types.rs","src/textify/expressions.rs","src/textify/plan.rs","src/textify/rels.rs","src/lib.rs"],
 [("options","src/textify/foundation.rs: OutputOptions"),("section switches","src/textify/plan.rs"),("literal suffix","src/textify/expressions.rs: Literal::textify")])
p("C21","A text plan means exactly what the format's grammar and rules give it",
 "For every text, whether written on purpose or damaged by arbitrary edits, the parser's answer is the one the documented format determines: a text within the grammar and the rules is accepted and yields exactly the plan it denotes (every relation, input, column, expression, literal, type, reference, argument, addendum and declaration, in its place and with its value), and a text that falls outside in any place is rejected as a whole. No part of the text is skipped, no missing part is supplied, and a small edit never silently changes the meaning of the rest. Spellings the documentation leaves open (dates and times in unusual forms, spaces in unusual places, line breaks in quotes, unspecified nullability) may go either way.",
 ["inputs"],"every text: valid plans in any spelling and their damage by token, character and line edits, odd literals and lines of other plans",
 "Tests give chosen texts and chosen expectations; the space between valid and invalid texts is where a loosened rule, a shadowed grammar alternative or a forgotten end-of-input check hides.",
 [G,"src/parser/structural.rs","src/parser/relations.rs","src/parser/expressions.rs","src/parser/types.rs","src/parser/extensions.rs","src/parser/chunks.rs","src/extensions/simple.rs"],
 [("grammar",G),("relation parsers","src/parser/relations.rs"),("document structure","src/parser/structural.rs"),("literals","src/parser/expressions.rs")])
p("C22","Parsing and formatting cost grows in proportion to the input",
 "With nesting bounded, the CPU time and memory that parsing, formatting and reading the other formats take grow in proportion to the size of the text or plan, whichever part of it grows: relations, roots, inputs, columns, expressions, arguments, grouping sets, rows, names, strings, addenda, blank space, or the declarations themselves, and whether the input is valid, broken or has unresolved references. (Resolving a reference may take time in proportion to the number of declarations.) No form of nesting within the bound makes time or memory explode.",
 ["inputs"],"every text and plan, at every size, in every dimension in which it can grow",
 "Tests use inputs of a few hundred bytes, where a rescan of the text per line, a linear search per item, or rendering a subtree twice per level costs nothing noticeable.",
 ["src/parser/structural.rs","src/parser/chunks.rs","src/parser/relations.rs","src/parser/expressions.rs","src/parser/common.rs","src/parser/extensions.rs",G,"src/textify/rels.rs","src/textify/expressions.rs","src/textify/foundation.rs","src/extensions/simple.rs"],
 [("line and chunk walk","src/parser/chunks.rs: ChunkCursor"),("grouping lookups","src/parser/relations.rs: build_grouping_fields"),("grammar alternatives",G),("nested rendering","src/textify/expressions.rs")])
with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x,ensure_ascii=False)+"\n")
print(len(P))

#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that long lines stay reviewable)."""
import json, os
P = []
SYN = "fluent.syntax/fluent/syntax/"
RT = "fluent.runtime/fluent/runtime/"
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech],
                     "observe_at": observe or [], "hook_needed": None}}
    if state:
        d["anchors"]["state"] = [{"name": a, "meaning": b, "where": c} for a, b, c in state]
    assert len(title) <= 80, title
    P.append(d)

p("C01", "Parsing never fails and takes work linear in the input",
  "Parsing any Unicode string returns a Resource and never raises (for nesting up to a few dozen levels), leaving the argument alone and giving the same result every time. The work done grows at most linearly with the length of the text, whatever the text is: malformed, truncated, deeply repetitive or hostile input never makes the parser hang or blow up.",
  ["inputs"], "for every str, well-formed or not, incl. NUL, lone CR, surrogates, exotic line separators and long repetitions",
  "The fixtures are a few dozen tidy files; totality and complexity are statements about all strings, and the error-recovery loop is only sampled.",
  [SYN+"parser.py", SYN+"stream.py"],
  [("error recovery turns every parse error into Junk", SYN+"parser.py get_entry_or_junk"), ("recovery always advances", SYN+"stream.py skip_to_next_entry_start")],
  ["FluentParser().parse", "fluent.syntax.parse"])
p("C02", "Parsing loses nothing: entries tile the source text",
  "With spans on, the entries of a parsed Resource (a comment attached to a message counting as part of it) appear in source order without overlap, and whatever lies between, before and after them is blank: spaces and line breaks only. Every Junk entry's content is exactly the source text its span covers, and the Resource spans the whole text, so no part of the source silently disappears.",
  ["inputs"], "for every str", "Tests compare a few fixtures with stored trees; losslessness quantifies over all malformed inputs.",
  [SYN+"parser.py", SYN+"stream.py"], [("junk slice and resume position", SYN+"parser.py get_entry_or_junk"), ("entry start detection", SYN+"stream.py skip_to_next_entry_start")],
  ["Resource.body[*].span", "Junk.content"])
p("C03", "Well-formed Fluent parses to the tree the grammar prescribes",
  "For every well-formed Fluent file the parsed tree contains exactly the messages, terms, attributes, comments, patterns, placeables, selectors, variants, references, literals and call arguments that the Fluent 1.0 syntax prescribes, with the exact text values, and no Junk. The result does not depend on layout the syntax declares insignificant: common indentation of a pattern is removed, trailing blanks of a pattern are trimmed, interior blank lines and relative indentation are kept, and blanks inside placeables, call arguments and variant keys do not matter.",
  ["inputs", "programs"], "for every tree of the abstract syntax and every legal way to lay it out as text",
  "Reference fixtures fix one layout per construct; combinations of constructs, nesting and indentation are unbounded.",
  [SYN+"parser.py", SYN+"stream.py", SYN+"ast.py"], [("indentation removal", SYN+"parser.py get_pattern/dedent"), ("grammar productions", SYN+"parser.py get_*")],
  ["FluentParser().parse(...).to_json()"])
p("C04", "A syntax error stays contained in its own entry",
  "Invalid text becomes Junk without affecting the entries before it or the valid entries after it: a file put together from valid entries and arbitrary broken text, none of it reading as a continuation of what stands before it, contains all those valid entries, in order, exactly as each parses alone (apart from comments joining what directly follows), and the broken text as Junk. A comment placed directly above a valid message or term becomes that entry's comment; one followed by a blank line, by Junk, by another comment or by the end of the file stays a standalone comment, and group and resource comments never attach.",
  ["inputs", "programs"], "for every sequence of valid and broken entries and every separation between them",
  "Fixtures contain isolated errors; the interplay of error position, recovery and neighbours is combinatorial.",
  [SYN+"parser.py", SYN+"stream.py"], [("recovery to the next entry start", SYN+"stream.py skip_to_next_entry_start"), ("comment stashing", SYN+"parser.py parse")],
  ["Resource.body"])
p("C05", "Every Junk carries one accurate diagnostic",
  "Every piece of Junk produced by parsing has exactly one annotation, with the documented error code for the first syntax error of that entry, the code's arguments and the human-readable message that goes with them. The annotation's position is where that error was found and always lies within the Junk's own span.",
  ["inputs"], "for every malformed entry", "Each code is tested on one or two snippets; which error comes first, where, and how it clips to the junk depends on the whole input.",
  [SYN+"parser.py", SYN+"errors.py"], [("annotation creation and clipping", SYN+"parser.py get_entry_or_junk"), ("message table", SYN+"errors.py get_error_message")],
  ["Junk.annotations"])
p("C06", "Source positions are exact, and optional",
  "With position tracking on, every node's span delimits in the source string exactly the text of that node, in code points of the original text even with CRLF line ends: identifiers, literals, references, placeables, patterns, attributes, entries (starting at their attached comment), and children lie within their parents in order. Turning position tracking off gives the same tree with no positions at all.",
  ["inputs"], "for every str and every node of its tree", "Only a handful of spans are asserted in fixtures, mostly with LF and simple nesting.",
  [SYN+"parser.py", SYN+"stream.py"], [("with_span decorator", SYN+"parser.py with_span"), ("CRLF cursor rules", SYN+"stream.py char_at/next")],
  ["node.span for every node", "FluentParser(with_spans=False)"])
p("C07", "CRLF and LF line endings parse alike",
  "Replacing every line feed of a text (one without carriage returns) by carriage return plus line feed, or only some of them, changes nothing in the parsed entries except positions and the verbatim content of Junk, which keeps the line ends of the source. In particular comments are not split, multi-line text contains plain line feeds, and blank lines and indentation are recognised the same way.",
  ["inputs"], "for every str without CR and every subset of its line feeds", "One CRLF fixture exists; every production that looks at line ends must be right.",
  [SYN+"stream.py", SYN+"parser.py"], [("CRLF seen as one LF", SYN+"stream.py char_at/next/peek")], ["Resource.to_json() without spans"])
p("C08", "Serializing and parsing again gives the same tree",
  "Serializing the tree of any parsed text and parsing the output gives an equal tree (positions aside), with Junk left out by default and, when requested, reproduced in place with its content. The same holds for trees built through the node classes, as long as they could have come from a parse; serializing a single entry agrees with serializing a resource. A tree with a part that is no Fluent node of the kind expected there is refused with an exception, never written without it.",
  ["inputs", "programs"], "for every parseable text and every well-formed tree", "Round-trip tests cover about fifty snippets; indentation, special leading characters and nesting interact.",
  [SYN+"serializer.py", SYN+"parser.py"], [("pattern indentation and new-line placement", SYN+"serializer.py serialize_pattern")], ["FluentSerializer().serialize", "parse"])
p("C09", "The serialized form is canonical and stable",
  "Serialized text (without Junk) is a fixed point: parsing and serializing it again reproduces it byte for byte. It is determined by the tree alone, not by the layout of the source it came from, in the documented normal form: four-space indentation per level, attributes and variants on their own lines with the default marked by an asterisk, multi-line patterns starting on their own line unless they begin with a special character, arguments separated by comma and space, and a blank line around standalone comments.",
  ["inputs", "programs"], "for every tree and every layout of it", "Tests pin a few outputs; canonicity relates all layouts of all trees.",
  [SYN+"serializer.py"], [("formatting rules", SYN+"serializer.py serialize_*")], ["FluentSerializer().serialize"])
p("C10", "Tree cloning, comparison and JSON conversion are faithful",
  "Converting any tree to JSON data and back, also through JSON text, gives an equal tree of the same node types with the same positions and annotations; a function given for the conversion is applied to every node's data, children first; a clone, like a copy or pickle made by Python, is equal to the original and shares no mutable node or list with it. Comparison is reflexive and symmetric and tells apart any two trees differing in a type, a value, a list's length or order, or a missing node, ignoring exactly the fields it was asked to ignore (positions by default).",
  ["inputs", "programs"], "for every tree, every single-point difference, every list of ignored fields", "Unit tests clone and compare a few messages; sharing and missed differences need quantification over all nodes and fields.",
  [SYN+"ast.py"], [("clone/equals/to_json/from_json", SYN+"ast.py BaseNode")], ["BaseNode.clone", "BaseNode.equals", "to_json", "from_json"])
p("C11", "Visitors see every node once; transformers edit exactly what they say",
  "A Visitor reaches every node of a tree exactly once, in source order of the children's fields, calling the handler for the node's own type if there is one and descending by default, and it changes nothing. A Transformer whose handlers return the node, a replacement or nothing leaves, replaces or removes precisely the nodes so handled, in place, keeping the order of all others.",
  ["inputs", "programs"], "for every tree and every choice of handled nodes and answers", "Two small transformers are tested; removal in lists and optional children and handler dispatch vary per node class.",
  [SYN+"visitor.py"], [("generic traversal", SYN+"visitor.py generic_visit")], ["Visitor.visit", "Transformer.visit"])
p("C12", "Literals decode to exactly the value they denote",
  "A string literal's parsed value replaces each escape (backslash, quote, four- and six-digit code points in either case) by the character it denotes and every other character by itself; code points that are not Unicode scalar values become U+FFFD, and decoding never raises. A number literal's parsed value is its numeric value together with the number of its fraction digits.",
  ["inputs"], "for every literal the syntax allows, incl. every escape and sequence of escapes", "Tests decode about a dozen literals; the escape grammar ranges over 2^24 code points and all adjacencies.",
  [SYN+"ast.py"], [("escape decoding", SYN+"ast.py StringLiteral.parse"), ("number parsing", SYN+"ast.py NumberLiteral.parse")], ["StringLiteral.parse", "NumberLiteral.parse"])
p("C13", "Parsing one entry agrees with parsing the file",
  "Parsing a single entry returns the first message or term of the text, skipping blank lines and any comments before it, equal to the one the full parse finds there but without a comment. If something invalid, including an invalid comment, comes first, it returns the same Junk as the full parse.",
  ["inputs"], "for every str", "A dozen snippets are tested; agreement between the two entry points is a relation over all inputs.",
  [SYN+"parser.py"], [("parse_entry", SYN+"parser.py parse_entry")], ["FluentParser().parse_entry"])

p("C14", "Formatting yields what the Fluent semantics prescribes",
  "For every bundle and arguments, formatting a message value or attribute yields exactly the text given by the Fluent semantics: text verbatim, variables replaced by the locale-formatted arguments, message, term and attribute references by their formatted patterns, literals by their value, function calls by their results and selections by the chosen variant, nested to any depth. Nothing else is added, dropped or reordered.",
  ["programs", "inputs"], "for every set of messages and terms, every reference structure among them and all arguments", "Tests check single features in isolation with few-line resources.",
  [RT+"resolver.py", RT+"prepare.py", RT+"bundle.py"], [("resolver tree", RT+"resolver.py __call__"), ("compile-time simplification", RT+"prepare.py Compiler")],
  ["FluentBundle.format_pattern"])
p("C15", "Selection picks the right variant",
  "A selection yields the first variant whose key matches the selector, and otherwise the default: strings match keys spelled the same, numbers match number keys of equal value whatever their numeric type or notation, and plural category keys according to the locale's cardinal rules, or its ordinal rules for ordinal numbers. A string never matches a number key, and a missing, failing or otherwise unusable selector always takes the default wherever it stands in the list.",
  ["inputs", "configurations"], "for every locale, selector value and type, and every list of keys", "Tests cover English and a few values; category rules depend on locale, type and digits.",
  [RT+"resolver.py"], [("variant matching", RT+"resolver.py match/SelectExpression")], ["FluentBundle.format_pattern"])
p("C16", "Formatting never raises: problems show as fallbacks plus errors",
  "Formatting a pattern always returns a string (or fallback value) and a list of errors, whatever the messages, arguments and functions do, short of process-level exits. Every unknown variable, message, term, attribute or function, value-less message, unsupported argument and failing function puts exactly its documented readable placeholder in the text and exactly its own error in the list, in the order met, while all the rest is formatted as usual; the list is empty when nothing went wrong. The library's errors are equal exactly if class and text are, also after copying or pickling.",
  ["programs", "fault_sequences"], "for every combination of missing or broken pieces at every position", "Tests break one thing at a time; combinations and propagation through references are unbounded.",
  [RT+"resolver.py", RT+"bundle.py", RT+"utils.py", RT+"errors.py"], [("reference fallback", RT+"resolver.py resolveEntryReference/VariableReference/FunctionReference"), ("outer guard", RT+"bundle.py format_pattern")],
  ["FluentBundle.format_pattern errors and text"])
p("C17", "Terms see only the arguments passed to them",
  "Inside a term, variables refer only to the named arguments of the reference that reached it; the caller's arguments are invisible, a variable not passed shows as its bare name without an error, and extra arguments are ignored. Positional arguments to a term are ignored with an error, and after the term the caller's own arguments, and error reporting, are in force again, however references nest.",
  ["programs", "inputs"], "for every nesting of term, message and attribute references, in text, selectors and arguments", "Tests use one level of term calls; restoring scope after nested, failing or cyclic references is combinatorial.",
  [RT+"resolver.py"], [("scope switch and restore", RT+"resolver.py modified/modified_for_term_reference")], ["FluentBundle.format_pattern"],
  [("current args", "arguments visible to the pattern being resolved", RT+"resolver.py CurrentEnvironment")])
p("C18", "Isolation marks wrap interpolations, and only those",
  "With isolation on, every interpolated value in a pattern with other content is wrapped in exactly one U+2068 ... U+2069 pair, so marks added by formatting are balanced and properly nested; a pattern consisting of a single placeable, and string literals, are not wrapped. With isolation off none are added, and the formatted text is what remains of the isolated one when the added marks are removed; errors are the same.",
  ["programs", "inputs", "configurations"], "for every pattern and arguments, on and off", "A few one-placeable patterns are tested.",
  [RT+"resolver.py", RT+"prepare.py"], [("isolating placeable", RT+"resolver.py Placeable/NeverIsolatingPlaceable"), ("who is isolated", RT+"prepare.py compile_Pattern")], ["FluentBundle(use_isolating=...).format_pattern"])
p("C19", "Cyclic and explosive messages are cut off at bounded cost",
  "References forming a cycle, directly or through terms, attributes, selectors or arguments, yield a placeholder and a cyclic-reference error while the surrounding text is still formatted, and a pattern merely referenced several times is not a cycle. Messages that would expand into more than about a thousand parts, or a single interpolated part beyond 2500 characters, are cut off with an error, so the work and output of one formatting call stay bounded however the messages multiply.",
  ["programs"], "for every reference graph among messages, terms and attributes", "Tests include self reference, mutual reference and one billion-laughs shape.",
  [RT+"resolver.py", RT+"bundle.py"], [("active pattern set", RT+"resolver.py Pattern.__call__"), ("part and length limits", RT+"resolver.py MAX_PARTS/MAX_PART_LENGTH")], ["format_pattern result, errors and executed steps"],
  [("active_patterns", "patterns being resolved", RT+"resolver.py ResolverEnvironment"), ("part_count", "parts resolved so far", RT+"resolver.py ResolverEnvironment")])
p("C20", "A bundle is a faithful store of its resources",
  "After any history of adding resources, a message is found exactly if some added resource defines it, and it is the first definition, or the latest one added with overriding; the same holds separately for terms, which are never returned as messages. Looking up or formatting messages in between changes nothing: results at any moment equal those of a fresh bundle given the same resources.",
  ["histories"], "for every sequence of add (with and without overriding), has, get and format operations", "Tests do one or two adds then a lookup; stale caches and cross-talk need histories.",
  [RT+"bundle.py"], [("first wins / override", RT+"bundle.py add_resource"), ("lookup cache", RT+"bundle.py _lookup")], ["add_resource", "has_message", "get_message", "format_pattern"],
  [("_messages/_terms", "definitions by id", RT+"bundle.py"), ("_compiled", "cache of compiled entries", RT+"bundle.py")])
p("C21", "Formatting is pure",
  "Formatting the same pattern with the same arguments always gives the same text and errors, independent of what was formatted before, how often, in which order, or by other bundles sharing the same resources. It never changes the caller's arguments, the parsed resources or the error lists of earlier calls.",
  ["histories"], "for every sequence of formatting calls over shared resources, including failing ones", "Tests format once in a fresh bundle.",
  [RT+"bundle.py", RT+"resolver.py", RT+"prepare.py", RT+"types.py"], [("per-call environment", RT+"bundle.py format_pattern"), ("options never mutated", RT+"types.py merge_options")], ["format_pattern", "Resource.to_json() before and after"])
p("C22", "Numbers are formatted by locale and options",
  "A number formats as the locale's CLDR pattern, digits grouping and symbols require after rounding half-even to the requested digits; style, currency and its display, grouping, minimum and maximum fraction digits, minimum integer digits and significant digits each have their documented effect alone and combined. The value is that of the int, float or Decimal passed, with no digits invented or lost within the requested precision.",
  ["inputs", "configurations"], "for every number, numeric type, locale and combination of options", "About twenty English examples are tested; options interact with locale patterns and rounding.",
  [RT+"types.py", RT+"builtins.py"], [("pattern adjustment", RT+"types.py FluentNumber._apply_options")], ["NUMBER() in messages", "fluent_number(...).format(locale)"])
p("C23", "Dates and times are formatted by locale, style and zone",
  "A date or datetime formats as the locale prescribes for the given date and time styles (medium date when none is given), in the time zone asked for, denoting the same instant as the value passed, naive datetimes being taken as UTC. All fields of the value survive conversion, including time zone, microseconds and the daylight-saving fold.",
  ["inputs", "configurations"], "for every date and datetime, zone, locale and style combination", "A handful of English examples are tested; zones, folds and locales vary.",
  [RT+"types.py", RT+"builtins.py"], [("formatting", RT+"types.py FluentDateType.format"), ("conversion", RT+"types.py from_date/from_date_time")], ["DATETIME() in messages", "fluent_date(...).format(locale)"])
p("C24", "Wrapped numbers and dates keep value, type and options",
  "Wrapping a number or date for Fluent gives a value equal to the original, of the matching kind, on which only the options explicitly given, on top of those already present, take effect: re-wrapping or passing through NUMBER or DATETIME merges options, later ones winning, and never alters the object it started from. Invalid option names or values raise, plain native arguments behave as if wrapped without options, and a missing value passes through unchanged. Options documented as unsupported are accepted with a warning and change nothing. Copies and pickles of wrapped values keep value, class and options; dates made from them by arithmetic or replacing fields format like the date, with the options or with the default ones.",
  ["inputs", "histories"], "for every value and every sequence of wrappings with options", "Tests cover single wraps and two merges.",
  [RT+"types.py", RT+"utils.py", RT+"builtins.py"], [("option merging", RT+"types.py merge_options"), ("native conversion", RT+"utils.py native_to_fluent")], ["fluent_number", "fluent_date", "options attribute"])
p("C25", "Custom functions get the right arguments and cannot break formatting",
  "A custom function is called once per evaluated call with the positional arguments in order, each resolved to its typed value, and the named arguments by name as typed literals; its result is inserted or used as selector according to its type. It may override a built-in in its own bundle only, is invisible to bundles not given it, and any exception it raises becomes one entry in the error list and a visible fallback.",
  ["programs", "fault_sequences"], "for every call shape, argument type and function behaviour incl. exceptions", "Tests register a few functions with one or two arguments.",
  [RT+"resolver.py", RT+"bundle.py"], [("function call", RT+"resolver.py FunctionReference"), ("function table", RT+"bundle.py __init__")], ["arguments recorded by instrumented functions"])
p("C26", "Localization falls back through locales in order, lazily",
  "Formatting a value by id uses the first bundle, in order of locales and, per locale, of the locations the loader yields, that has that message with a value, and returns the id itself if there is none. Bundles are loaded only as far as needed and each at most once over the life of the object, each made for the remaining locale chain with the given functions and isolation, whatever the sequence of requests.",
  ["histories", "configurations"], "for every locale chain, resource layout and sequence of requests", "Tests check two locales and one lookup per missing message.",
  [RT+"fallback.py"], [("fallback loop", RT+"fallback.py format_value"), ("lazy bundle cache", RT+"fallback.py _bundles/_iterate_bundles")], ["FluentLocalization.format_value", "calls received by an instrumented loader"],
  [("_bundle_cache", "bundles made so far", RT+"fallback.py")])
p("C27", "A shared bundle or localization may be used from several threads",
  "Threads formatting concurrently through one shared localization or bundle each get exactly the text and errors they would get alone; none fails, and every bundle is still loaded at most once and in order. This includes the first, loading, requests arriving at the same time.",
  ["schedules"], "for every number of threads, interleaving, and loader delay", "No test uses threads.",
  [RT+"fallback.py", RT+"bundle.py"], [("shared bundle cache", RT+"fallback.py _bundles"), ("shared lookup cache", RT+"bundle.py _lookup")], ["per-thread results", "loader call log"],
  [("_bundle_cache", "bundles made so far", RT+"fallback.py"), ("_compiled", "compiled entries", RT+"bundle.py")])
p("C28", "The disk loader reads exactly the right files",
  "For a locale the loader yields, root by root in order, the parsed contents of the requested files that exist there, in the order requested, with the locale put in place of its marker in root or file name; missing files are left out and a root with none yields nothing. Files are decoded as UTF-8 with their text intact, including line ends and characters outside the basic plane, and nothing outside the designated paths is read.",
  ["inputs", "configurations"], "for every layout of roots, locales, files and directories", "Tests mock the file system for three layouts.",
  [RT+"fallback.py"], [("path localization and reading", RT+"fallback.py FluentResourceLoader")], ["FluentResourceLoader.resources", "open events (audit hook)"])
p("C29", "Highlighting reproduces the source exactly",
  "The highlighter's tokens, concatenated, are exactly the input text, with positions that are contiguous from the start to the end; it never raises and never loses, repeats or reorders a character, for valid, broken and empty files and any line ends.",
  ["inputs"], "for every str", "Three token lists are tested.", ["fluent.pygments/fluent/pygments/lexer.py"],
  [("gap filling between tokens", "fluent.pygments/fluent/pygments/lexer.py get_tokens_unprocessed")], ["FluentLexer.get_tokens_unprocessed", "get_tokens"])
p("C30", "Highlighting classifies each construct by its syntax",
  "Each token's class follows the parsed syntax: comments, identifiers, variant keys, pattern text, string and number literals, variables and broken entries each get their own documented class over exactly their source range, in source order, and everything else is punctuation.",
  ["inputs"], "for every Fluent file", "Three snippets are tested; nested constructs, attached comments and arguments are not.", ["fluent.pygments/fluent/pygments/lexer.py"],
  [("node to token mapping", "fluent.pygments/fluent/pygments/lexer.py ATOMIC/tokenize_Variant")], ["FluentLexer.get_tokens_unprocessed"])
p("C31", "Documentation builds publish the right versions",
  "Building documentation produces, for each selected project, its development version and one version per release tag of that project newer than the cut-off date, each built from that tag's sources; version lists offer dev, stable and the releases newest first, the stable link points to the newest release, and the entry page redirects to stable, or to dev when there is no release. Other projects' and older tags are ignored, rebuilding over an earlier build works, theme files stay out of the projects' pages, and a successful build leaves the working tree as it was and removes its temporary checkouts. When git or Sphinx fails at any step the build fails too, and nothing is published from sources other than its own; building again afterwards works.",
  ["configurations", "histories", "fault_sequences"], "for every set of tags, dates and selected projects, repeated builds, and every step that may fail", "The docs tooling has no tests at all for the build and parses fixed tag lines.", ["fluent.docs/fluent/docs/build.py", "fluent.docs/fluent/docs/tags.py", "fluent.docs/fluent/docs/__init__.py", "scripts/build-docs"],
  [("tag selection", "fluent.docs/fluent/docs/tags.py get_tag_infos"), ("build plan", "fluent.docs/fluent/docs/build.py build")], ["_build tree", "sphinx-build invocations (stub on PATH)"])
p("C32", "Command-line tools agree with the library",
  "The formatter, parser and serializer tools and the highlighter command print, for any UTF-8 file, exactly the library's result for its content: the serialized normal form, the tree as JSON that reads back equal, the Fluent text for a JSON tree, and the highlighted source whose visible text is the file's. They change no files.",
  ["inputs"], "for every UTF-8 file", "The tools have no tests.", ["tools/fluentfmt.py", "tools/parse.py", "tools/serialize.py", "fluent.pygments/fluent/pygments/cli.py"],
  [("thin command-line wrappers", "tools/*.py")], ["stdout, exit status and files of each tool"])
p("C33", "A bundle formats for the first of its locales it knows",
  "Plural and ordinal rules and the formatting of numbers and dates in a bundle, in terms and references as well, are those of one locale: the first in the bundle's list that the locale database knows, spelled with hyphens or underscores and in any letter case. Tags of unknown languages, and tags the database cannot parse such as those with private-use subtags, are skipped, and never make constructing a bundle or formatting fail.",
  ["configurations", "inputs"], "for every list of locales", "Tests use a handful of well-known tags, one at a time.",
  [RT+"bundle.py", RT+"resolver.py", RT+"types.py"], [("locale choice", RT+"bundle.py _get_babel_locale"), ("rules", RT+"resolver.py match")], ["FluentBundle(locales).format_pattern", "FluentLocalization.format_value"])
p("C34", "Application-defined Fluent types format themselves",
  "A value of an application class derived from FluentType, directly or through one of the library's number, date or none types, is formatted by its own format method, called exactly once per insertion with the bundle's locale, whether it comes from an argument, a term's argument or a function; it keeps its class and identity on the way, arriving unchanged as argument of custom functions, and its text is inserted like any other placeable. As a selector it matches by its numeric value or, if it has none, not at all; a format method that raises gives one entry in the error list and a visible fallback.",
  ["inputs", "programs", "fault_sequences"], "for every class, place of use, and behaviour of the format method", "Tests define a single type derived from FluentType.",
  [RT+"resolver.py", RT+"utils.py", RT+"types.py"], [("formatting of Fluent types", RT+"resolver.py resolve"), ("conversion of arguments", RT+"utils.py native_to_fluent"), ("locale passed", RT+"bundle.py _babel_locale")], ["FluentBundle.format_pattern", "calls received by instrumented types"])
p("C35", "What a bundle formats is determined by the syntax tree alone",
  "Texts, errors and the set of messages of a bundle depend only on the meaning of the resources added: not on source positions, comments, layout, line ends or junk, nor on whether the tree was parsed, built from constructors, read from JSON, cloned or serialized and parsed again; not on how entries with distinct names are ordered or spread over resources, nor on adding the same resource twice.",
  ["inputs", "configurations"], "for every resource and every way of obtaining and adding its tree", "Every runtime test adds resources freshly parsed from text.",
  [RT+"prepare.py", RT+"bundle.py", RT+"resolver.py", "fluent.syntax/fluent/syntax/ast.py"], [("tree compilation", RT+"prepare.py Compiler"), ("adding resources", RT+"bundle.py add_resource")], ["FluentBundle.add_resource", "FluentBundle.format_pattern"])
p("C36", "Parsers, serializers and highlighters keep nothing from call to call",
  "One parser, serializer or highlighter object, and the module's parse and serialize functions, may be used for any sequence of calls, also from several threads at once: every call gives the result a fresh object gives, also after calls that raised, highlighting that was abandoned half way, or changes the caller made to earlier results; no two results share anything, and trees passed in are not changed.",
  ["histories", "schedules"], "for every sequence and interleaving of calls on shared objects", "Tests make one call per object, or a few on unrelated texts, in one thread.",
  ["fluent.syntax/fluent/syntax/parser.py", "fluent.syntax/fluent/syntax/serializer.py", "fluent.syntax/fluent/syntax/__init__.py", "fluent.pygments/fluent/pygments/lexer.py"], [("parser state", "fluent.syntax/fluent/syntax/parser.py FluentParser"), ("serializer state", "fluent.syntax/fluent/syntax/serializer.py FluentSerializer"), ("lexer state", "fluent.pygments/fluent/pygments/lexer.py FluentLexer")], ["FluentParser.parse", "FluentSerializer.serialize", "FluentLexer.get_tokens"])
p("C37", "The parser stream is a faithful cursor over the text",
  "FluentParserStream moves over any text one character at a time, a CRLF being one line end, lone CR and everything else itself: moving, peeking, resetting the peek and skipping to it visit exactly the text's characters up to its end and no further. Tests for what comes next never move the position; taking, skipping and expecting consume exactly the characters they name, a failed one consumes nothing and reports what was expected, and skipping to the next entry stops at the first later line that can start one.",
  ["inputs", "histories"], "for every text and every sequence of operations", "Tests make some twenty short sequences on three-letter texts.",
  ["fluent.syntax/fluent/syntax/stream.py"], [("cursor", "fluent.syntax/fluent/syntax/stream.py ParserStream"), ("Fluent's runs and tests", "fluent.syntax/fluent/syntax/stream.py FluentParserStream")], ["FluentParserStream methods, index, current_char, current_peek"])
p("C38", "Results are the same in every process",
  "What parsing, serializing, visiting, highlighting, loading and formatting give depends on their arguments alone: not on the hash seed, optimisation level, warnings filter or other interpreter settings, the environment's locale, encoding, time zone or folder, the application's decimal context, which of the packages' modules was imported first, the thread, the garbage collector, nor on what was processed before and in which order.",
  ["configurations", "schedules", "inputs"], "for every process configuration, order of work and input", "Tests run in one process with one configuration.",
  [RT+"resolver.py", RT+"types.py", RT+"fallback.py", "fluent.syntax/fluent/syntax/parser.py", "fluent.syntax/fluent/syntax/serializer.py", "fluent.pygments/fluent/pygments/lexer.py"],
  [("number formatting", RT+"types.py FluentNumber"), ("plural rules", RT+"resolver.py match"), ("file decoding", RT+"fallback.py FluentResourceLoader")], ["results of the public functions in child processes"])
p("C39", "Calls have no effect but their result, and keep nothing alive",
  "Parsing, serializing, visiting, highlighting, wrapping, formatting and localizing, also when they fail, print nothing, touch no file but those the loader reads, which it closes, start no process, thread or connection, and leave the process's settings as they were. What is passed to a call, and what it returns or raises, is kept alive only by its owner, even while the parser, serializer, highlighter, bundle or localization used lives on; calling on and on with new data does not take more and more memory.",
  ["histories", "inputs"], "for every sequence of calls, valid or failing", "Tests look at results only.",
  [RT+"bundle.py", RT+"resolver.py", RT+"types.py", RT+"fallback.py", "fluent.syntax/fluent/syntax/parser.py", "fluent.syntax/fluent/syntax/serializer.py", "fluent.syntax/fluent/syntax/visitor.py", "fluent.pygments/fluent/pygments/lexer.py"],
  [("state of a bundle", RT+"bundle.py FluentBundle"), ("formatting environment", RT+"resolver.py ResolverEnvironment"), ("file reading", RT+"fallback.py FluentResourceLoader.resources")],
  ["audit events", "weak references", "process state", "allocated memory blocks"])
p("C40", "Costs stay in proportion to the input",
  "The time, steps and memory that parsing, serializing, cloning, comparing, converting to and from JSON, visiting, transforming and highlighting take, and adding a resource to a bundle, looking up and formatting its messages, grow at most in proportion to the length of the text or the size of the tree, whatever its shape: thousands of entries, attributes, variants, arguments, lines, placeables or errors; and with the depth of nesting at most as its square. Looking up or formatting one message costs no more for what else the bundle or localization holds or has done, and falling back costs no more than the bundles passed over.",
  ["inputs"], "for every shape of input, in growing sizes", "Tests use inputs of a few lines, on which nothing is slow.",
  [RT+"bundle.py", RT+"resolver.py", RT+"prepare.py", RT+"fallback.py", "fluent.syntax/fluent/syntax/ast.py", "fluent.syntax/fluent/syntax/parser.py", "fluent.syntax/fluent/syntax/serializer.py", "fluent.syntax/fluent/syntax/visitor.py", "fluent.pygments/fluent/pygments/lexer.py"],
  [("messages and compiled messages", RT+"bundle.py FluentBundle"), ("bundles loaded", RT+"fallback.py FluentLocalization._bundles"), ("position in the text", "fluent.syntax/fluent/syntax/stream.py")],
  ["control-flow steps", "processor time", "traced memory"])
p("C41", "Documented extension points take effect",
  "What an application overrides or adds where the documentation invites it is used throughout. A localization whose class finds its bundles itself formats with exactly those, in their order and no further than needed, afresh at every request and without a loader; one whose class creates the bundles, or that is given a bundle class of its own, uses that class's lookup, storing and formatting; a disk loader with its own rule for paths reads exactly the files that rule names. Visitors and transformers find handlers by the name of a node's class, inherited ones too, do not descend where an overridden generic_visit does not, and handle node classes of the application like the library's, as do cloning, comparison and conversion to JSON, whose function is applied to every node once.",
  ["inputs", "histories"], "for every override, set of resources, tree and sequence of requests", "Tests have hardly any subclass of the library's classes.",
  [RT+"fallback.py", RT+"bundle.py", "fluent.syntax/fluent/syntax/visitor.py", "fluent.syntax/fluent/syntax/ast.py"],
  [("bundles in use", RT+"fallback.py FluentLocalization._bundles, _create_bundle"), ("paths", RT+"fallback.py FluentResourceLoader.localize_path"), ("handlers", "fluent.syntax/fluent/syntax/visitor.py Visitor.visit"), ("fields of nodes", "fluent.syntax/fluent/syntax/ast.py BaseNode")],
  ["format_value results", "calls of overridden methods", "visited nodes", "clones, comparisons and JSON data"])
p("C42", "Application code called by the library may use the library",
  "Code of the application that the library calls while it works - custom functions, format methods and comparisons of argument types, loaders, bundle classes, visitor and transformer handlers, conversion functions - may itself call the library, including the bundle, localization, message, visitor or transformer being worked on, to any depth: the inner call gives what it gives when made alone, and the outer one what it gives without the inner. Errors go to the list of the call they belong to, cycles and limits are counted for each call alone, every bundle is still loaded once and in order, and what an inner call adds to a bundle is there from then on.",
  ["inputs", "histories"], "for every message, tree, calling back code and depth of calls within calls", "Tests' functions and handlers never call back.",
  [RT+"bundle.py", RT+"resolver.py", RT+"fallback.py", "fluent.syntax/fluent/syntax/visitor.py", "fluent.syntax/fluent/syntax/ast.py"],
  [("state of one call", RT+"resolver.py ResolverEnvironment"), ("calls of functions", RT+"resolver.py FunctionReference"), ("bundles of a localization", RT+"fallback.py FluentLocalization._bundles"), ("handlers", "fluent.syntax/fluent/syntax/visitor.py Visitor.visit")],
  ["texts and errors of outer and inner calls", "loads", "visited nodes, transformed trees and JSON data", "tokens"])
p("C43", "Interrupted calls leave nothing half done",
  "A call that ends early - by an exception the application's functions, loaders, bundle classes or handlers raise, a file that cannot be read, lack of memory, or an interruption such as KeyboardInterrupt or a timeout that arrives while the library works (and that it passes on) - leaves what it worked on usable: bundles, localizations, parsers, serializers, visitors and lexers then give, in every thread, what they would have given had the call not been made, trees (but one being transformed) and arguments are unchanged, and no lock is held or setting of the process left changed. add_resource leaves each entry as it was or as added, and adding again completes it; a localization loads what it could not load at the next request that needs it, or fails again.",
  ["fault_sequences", "crash_points", "histories"], "for every call, point of interruption, exception and sequence of later calls", "Tests never interrupt a call, and hardly use an object again after one failed.",
  [RT+"bundle.py", RT+"resolver.py", RT+"fallback.py", "fluent.syntax/fluent/syntax/parser.py", "fluent.syntax/fluent/syntax/serializer.py", "fluent.syntax/fluent/syntax/visitor.py", "fluent.pygments/fluent/pygments/lexer.py"],
  [("state of one call", RT+"resolver.py ResolverEnvironment"), ("adding entries", RT+"bundle.py add_resource"), ("loading on demand", RT+"fallback.py FluentLocalization._bundles"), ("parser, serializer and lexer objects", "fluent.syntax/fluent/syntax/parser.py FluentParser")],
  ["results of later calls on the same objects", "trees and arguments", "process settings", "threads that wait"])
os.chdir(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
with open("properties.jsonl", "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))

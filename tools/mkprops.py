#!/usr/bin/env python3
"""Writes properties.jsonl (the property texts live here so that they can be edited comfortably)."""
import json, os
P = []
def p(id, title, statement, over, q, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=q),
             why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if observe: d["anchors"]["observe_at"] = observe
    if hook: d["anchors"]["hook_needed"] = hook
    P.append(d)

p("C01", "Whitespace requests render to canonical layout",
  "Rendering a token stream puts every literal in the output verbatim and in order, separated exactly as requested: adjacent spaces collapse to one, push gives exactly one line break and never two, line gives exactly one blank line, and neither has an effect at the start of the output. The first text on a line is preceded by (current indentation depth) x (configured width) of the configured indentation character and no line carries trailing whitespace; indentation never goes below zero. Whitespace requested through any API (builder methods, raw items, append of literals, Display values) is equivalent.",
  ["histories", "configurations"],
  "every sequence of stream-building operations (literals incl. empty ones, space, push, line, indent, unindent, arbitrary indentation deltas, registrations, items that render to nothing, quoted regions) and every indentation/newline configuration",
  "Unit tests sample a few dozen streams; interactions between pending whitespace, empty tokens and indentation only appear in specific three- to five-step sequences.",
  ["src/fmt/formatter.rs", "src/tokens/tokens.rs"],
  [("pending whitespace state machine", "src/fmt/formatter.rs Formatter::{space,push,line,indentation,flush_whitespace}"),
   ("stream side normalisation", "src/tokens/tokens.rs Tokens::{space,push,line,indentation}")],
  ["Tokens::to_string", "Tokens::format_file", "Tokens::to_file_vec"])
p("C02", "Token streams are stored in a normal form",
  "A stream stores the whitespace requested of it in one normal form: repeated spaces are one; a push absorbs the spaces and pushes just before it and is itself absorbed by an empty line just before it; an empty line absorbs the pushes and empty lines just before it; an indentation change absorbs all whitespace just before it, and adjacent indentation changes are one change by their sum, or none if that is zero. So no stream holds an indentation change of zero or two adjacent whitespace requests of the same kind. The same requests made through another API (methods, raw items, static or owned text, one change by n or n changes by one) give equal streams, and re-adding the items of a stream one by one, or extending with them, reproduces an equal stream.",
  ["histories"], "every sequence of stream-building operations up to the depth bound",
  "Equality of streams is what the test-suite itself relies on (assert_eq on token lists); it samples single constructions, never the equivalence of two histories.",
  ["src/tokens/tokens.rs", "src/tokens/item.rs"],
  [("merging push/line/space/indentation", "src/tokens/tokens.rs Tokens::{item,space,push,line,indentation}")],
  ["PartialEq for Tokens", "Tokens::iter"])
p("C03", "Streams compose without losing or inventing layout",
  "Appending one stream to another (by append, interpolation into a stream, extend, collecting from an iterator, by value, by reference, through an optional or shared wrapper) renders the same as performing the operations of both in sequence on one stream. Formatting one stream after another with one formatter continues the layout in the same way. No item is lost, duplicated or reordered, whatever size the iterator claims to have, and iterating over a stream gives its items with a size hint that holds.",
  ["histories"], "every pair of build histories up to the bound, composed in every supported way",
  "Tests compose hand-picked streams; boundary effects depend on the pair of trailing and leading whitespace on both sides.",
  ["src/tokens/tokens.rs", "src/tokens/format_into.rs", "src/tokens/tokens.rs Extend/FromIterator"],
  [("extend/append", "src/tokens/tokens.rs Tokens::{append,extend}, FromIterator, Extend")])
p("C04", "Imports of a stream are all of its references, including nested ones",
  "Walking the imports of a stream visits every reference which was appended or registered, including those inside nested, optional, iterated and interpolated content, and nothing else. Registering a reference makes it visible to the walk without rendering anything; appending it does both.",
  ["histories"], "every stream-building history over references, registrations and nested content up to the bound",
  "Header generation depends on this walk; tests only look at a handful of flat streams.",
  ["src/tokens/tokens.rs", "src/tokens/register.rs", "src/tokens/mod.rs"],
  [("walk_imports", "src/tokens/tokens.rs WalkImports"), ("register", "src/tokens/register.rs")],
  ["Tokens::walk_imports"])
p("C05", "Every reference in a generated file is bound to the symbol it names",
  "For every language with imports, the name rendered in the body for an imported reference resolves, under that language's binding rules applied to the generated header, to exactly the module and symbol that the reference was created with, whatever modifiers (alias, qualified, default, wildcard, package or module import) were applied to it. Two references to different symbols never end up bound to the same one, and no header binds a name twice where the language forbids it (Rust, JavaScript, Go). In a fragment, which is rendered without a header, a reference has the form that was requested for it: Java names its package (other than java.lang), as nothing is imported.",
  ["inputs", "histories", "configurations"],
  "every combination of up to k references drawn from a pool of modules x names x modifiers, for every language and file configuration",
  "Each language has a couple of example tests; collisions only appear for particular sets of references, in particular orders.",
  ["src/lang/rust.rs", "src/lang/java/mod.rs", "src/lang/csharp/mod.rs", "src/lang/dart/mod.rs", "src/lang/go.rs", "src/lang/js.rs", "src/lang/python.rs", "src/lang/swift.rs", "src/lang/c.rs", "src/lang/nix.rs"],
  [("header generation", "src/lang/*.rs imports()"), ("reference rendering", "src/lang/*.rs LangItem::format / write_direct / write_prefixed")],
  ["Tokens::format_file", "Tokens::to_file_string"])
p("C06", "Import headers are canonical: deduplicated, sorted, order-independent",
  "The generated import section contains each needed import exactly once, contains nothing that no reference needs, is in sorted order, and does not depend on the order or the number of times in which references occur in the body.",
  ["inputs", "histories"],
  "every multiset of up to k references from the pool and every order of occurrence, for every language",
  "Tests fix one order per language; the quantifier is over all permutations and repetitions.",
  ["src/lang/rust.rs", "src/lang/java/mod.rs", "src/lang/csharp/mod.rs", "src/lang/dart/mod.rs", "src/lang/go.rs", "src/lang/js.rs", "src/lang/python.rs", "src/lang/swift.rs", "src/lang/c.rs", "src/lang/nix.rs"],
  [("BTree grouping of imports", "src/lang/*.rs imports()")],
  ["Tokens::format_file"])
p("C07", "Conflicting short names are qualified, others are not (Java, C#)",
  "In Java and C# a reference renders by its short name exactly when that short name is bound to it in the file; when another symbol of the same name is imported, or comes from the file's own package or namespace (which always wins), it renders fully qualified. Which one wins does not affect any other reference.",
  ["inputs", "histories", "configurations"],
  "every set of up to k references with colliding names over several packages, including the implicit package and the file's own, in every order and file configuration",
  "One test per language has a single conflict between two explicit packages.",
  ["src/lang/java/mod.rs", "src/lang/csharp/mod.rs"],
  [("imported name table", "src/lang/java/mod.rs imports(), LangItem::format"), ("imported_names", "src/lang/csharp/mod.rs")],
  ["Tokens::to_file_string"])
p("C08", "Files are assembled as preamble, blank line, body, one newline",
  "Rendering a file emits the language's preamble (package clause, imports, namespace) when there is one, separated from the body by exactly one blank line, then the body laid out as without the preamble, and ends in exactly one line break. Body layout, indentation and newline configuration apply equally to the preamble.",
  ["histories", "configurations", "inputs"],
  "every body history up to the bound x every language x presence/absence of imports x file configuration x formatting configuration",
  "Tests use one body per language with default formatting.",
  ["src/lang/*.rs", "src/tokens/tokens.rs", "src/fmt/formatter.rs"],
  [("format_file", "src/lang/*.rs Lang::format_file"), ("trailing newline", "src/fmt/formatter.rs Formatter::write_trailing_line / Tokens::format_file")],
  ["Tokens::format_file", "Tokens::to_file_string", "Tokens::to_file_vec"])
p("C09", "Quoted strings denote exactly the given text in the target language",
  "For every language, a quoted piece of text renders to a string literal which the target language reads back as exactly that text, for every Unicode scalar value and every combination of neighbouring characters, and regardless of how the text was split over several literals inside the quotation.",
  ["inputs", "histories"],
  "every Unicode scalar value (in isolation and before every class of following character), every string up to length 3-4 over the alphabet of characters special to any target language, every split of it into pieces, for every language",
  "Tests pin one string per language; escapes interact with the following character (octal, variable-length hex, interpolation sigils).",
  ["src/lang/mod.rs", "src/lang/rust.rs", "src/lang/js.rs", "src/lang/dart/mod.rs", "src/lang/java/mod.rs", "src/lang/csharp/mod.rs", "src/lang/c.rs", "src/lang/go.rs", "src/lang/python.rs", "src/lang/swift.rs", "src/lang/nix.rs"],
  [("write_quoted per language", "src/lang/*.rs Lang::write_quoted"), ("c_family_write_quoted", "src/lang/mod.rs"), ("quoted writer", "src/fmt/formatter.rs write_str with quotes")],
  ["Tokens::to_string", "quoted()"])
p("C10", "Interpolated strings keep literal text literal and expressions live",
  "In languages with string interpolation, a quotation containing literal text, variables and expressions renders to one string literal whose literal parts are read back as exactly the given text and whose interpolations are exactly the given expressions, independent of what follows or precedes each of them.",
  ["inputs", "histories"],
  "every sequence up to the bound of literal pieces over the tricky alphabet, identifiers and expression groups, for every language with interpolation",
  "Tests pin two or three mixed strings; text that looks like interpolation syntax next to a real one is what breaks.",
  ["src/lang/dart/mod.rs", "src/lang/js.rs", "src/fmt/formatter.rs", "src/tokens/tokens.rs"],
  [("string_eval_literal / start_string_eval", "src/lang/dart/mod.rs, src/lang/js.rs"), ("eval handling", "src/tokens/tokens.rs Tokens::format")],
  ["Tokens::to_string"])
p("C11", "A quotation inside a quotation is escaped at both levels",
  "A quoted string nested in another quotation renders so that reading the outer literal yields the text of a complete inner literal, which itself reads back as the inner text.",
  ["inputs", "histories"],
  "every pair of outer and inner text over the tricky alphabet up to the bound, for every language",
  "One test nests one string in one language.",
  ["src/tokens/tokens.rs", "src/fmt/formatter.rs"],
  [("nested quotes", "src/tokens/tokens.rs Tokens::format Item::OpenQuote inside quotes")],
  ["Tokens::to_string"])
p("C12", "Well-nested streams format fully, stray string delimiters are errors",
  "Formatting invokes the language's string callbacks in properly nested order, exactly once per delimiter, with the caller's configuration and format; every interpolation is rendered through the short or the long form consistently. A stream with a stray or unbalanced closing delimiter yields an error instead of output that silently drops it, and formatting never panics.",
  ["histories"], "every sequence over text, quotes, interpolation delimiters, whitespace and references up to the bound",
  "No test builds a malformed stream, and the valid ones are a handful.",
  ["src/tokens/tokens.rs", "src/lang/mod.rs"],
  [("format loop", "src/tokens/tokens.rs Tokens::format")],
  ["Tokens::format", "Lang callbacks"])
p("C13", "All writers and entry points produce the same text",
  "Rendering the same stream through any entry point (string, file string, vector of lines, writer over a fmt::Write, writer over an io::Write) gives the same text: lines are the split of the text at the configured newline, with nothing lost at either end. The configured newline sequence and indentation are used for every line, and rendering is repeatable: it does not modify the stream or carry state over to the next rendering, even into the same writer.",
  ["histories", "configurations"],
  "every build history up to the bound x every indentation and newline configuration x every writer",
  "Tests compare one entry point at a time with one configuration.",
  ["src/fmt/fmt_writer.rs", "src/fmt/io_writer.rs", "src/fmt/vec_writer.rs", "src/fmt/config.rs", "src/tokens/tokens.rs"],
  [("writers", "src/fmt/*_writer.rs Write::{write_line,write_trailing_line}"), ("config", "src/fmt/config.rs")],
  ["to_string", "to_vec", "to_file_vec", "format_file"])
p("C14", "A failing sink surfaces as an error after a faithful prefix",
  "If the underlying writer fails at any point, formatting returns an error (never a panic and never success), everything accepted before the failure is a prefix of the fault-free output, and nothing is written after the failure. Short writes and interruptions of an io writer do not change the output.",
  ["fault_sequences", "histories"],
  "every position of a failure, short write or interruption in the sequence of write calls of every build history up to the bound, for every writer",
  "No test uses a failing writer.",
  ["src/fmt/io_writer.rs", "src/fmt/fmt_writer.rs", "src/fmt/formatter.rs", "src/tokens/tokens.rs"],
  [("error propagation", "src/fmt/formatter.rs, src/fmt/io_writer.rs")],
  ["Tokens::format_file result", "bytes accepted by the sink"])
p("C15", "quote! reproduces the layout of the template",
  "A template renders with the layout it has in the source: tokens next to each other stay adjacent, any horizontal gap becomes one space, a new row becomes one line break, one or more blank rows become one blank line, and rows indented deeper or shallower than their neighbours are indented by one level per distinct source column. Absolute position in the source file, the amount of source whitespace and what it is made of (comments included) do not matter, and this holds around interpolations, groups and control flow.",
  ["programs", "inputs"],
  "every template up to the bound over tokens, groups, interpolations and statements x every gap between them (none, space, row, blank rows, deeper and shallower columns)",
  "Tests have a few dozen templates; gaps interact pairwise with the kind of item on either side.",
  ["genco-macros/src/quote.rs", "genco-macros/src/encoder.rs", "genco-macros/src/cursor.rs"],
  [("whitespace detection", "genco-macros/src/encoder.rs step/tokenize_whitespace"), ("parsing", "genco-macros/src/quote.rs")],
  ["quote!, quote_in!"])
p("C16", "Inconsistent template indentation is rejected, consistent is balanced",
  "A template in which a row is shallower than the one before it and starts at no enclosing level's column (shallower than the first row included) is rejected at compile time with an error; every accepted template leaves the indentation level at its end where it was at its start, so that what follows it is laid out as if it were not there.",
  ["programs"],
  "every sequence of row columns up to the bound, with and without interpolations and control flow at each row",
  "A single compile-fail example exists in the documentation.",
  ["genco-macros/src/encoder.rs", "genco-macros/src/static_buffer.rs"],
  [("indentation stack", "genco-macros/src/encoder.rs indents/deindent")],
  ["compile error", "rendered text"])
p("C17", "Template control flow behaves like the Rust statement it mirrors",
  "Loops, joins, conditionals, matches, let bindings, scopes and inline expressions in a template render the text of exactly the bodies that the equivalent Rust control flow would execute, in that order, each expression evaluated exactly once and when Rust would evaluate it; a template which is left early (`?`, return, break, continue) has written exactly what came before, and one suspended by an await continues where it was; a join puts its separator, with its whitespace as written, between consecutive bodies only. Layout inside a body is that of the body on its own, and what precedes and follows is separated as written, independent of how many times the body runs.",
  ["programs", "inputs"],
  "every template up to the nesting bound over for/join/if/if let/else/match/guard/let/ref/inline statements x iteration counts and branch outcomes",
  "Tests cover each statement once or twice with fixed data.",
  ["genco-macros/src/ast.rs", "genco-macros/src/quote.rs", "genco-macros/src/encoder.rs"],
  [("control flow encoding", "genco-macros/src/encoder.rs encode_{repeat,condition,match,assign,scope}")],
  ["quote!"])
p("C18", "quote!, quote_in! and quote_fn! agree",
  "The same template gives the same rendering whether it is quoted into a new stream, into an existing stream, through a closure or scope, or interpolated as a formatter; the target is evaluated once, even if it's an expression; quoting into an existing stream continues it exactly as appending the quoted stream would, and it leaves earlier content untouched.",
  ["programs", "histories"],
  "every template up to the bound x every prior content of the target stream x every entry point",
  "Tests use one entry point per template.",
  ["genco-macros/src/lib.rs", "genco-macros/src/quote_in.rs", "genco-macros/src/quote_fn.rs", "src/tokens/from_fn.rs"],
  [("entry points", "genco-macros/src/{lib,quote_in,quote_fn}.rs"), ("closures", "src/tokens/from_fn.rs")],
  ["quote!, quote_in!, quote_fn!"])
p("C19", "Template strings keep their content, spacing and interpolations",
  "A string section of a template renders one string literal in the target language whose content is the section's text with its whitespace as written (leading and trailing included, inside of groups too), escapes resolved, and interpolations inserted at their place, both those the language evaluates and constant ones. Two strings are rejected at compile time instead: one whose content spans rows of the source, and one which the language would have to evaluate in a language without string interpolation.",
  ["programs"],
  "every string section up to the bound over words, escaped characters, gaps, variables and expressions, in both forms",
  "Tests pin a few strings.",
  ["genco-macros/src/string_parser.rs", "genco-macros/src/quote.rs"],
  [("string parsing", "genco-macros/src/string_parser.rs")],
  ["quote! with string sections"])
p("C20", "Interpolated values render their exact text",
  "Interpolating a value renders exactly its textual form: integers of every width as decimal text, strings verbatim, optional values as their content or nothing, shared, borrowed and boxed values as the value itself, format arguments and displayed values as formatted, quoted values as a string literal, and static literals as themselves.",
  ["inputs"],
  "all boundary and all 8/16-bit integers, boundary neighbourhoods of wider ones, all strings over the alphabet up to the bound through every wrapper",
  "Tests interpolate a couple of literals.",
  ["src/tokens/format_into.rs", "src/tokens/quoted.rs", "src/tokens/display.rs", "src/tokens/item_str.rs", "src/tokens/static_literal.rs"],
  [("FormatInto impls", "src/tokens/format_into.rs"), ("ItemStr", "src/tokens/item_str.rs")],
  ["Tokens::append", "quote! interpolation"])
p("C21", "Comment helpers emit only comment lines",
  "The documentation-comment helpers render each given line (a text without line breaks or comment terminator) as one line of the language's comment syntax, keep its text, render nothing for an empty list, and never let text escape the comment, at any indentation.",
  ["inputs", "configurations"],
  "every list up to length 3 of lines over a small alphabet (including empty lines) at every indentation depth, for every language with a helper",
  "Tests use one two-line comment each.",
  ["src/lang/csharp/block_comment.rs", "src/lang/dart/doc_comment.rs", "src/lang/java/block_comment.rs"],
  [("comment helpers", "src/lang/{csharp,java}/block_comment.rs, src/lang/dart/doc_comment.rs")],
  ["Tokens::to_string"])
p("C22", "Template tokens render their source text",
  "Every Rust token outside of the template syntax (identifiers, raw identifiers, keywords, lifetimes, numbers, characters, strings, byte strings, raw strings, every operator, groups in all delimiters, escaped sigils) renders as its source text, with joint punctuation kept together and separate punctuation kept apart, for every neighbour.",
  ["programs", "inputs"],
  "every pair of tokens from the token pool x adjacent or separated, in every group delimiter",
  "Tests cover the tokens which happen to be used.",
  ["genco-macros/src/encoder.rs", "genco-macros/src/quote.rs", "genco-macros/src/static_buffer.rs"],
  [("literal encoding", "genco-macros/src/encoder.rs encode_literal/encode_string")],
  ["quote!"])
p("C23", "Custom languages get every configured callback and item dispatch",
  "A language defined through the public definition macro or trait dispatches each import to its own formatting, gets exactly the configuration and format value it was rendered with, and distinguishes and orders its imports by value; imports of different kinds never compare equal.",
  ["programs", "histories", "configurations"],
  "every sequence of up to k imports of each kind of a custom language x configurations",
  "The test-suite defines one custom language with one import.",
  ["src/lang/mod.rs", "src/macros.rs", "src/tokens/item.rs"],
  [("impl_lang!", "src/macros.rs"), ("LangItem dispatch", "src/lang/mod.rs")],
  ["Tokens::format_file", "Tokens::walk_imports"])
p("C24", "On a stable compiler templates keep everything but their rows",
  "Built with a stable compiler, where rows are documented not to be detected, templates work as on a nightly one with every change of row taken as a space: tokens next to each other stay adjacent, a gap of any kind becomes one space, no template is rejected for its indentation, the indentation level never changes, and interpolations, strings and control flow mean the same.",
  ["programs", "inputs"],
  "every template of the spaces of C15, C17 and C19 (thorough: C16, C18 and C22 too), compiled by a stable compiler",
  "The test suite runs on one compiler; columns are recovered there from the printed form of a span.",
  ["genco-macros/src/fake.rs", "genco-macros/src/cursor.rs", "genco-macros/src/encoder.rs", "README.md"],
  [("line and column recovery", "genco-macros/src/fake.rs find_line_column"), ("gap detection", "genco-macros/src/encoder.rs tokenize_whitespace")],
  ["quote!, quote_in!, quote_fn! under a stable rustc"])
p("C25", "Streams, items, texts and imports compare by content",
  "Two token streams (or items, texts, imports) are equal exactly when they have the same content, no matter how they came to be: from static or owned text, by methods, raw items, conversion, clone or collection. Equal values have equal hashes; the order is total and consistent with equality, and that of texts is the order of strings. A stream compares equal to a list of items, from either side, exactly when these are its items.",
  ["inputs", "histories"],
  "all pairs of streams up to a length over every kind of item, of imports of every language in every form, and of texts through every conversion",
  "Every test of templates relies on equality of streams; no test compares values which differ in one respect only, or looks at order and hash.",
  ["src/tokens/item_str.rs", "src/tokens/item.rs", "src/tokens/tokens.rs", "src/lang/*.rs"],
  [("text comparison", "src/tokens/item_str.rs"), ("stream comparison", "src/tokens/tokens.rs PartialEq for Tokens/Vec/slices"), ("imports", "src/lang/*.rs Import")],
  ["==, cmp, Hash, Clone of Tokens, Item, ItemStr and imports"])
p("C26", "What is not a template does not compile",
  "No part of a template is dropped silently: a statement which is incomplete or misspelt, anything left over after a complete one, an unknown function or control, a function without its argument or with a superfluous one, an unknown variable or an invocation without a proper target is a compile error, wherever in a template it stands and whichever macro it is given to; the macros themselves do not panic. The wording of the error is not specified.",
  ["programs"],
  "every malformed piece of a pool (every statement cut short or followed by every kind of token, every function name and argument form) x every place in a template x every macro",
  "The suite has no test of rejected templates.",
  ["genco-macros/src/quote.rs", "genco-macros/src/string_parser.rs", "genco-macros/src/ast.rs", "genco-macros/src/quote_in.rs"],
  [("statement parsers", "genco-macros/src/quote.rs parse_{condition,loop,match,let,scope,expression}"), ("functions", "genco-macros/src/quote.rs parse_internal_function, string_parser.rs parse_inner")],
  ["quote!, quote_in!, quote_fn!"])
p("C27", "A template means the same whatever the names around it",
  "What a template produces does not depend on how the things around it are called: a variable, binding, function, closure, macro, module, type or trait whose name does not start with an underscore can be used in every part of a template (interpolations, iterated expressions, bodies, separators, conditions, scrutinees, guards, arms, scopes, strings, nested templates) and means there what it means outside; the stream written to can have any such name; a name bound in a template hides the one outside in the rest of its block and never after the template.",
  ["programs"],
  "every name of a pool (common ones and every identifier in the sources of the macros) x every kind of thing so called x every part of a template, through each of the three macros",
  "A binding of the expansion which captures a variable of the user shows up for one name out of all; tests use a handful of names.",
  ["genco-macros/src/encoder.rs", "genco-macros/src/lib.rs", "genco-macros/src/quote_in.rs", "genco-macros/src/quote_fn.rs"],
  [("bindings of the expansion", "genco-macros/src/encoder.rs encode_*, genco-macros/src/lib.rs Ctxt"), ("scope of the template", "genco-macros/src/lib.rs quote, genco-macros/src/quote_in.rs")],
  ["quote!, quote_in!, quote_fn!"])
p("C28", "Renderings do not influence each other",
  "What building and rendering a stream comes to depends on the stream and its configuration alone: not on what has been rendered before (completely, with an error, or abandoned by a panic), not on other renderings which take place in the middle of it on the same thread (in a call of the sink, a callback of a custom language, an item, an iterator or a Display), and not on renderings on other threads. An error or panic in user code is handed on to the caller, and the same stream can be rendered again.",
  ["histories", "schedules", "fault_sequences"],
  "every point at which user code runs during a rendering x every other rendering, error or panic there, and every schedule of two threads up to a bound on changes",
  "Tests render streams one after another, from sinks which do nothing but keep the text.",
  ["src/fmt/formatter.rs", "src/fmt/*_writer.rs", "src/lang/*", "src/tokens/*"],
  [("rendering", "src/fmt/formatter.rs"), ("file assembly", "src/lang/*/format_file"), ("values", "src/tokens/display.rs, src/tokens/from_fn.rs, src/tokens/tokens.rs")],
  ["Tokens::format, format_file, to_string, walk_imports, append"])
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(root, "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")

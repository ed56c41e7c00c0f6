#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run to regenerate)."""
import json, os
S = "crates/seam/src/"
L, P, T, X, M = S+"parse/lexer.rs", S+"parse/parser.rs", S+"parse/tokens.rs", S+"parse/expander.rs", S+"parse/macros.rs"
H, XM, CS, TX, SX, AM = S+"assemble/html.rs", S+"assemble/xml.rs", S+"assemble/css.rs", S+"assemble/text.rs", S+"assemble/sexp.rs", S+"assemble/mod.rs"
BIN, LIB, PM = S+"bin.rs", S+"lib.rs", "crates/seam_argparse_proc_macro/src/lib.rs"
props = []
def prop(id, title, statement, over, qtext, why, files, mech, observe):
    assert len(title) <= 80, (id, len(title))
    props.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))

LIBOBS = ["seam::tree_builder(..).expand()", "seam::assemble::*Formatter::{display,document}"]

prop("C01", "Source text is read as exactly the tree it denotes",
 "For every source text, reading yields exactly the symbols, numbers, strings, keyword attributes and lists it denotes, in order, each with its decoded value and the whitespace written before it (whitespace is space, tab, newline and carriage return; `;` where a token could start begins a comment up to the end of the line; a word starting with a digit, `+` or `-` is a number; a backslash makes the next character of a word literal and is dropped; `\"...\"` and `\"\"\"...\"\"\"` are strings whose escapes are decoded). Text that denotes no tree (unbalanced parentheses, unclosed strings, invalid string escapes, a keyword with no value) is reported as an error, and nothing else is.",
 ["inputs"], "all source texts over the syntactically significant characters (every delimiter, escape, comment, whitespace, sign, multi-byte character), all interleavings of tokens and whitespace",
 "The 6 existing tests read a handful of fixed one-line inputs; they contain no escapes, comments, triple quotes, multi-byte text or malformed input.",
 [L, P], [("Lexer::consume / consume_whitespace / consume_identifier_string / consume_string", L), ("Parser::parse_expr / parse_list / parse_keyword / escape_sanitize / escape_string", P)],
 ["parse::parser::Parser::parse", "seam --sexp"])

prop("C02", "Macro-free source survives expansion; sexp and text output preserve it",
 "For every well-formed source without macro calls, expansion changes nothing: the sexp output is the source with comments removed (together with the whitespace written directly before them), backslash escapes in words resolved and strings re-quoted, and the text output is the same with strings replaced by their decoded contents. Whenever no word needs escaping, reading the sexp output yields the same tree again, including whitespace and including raw-content strings produced by macros.",
 ["inputs"], "all macro-free trees up to a bound with all whitespace layouts, through expand and both formatters",
 "Existing tests only compare a few outputs of specific macros; no test checks preservation of layout, strings with control characters or re-reading.",
 [X, SX, TX, P], [("Expander::expand_node for non-macros", X), ("SExpFormatter::generate_node", SX), ("PlainTextFormatter::generate_node", TX)],
 LIBOBS)

prop("C03", "Every diagnostic and node points at its true place in the source",
 "Every node read from a source, and every reported error, carries the file it came from, the 1-based line on which it starts, its byte position and length, and the source line quoted in the message is that line; the column is one more than the display width of what precedes it on that line. Marks drawn below a quoted line start under that column, and an error about an invalid escape names that escape. This holds across comments, multi-line and escaped tokens, multi-byte characters and included files.",
 ["inputs"], "all layouts of tokens over lines (newlines in whitespace, comments, strings, escapes), all error kinds at all positions, in main and included files",
 "No existing test looks at a position, a line number or an error message.",
 [L, T, P, X, AM], [("Lexer::next_line / increment_byte_offsets / site", L), ("Site::{line_column,line_slice,view,width}", T), ("Display for LexError, ParseError, ExpansionError, GenerationError", AM)],
 ["ParseNode::site()", "error Display text: file:line:column and the quoted line"])

prop("C04", "No input makes the processor panic, abort or loop",
 "For every source text with bounded nesting whose macro expansion is finite, reading, expansion and generation for each target (text, sexp, html, xml, css, fragment or document) terminate and give either output or an error value; they never panic, abort, overflow or loop. The same holds for printing any error they return.",
 ["inputs", "programs"], "all short character strings over the significant alphabet, and all applications of every built-in macro to combinations of every kind of argument, times all targets",
 "Existing tests run six well-formed inputs.",
 [L, P, X, M, H, XM, CS, AM, PM], [("error returns instead of unwrap/index/slice in lexer, parser, expander and formatters", "crates/seam/src")],
 LIBOBS)

prop("C05", "No expansion history reads freed or invalid memory",
 "For every sequence of macro definitions, nested calls, includes, loops, matches, namespaces and data imports, and every way of reusing or cloning the formatters, all memory that is read is still owned and initialised: no use after free, no out-of-bounds access, no double free. In particular, nodes and positions produced inside a finished macro call or include stay valid until the tree is dropped.",
 ["programs", "histories"], "all operation sequences up to a bound over define/call/include/for/match/namespace/yaml/error paths, executed under AddressSanitizer",
 "Tests run without a sanitizer and never include files; the code keeps self-referential storage in vectors behind raw pointers.",
 [X, LIB, H, XM, TX, SX], [("register_parser / latest_parser / create_subcontext ownership", X), ("register_formatter, impl_clone_box!", LIB)],
 ["AddressSanitizer report / output of the instrumented build"])

prop("C06", "Macro arguments bind to parameters as declared",
 "Calling a user macro binds each positional parameter to the positional argument with the same index, a nested list pattern to the elements of a list, `&rest` to the remaining positional arguments in order, `:name default` to the named argument wherever it is written or else to the default, and `&&rest` to the named arguments no parameter names, in the order written. A literal parameter accepts only an equal literal, and missing, excess or unknown arguments are errors.",
 ["inputs", "programs"], "all parameter lists and argument lists up to a bound over positional, nested, literal, rest, named and rest-named shapes, in every order",
 "One existing test binds one three-element nested pattern.",
 [X], [("Expander::bind / bind_list / apply_macro", X)], LIBOBS)

prop("C07", "%match takes the first pattern that fits and nothing else",
 "`%match` expands to the body of the first clause whose pattern fits the value, evaluated with exactly that pattern's bindings, and to nothing when none fits. Failed clauses leave no bindings behind, and nothing bound or defined inside is visible afterwards.",
 ["inputs", "programs"], "all values and clause lists up to a bound over all pattern shapes, with observers of every variable after each clause",
 "No existing test uses %match.",
 [X], [("expand_match_macro: a cloned context per clause", X), ("bind / bind_list", X)], LIBOBS)

prop("C08", "Definitions are visible exactly where their scope says",
 "A variable definition stores its body evaluated at definition and a macro definition its unevaluated body, evaluated at each call in the caller's scope; the latest definition in scope wins; `%ifdef` selects by whether the name is defined and evaluates only the selected branch. Definitions made inside a macro call, loop or match are visible there only, arguments are evaluated once before the call in the caller's scope, and definitions made by included files and ordinary lists remain visible afterwards. `%namespace` makes every definition visible inside it available outside under its prefix and separator, leaves unprefixed names unchanged and passes its content through.",
 ["programs", "histories"], "all sequences of scope operations up to a depth on two names, with every name observed after every step",
 "Existing tests define no variable or macro other than one sort key.",
 [X], [("expand_define_macro, expand_ifdef_macro, expand_namespace_macro, insert_variable, create_subcontext", X)], LIBOBS)

prop("C09", "%sort yields a stable ordered permutation of its list",
 "`%sort` yields the same items, ordered by their `:key` (the item itself by default): numbers by value before all other keys, other keys by character code, items with equal keys in their original order, descending with `:order descending`. The i-th place keeps the whitespace of the i-th place, and the result does not depend on the original order of items with different keys.",
 ["inputs"], "all lists up to a bound over integers, decimals, signed, huge, non-numeric and special keys, all orders and key macros, plus longer structured lists",
 "Two tests sort one list each; a comparison that is not a total order, instability or whitespace mistakes only show on other lists.",
 [X], [("expand_sort_macro", X)], LIBOBS)

prop("C10", "List macros transform exactly the elements they are given",
 "`%reverse` reverses a list; `%map` concatenates the results of applying a macro to each argument in order; `%filter` does so without the results that are `()`; `%splat` replaces each list argument by its elements; `%list` makes a list of its evaluated arguments; `%for` repeats its body for each element in order; `%apply` behaves as the call of its macro with the already evaluated arguments; a `%lambda` called later behaves as a named macro with that parameter list and body; `%do` and `%strip` pass their arguments on. No element is lost, duplicated, reordered or otherwise changed, including its nesting and attributes.",
 ["inputs", "programs"], "all compositions of these macros up to a depth over lists of every element kind, including empty ones",
 "One test reverses one list; the other macros are not tested.",
 [X], [("expand_{reverse,map,filter,splat,list,for,apply,lambda,do,strip}_macro", X)], LIBOBS)

prop("C11", "Literal-building macros produce exactly the text they are given",
 "`%string` and `%raw` concatenate the text of their literal arguments including the whitespace between them; `%concat` concatenates values, `%join` puts the separator between consecutive values (and after the last with `:trailing true`); `%symbol` and `%number` retype each literal and keep its text; `%format` substitutes positional placeholders in order and named placeholders by name with Rust's width, fill and alignment rules; `%os/env` gives the variable's value. Each gives an error, not wrong text, for arguments that are not literals.",
 ["inputs"], "all argument lists up to a bound over every literal kind and whitespace layout, separators (also empty), format templates with all fill/align/width combinations",
 "None of these macros is tested.",
 [X], [("expand_{string,raw,concat,join,symbol,number,format,os_env}_macro", X)], LIBOBS)

prop("C12", "%get follows its path to exactly the addressed element",
 "`%get` with a path of items separated by `/` (or `:separator`) descends from the given list one item at a time: a whole number selects the element at that 0-based index when there is one, anything else (or an index out of range) selects the value of the first attribute with that keyword. It yields exactly that element unchanged, and an error if any step selects nothing or indexes something that is not a list.",
 ["inputs"], "all nested lists and attribute maps up to a bound and all paths over them, including numeric keywords, duplicates and custom separators",
 "%get is not tested.",
 [X], [("expand_get_macro", X)], LIBOBS)

prop("C13", "Built-in macros accept exactly the arguments they declare",
 "Every built-in macro with a declared signature accepts a call if and only if all required arguments are present, each argument has the declared kind (symbol, string, number, literal, list or any), each option is known and has one of its allowed values, and there is no excess argument; options may be written anywhere among the arguments and do not shift positions. A rejected call is an error of the whole expansion and is never executed with defaults.",
 ["inputs"], "every built-in with a signature, all argument lists up to a bound over every node kind, all options with valid and invalid values at every position",
 "Tests only make valid calls of three macros.",
 [M, X, PM], [("ArgParser::new, ArgType::check, ArgPredicate", M), ("arguments! signatures", X)], LIBOBS)

prop("C14", "%date and %timestamp compute and invert calendar time correctly",
 "For every whole number of seconds in the supported range and every timezone offset in (decimal) hours (by default that of the local timezone), `%date` renders the proleptic Gregorian date, time, weekday and day of year of that instant at that offset according to the format. `%timestamp` is its inverse: parsing such a rendering with the same format and timezone gives back the number of seconds, and an offset written in the date string overrides the option; impossible dates, malformed formats and offsets out of range are errors.",
 ["inputs"], "all instants at and around every boundary (days, months, leap years, centuries, epoch, negative), times all offsets in quarter hours and out-of-range ones, times format items",
 "Three tests check a few instants and offsets.",
 [X], [("expand_date_macro, expand_timestamp_macro", X)], LIBOBS)

prop("C15", "YAML and JSON data become exactly the corresponding tree and names",
 "`%yaml` and `%json` expand to the document as nested lists: scalars become strings, mappings lists of attributes in document order, sequences lists in order; and every scalar, mapping and sequence inside is defined under its path of keys and 0-based indices joined with the separator, at any nesting of mappings and sequences. Documents outside this subset (aliases, non-scalar keys, malformed text anywhere in it) are errors.",
 ["inputs"], "all documents up to a depth over scalars, mappings and sequences (flow, block and JSON spelling), with every path name read back",
 "No data import is tested.",
 [X], [("expand_yaml event sink: defining / prefix / parent / mode stacks", X)], LIBOBS)

prop("C16", "TOML data becomes exactly the corresponding tree and names",
 "`%toml` expands to the document as one list of attributes with strings as strings, integers and floats as numbers, booleans and date-times as symbols, arrays and tables as nested lists; and every value inside is defined under its path of keys and 0-based indices joined with the separator, at any nesting. Malformed text is an error.",
 ["inputs"], "all documents up to a depth over all TOML value kinds (inline tables, sections, arrays of tables), with every path name read back",
 "No data import is tested.",
 [X], [("expand_toml Traverser", X)], LIBOBS)

prop("C17", "Markdown is rendered once, unescaped, with front matter split off",
 "`%markdown` yields one raw-content string with the HTML of the text without its front matter, emitted verbatim by the html and xml targets, and defines each front matter entry (YAML between `---` lines, TOML between `+++` lines) as the data import macros do; `:only content` defines nothing, `:only frontmatter` yields nothing and is an error when there is none. Front matter that cannot be read never suppresses the content in the default mode.",
 ["inputs"], "all documents made of a front matter variant and a sequence of markdown blocks, times the options, with every name read back",
 "%markdown is not tested.",
 [X, H, XM], [("expand_markdown_macro", X)], LIBOBS)

prop("C18", "Included and embedded files act as their content at the call site",
 "`%include` of a file gives exactly what its content expands to when written in place of the call (with the whitespace of the call before the first node), its definitions remaining visible, and `%embed` gives the file's exact text as one string. Files are looked up in the working directory first and then in each include directory in the order given, `%include` trying the name and then the name with `.sex` appended in each; a missing or unreadable file, or one that does not parse, is an error.",
 ["inputs", "configurations", "histories"], "all placements of a name (with and without extension) over an ordered set of directories, all directory orders, all small file contents, at the top level and inside macros, loops, namespaces and other included files",
 "No test reads a file.",
 [X, S+"parse/mod.rs", BIN], [("expand_include_macro, expand_embed_macro, add_includes", X)], LIBOBS + ["seam -I"])

prop("C19", "%glob lists exactly the matching paths, in the requested order",
 "`%glob` yields one string for each existing path that matches the pattern and is of the requested type (file, directory or any), each exactly once. With `:sort name` they are in ascending path order, with `:sort type` directories come before files and files are ordered by extension and then path, with `:sort modified` (or `created`) newest first and ties by path, and `:order descending` gives exactly the reverse.",
 ["inputs", "configurations"], "all directory contents over a set of entry kinds (file, directory, extension, dangling link), times patterns, types, sort and order options",
 "%glob is not tested.",
 [X], [("expand_glob_macro, GlobPath ordering", X)], LIBOBS)

prop("C20", "HTML elements are well-formed and mirror the tree",
 "A list headed by a symbol becomes that element: an opening tag with its leading attributes in order, then its children's markup in order, then one matching closing tag (lower case), except that void elements have no closing tag and reject children, and `!` declarations are a single tag of their items. Whitespace before each node is kept, except that the first child loses it unless it contains a newline, and the closing tag gets the whitespace written before the closing parenthesis (or, if there is none and the first child is on a new line, that of the opening one); empty lists, non-symbol tags, attributes after other children and list-valued attributes are errors.",
 ["inputs"], "all trees up to a depth over all void elements (any letter case) and ordinary elements, attributes, declarations, child kinds and whitespace layouts",
 "No existing test generates HTML.",
 [H], [("HTMLFormatter::generate_html_node, VOID_ELEMENTS", H)], LIBOBS)

prop("C21", "Text never becomes markup: HTML and XML output is escaped",
 "In HTML and XML output every symbol, number and string used as text or as an attribute value is written with `<`, `>`, `&`, `\"` and `'` replaced by their entities and all other characters unchanged, so that un-escaping the output gives back the value at the same place, whichever macro produced it. Only raw-content strings and the contents of elements whose content is not HTML (`pre`, `style`, `script`, `title`, `textarea`) are written unescaped.",
 ["inputs"], "all short strings over the special and multi-byte characters, as every literal kind, in every position (text, attribute, nested, svg/math), directly and through macros",
 "No existing test generates markup.",
 [AM, H, XM], [("escape_xml", AM), ("generate_html_node / generate_xml_node / display_attribute", H)], LIBOBS)

prop("C22", "Document mode adds exactly the missing document structure",
 "For each target, document output contains the fragment output unchanged apart from what document mode adds: HTML gets a doctype unless a top-level one exists, and if there is neither a doctype nor an `html` element the content is wrapped in `html`, an empty `head` is added unless one exists, and a `body` unless one exists, with a leading `head` placed before the body (a `head` or `body` counts at the top level or directly inside a top-level element that contains HTML, unlike `style` or `svg`); XML gets an XML declaration unless the first node is one; text, sexp and CSS add nothing. Names are matched in any letter case, an empty source gives the target's empty document, and the two outputs fail on exactly the same inputs.",
 ["inputs"], "all sequences of top-level nodes up to a length over doctype, html, head, body (any case, nested or not), xml declarations, text and other elements, times targets",
 "No existing test generates a document.",
 [H, XM, CS, TX, SX], [("MarkupFormatter::document for each formatter", H), ("SearchTree::search_node", P)], LIBOBS + ["seam --nodocument"])

prop("C23", "XML output is well-formed and mirrors the tree",
 "A list headed by a symbol becomes an XML element with that exact name, its leading attributes in order, its children's markup in order and exactly one matching closing tag; lists headed by a `?` or `!` name become a declaration with their items separated by spaces, closed by ` ?>` or `>`. Whitespace is kept by the same rule as for HTML; empty lists, non-symbol names, attributes after other children and list-valued attributes are errors.",
 ["inputs"], "all trees up to a depth over element, declaration, attribute, text and raw nodes and whitespace layouts",
 "No existing test generates XML.",
 [XM], [("XMLFormatter::generate_xml_node, display_attribute", XM)], LIBOBS)

prop("C24", "CSS output has balanced blocks with exactly the given rules",
 "A list becomes a rule with its leading literals as selector and each following attribute as one `property: value;` in order; at-rules that take a block (such as `@media` or `@keyframes`) contain exactly their nested rules between one pair of braces (or end with `;` if they have none), `@charset`, `@import` and `@namespace` become one statement, and `@font-face`, `@page` and `@property` hold properties directly. In values a list headed by a CSS function name becomes a function call, by an arithmetic operator an infix expression in parentheses, otherwise its items joined by spaces, and literals containing whitespace are quoted, with quotes, backslashes and control characters inside them escaped; anything else at these places is an error.",
 ["inputs"], "all rules up to a bound over every at-rule, every known function name and operator, nested values, selectors and property lists",
 "No existing test generates CSS.",
 [CS], [("generate_css_rule, generate_special_selector, convert_value and their tables", CS)], LIBOBS)

prop("C25", "The result is a function of the input alone",
 "Processing the same source with the same files and options always gives the same output or the same error message, whatever the hash seeds of the process and whatever was processed before in the same process. Generating from one tree any number of times, through `display`, `document`, `generate` or a clone, in any order, always gives the same text.",
 ["programs", "histories", "configurations"], "a suite of programs with maps of named arguments, scopes and data imports, under all hash-seed answers from a controlled random source, and all operation sequences on formatters up to a depth",
 "Tests run each input once in one process with one random hash seed.",
 [X, M, AM, LIB], [("ordered collection of named arguments", X), ("formatter state in RefCell arenas; impl_clone_box!", LIB)], LIBOBS)

prop("C26", "The command line keeps output, errors and exit status apart",
 "For every combination of options and inputs, the `seam` command exits 0 exactly when every input was processed and then prints exactly the library's output for each input (standard input first, then files in order) each followed by one newline; otherwise it exits non-zero with a message on standard error, and nothing of the failing input on standard output. Unknown options, a missing target and missing files are errors before any output; `-I` directories apply to every input, `--nodocument` selects fragment output, and `-` or the absence of files selects standard input.",
 ["configurations", "inputs"], "all argument vectors up to a length over targets, flags, include directories (also containing dashes), good, failing and missing files and stdin",
 "No test runs the binary.",
 [BIN, LIB], [("main argument loop, generate_and_print", BIN)], ["seam process: argv, stdin, stdout, stderr, exit status"])

prop("C27", "Reading from a stream is independent of how the stream delivers it",
 "Building from a stream gives the same result as building from the complete text, for every way the stream splits its bytes into reads (also inside multi-byte characters and with interrupted reads); a read error or invalid UTF-8 anywhere is returned as an error, never as a truncated or altered source. Building from a file gives the same result and records the file's path.",
 ["fault_sequences", "inputs"], "all ways to split short texts into reads, with an interruption, error or end of file at every position",
 "No test reads from a stream.",
 [LIB], [("tree_builder_stream, tree_builder_file", LIB)], ["seam::tree_builder_stream", "seam::tree_builder_file"])

prop("C28", "Non-HTML elements inside HTML get their own language's text",
 "Inside HTML, `style` contains the CSS of its rules (or its single string verbatim), `script` its content as expanded s-expressions, `svg` and `math` their content as XML, `title` and `textarea` the plain text of their content, and `pre` the source text between its first child and its closing parenthesis, unchanged. Each equals what the corresponding target generates for the same content, at any depth and letter case of the tag, and their tags follow the rules of other elements.",
 ["inputs"], "all contents up to a bound over all node kinds and whitespace layouts, in each such element, at several depths",
 "No existing test generates HTML.",
 [H, CS, XM, SX, TX], [("match on tag name in generate_html_node, raw_text", H)], LIBOBS)

prop("C29", "Nodes compare, hash, search and unwrap by what they are",
 "Two nodes are equal exactly when they have the same shape and the same values (kind of literal, keyword, items in order), wherever they stand in the source and whatever whitespace surrounds them; equality is an equivalence, and equal nodes hash equally, so that nodes used as keys of a map behave as values. Searching a tree for a value returns the first match in reading order among the kinds asked for, down to the level asked for and not below it, and nothing if there is none. Accessors and conversions (symbol, number, string, atom, list, attribute, site, leading whitespace) return that part of the node, or nothing for a node of another kind; setting the leading whitespace changes only that, and displaying a node writes it as source.",
 ["inputs"], "all pairs of trees up to a bound over every kind of literal, attribute and list with different sites and whitespace; all trees, searched values, kinds, levels and case sensitivities",
 "No existing test compares, hashes or searches nodes.",
 [P, T], [("PartialEq, Eq, Hash for ParseNode and Node", P), ("SearchTree::search_node", P), ("ParseNode accessors, IntoValue", P)],
 ["seam::parse::parser::{ParseNode, Node, SearchTree}", "ParseNode == / Hash"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in props: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(props))

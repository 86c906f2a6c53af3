#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=hook)))

H = "cfg(papyri_verif): compiler::verif (read access to internals)"

prop("C01", "Tokenizing any text is total and loses nothing",
 "For every source text, tokenizing finishes without crashing, and with comments kept the token spans are non-empty, in order, fall on character boundaries, and tile the text exactly from start to end. Dropping comments yields the same tokens minus the comments, except that two whitespace tokens which become adjacent are merged into one (a paragraph break if either was one), so two whitespace tokens are never adjacent. A quote mark opens if it begins the text or follows whitespace, `=`, `{`, `(`, `[` or `>`, and closes otherwise.",
 ["inputs"], "every Unicode string, with and without comment stripping",
 "The unit tests look at one token of about a hundred short ASCII strings; none tokenizes non-ASCII text after an escape, checks spans, or covers unterminated constructs at arbitrary offsets.",
 ["src/parser/tokenizer.rs", "src/parser/token.rs"],
 [("tokenize", "src/parser/tokenizer.rs"), ("next_token", "src/parser/tokenizer.rs"), ("scan_while", "src/parser/tokenizer.rs")],
 ["token list returned by the tokenizer"], hook=H)

prop("C02", "Every token's text has the lexical form of its kind",
 "For every source text, the kind of each token is determined by the text at its position: names, `$variables`, `@functions`, keywords, numbers, booleans, escapes, entities, verbatim strings, comments, closing tags, whitespace, paragraph breaks and punctuation each span the longest text of their form (comments and strings up to their terminator or the end of the text). An error is reported exactly when an escape is invalid, an entity has no semicolon, a verbatim string is unterminated, over-terminated or spans lines with fewer than three backticks, or a closing tag is malformed.",
 ["inputs"], "every Unicode string and every token position in it",
 "The unit tests sample one or two texts per token kind; the parser slices and unwraps token text on the strength of this form, so any text outside the samples can crash or be misread.",
 ["src/parser/tokenizer.rs", "src/utils/text.rs"],
 [("next_token", "src/parser/tokenizer.rs"), ("is_raw_text, is_paragraph_break", "src/parser/tokenizer.rs"), ("is_ident_start, is_ident_cont", "src/utils/text.rs")],
 ["token kinds and spans", "syntax errors reported by the tokenizer"], hook=H)

prop("C03", "Diagnostics point at the right line and column",
 "For every source text and every position in it, the line number given in a diagnostic is one more than the number of newlines before that position, and the column is one more than the number of characters between the last newline before it (or the start of the text) and that position.",
 ["inputs"], "every Unicode string and every character boundary in it, including the end of the text",
 "No existing test looks at a line or column number at all.",
 ["src/utils/sourcefile.rs", "src/errors/sink_base.rs"],
 [("SourceFile::index_to_line_col", "src/utils/sourcefile.rs"), ("Diagnostic Display", "src/errors/sink_base.rs")],
 ["text of diagnostics"], hook=H)

prop("C04", "Errors and warnings are all counted, and errors block output",
 "Every error and every warning which is reported adds exactly one to the number of errors or warnings, whatever the reporting level, and the reporting level decides only which of them are listed, in the order they were reported; clearing resets everything. Compiling a string gives output exactly when nothing was reported, and a file compiled with any error is counted as failed and writes no output files. The program succeeds exactly when no file failed, and its last line counts the files written and those compiled, failed and skipped; from standard input it prints the output, and succeeds, exactly when nothing was reported.",
 ["inputs", "histories", "configurations"], "every sequence of reports and clears, every reporting level, every source text",
 "The tests only ask whether some diagnostic of an expected variant is present; none checks counts, reporting levels, or what the command-line program writes when there are errors.",
 ["src/errors/sink_base.rs", "src/errors/sink.rs", "src/lib.rs", "src/bin/papyri.rs"],
 [("DiagnosticSink::add, clear, is_empty", "src/errors/sink_base.rs"), ("ReportingLevel::should_report", "src/errors/sink_base.rs"), ("PapyriError::severity", "src/errors/sink.rs"), ("Main::process_source_file, write_out_file, run, run_stdin", "src/bin/papyri.rs")],
 ["num_errors, num_warnings, is_empty, summary", "compile_str result", "exit code and files of the papyri program"])

prop("C05", "Interned names are in bijection with strings",
 "In a name pool, interning two strings gives the same identifier exactly when the strings are equal, an identifier always maps back to the string it was given for, and identifiers never change as more names are interned. Interning in lowercase gives the identifier of the lowercased string, looking up a string which was not interned finds nothing, and each predefined name has the identifier which the compiler uses for it.",
 ["histories", "inputs"], "every sequence of intern and lookup operations on every string",
 "Tests intern a handful of names; an identifier collision or a mismatched predefined name shows only for particular names or orders of insertion.",
 ["src/utils/string_pool.rs", "src/utils/const_strs.rs"],
 [("StringPool::insert, insert_lowercase, get, get_id_if_present", "src/utils/string_pool.rs"), ("CONST_STRS, str_ids", "src/utils/const_strs.rs")],
 ["identifiers returned by the pool", "names printed in output"], hook=H)

prop("C06", "HTML values are always in normal form",
 "Every HTML value the compiler builds is in normal form: a sequence has at least two items, none of which is empty or a sequence, and no two adjacent items are text, whitespace or a newline; a text item is never empty, a single space or a single newline. Combining items preserves their tags and the concatenation of their text, in order.",
 ["inputs", "programs"], "every list of HTML items, nested to any depth, and every program",
 "Pattern matching and equality silently give wrong answers on values not in normal form; tests combine only a few fixed fragments.",
 ["src/compiler/html.rs"],
 [("HTML::from_iter, HTMLSeqBuilder", "src/compiler/html.rs"), ("HTML::text", "src/compiler/html.rs")],
 ["compiled HTML values", "results of @html and @list functions"], hook=H)

prop("C07", "HTML is exactly one of empty, block and inline",
 "Every HTML value is exactly one of empty, block or inline: a sequence is block exactly when some item of it is block; a link is block exactly when its content is; any other tag is block exactly when its name is a block-level name; and non-empty text is inline. The types reported and accepted for HTML values (`none`, `block`, `inline`, `html`) agree with this classification.",
 ["inputs"], "every HTML value, nested to any depth, with every tag name",
 "Tests classify a few literal tags; nested links, mixed sequences and the rarely used tag names are not covered.",
 ["src/compiler/html.rs", "src/utils/taginfo.rs", "src/compiler/value.rs", "src/compiler/types.rs"],
 [("HTML::is_block, block_kind, is_inline, is_empty", "src/compiler/html.rs"), ("taginfo::is_block", "src/utils/taginfo.rs"), ("Value::get_type", "src/compiler/value.rs")],
 ["@typeof, type patterns and type annotations"], hook=H)

prop("C08", "Compiled documents obey the content model of their tags",
 "In the output of every program which compiles without errors, a tag which only allows certain children has only those children; a tag which needs block content has no inline items among its direct children (inline content is wrapped, in paragraphs or list items as appropriate); a tag which allows either is not a mixture; paragraphs and headings contain no block items; void tags are empty. Wrapping neither drops, duplicates nor reorders the content, except whitespace at the ends of the content. (HTML which a program parses from a string is taken as it is.)",
 ["programs"], "every program and every tag literal in it, with every sequence of child items",
 "Tests cover a few tags with simple content; the rules must hold for each tag name with each interleaving of text, whitespace, paragraph breaks, inline, block and mixed values.",
 ["src/compiler/sequence.rs", "src/utils/taginfo.rs"],
 [("SequenceBuilder::push, newline, close_child, into_html", "src/compiler/sequence.rs"), ("ContentKind::for_", "src/utils/taginfo.rs")],
 ["rendered HTML"], hook=H)

prop("C09", "Rendered HTML says exactly what the compiled value says",
 "Rendering an HTML value writes its tags, attributes and text in order, with one closing tag for each tag which is not void; text and attribute values are escaped so that decoding them gives back exactly the original characters, with no raw `<`, `>` or `&` in text and additionally no raw quotes in attribute values. Rendering as plain text writes the text unescaped and no markup.",
 ["inputs"], "every HTML value and every Unicode text or attribute value",
 "Tests compare a few short outputs; escaping must be right for every character in every position or the document is corrupted or injectable.",
 ["src/compiler/render.rs", "src/utils/text.rs"],
 [("Renderer::render, render_tag", "src/compiler/render.rs"), ("text::encode_entities", "src/utils/text.rs")],
 ["rendered output", "escape_html"], hook=H)

prop("C10", "A value is assignable to its reported type",
 "Every value is accepted by the type reported for it, and the common type of two types accepts every value which either of them accepts; in particular every item of a list or dict is accepted by the reported item type. The common type does not depend on which of the two comes first, and is the type itself for two equal types.",
 ["inputs"], "every value and every pair of types, nested to any depth",
 "The tests cover four pairs of types and a few flat lists; types and values nest without bound.",
 ["src/compiler/types.rs", "src/compiler/value.rs", "src/parser/types.rs"],
 [("Type::least_upper_bound, check_value", "src/compiler/types.rs"), ("Value::get_type, common_type_of", "src/compiler/value.rs"), ("Type::option, unit_is_assignable", "src/parser/types.rs")],
 ["@typeof, type patterns"], hook=H)

prop("C11", "Coercion gives a value of the expected type or an error",
 "Whenever a value is coerced to an expected type, the result is accepted by that type or a type error is reported; a value which the type already accepts is never rejected and is unchanged, up to text becoming HTML content where block content is expected. The value of any function call, argument, list item or attribute with an expected type is accepted by that type.",
 ["inputs", "programs"], "every value and every type, nested to any depth, and every program with type annotations",
 "The tests coerce about ten flat values; types and values nest without bound and there are many paths on which a value meets an expected type.",
 ["src/compiler/types.rs", "src/compiler/func.rs", "src/compiler/signature.rs", "src/compiler/names.rs"],
 [("Type::coerce_value, check_value", "src/compiler/types.rs"), ("Compiler::coerce", "src/compiler/types.rs")],
 ["parameter values inside function bodies", "type errors"], hook=H)

prop("C12", "List indexing and slicing select exactly the right items",
 "Getting item i of a list of length n gives the item at i if 0 <= i < n, the item at n+i if -n <= i < 0, and otherwise an index error. Slicing from a to b gives exactly the items from a up to but not including b, where negative positions count from the end, positions beyond either end are clamped to it, and an omitted b means the end; slices of slices behave like slices of an equal fresh list, and the original list never changes.",
 ["inputs"], "every list, every pair of 64-bit integers, and every chain of slices",
 "Tests use short lists with a few small indices; clamping, overflow at extreme integers and nested windows are not covered.",
 ["src/utils/sliceref.rs", "src/compiler/names.rs", "src/compiler/native.rs"],
 [("SliceRef::get, slice, len, as_ref", "src/utils/sliceref.rs"), ("Compiler::list_get", "src/compiler/names.rs"), ("list::slice", "src/compiler/native.rs")],
 ["results of $xs::0, @list::get, @list::slice, list patterns"])

prop("C13", "List functions return what their definitions say",
 "For every list, sorting gives a stable permutation ordered by key (and descending, still stable, when reversed), filtering keeps exactly the accepted items in order, mapping, reversing, flattening by one level, joining, enumerating, finding the first match, and testing all or any item give exactly the results their names say, without changing the list. The callback is called on the items in order, and an error in it is reported as the error of the call.",
 ["inputs", "programs"], "every list and every callback",
 "Tests run each function on one or two short lists, mostly without duplicates, empty lists or errors part-way.",
 ["src/compiler/native.rs"],
 [("list::* native functions", "src/compiler/native.rs"), ("native_sorted_impl, eval_callback", "src/compiler/native.rs")],
 ["results of @list functions"])

prop("C14", "Integer arithmetic is exact or is an error",
 "Adding, negating, numbering and parsing integers gives the mathematically exact result, or an error when that is outside the signed 64-bit range (for adding, when a partial sum is); the result is never wrapped or truncated, and the compiler never crashes. An integer literal or parsed integer is the number its digits denote, and an integer converted to a string is its decimal digits.",
 ["inputs"], "every list of 64-bit integers and every digit string",
 "Tests add and negate single-digit numbers; overflow happens only near the ends of the 64-bit range.",
 ["src/compiler/native.rs", "src/parser/base.rs"],
 [("int::add, negate, parse; list::enumerate", "src/compiler/native.rs"), ("parse_number", "src/parser/base.rs")],
 ["results of @int functions, @list::enumerate, number literals"])

prop("C15", "Unique IDs are distinct lowercase identifiers",
 "The IDs generated since the last reset are pairwise distinct, and each of them is a lowercase identifier, whatever strings they are based on. An ID is no longer than the maximum length given, as long as that length is at least one, unless the ID had to be made longer in order to be distinct.",
 ["histories", "inputs"], "every sequence of requests with any base string and any positive maximum length, with resets",
 "The tests request a few IDs from a couple of base strings; collisions between generated IDs, non-ASCII bases and small maximum lengths need particular sequences.",
 ["src/utils/text.rs", "src/compiler/native.rs"],
 [("UniqueIDGenerator::get_unique_id, clear", "src/utils/text.rs"), ("make_identifier, is_identifier", "src/utils/text.rs")],
 ["results of @str::unique_id"])

prop("C16", "Output files stay inside the output directory",
 "A path given to the file-writing function is accepted only if it resolves, after removing `.` and `..` components, to a location strictly or trivially below the output directory, and the file is then written at exactly the location the path denotes relative to that directory; every other path is an error and writes nothing. Without an output directory every write is an error, and each accepted file is handed over exactly once with its own content, in order.",
 ["inputs", "histories"], "every output directory and every path string, and every sequence of writes",
 "The tests never write a file; a single unnormalised path that escapes can overwrite arbitrary files.",
 ["src/utils/relpath.rs", "src/utils/outfiles.rs", "src/compiler/context.rs"],
 [("make_relative", "src/utils/relpath.rs"), ("OutFiles::try_push, take_iter", "src/utils/outfiles.rs"), ("Context::push_out_file", "src/compiler/context.rs")],
 ["paths yielded by the output collector", "files written"])

prop("C17", "Function calls bind every parameter exactly once",
 "When a call succeeds, each parameter of the function is bound to exactly one value of its type: positional arguments in order, named arguments by name, extra arguments collected in order by the spread parameters, implicit parameters from the variable declared implicit in the caller's scope, and every other parameter to its default. A call with too few or too many positional arguments, an unknown or repeated name, a missing required parameter or an argument of the wrong type is an error.",
 ["programs"], "every signature and every argument list",
 "Tests cover a fixed set of signatures and calls; the interaction of positional, named, implicit, spread, default and content arguments is combinatorial.",
 ["src/compiler/signature.rs", "src/compiler/func.rs", "src/parser/func.rs"],
 [("ParamBinder::add_positional_arg, add_named_arg, add_content_arg, bind_implicit_args, build", "src/compiler/signature.rs"), ("Func::bind_call, bind_synthetic_call", "src/compiler/func.rs")],
 ["values of parameters in function bodies", "binding errors"])

prop("C18", "Partial application is the same as one complete call",
 "Binding some arguments of a function first and calling the result with the rest gives the same result as one call with all the arguments, and each later call of a bound function starts from the same bound arguments. Binding never changes the original function, and an attribute method such as `$list::map` is the plain function with the subject bound.",
 ["programs"], "every function, every way to split its arguments, and every sequence of calls",
 "Tests bind one or two arguments of one function once.",
 ["src/compiler/func.rs", "src/compiler/signature.rs"],
 [("Func::bind_partial, bind_positional, bind_content, get_partials", "src/compiler/func.rs"), ("PartialParams::open, close_into_bound_function", "src/compiler/signature.rs")],
 ["results of bound functions"])

prop("C19", "Variables follow lexical scope",
 "A variable denotes the innermost enclosing declaration visible where it is written, and a function sees the scope where it was defined, not the scope it is called from; only implicit parameters are taken from the caller's scope, and only from variables declared implicit. Variables declared by let, by parameters and by patterns are not visible outside their bodies, and a failed match branch leaves no bindings behind.",
 ["programs"], "every nesting of functions, lets, matches and calls",
 "Tests nest at most two scopes; shadowing, closures called from other scopes and failing branches are barely covered.",
 ["src/compiler/frame.rs", "src/compiler/func.rs", "src/compiler/value.rs", "src/compiler/matcher.rs"],
 [("Frame::get, set, unset", "src/compiler/frame.rs"), ("evaluate_in_frame, get_implicit", "src/compiler/frame.rs"), ("evaluate_let_in, evaluate_match", "src/compiler/value.rs, src/compiler/matcher.rs")],
 ["values of variables", "name errors"])

prop("C20", "Each module is compiled once, and cycles are errors",
 "However many times and under whatever spellings of its path a module is imported or included, it is compiled at most once and every importer gets the same exports and output; a module which is still being compiled when it is imported again is reported as a circular import, and one which failed to load fails again without being reloaded. Imported modules cannot write output files, and the importer's own output files are unaffected by importing.",
 ["programs", "histories"], "every graph of modules and every sequence of imports",
 "No existing test imports a module at all.",
 ["src/compiler/module_loader.rs", "src/compiler/native.rs"],
 [("Context::load_cached, load_uncached", "src/compiler/module_loader.rs"), ("ModuleCache::get, set, set_by_index", "src/compiler/module_loader.rs")],
 ["exports and output of modules", "module errors"])

prop("C21", "Formatting code never changes the code",
 "The text content of formatted code, in any language and with or without syntax highlighting and line numbers, is exactly the source text, apart from the documented changes: the common indentation and the blank space at both ends are removed, a first line naming the language is dropped from code blocks, and lines are separated or numbered. Line numbers count up by one from the first line number given.",
 ["inputs"], "every source text, every language, every first line number",
 "Tests format a couple of one-line ASCII snippets.",
 ["src/compiler/highlight.rs", "src/compiler/highlight_papyri.rs", "src/utils/text.rs", "src/compiler/native.rs"],
 [("text::fix_indentation, get_source_language_hint", "src/utils/text.rs"), ("LineHighlighter, enumerate_lines", "src/compiler/highlight.rs"), ("syntax_highlight_papyri", "src/compiler/highlight_papyri.rs")],
 ["rendered code and code blocks"])

prop("C22", "Patterns match and bind as they are written",
 "A match takes its first branch whose pattern matches and binds each variable of the pattern to the part of the value at its position: list and HTML sequence patterns match item by item, with a spread taking exactly the remaining items in order, dict and tag patterns match by name with a spread taking exactly the remaining entries, an `and` needs both sides, and an `or` takes the first side that matches and binds the other side's variables to none. If no branch matches it is an error.",
 ["programs"], "every pattern and every value",
 "Tests try individual patterns on single values; combinations of nested spreads, alternatives and attributes are not covered.",
 ["src/compiler/matcher.rs", "src/parser/matcher.rs", "src/parser/ast.rs"],
 [("evaluate_match, bind_pattern, bind_all_with_spread", "src/compiler/matcher.rs"), ("MatchPattern::get_name_ids", "src/parser/ast.rs")],
 ["branch taken and values bound"])

prop("C23", "Escapes and entities denote the right characters",
 "An escape `\\xHH`, `\\uHHHH` or `\\UHHHHHHHH` denotes the character with that hexadecimal code, `\\n` a newline, `\\t` a tab, and a backslash before any other character that character; an entity denotes its character. If there is no such character an error is reported and the replacement character is used; no escape or entity crashes the compiler.",
 ["inputs"], "every escape sequence and every numeric or named entity, in text and in quoted strings",
 "Tests decode about five escapes and entities; surrogates, codes out of range and unknown entities are not covered.",
 ["src/parser/text.rs", "src/parser/template.rs", "src/parser/tokenizer.rs"],
 [("unescape_char, decode_entity", "src/parser/text.rs"), ("next_token", "src/parser/tokenizer.rs")],
 ["text of compiled documents and strings"])

prop("C24", "Types print as they are written",
 "The text of a type, as given by `@typeof` and in messages, is a type annotation which denotes that same type. A type is optional at most once, an optional type accepts exactly the values of the type together with none, and making a type optional which already accepts none changes nothing.",
 ["inputs"], "every type, nested to any depth",
 "Tests print five types and parse about as many annotations.",
 ["src/parser/types.rs"],
 [("Type Display", "src/parser/types.rs"), ("Parser::parse_type", "src/parser/types.rs"), ("Type::option, option_if", "src/parser/types.rs")],
 ["@typeof, type annotations"])

prop("C25", "No program crashes the compiler",
 "Compiling any source text ends with output or with diagnostics; it never ends with an internal compiler error, an index or arithmetic panic, or an abort other than exhaustion of the stack or of memory.",
 ["programs"], "every source text",
 "The tests sample about two hundred well-formed programs.",
 ["src/parser", "src/compiler", "src/utils", "src/errors/mod.rs"],
 [("errors::ice, ice_at", "src/errors/mod.rs")],
 ["panics"])

prop("C26", "Every compilation terminates unless the program recurses",
 "Compiling a source text which contains no recursive function terminates.",
 ["programs"], "every source text without recursion",
 "Termination cannot be established by running a sample of programs.",
 ["src/parser", "src/compiler"], [("parser and evaluator recursion", "src/parser/base.rs, src/compiler/value.rs")], ["termination"])

prop("C27", "Plain text comes out as it is written",
 "Text which contains no expression, tag or comment comes out character for character, except that: white space between words is one space, and at the start and the end of a document, group or tag none; a blank line starts a new paragraph; quotation marks are curly, opening or closing by what precedes them; `...` is an ellipsis and `|` a word joiner; and in each run of text, from left to right, the longest of `---`, `--`, `->`, `<-`, `<->`, `!=`, `<=`, `>=`, `+/-`, `(c)`, `~` and a minus before a digit is replaced by the symbol it depicts. No token of a text crashes the parser.",
 ["inputs"], "every plain text",
 "Tests compile about ten texts with one substitution each; substitutions which overlap or meet at token boundaries, and most tokens as text, are not covered.",
 ["src/parser/text.rs", "src/parser/base.rs", "src/parser/queue.rs"],
 [("parse_text, token_text, substitutions", "src/parser/text.rs"), ("parse_node, parse_nodes_until, parse_root", "src/parser/base.rs"), ("poll, poll_if, skip_whitespace, has_next", "src/parser/queue.rs"), ("AST::is_whitespace", "src/parser/ast.rs")],
 ["text of compiled documents"])

prop("C28", "Tags come out as they are written",
 "A tag gives an HTML element with its name in lower case (or the name which its variable gives, in lower case, an identifier or `!DOCTYPE`), its attributes in the order in which they are written, and the nodes up to its closing tag as its content. An attribute `name` has no value, `name=value` the string, and `name?=value` is left out when the value is none; `**dict` gives the entries of the dict in order, those which are none without a value. A tag is closed by `/>`, by having no content (void elements), by `</>`, or by its own name in any case, and by nothing else; a tag with a variable for its name only by `/>` or `</>`. A name given twice, a value which is not a string, an unclosed tag or another closing tag is reported as an error.",
 ["inputs"], "every tag, with any attributes, nested without bound",
 "Tests compile about twenty tags with one or two attributes; combinations of spreads, optional attributes, order and duplicates, and closing tags in other cases, are not covered.",
 ["src/parser/tag.rs", "src/compiler/tag.rs", "src/parser/base.rs", "src/compiler/value_convert.rs"],
 [("parse_tag, parse_tag_attribute, is_close_tag", "src/parser/tag.rs"), ("parse_separated_until, parse_nodes_until", "src/parser/base.rs"), ("compile_tag, compile_tag_name, add_attr", "src/compiler/tag.rs"), ("try_convert", "src/compiler/value_convert.rs")],
 ["elements of compiled documents", "error diagnostics"])

prop("C29", "Declarations and arguments are read as they are written",
 "A function has exactly the parameters which its declaration lists, in order, each with its name, its type (optional with `?`) and its default value (none for `?` without another): `$_name` is positional, `$name` named, `*$_name` and `**$name` take the rest, and the last is the content. A declaration is an error if a name is repeated (also by the content), a positional parameter follows a named one, a required one follows an optional one of its class, anything follows a spread of its class, an implicit parameter is positional, a spread or has a default value, a spread has a default value or its name the wrong form, or the content is a spread or has a default value; otherwise it is accepted. A call has exactly the arguments which are written, in order, and is an error if a positional one follows a named one, a name is repeated or a spread has a name. `@let`, `@implicit` and `@export` declare exactly the names with their values; other arguments, none, or a `@let` around a literal are errors, and so are names in a list, a function without a name which is declared in text, and any other token where a comma or a closing bracket is needed.",
 ["inputs"], "every declaration, call, list, @let and @export",
 "Tests compile one example of most of the errors, with one or two parameters; the rules are about all pairs of parameters, whose number is unbounded.",
 ["src/parser/func.rs", "src/parser/base.rs", "src/compiler/signature.rs"],
 [("parse_signature, parse_param, parse_func_def, parse_args, parse_arg, parse_func_call", "src/parser/func.rs"), ("parse_separated_until, parse_some_named_args, parse_let_in, parse_export, parse_list, parse_expr_or_ellipsis", "src/parser/base.rs"), ("compile_func_signature, compile_param, FuncSignature builder", "src/compiler/signature.rs")],
 ["values which functions return for their arguments", "error diagnostics"])

prop("C30", "Truth, text, dict and regular-expression functions return what they say; attributes and indices resolve as written",
 "Of all values only False, 0, the empty text, list, dict and none are false, and `and`, `or` and `negate` are the Boolean operations. Text functions describe the text they are given: whether it starts or ends with another text, is empty or only ASCII whitespace, its length in bytes of UTF-8, its parts around every separator from left to right, its lower case, upper case and the text without surrounding whitespace. The keys, values and items of a dict are those of all its entries, in their order, and `get` is the value of the entry with that name, or an error. A regular expression gives for each match, from left to right, its text if it has no groups, the list of the match and all groups if they have no names, and the dict of all groups by name if they have names, where a group which takes no part is none; `find` is the first match or none, `find_all` and `count` are about all matches, `test` says whether there is one, and `split` gives the text around them; an invalid expression, one with named and unnamed groups, and a group name which is no identifier are errors. `$x::name` is the entry of a dict, otherwise the name of a tag for `tag_name`, otherwise the function of that name which belongs to the type of the value, applied to the value, and otherwise an error; `$x::i` is the item of a list, counted from the end if negative, or an error; with `?::` both are none if the value is none; and chains are resolved from left to right.",
 ["inputs"], "every value, text, dict, regular expression and chain of names",
 "Tests call most of these functions on one or two values; the values, texts and chains of names are unbounded.",
 ["src/compiler/native.rs", "src/compiler/native_gen.rs", "src/compiler/regex_value.rs", "src/compiler/names.rs", "src/utils/text.rs"],
 [("native_defs!: BOOL, STR, DICT, REGEX; evaluate_native_attr", "src/compiler/native.rs"), ("RegexKind::captures_to_value, RegexValue::find, find_all, test, count, split; compile_regex", "src/compiler/regex_value.rs"), ("evaluate_name, evaluate_attr, evaluate_index", "src/compiler/names.rs"), ("is_whitespace", "src/utils/text.rs")],
 ["which texts a regular expression matches, and the case and whitespace tables of Unicode (dependencies and std)"])

prop("C31", "Patterns and @match are read as they are written",
 "A pattern is `_`, a variable (either perhaps followed by `:` and a type, or by `:` and a variable for the type), `.`, a Boolean, a number or a verbatim text, `=` and an expression, a list in brackets, a dict in parentheses, a sequence in braces, a tag or a template; between patterns `&` means both and `|` one of them, `&` binds closer and both group from the left. Lists have commas between their patterns and sequences white space, and one of the patterns may be a spread (`*pattern`, or `...` for any) at the place where it is written; dicts have `name=pattern` with commas, tags have `name=pattern` or `name` (an attribute without a value) with white space, and in both the last may be a spread (`**pattern` or `...`). A tag has a lower-cased name, `_` or a variable, and content up to its closing tag unless it ends with `/>` or never has content. A template without variables is the text it denotes; otherwise the pattern is that text, with any white space for white space, and any text which is not empty for each variable. Errors are exactly: a bare name, a spread elsewhere, two spreads or anything after a spread of a dict, a name twice or with `_` at its start, numbers, lists and dicts in a sequence of braces, an attribute or index of a variable, a wrong closing tag, and any other token where none of these is. Every legal pattern is accepted, however long. `@match` has one value and its branches `pattern -> value`, in the order in which they are written.",
 ["inputs"], "every pattern and @match",
 "Tests compile one example of each form of pattern; patterns nest to any depth, and the rules about spreads, names and separators are about every combination.",
 ["src/parser/matcher.rs", "src/parser/base.rs", "src/parser/ast.rs"],
 [("parse_match, parse_match_branch, parse_match_pattern, parse_and_match_pattern, parse_primary_match_pattern, parse_optional_typed_pattern, parse_positional_match_pattern, parse_named_match_pattern, parse_seq_pattern, parse_dict_pattern, make_dict_pattern, parse_tag_pattern, parse_template_pattern", "src/parser/matcher.rs"), ("parse_separated_until", "src/parser/base.rs"), ("MatchPattern::can_match_html, TemplatePart::is_literal", "src/parser/ast.rs")],
 ["which values a pattern matches (C13)", "reading of types, expressions, names and the parts of templates"])

prop("C32", "Expressions have the values they are written with",
 "An expression is: `.` or a group with nothing in it (none), `True`, `False`, a number, a bare name (its text), a verbatim or quoted string, a list, a group in braces, a tag, a variable with any number of `::name`, `::number`, `?::name` and `?::number` after it (read from the left, without white space between), a function call, `@fn`, `@let`, `@implicit` or `@match`; white space and comments before it do not matter. A list has the values of its items in order, and for an item `*expression`, which must be a list, the items of its value. A group is the sequence of the nodes up to its closing brace, without the white space at both ends; where `...` is written as the body of a call or declaration it is the nodes up to the end of the group, tag or document around it. As nodes of a document, group or tag, verbatim strings are code, escapes and entities characters, `$`-names, `@`-names, lists and groups, and tags whose `<` stands before a name, a variable or `!`, expressions, closing brackets, braces and tags without an opening one errors, and everything else text. The value of an expression is coerced to the type which is expected there. Anything else where an expression is expected is an error.",
 ["inputs"], "every expression",
 "Tests evaluate one example of each form; expressions nest to any depth, and how far each reaches depends on what surrounds it.",
 ["src/parser/base.rs", "src/parser/ast.rs", "src/parser/queue.rs", "src/compiler/value.rs"],
 [("parse_expr, parse_expr_or_ellipsis, parse_expr_tok, parse_node, parse_name, parse_group, parse_ellipsis_group, group_of, seq_range, parse_nodes_until", "src/parser/base.rs"), ("Expr::range, Expr::is_literal, Name::range, AST::range, AST::is_whitespace", "src/parser/ast.rs"), ("evaluate_node, evaluate_list, evaluate_verbatim", "src/compiler/value.rs")],
 ["how calls, declarations, tags, patterns and strings are read and evaluated (C17, C19, C22, C23, C28, C29, C31)"])

prop("C33", "A module exports exactly what it declares",
 "The exports of a document are the names which the `@export` declarations evaluated in it give, at top level or in groups, bodies, values, match branches and functions, in the order of the first export of each, and each has the value which was exported last; exporting a name again is a warning. `@export(name=value, ...).` evaluates and exports its names in order up to the first whose value is an error, and declares no variables; `@export @let(name=value, ...)` exports and declares each, visible to those after it and to its body only, which must have no value; `@export @fn` exports the function and declares it where it stands. None of them gives output. `@let` and `@implicit` without `@export`, and `@fn`, export nothing.",
 ["inputs"], "every document",
 "Tests export one or two names; which value a name has at the end depends on everything evaluated before, on errors in between and on the scopes around it.",
 ["src/compiler/exports.rs", "src/compiler/value.rs"],
 [("export, compile_export", "src/compiler/exports.rs"), ("evaluate_let_in", "src/compiler/value.rs")],
 ["the dictionary which @import gives and the variables which @include declares", "warnings and errors"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))

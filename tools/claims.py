V_ = 'deductive verification (Verus) of the extracted functions'
CLAIMED['C03'] = (V_, 'index_to_line_col is proved equal to the definition of lines and columns for every text and every character boundary. Assumed: str::len is the UTF-8 length, Vec::resize, OnceCell runs its initialiser. Printing of the position: bounded search.')
CLAIMED['C04'] = (V_, 'Proved: the sink counts every report and lists by level for histories of any length; Diagnostics::report classifies everything but warnings as errors; compile_str is Ok exactly when nothing was reported; process_source_file writes nothing when an error was counted; write_out_file writes the document it is given as the options ask; run compiles every source file, counts the results and succeeds exactly when no file failed, and run_stdin prints exactly when nothing was reported. Assumed: contracts of the file system shims and of compile/render. Whole programs and the CLI: bounded search.')
CLAIMED['C06'] = (V_, 'Proved: HTML::text, FromIterator and HTMLSeqBuilder give the normal form and keep tags and characters in order, for all sequences. Assumed: derived Clone copies, String/Vec/Rc conversions. Whole programs: bounded search.')
CLAIMED['C07'] = (V_, 'Proved: is_empty, is_block, block_kind, is_inline and the table of block names agree with the definition, and every normal value is exactly one of the three. Types of values in programs: bounded search.')
CLAIMED['C08'] = (V_, 'Proved: ContentKind::for_, SequenceBuilder (any sequence of pushes and breaks), compile_node, _compile_sequence and compile_list_item give content which obeys the content model and keeps everything but white space. Assumed: evaluation of nested expressions gives normal HTML; termination of the recursion of push into child builders. Whole programs: bounded search.')
CLAIMED['C24'] = (V_, 'Proved: Display of every type writes its words, parse_type on the words of any normal type gives that type without a report, different types are written differently, and option/option_if keep types normal. Assumed: write! of "{t} x" is fmt followed by write_str; the word source of the parser (poll_if, skip_whitespace); derived equality. The split of the text into words is C02; whole programs: bounded search.')
CLAIMED['C10'] = (V_, 'Proved for every value and type, lists and dicts nested without bound: check_value accepts exactly the values of the type, get_type gives a type which accepts the value, and least_upper_bound accepts what either accepts, is symmetric and stays normal. Assumed: lists are their items (C12), is_block/is_inline (C07), derived equality and Clone; iterator chains are written as the loops they are. Whole programs: bounded search.')
CLAIMED['C11'] = (V_, 'Proved for every type and value and any conversion to HTML which leaves HTML as it is and gives normal HTML: a coerced value is accepted by the expected type, and an accepted value is never rejected and stays the same (item by item in lists and dicts). Assumed: compile_value is such a conversion, digits of an integer (C14), is_block/is_inline (C07), get_type (C10). That every call, argument and attribute goes through coerce: bounded search.')
CLAIMED['C12'] = (V_, 'Proved: SliceRef (from, get, len, is_empty, as_ref, slice) against the items it stands for, keeping its bounds valid; Compiler::list_get and the bodies of list get, slice, len and is_empty for every list up to 2^32-1 items and every pair of positions, including slices of slices. Assumed: Rc<[T]> indexing, a list is not longer than 2^32-1 items. Whole programs: bounded search.')
CLAIMED['C13'] = (V_, 'Proved on the bodies of the native functions and native_sorted_impl, for every list and every callback seen as the log of its calls: all, any, find, filter, map, flat, reversed, enumerate, join; sorted is the stable order of the keys (also reversed) or an error, and an error of the callback is the error of the call. Assumed: slice::sort_by_key is stable and str compares by code points, a list is its items (C12), HTML::from_iter (C06); list contains: bounded search.')
CLAIMED['C14'] = (V_, 'Proved for all integers, lists and strings: add (exact when every partial sum fits, otherwise an error), negate, enumerate, len, parse and number literals against the number the digits denote; coercing an integer to a string gives its decimal digits, and reading the digits back gives the number. Assumed: <i64 as FromStr>, ToString, checked_neg. Integers in text: bounded search.')
CLAIMED['C15'] = (V_, 'Proved for every string and every history: get_unique_id gives a lowercase identifier which is not among the IDs in use and records it, keeps the maximum length unless the first candidate is in use, and terminates; is_identifier, make_identifier, clear and the body of str unique_id. Assumed: deunicode gives some string, IndexSet is a set, String operations; fewer than 2^31 - 2 IDs are in use.')
CLAIMED['C16'] = (V_, 'Proved for every base path and path, and every history of writes: normalise is the place a path denotes, make_relative accepts exactly the places below the base, OutFiles keeps and hands over each accepted file once, in order, at that place; push_out_file and the file-writing native report every other path and write nothing; the program writes exactly what was collected. Assumed: std::path on Unix as sequences of components (no symbolic links).')
CLAIMED['C05'] = (V_, 'Proved for every history of interning: insert and insert_lowercase give the position of the string, keep all earlier positions and strings, get gives the string back, get_id_if_present finds exactly the interned strings, the predefined strings are pairwise different and stand for the names of their constants. Assumed: IndexSet keeps distinct strings in order of insertion, NonMaxU32, to_lowercase; fewer than 2^32-1 names; the expansion of the macro const_strs (its definition is compared with the known one).')
CLAIMED['C22'] = (V_, 'Proved for every pattern (nested without bound), value and environment: bind_pattern and its helpers match and bind as the definition says (item by item, spreads take exactly the rest, entries by name, or/and), evaluate_match takes the first branch that matches with a frame of its own and leaves the scope as it was, or reports an error; a successful match binds every variable of the pattern and no other; get_name_ids, parse_match_pattern, parse_seq_pattern and make_dict_pattern build patterns as written, and report several spreads. Assumed: Regex::captures, equality of values, IndexMap, the frame methods (C19), evaluation of expressions as a function of the environment.')
CLAIMED['C19'] = (V_, 'Proved on a heap of frames shared by reference: Frame and ActiveFrame methods (get, set, unset_all, set_all_if_not_present, child frames, the initial frame of a module), get_var, get_implicit, set_var, evaluate_in_frame (for every closure: the call stack is as before), evaluate_let_in, compile_func_def and evaluate_func_call_with_bindings agree with the definition of lexical scope; lemmas: a variable is that of the innermost enclosing frame which declares it, frames elsewhere do not matter, a function sees its parameters and then the scope of its definition, whatever the call stack. Scopes of match branches: C22. Assumed: Rc<RefCell<Frame>> is a reference to a cell (no borrow conflicts), IndexMap, evaluation of other expressions keeps the call stack and the parents of frames.')
CLAIMED['C17'] = (V_, 'Proved for every signature, call and history of binding: the ParamBinder methods (positional, named, content, implicit, count, build) and compile_arg, compile_positional_arg, compile_named_arg, compile_content_arg, bind_call, bind_synthetic_call, get_partials, open and signature compute what the definition of a call says, and a call which succeeds binds each parameter exactly once, to a value accepted by its type, positional arguments in order, and nothing else. Assumed: evaluation of an argument is a function of the expression, the expected type and the scope; coercion gives an accepted value or an error (C11); get_implicit (C19); IndexMap keeps insertion order; fewer than 2^64 positional arguments; the expectation in an error message is not checked; reporting an error does not change the binding.')
CLAIMED['C18'] = (V_, 'Proved for every signature and all lists of arguments: bind_partial, bind_positional, bind_content and close_into_bound_function give a function with the signature and name of the original which starts from exactly the arguments bound, and (lemma_partial_call) calling it with the rest binds what one call with all the arguments binds, including when either is an error. Assumed: as C17; arguments by value (what an expression evaluates to is C17 and C11); the table which chooses the function and the binding for an attribute is not under contract, the replay checks compare every attribute method with its function.')
CLAIMED['C20'] = (V_, 'Proved for every cache of modules and every nesting of imports (rely/guarantee: whatever evaluating a module imports obeys the same step relation, which composes): ModuleCache get, set, set_by_index, Context _compile, compile, load_uncached, load_cached and the native functions import and include. A file is compiled at most once, all importers get the cached output and exports, a module being compiled gives a circular import error, a failed one fails again without being loaded, and the output files after an import are those before it. Assumed: the file system does not change during compilation and canonicalize gives one path per file; evaluation reaches the cache only through these functions; IndexMap entries keep their index.')
CLAIMED['C02'] = (V_, 'Proved for every text and every position: next_token (in thirteen cases of the first characters, which are all there are) gives the length in characters, the kind and the error of a declarative definition of the lexical form of each kind (longest runs, first terminator), at a character boundary, without overflow or a slice off a boundary; scan_while, is_paragraph_break, is_raw_text, is_ident_start, is_ident_cont. Assumed: std string searching (find, starts_with, chars, get) as first occurrence over characters; a text is smaller than a quarter of the address space.')
CLAIMED['C01'] = (V_, 'Proved for every text below 4 GiB: tokenize terminates, the tokens it reads tile the text, each is the token of C02 at its place with its error reported at its span, quotes get their direction from the token before; what is returned is those tokens without comments (when stripped), white space merged, never two white space tokens adjacent, a break never lost, and everything when comments are kept. The units of C02 are part of the check. Assumed: as C02; mem::take, Vec.')
CLAIMED['C23'] = (V_, 'Proved for every escape and entity token: unescape_char and decode_entity give the character denoted or report one error and give the replacement character, without a crash; an escape is a backslash and a character or exactly 2, 4 or 8 hexadecimal digits (from the lexical form of C02); parse_node turns both into that character, parse_template_parts gives the parts of a string in the order of what was read, for any tokens, and evaluate_template joins their texts. Assumed: u32::from_str_radix, char::from_u32, the decoding of the crate htmlentity (an unknown function of the text of the entity; the search finds 36 names it decodes wrongly, listed as known findings), parse_name, evaluate_name.')
CLAIMED['C09'] = (V_, 'Proved for every HTML value, nested without bound: Renderer::render and render_tag write exactly the declared text (tags with their attributes in order, content, one closing tag unless void; as plain text the text and the declared line breaks), Context::render and escape_html_impl and both native functions escape_html likewise; escaping replaces exactly the special characters, and lemma_escaped: decoding gives the text back and no raw special character is left. Assumed: entity::encode of the crate htmlentity replaces the characters of the set by their names (every character is tried by the search), StringPool::get (C05), IndexMap iterates in order of insertion, write! writes its pieces in order.')
CLAIMED['C21'] = (V_, 'Proved for every source text below 4 GiB: fix_indentation gives the declared text (the indentation of the first line with ink removed, white space at both ends removed) and keeps every character that is not white space; get_source_language_hint; LineHighlighter (push and its helpers, close_part, take_line, make_token) shows exactly the ranges given to it; syntax_highlight_papyri, joined at its newlines, is the source; the syntect highlighter and no_highlighting give the lines of the source; enumerate_lines numbers them counting up by one, each followed by a newline; native_code_impl puts these together. Assumed: tokenize (C01) and HTML::from_iter (C06) as proved there; str::lines, trim, char_indices, split as declared; the ranges of syntect tile a line; the URL matches are in order.')
CLAIMED['C27'] = (V_, 'Proved for every sequence of tokens without a comment: parse_text gives the text of the first token and of those after it up to a `<` or a token without text, with the substitutions made, and takes exactly these tokens; token_text gives the declared text of every kind; parse_node turns each plain token into its node and never crashes; parse_nodes_until (for any predicate which ends them) and parse_root give exactly the nodes of the tokens, without white space at both ends; poll, poll_if, has_next, skip_whitespace; substitutions gives, with the two tables read from the source, the leftmost longest replacement of the declared twenty-one; tokenize gives quotation marks their direction from the token before. The tokens are those of C02; escapes and entities C23; what the compiler makes of the nodes C06 and C08. Assumed: the crate aho-corasick replaces leftmost longest matches; parse_export, parse_func_def, parse_expr_tok and parse_tag only take tokens from the queue.')
CLAIMED['C28'] = (V_, 'Proved for every sequence of tokens and every tag: parse_tag gives the name, the attributes, and the content up to the closing tag of a declarative reading of the tokens, and reports an error exactly when there is none; parse_tag_attribute, poll_if_spread, parse_separated_until (as used for attributes), is_close_tag, parse_nodes_until and the queue of tokens; compile_tag gives the element with the name, the attributes in order and the content of a declarative evaluation, or an error exactly when there is none; compile_tag_name, add_attr, and the conversions try_convert to a string, an optional string and a dict of these. A closing tag has its form by a lemma over the lexical forms of C02. Assumed: what nodes, expressions and names are read and evaluated as are unknown functions of the tokens and of the state; evaluated values have the type asked for (C10, C11); IndexMap keeps the order of insertion.')
CLAIMED['C29'] = (V_, 'Proved for every sequence of tokens: parse_param, parse_signature and parse_func_def give the parameters, counts and body of a declarative reading of the tokens, and report an error exactly when there is none or a rule is broken; the counts agree with the order of the parameters (lemma_layout), whose names are distinct; parse_arg, parse_args, parse_func_call, parse_some_named_args, parse_let_in, parse_export, parse_expr_or_ellipsis and parse_list (its closure as a function) likewise, and parse_separated_until for each kind of item; compile_param and compile_func_signature give the function with each parameter at its place, with its type and default value, and it is well formed in the sense which C17 and C18 rely on. Assumed: what expressions, types, names and `...` groups are read as are unknown functions of the tokens; evaluated values have the type asked for (C11); the default of an optional parameter is allowed (C07); NameIDSet and NameIDMap (a new name is put last). Signatures of native functions, which a macro declares, are not covered.')
CLAIMED['C30'] = (V_, 'Proved for all values: the Boolean functions and bool::from, the text functions (text::is_whitespace with its loop), the dict functions and get, each as the body which native_defs! compiles; for all expressions and texts, compile_regex gives a regular expression whose kind agrees with its groups, or an error exactly when the groups are mixed or a name is no identifier, and captures_to_value, find, find_all, test, count and split give the matches in the declared form; for all chains of names, evaluate_name, evaluate_attr, evaluate_index and evaluate_native_attr (the latter as rustc sees it: the extractor expands native_defs!) give what a recursive specification of resolution gives, with the library functions which belong to each type listed in the specification. Which texts match, and the operations of std on text, are uninterpreted functions of their arguments in the proof; the bounded search compares them with a backtracking matcher and reference implementations. The values of variables, conversion, partial application and list indexing are the contracts of C19, C10, C17 and C12.')
CLAIMED['C31'] = (V_, 'Proved for all queues of tokens: parse_match, parse_match_branch, each of the functions for patterns of src/parser/matcher.rs, the three instances of parse_separated_until (which is extracted once for each kind of item) and can_match_html, is_literal give what a recursive specification of patterns over the queue of tokens gives, and report an error exactly when it gives none. The unit `defined` proves that this specification is well founded (a pattern within another has fewer tokens); the unit `patterns` uses the equation, for an uninterpreted function of nested patterns. Expressions, names, types and the parts of templates are uninterpreted readers of the same queue (C06, C08, C23, C29), so are the text of a regular expression of a literal and the names of the variables of a pattern. The bounded search compiles random legal and illegal patterns with predicted errors and each form on values which it matches or not, against the real compiler.')
CLAIMED['C32'] = (V_, 'Proved for all queues of tokens: parse_expr, parse_expr_or_ellipsis, parse_expr_tok, parse_node, parse_name, parse_nodes_until, parse_group, parse_ellipsis_group, group_of and seq_range give exactly the expressions and nodes of a recursive specification over the queue of tokens, and report an error exactly when it gives none; so do the queue operations poll, poll_if, has_next, skip_whitespace, poll_if_kind, expect_poll. The unit `defined` proves that the specification is well founded; the unit `expressions` uses its equation. Range and is_literal of expressions, names and nodes. Proved for all expressions, expected types and states of the compiler: evaluate_node and evaluate_list give the value, or the error and the place where it is reported, of a recursive specification, with the parts evaluated from left to right, once each. How calls, declarations, lists, tags, @match, strings, characters, numbers and text are read is an unknown function of the tokens here, and proved in C14, C23, C27, C28, C29 and C31; likewise what calls, declarations, names, strings, sequences, tags and coercions give (C08, C11, C17, C19, C22, C23, C30). That an expression of which a list is expected gives one is C11. The bounded search evaluates random expressions by an independent evaluator, and each form with its neighbours, in the real compiler.')
CLAIMED['C33'] = (V_, 'Proved for all declarations: export, compile_export and evaluate_let_in give exactly the exports, warnings, declarations and failures of a reference definition, whatever evaluating the values does (which may itself export). Assumed: contracts of the map of names, of evaluating expressions, of set_var and of evaluate_in_frame (C19 proves the last two). Whole modules and their importers: bounded search against a reference evaluator.')

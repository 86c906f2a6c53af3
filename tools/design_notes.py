WHY.update({
'C01': 'Tiling and totality are about every text; the tests tokenize some dozens, all ASCII or nearly so. A slice off a character boundary, a token of length zero or a lost break shows only at particular neighbouring tokens.',
'C02': 'The lexical forms overlap (`?` and `?::`, `-` and `->` and numbers, `&` and entities), so an error shows only for particular second and third characters, at the end of the text, or with multi-byte characters.',
'C03': 'A position may fall anywhere in any text; errors of one show only after tabs, multi-byte characters or at the end of the last line.',
'C04': 'The counts must be right for every sequence of reports at every level; tests look at single reports.',
'C05': 'The bijection must survive every history of interning, in every case and with every Unicode string.',
'C06': 'The normal form must hold for every way of combining items, in any nesting; tests compare particular results.',
'C07': 'Block, inline and empty are defined by recursion over HTML of any depth, and the table of block names is long; a test samples a few tags.',
'C08': 'The wrapping is a state machine over sequences of items of any length and mixture, for each kind of content.',
'C09': 'Escaping must be right for every character and every nesting; a test samples a few.',
'C10': 'Types and values nest without bound, and the lattice laws relate every pair of types.',
'C11': 'Coercion recurses through lists and dicts of any size and depth; an error shows only for mixtures of items which need coercion and ones which do not.',
'C12': 'Positions are any 64-bit integers and slices nest; the boundaries and the slices of slices are what tests miss.',
'C13': 'Stability, order of the callbacks and errors half way are about lists of any length and callbacks of any behaviour.',
'C14': 'Overflow happens at a few of 2^64 (or 2^128) inputs.',
'C15': 'Distinctness is about histories: a clash needs an earlier ID which looks like a numbered one, or truncation at the maximum length.',
'C16': 'Containment is about every base and every path, including `..` in either and relative bases; and about histories of writes.',
'C17': 'Signatures and calls combine without limit: positional, named, spread, implicit, default and content, in any number and order.',
'C18': 'The bound arguments may be split over any number of steps and shared by any number of later calls.',
'C19': 'Scopes are shared, nested and captured; an error needs a particular nesting of closures, implicits and branches.',
'C20': 'Imports nest and repeat without limit, under many spellings, with failures in the middle.',
'C21': 'The text is anything at all, in any language; a lost or doubled character shows only at particular neighbouring ranges, indentations or links.',
'C22': 'Patterns and values nest without bound, and spreads, or-patterns and optional entries interact.',
'C23': 'There are 2^32 codes and two thousand named entities; tests sample a few.',
'C24': 'Types nest without bound; the text must be read back as the same type.',
'C25': 'no contract within reach states it: panic freedom of the whole parser and evaluator needs every function under contract, and most of them use closures over `&mut`, trait objects, `Rc` graphs and regular expressions which Verus does not accept. The panics which belong to other properties (indexing, arithmetic, slicing at byte positions, unwraps) are obligations of their units, and every search treats a panic as a violation.',
'C26': 'no contract within reach decides it: termination of the mutually recursive parser and evaluator would need `decreases` clauses on functions which Verus does not accept. Loops and recursive functions under contract for other properties have `decreases` clauses there.',
})
WHY.update({'C27': 'Any sequence of tokens may be text, and the substitutions depend on what stands next to each other in a run of it.', 'C28': 'Attributes of four forms combine in any number and order, tags nest without bound, and what closes a tag depends on its name.'})
CAUGHT.update({})
WHY['C29'] = 'The rules are about every pair of parameters or arguments, in lists of any length, and the counts which the compiler uses must agree with the order of what was read.'
WHY['C30'] = 'Each of these functions is about every value, text or dict, and resolution is recursive over chains of any length; a test samples single calls.'
WHY['C31'] = 'Patterns are a recursive grammar with lists of any length; a test samples single patterns, the contracts are about every queue of tokens.'
WHY['C32'] = 'Expressions nest to any depth, and how far a group, a path or `...` reaches depends on every token after it; a test evaluates single examples.'
WHY['C33'] = 'The value a name is exported with depends on every declaration before it and on errors in between; the contracts give it for all documents, tests look at one or two exports.'

"""The parser's queue of tokens, and what is read from it up to a closing
token. The next token is the last of the queue."""
from vx import Unit
from contracts.liblex import TOKEN

B = 'src/parser/base.rs'
Q = 'src/parser/queue.rs'
PI = "^impl < 'a > Parser < 'a >$"

TOKENS = r'''
#[derive(Clone, Copy)] struct SourceFileID { n: u64 }
struct AlreadyReported { e: u8 }
type Reported<T> = Result<T, AlreadyReported>;
/// The source, the tokens which are still to be read, the next one last, and the number of errors.
struct Parser { src: Src, tokens: Vec<Token>, errors: Ghost<nat> }
struct Src { x: u64 }
impl Src { #[verifier::external_body] fn eof_range(&self) -> SourceRange { unimplemented!() } }
/// The text at a range of the source.
uninterp spec fn span(src: Src, r: SourceRange) -> Seq<char>;
#[verifier::external_body] fn append(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body] fn owned(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body] fn ice<T>() -> (r: T) requires false { unimplemented!() }
spec fn is_ws(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0C' }
/// What the tokenizer promises of each token: no comments (C01), and closing tags and names with a sigil have their form (C02).
spec fn is_ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
spec fn close_form(s: Seq<char>) -> bool { s.len() >= 3 && s[0] == '<' && s[1] == '/' && s.last() == '>' && is_ascii(s) }
spec fn sigil_form(s: Seq<char>) -> bool { s.len() >= 2 && (s[0] == '$' || s[0] == '@') }
spec fn good(src: Src, t: Token) -> bool { t.kind != TokenKind::Comment && (t.kind == TokenKind::CloseTag ==> close_form(span(src, t.range))) && (t.kind == TokenKind::VarName || t.kind == TokenKind::FuncName ==> sigil_form(span(src, t.range))) && (t.kind == TokenKind::Name ==> span(src, t.range).len() > 0) }
spec fn clean(src: Src, st: Seq<Token>) -> bool { forall|i: int| 0 <= i < st.len() ==> good(src, #[trigger] st[i]) }
proof fn lemma_clean(src: Src, st: Seq<Token>, k: int) requires clean(src, st), 0 <= k <= st.len() ensures clean(src, st.take(k)) {
    assert forall|i: int| 0 <= i < k implies good(src, #[trigger] st.take(k)[i]) by { assert(good(src, st[i])); }
}
/// White space at the start is skipped.
spec fn space(t: Token) -> bool { t.kind == TokenKind::Whitespace || t.kind == TokenKind::Newline }
spec fn skipped(st: Seq<Token>) -> Seq<Token> { if st.len() > 0 && space(st.last()) { st.drop_last() } else { st } }
/// What the parser takes from the tokens: some from the front, never its source.
spec fn reads(a: Parser, b: Parser) -> bool { b.src == a.src && b.tokens@.len() <= a.tokens@.len() && b.tokens@ == a.tokens@.take(b.tokens@.len() as int) && b.errors@ >= a.errors@ }
mod reading {
    use super::*;
    pub(crate) broadcast proof fn lemma_reads(a: Parser, b: Parser, c: Parser) requires #[trigger] reads(a, b), #[trigger] reads(b, c) ensures reads(a, c) { let n = c.tokens@.len() as int; assert(b.tokens@.take(n) =~= a.tokens@.take(n)); }
    pub(crate) broadcast proof fn lemma_reads_clean(a: Parser, b: Parser) requires #[trigger] reads(a, b), clean(a.src, a.tokens@) ensures clean(b.src, b.tokens@) { lemma_clean(a.src, a.tokens@, b.tokens@.len() as int); }
    pub(crate) broadcast group group_reads { lemma_reads, lemma_reads_clean }
}
proof fn lemma_reads_self(a: Parser) ensures reads(a, a) { assert(a.tokens@.take(a.tokens@.len() as int) =~= a.tokens@); }
'''
SHIMS = r'''
    #[verifier::external_body] fn tok_str(&self, t: Token) -> (r: &str) ensures r@ == span(self.src, t.range) { unimplemented!() }
    #[verifier::external_body] fn report<E>(&mut self, e: E, range: SourceRange) -> (r: AlreadyReported) ensures final(self).src == old(self).src, final(self).tokens == old(self).tokens, final(self).errors@ == old(self).errors@ + 1, reads(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body] fn err_unmatched(&mut self, t: Token) -> AlreadyReported ensures final(self).src == old(self).src, final(self).tokens == old(self).tokens, final(self).errors@ == old(self).errors@ + 1, reads(*old(self), *final(self)) { unimplemented!() }
'''
# needs: Node, node_view(AST) -> Node, space_node(Node), node_of(Src, Token, Seq<Token>) -> Option<(Node, Seq<Token>)>, strict()
NODES = r'''
ghost struct Nodes { nodes: Seq<Node>, end: Option<Token>, rest: Seq<Token> }
spec fn nodes_view(ns: Seq<AST>) -> Seq<Node> { ns.map_values(|n: AST| node_view(n)) }
/// The nodes up to a token which ends them.
spec fn node_list(src: Src, acc: Seq<Node>, st: Seq<Token>, stop: spec_fn(Token) -> bool) -> Option<Nodes> decreases st.len() {
    if st.len() == 0 { Some(Nodes { nodes: acc, end: None, rest: st }) }
    else if stop(st.last()) { Some(Nodes { nodes: acc, end: Some(st.last()), rest: st.drop_last() }) }
    else { match node_of(src, st.last(), st.drop_last()) { Some(x) => if x.1.len() < st.len() { node_list(src, acc.push(x.0), x.1, stop) } else { None }, None => None } }
}
/// White space at the end is not part of it.
spec fn trimmed(ns: Seq<Node>) -> Seq<Node> decreases ns.len() { if ns.len() > 0 && space_node(ns.last()) { trimmed(ns.drop_last()) } else { ns } }
proof fn lemma_never(src: Src, acc: Seq<Node>, st: Seq<Token>) ensures node_list(src, acc, st, never()) matches Some(x) ==> x.end is None && x.rest.len() == 0 decreases st.len() {
    if st.len() > 0 { if let Some(x) = node_of(src, st.last(), st.drop_last()) { if x.1.len() < st.len() { lemma_never(src, acc.push(x.0), x.1); } } }
}
spec fn never() -> spec_fn(Token) -> bool { |t: Token| false }
'''
NAMES = r'''
#[derive(Clone, Copy, PartialEq, Eq, Structural)] struct NameID { n: u32 }
uninterp spec fn anonymous() -> NameID;
#[verifier::external_body] fn id_anonymous() -> (r: NameID) ensures r == anonymous() { unimplemented!() }
impl NameID { #[verifier::external_body] fn is_anonymous(self) -> (r: bool) ensures r == (self == anonymous()) { unimplemented!() } }
/// The names of the string pool (C05).
uninterp spec fn id_of(s: Seq<char>) -> NameID;
uninterp spec fn name_text(id: NameID) -> Seq<char>;
uninterp spec fn lowercase(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] fn boxed<T>(v: Vec<T>) -> (r: Box<[T]>) ensures r@ == v@ { v.into_boxed_slice() }
#[verifier::external_body] fn boxed_none<T>() -> (r: Box<[T]>) ensures r@.len() == 0 { Box::from([]) }
#[verifier::external_body] struct NameIDSet { s: u64 }
impl View for NameIDSet { type V = Set<NameID>; uninterp spec fn view(&self) -> Set<NameID>; }
impl NameIDSet {
    #[verifier::external_body] fn default() -> (r: NameIDSet) ensures r@ == Set::<NameID>::empty() { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, n: NameID) -> (r: bool) ensures final(self)@ == old(self)@.insert(n), r == !old(self)@.contains(n) { unimplemented!() }
    #[verifier::external_body] fn contains(&self, n: &NameID) -> (r: bool) ensures r == self@.contains(*n) { unimplemented!() }
}
'''
SAME = 'final(self).src == old(self).src'
QUIET = 'final(self).errors@ == old(self).errors@'


def token_types(u):
    u.text('use std::rc::Rc;')
    for k in ('VerbatimKind', 'Keyword', 'QuoteKind', 'QuoteDir', 'TokenKind'):
        u.item(TOKEN, 'enum', k, attrs='#[derive(Clone, Copy, PartialEq, Eq, Structural)]')
    u.item('src/utils/sourcefile.rs', 'struct', 'SourceRange', attrs='#[derive(Clone, Copy)]')
    u.item(TOKEN, 'struct', 'Token', attrs='#[derive(Clone, Copy)]')
    u.text(TOKENS)
    u.default_subs = [('self . ice_at ( $x )', 'ice()'), ('_self . ice_at ( $x )', 'ice()')]
    u.text('impl SourceRange {')
    u.fn('src/utils/sourcefile.rs', 'to_end', impl='^impl SourceRange$').ensures('r == (SourceRange { src_id: self.src_id, start: self.start, end })')
    u.text('} impl Token {')
    u.fn(TOKEN, 'is_whitespace', impl='^impl Token$').ensures('r == space(*self)')
    u.text('}')


def queue(u, names=('poll', 'poll_if', 'has_next', 'skip_whitespace', 'poll_if_kind', 'expect_poll', 'expect_poll_kind')):
    """Within `impl Parser {`."""
    u.text(SHIMS)
    START = 'proof { lemma_reads_self(*self); let t = self.tokens@; if t.len() > 0 { assert(t.take(t.len() - 1) =~= t.drop_last()); } }'
    if 'poll' in names:
        f = u.fn(Q, 'poll', impl=PI)
        f.ensures(SAME, QUIET, 'match r { Some(t) => old(self).tokens@.len() > 0 && t == old(self).tokens@.last() && final(self).tokens@ == old(self).tokens@.drop_last(), None => old(self).tokens@.len() == 0 && final(self).tokens@ == old(self).tokens@ }', 'reads(*old(self), *final(self))')
        f.start(START)
    if 'poll_if' in names:
        f = u.fn(Q, 'poll_if', impl=PI)
        f.sub('mut predicate : impl FnMut ( & Parser , Token ) -> bool', 'predicate: impl Fn(&Parser, Token) -> bool', 1)
        f.sub('Some ( tok ) if $c => $e , _ => $d', 'Some(tok) => { let tok = *tok; let ok = { let tok = &tok; $c }; if ok { $e } else { $d } }, _ => $d', 0)
        f.requires('forall|p: &Parser, t: Token| predicate.requires((p, t))')
        f.ensures(SAME, QUIET, 'reads(*old(self), *final(self))', '''match r {
            Some(t) => old(self).tokens@.len() > 0 && t == old(self).tokens@.last() && final(self).tokens@ == old(self).tokens@.drop_last() && predicate.ensures((&*old(self), t), true),
            None => final(self).tokens@ == old(self).tokens@ && (old(self).tokens@.len() > 0 ==> predicate.ensures((&*old(self), old(self).tokens@.last()), false)),
        }''')
        f.start(START)
    if 'has_next' in names:
        f = u.fn(Q, 'has_next', impl=PI)
        f.sub('mut predicate : impl FnMut ( Token ) -> bool', 'predicate: impl Fn(Token) -> bool', 1).sub('matches ! ( $x , Some ( tok ) if $c )', '(match $x { Some(tok) => $c, None => false })', 0)
        f.requires('forall|t: Token| predicate.requires((t,))')
        f.ensures('*final(self) == *old(self)', 'if old(self).tokens@.len() == 0 { !r } else { predicate.ensures((old(self).tokens@.last(),), r) }')
    if 'skip_whitespace' in names:
        f = u.fn(Q, 'skip_whitespace', impl=PI)
        f.sub('| _self , t | $x )', '|_self: &Parser, t: Token| -> (r: bool) ensures r == space(t) { $x })', 1)
        f.ensures(SAME, QUIET, 'final(self).tokens@ == skipped(old(self).tokens@)', 'reads(*old(self), *final(self))')
    TOOK = 'match r { Some(t) => old(self).tokens@.len() > 0 && t == old(self).tokens@.last() && t.kind == kind && final(self).tokens@ == old(self).tokens@.drop_last(), None => final(self).tokens@ == old(self).tokens@ && !(old(self).tokens@.len() > 0 && old(self).tokens@.last().kind == kind) }'
    if 'poll_if_kind' in names:
        f = u.fn(Q, 'poll_if_kind', impl=PI)
        f.sub('| _self , tok | $x )', '|_self: &Parser, tok: Token| -> (r: bool) ensures r == (tok.kind == kind) { $x })', 1)
        f.ensures(SAME, QUIET, TOOK, 'reads(*old(self), *final(self))')
    if 'expect_poll' in names:
        f = u.fn(Q, 'expect_poll', impl=PI)
        f.sub('self . poll ( ) . ok_or_else ( | | $e )', '(match self.poll() { Some(t) => Ok(t), None => { let range = self.src.eof_range(); Err($e) } })', 1).sub('self . report ( $e , self . src . eof_range ( ) )', 'self.report($e, range)', 0)
        f.ensures(SAME, 'reads(*old(self), *final(self))', 'match r { Ok(t) => old(self).tokens@.len() > 0 && t == old(self).tokens@.last() && final(self).tokens@ == old(self).tokens@.drop_last() && ' + QUIET + ', Err(_) => old(self).tokens@.len() == 0 && final(self).tokens@ == old(self).tokens@ && final(self).errors@ > old(self).errors@ }')
        f.start(START)
    if 'expect_poll_kind' in names:
        f = u.fn(Q, 'expect_poll_kind', impl=PI)
        f.sub('match self . tokens . last ( ) { Some ( tok ) if $c => { $e } , _ => $d , }', 'match self.tokens.last() { Some(tok) => { let tok = *tok; if $c { $e } else { $d } }, _ => $d, }', 0)
        f.ensures(SAME, 'reads(*old(self), *final(self))', 'match r { Ok(t) => old(self).tokens@.len() > 0 && t == old(self).tokens@.last() && t.kind == kind && final(self).tokens@ == old(self).tokens@.drop_last() && ' + QUIET + ', Err(_) => !(old(self).tokens@.len() > 0 && old(self).tokens@.last().kind == kind) && final(self).tokens@ == old(self).tokens@ && final(self).errors@ > old(self).errors@ }')
        f.start(START)


def nodes_until(u):
    """parse_nodes_until, within `impl Parser {`, after parse_node."""
    f = u.fn(B, 'parse_nodes_until', impl=PI)
    f.sub('closer : impl Fn ( & Parser , Token ) -> bool', 'closer: impl Fn(&Parser, Token) -> bool, Ghost(stop): Ghost<spec_fn(Token) -> bool>', 1)
    f.sub('let end = loop {', 'let end: Option<Token>; loop {', 1).sub('break None', '{ end = None; break }', 0).sub('break Some ( tok )', '{ end = Some(tok); break }', 0)
    f.sub('while matches ! ( nodes . last ( ) , Some ( node ) if $c ) {', 'while (match nodes.last() { Some(node) => $c, None => false }) {', 0)
    CL = ['forall|p: &Parser, t: Token| p.src == old(self).src && good(p.src, t) ==> #[trigger] closer.requires((p, t))', 'forall|p: &Parser, t: Token, b: bool| p.src == old(self).src && good(p.src, t) && #[trigger] closer.ensures((p, t), b) ==> b == stop(t)']
    f.requires('clean(old(self).src, old(self).tokens@)', *CL)
    N = 'node_list(old(self).src, Seq::empty(), skipped(old(self).tokens@), stop)'
    f.ensures('reads(*old(self), *final(self))', f'{N} matches Some(x) ==> nodes_view(r.0@) == trimmed(x.nodes) && r.1 == x.end && final(self).tokens@ == x.rest',
              f'strict() ==> match {N} {{ Some(_) => {QUIET}, None => final(self).errors@ > old(self).errors@ }}', 'match r.1 { Some(t) => stop(t), None => final(self).tokens@.len() == 0 }')
    BOTH = ['reads(*old(self), *self)']
    ERR = f'strict() ==> match {N} {{ Some(_) => self.errors@ == old(self).errors@, None => self.errors@ > old(self).errors@ }}'
    f.loop(0, except_break=['clean(self.src, self.tokens@)', f'{N} is Some ==> {N} == node_list(self.src, nodes_view(nodes@), self.tokens@, stop)', f'strict() ==> self.errors@ == old(self).errors@ && {N} == node_list(self.src, nodes_view(nodes@), self.tokens@, stop) || self.errors@ > old(self).errors@ && {N} is None'],
           invariant=CL + BOTH,
           ensures=[f'{N} matches Some(x) ==> x == (Nodes {{ nodes: nodes_view(nodes@), end, rest: self.tokens@ }})', 'match end { Some(t) => stop(t), None => self.tokens@.len() == 0 }', ERR], decreases='self.tokens@.len()')
    f.loop(1, invariant=BOTH + [ERR, 'match end { Some(t) => stop(t), None => self.tokens@.len() == 0 }', f'{N} matches Some(x) ==> trimmed(x.nodes) == trimmed(nodes_view(nodes@)) && x.end == end && self.tokens@ == x.rest'], decreases='nodes@.len()')
    f.start('broadcast use reading::group_reads; proof { lemma_reads_self(*self); }')
    f.before('let end', 'proof { assert(nodes_view(nodes@) =~= Seq::<Node>::empty()); lemma_reads_self(*self); }')
    f.loop_start(0, 'let ghost p1 = *self; let ghost n1 = nodes@;')
    f.before('if closer', 'let ghost p2 = *self; proof { assert(good(p1.src, p1.tokens@.last())); reading::lemma_reads(*old(self), p1, p2); reading::lemma_reads_clean(p1, p2); }')
    f.loop_end(0, 'proof { reading::lemma_reads(*old(self), p2, *self); if nodes@.len() > n1.len() { assert(nodes_view(nodes@) =~= nodes_view(n1).push(node_view(nodes@.last()))); } }')
    f.loop_start(1, 'let ghost n1 = nodes@;')
    f.loop_end(1, 'proof { assert(nodes_view(n1).drop_last() =~= nodes_view(nodes@)); assert(nodes_view(n1).last() == node_view(n1.last())); }')
    return f


def outcome(spec, value):
    """`spec` is what is read without an error."""
    return f'match {spec} {{ Some(x) => {value} && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ }}'


def poll_if_spread(u):
    f = u.fn('src/parser/func.rs', 'poll_if_spread', impl=PI)
    f.sub('| _self , t | matches ! ( $x , $p ) )', '|_self: &Parser, t: Token| -> (r: bool) ensures r == (t.kind == TokenKind::Asterisk || t.kind == TokenKind::DoubleAsterisk) { match $x { $p => true, _ => false } })', 0)
    f.ensures('reads(*old(self), *final(self))', '''({ let st = old(self).tokens@; if st.len() > 0 && (st.last().kind == TokenKind::Asterisk || st.last().kind == TokenKind::DoubleAsterisk) {
        final(self).tokens@ == st.drop_last() && r.1 == Some(st.last().range) && if if st.last().kind == TokenKind::Asterisk { allow_pos } else { allow_named } { r.0 == (if st.last().kind == TokenKind::Asterisk { SpreadKind::Positional } else { SpreadKind::Named }) && final(self).errors@ == old(self).errors@ } else { r.0 == SpreadKind::NoSpread && final(self).errors@ > old(self).errors@ }
    } else { r.0 == SpreadKind::NoSpread && r.1 is None && final(self).tokens@ == old(self).tokens@ && final(self).errors@ == old(self).errors@ } })''')
    f.start('broadcast use reading::group_reads; proof { lemma_reads_self(*self); }')

"""C27: plain text comes out as it is written, with the declared substitutions."""
from vx import Unit
from contracts.libparse import *
from contracts.c23 import AST, TXT
from contracts.c01 import tokenize

SUBS = r'''
enum MatchKind { Standard, LeftmostFirst, LeftmostLongest }
struct AhoCorasickBuilder { kind: MatchKind }
struct AhoCorasick { kind: Ghost<MatchKind>, pats: Ghost<Seq<Seq<char>>> }
spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && s.take(p.len() as int) == p }
spec fn texts(a: Seq<&str>) -> Seq<Seq<char>> { a.map_values(|p: &str| p@) }
/// The longest pattern, from the n-th on, which s starts with.
spec fn longest(pats: Seq<Seq<char>>, n: int, s: Seq<char>) -> Option<int> decreases pats.len() - n {
    if n < 0 || n >= pats.len() { None } else { match longest(pats, n + 1, s) {
        Some(k) => if starts(s, pats[n]) && pats[n].len() >= pats[k].len() { Some(n) } else { Some(k) },
        None => if starts(s, pats[n]) { Some(n) } else { None },
    } }
}
/// From left to right, each longest occurrence of a pattern is replaced.
spec fn replaced(pats: Seq<Seq<char>>, reps: Seq<Seq<char>>, s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { s } else { match longest(pats, 0, s) {
        Some(k) => if 0 < pats[k].len() <= s.len() { reps[k] + replaced(pats, reps, s.skip(pats[k].len() as int)) } else { s },
        None => seq![s[0]] + replaced(pats, reps, s.skip(1)),
    } }
}
impl AhoCorasickBuilder {
    #[verifier::external_body] fn new() -> (r: AhoCorasickBuilder) ensures r.kind == MatchKind::Standard { unimplemented!() }
    #[verifier::external_body] fn match_kind(self, kind: MatchKind) -> (r: AhoCorasickBuilder) ensures r.kind == kind { unimplemented!() }
    #[verifier::external_body] fn build<const N: usize>(self, pats: [&'static str; N]) -> (r: AhoCorasick) ensures r.kind@ == self.kind, r.pats@ == texts(pats@) { unimplemented!() }
}
impl AhoCorasick {
    #[verifier::external_body]
    fn replace_all(&self, s: &str, reps: &[&str]) -> (r: String)
        requires reps@.len() == self.pats@.len(), forall|i: int| 0 <= i < self.pats@.len() ==> (#[trigger] self.pats@[i]).len() > 0,
        ensures self.kind@ == MatchKind::LeftmostLongest ==> r@ == replaced(self.pats@, texts(reps@), s@),
    { unimplemented!() }
}
/// What is written, and what it stands for.
spec fn written() -> Seq<Seq<char>> {
    seq![seq!['-', '0'], seq!['-', '1'], seq!['-', '2'], seq!['-', '3'], seq!['-', '4'], seq!['-', '5'], seq!['-', '6'], seq!['-', '7'], seq!['-', '8'], seq!['-', '9'],
        seq!['-', '-', '-'], seq!['-', '-'], seq!['<', '-', '>'], seq!['<', '-'], seq!['-', '>'], seq!['!', '='], seq!['<', '='], seq!['>', '='], seq!['+', '/', '-'], seq!['(', 'c', ')'], seq!['~']]
}
spec fn meant() -> Seq<Seq<char>> {
    seq![seq!['\u{2212}', '0'], seq!['\u{2212}', '1'], seq!['\u{2212}', '2'], seq!['\u{2212}', '3'], seq!['\u{2212}', '4'], seq!['\u{2212}', '5'], seq!['\u{2212}', '6'], seq!['\u{2212}', '7'], seq!['\u{2212}', '8'], seq!['\u{2212}', '9'],
        seq!['\u{2014}'], seq!['\u{2013}'], seq!['\u{2194}'], seq!['\u{2190}'], seq!['\u{2192}'], seq!['\u{2260}'], seq!['\u{2264}'], seq!['\u{2265}'], seq!['\u{B1}'], seq!['\u{A9}'], seq!['\u{A0}']]
}
spec fn substituted(s: Seq<char>) -> Seq<char> { replaced(written(), meant(), s) }
/// The order in which they are declared makes no difference: no two are the same.
proof fn lemma_distinct() ensures forall|i: int, j: int| 0 <= i < j < written().len() ==> #[trigger] written()[i] != #[trigger] written()[j] {
    assert forall|i: int, j: int| 0 <= i < j < written().len() implies #[trigger] written()[i] != #[trigger] written()[j] by {
        let a = written()[i]; let b = written()[j];
        if a.len() == b.len() { assert(a[0] != b[0] || a[1] != b[1] || a.len() == 3); }
    }
}
'''


def same(name, spec):
    return f'proof {{ {name} }}'


def literals(toks):
    return [t.s for t in toks if t.k == 'str']


def lit_chars(s):
    """The characters of a Rust string literal."""
    import re
    body = s[1:-1]
    out = []
    for m in re.finditer(r'\\u\{([0-9a-fA-F_]+)\}|\\(.)|(.)', body):
        out.append(chr(int(m.group(1).replace('_', ''), 16)) if m.group(1) else {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}.get(m.group(2), m.group(2)) if m.group(2) else m.group(3))
    return out


def reveal(lits):
    out = []
    for s in dict.fromkeys(lits):
        cs = ', '.join("'\\u{%x}'" % ord(c) for c in lit_chars(s))
        out.append(f'reveal_strlit({s}); assert({s}@ =~= seq![{cs}]);')
    return ' '.join(out)


def substitution():
    u = Unit('substitution')
    u.text(SUBS)
    from vx import lex
    s = u.item(TXT, 'static', 'TEXT_SUBS', place=False, subs=[
        ('static TEXT_SUBS : Lazy < AhoCorasick > = Lazy :: new ( | | $e ) ;', 'fn text_subs() -> (r: AhoCorasick) ensures r.kind@ == MatchKind::LeftmostLongest, r.pats@ =~= written() { proof { REVEAL } $e }')])
    pats = literals(lex(s))
    s = s.replace('REVEAL', reveal(pats) + f' assert(texts(seq![{", ".join(pats)}]) =~= written());')
    u.text(s)
    f = u.fn(TXT, 'substitutions')
    reps = literals(f.toks)
    f.sub('TEXT_SUBS .', 'text_subs().', 1)
    f.ensures('r@ =~= substituted(s@)')
    f.start('proof { ' + reveal(reps) + f' assert(texts(seq![{", ".join(reps)}]) =~= meant()); lemma_distinct(); }}')
    return u


TEXT = r'''
struct Export { x: u64 } struct FuncDef { x: u64 } struct Expr { x: u64 }
/// The text of substitutions (unit substitution).
uninterp spec fn substituted(s: Seq<char>) -> Seq<char>;
#[verifier::external_body] fn substitutions(s: &String) -> (r: String) ensures r@ == substituted(s@) { unimplemented!() }
#[verifier::external_body] fn rc_from(s: String) -> (r: Rc<str>) ensures r@ == s@ { unimplemented!() }
/// The character of an escape or an entity (C23).
uninterp spec fn char_of(src: Src, t: Token) -> char;
#[verifier::external_body] fn ascii_whitespace(c: &char) -> (r: bool) ensures r == is_ws(*c) { c.is_ascii_whitespace() }
/// What a token is shown as, if it is text: itself, an ellipsis, a quotation mark in its direction, or a word joiner.
spec fn shown(src: Src, t: Token) -> Option<Seq<char>> {
    match t.kind {
        TokenKind::Name | TokenKind::Number | TokenKind::Boolean(_) | TokenKind::LPar | TokenKind::RPar | TokenKind::LAngle | TokenKind::RAngle | TokenKind::Ampersand | TokenKind::Arrow
        | TokenKind::Asterisk | TokenKind::Colon | TokenKind::Comma | TokenKind::Dot | TokenKind::DoubleAsterisk | TokenKind::DoubleColon | TokenKind::Equals | TokenKind::ExclamationMark
        | TokenKind::QuestionMark | TokenKind::QuestionMarkDoubleColon | TokenKind::Underscore | TokenKind::RawText => Some(span(src, t.range)),
        TokenKind::Ellipsis => Some(seq!['\u{2026}']),
        TokenKind::Quote(QuoteKind::Single, QuoteDir::Left) => Some(seq!['\u{2018}']),
        TokenKind::Quote(QuoteKind::Single, QuoteDir::Right) => Some(seq!['\u{2019}']),
        TokenKind::Quote(QuoteKind::Double, QuoteDir::Left) => Some(seq!['\u{201C}']),
        TokenKind::Quote(QuoteKind::Double, QuoteDir::Right) => Some(seq!['\u{201D}']),
        TokenKind::Bar => Some(seq!['\u{2060}']),
        _ => None,
    }
}
/// Text goes on with this token; a `<` starts a new text or a tag.
spec fn continues(src: Src, t: Token) -> bool { t.kind != TokenKind::LAngle && shown(src, t) is Some }
ghost struct Text { text: Seq<char>, end: u32, rest: Seq<Token> }
/// The text, and where it ends, when these tokens follow.
spec fn text_run(src: Src, text: Seq<char>, end: u32, st: Seq<Token>) -> Text decreases st.len() {
    if st.len() > 0 && continues(src, st.last()) { text_run(src, text + shown(src, st.last())->0, st.last().range.end, st.drop_last()) } else { Text { text, end, rest: st } }
}
/// A node of the syntax tree which comes from plain text.
ghost enum Node { Text(Seq<char>, SourceRange), Char(char, SourceRange), Space(SourceRange), Break(SourceRange), Other }
spec fn node_view(n: AST) -> Node {
    match n { AST::Text(s, r) => Node::Text(s@, r), AST::Char(c, r) => Node::Char(c, r), AST::Whitespace(r) => Node::Space(r), AST::ParagraphBreak(r) => Node::Break(r), _ => Node::Other }
}
/// A `<` before a name, a variable or an exclamation mark opens a tag.
spec fn opens_tag(t: Token, st: Seq<Token>) -> bool { t.kind == TokenKind::LAngle && st.len() > 0 && (st.last().kind == TokenKind::Name || st.last().kind == TokenKind::VarName || st.last().kind == TokenKind::ExclamationMark) }
/// The node which starts with this token, and the tokens after it; none if it is not plain text.
spec fn node_of(src: Src, t: Token, st: Seq<Token>) -> Option<(Node, Seq<Token>)> {
    match t.kind {
        TokenKind::Whitespace => Some((Node::Space(t.range), st)),
        TokenKind::Newline => Some((Node::Break(t.range), st)),
        TokenKind::Escape | TokenKind::Entity => Some((Node::Char(char_of(src, t), t.range), st)),
        _ => if opens_tag(t, st) { None } else { match shown(src, t) {
            Some(s) => { let x = text_run(src, s, t.range.end, st); Some((Node::Text(substituted(x.text), SourceRange { src_id: t.range.src_id, start: t.range.start, end: x.end }), x.rest)) },
            None => None,
        } },
    }
}
spec fn space_node(n: Node) -> bool { n is Space || n is Break || (n matches Node::Char(c, _) && is_ws(c)) }
spec fn strict() -> bool { false }
'''

CHARS = r'''
    #[verifier::external_body] fn unescape_char(&mut self, t: Token) -> (r: char) requires t.kind == TokenKind::Escape ensures r == char_of(old(self).src, t), final(self).src == old(self).src, final(self).tokens == old(self).tokens, final(self).errors@ >= old(self).errors@ { unimplemented!() }
    #[verifier::external_body] fn decode_entity(&mut self, t: Token) -> (r: char) requires t.kind == TokenKind::Entity ensures r == char_of(old(self).src, t), final(self).src == old(self).src, final(self).tokens == old(self).tokens, final(self).errors@ >= old(self).errors@ { unimplemented!() }
'''


def parser():
    u = Unit('parser')
    token_types(u)
    u.item(AST, 'enum', 'AST')
    u.text(TEXT + NODES + 'impl AST {')
    f = u.fn(AST, 'is_whitespace', impl='^impl AST$')
    f.sub('c . is_ascii_whitespace ( )', 'ascii_whitespace(c)', 0)
    f.ensures('r == space_node(node_view(*self))')
    u.text('} impl Parser {' + CHARS)
    queue(u, ('poll', 'poll_if', 'has_next', 'skip_whitespace'))
    f = u.fn(TXT, 'token_text', impl=PI)
    f.ensures('match shown(self.src, tok) { Some(s) => r is Some && (r->0)@ =~= s, None => r is None }')
    f.start('proof { ' + reveal(literals(f.toks)) + ' }')
    # text
    f = u.fn(TXT, 'parse_text', impl=PI)
    # poll_if with a predicate which writes to `text`: its definition, in place
    f.sub('while let Some ( tok ) = self . poll_if ( | _self , tok | match $m { $arms } ) { $body }',
          'loop { let tok = match self.tokens.last() { Some(tok) => { let tok = *tok; let accepts = { let _self = &*self; match $m { $arms } }; if accepts { self.poll() } else { None } }, _ => None }; let tok = match tok { Some(tok) => tok, None => { break; } }; $body }', 1)
    f.sub('text += t ; true', 'append(&mut text, t); true', 0).sub('self . token_text ( $x ) . unwrap_or_else ( | | $e ) . to_string ( )', '(match self.token_text($x) { Some(s) => owned(s), None => $e })', 1)
    f.sub('Rc :: from ( $x )', 'rc_from($x)', 0)
    f.requires('shown(old(self).src, first_token) is Some')
    W = 'text_run(old(self).src, shown(old(self).src, first_token)->0, first_token.range.end, old(self).tokens@)'
    f.ensures(SAME, 'reads(*old(self), *final(self))', f'final(self).tokens@ == {W}.rest', f'node_view(r) == Node::Text(substituted({W}.text), SourceRange {{ src_id: first_token.range.src_id, start: first_token.range.start, end: {W}.end }})')
    KEEP = ['reads(*old(self), *self)', 'range.start == first_token.range.start', 'range.src_id == first_token.range.src_id']
    f.loop(0, except_break=[f'{W} == text_run(self.src, text@, range.end, self.tokens@)'], invariant=KEEP,
           ensures=[f'{W} == (Text {{ text: text@, end: range.end, rest: self.tokens@ }})'], decreases='self.tokens@.len()')
    f.start('broadcast use reading::group_reads; proof { lemma_reads_self(*self); }')
    f.loop_start(0, 'let ghost p1 = *self;')
    f.loop_end(0, 'proof { reading::lemma_reads(*old(self), p1, *self); }')
    # nodes
    for name, extra, t in [('parse_export', '', 'Export'), ('parse_func_def', ', b: bool', 'FuncDef'), ('parse_expr_tok', '', 'Expr'), ('parse_tag', '', 'Expr')]:
        u.text(f'#[verifier::external_body] fn {name}(&mut self, tok: Token{extra}) -> Reported<{t}> ensures reads(*old(self), *final(self)) {{ unimplemented!() }}')
    f = u.fn(B, 'parse_node', impl=PI)
    f.sub('self . $i:f ( $x ) . map ( Box :: new ) . map ( $p )', '(match self.$f($x) { Ok(n) => Ok($p(Box::new(n))), Err(e) => Err(e) })', 0)
    f.sub('self . $i:f ( $x ) . map ( $p )', '(match self.$f($x) { Ok(n) => Ok($p(n)), Err(e) => Err(e) })', 0)
    f.sub('| t | matches ! ( $x , $p ) )', '|t: Token| -> (r: bool) ensures r == (t.kind == TokenKind::Name || t.kind == TokenKind::VarName || t.kind == TokenKind::ExclamationMark) { match $x { $p => true, _ => false } })', 0)
    f.requires('good(old(self).src, tok)', 'clean(old(self).src, old(self).tokens@)')
    f.ensures('reads(*old(self), *final(self))', 'node_of(old(self).src, tok, old(self).tokens@) matches Some(x) ==> r is Ok && node_view(r->Ok_0) == x.0 && final(self).tokens@ == x.1')
    f.start('proof { lemma_reads_self(*self); }')
    nodes_until(u)
    f = u.fn(B, 'parse_root', impl=PI)
    f.sub('self . parse_nodes_until ( | _self , _tok | false )', 'self.parse_nodes_until(|_self: &Parser, _tok: Token| -> (r: bool) ensures r == false { false }, Ghost(never()))', 1)
    f.requires('clean(old(self).src, old(self).tokens@)')
    f.ensures('node_list(old(self).src, Seq::empty(), skipped(old(self).tokens@), never()) matches Some(x) ==> nodes_view(r@) == trimmed(x.nodes) && x.end is None')
    f.start('proof { lemma_never(self.src, Seq::empty(), skipped(self.tokens@)); }')
    u.text('}')
    return u


UNITS = [substitution, parser, tokenize]

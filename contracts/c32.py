"""C32: expressions are read and evaluated as they are written."""
import re
from vx import Unit
from contracts.libparse import *
from contracts.c31 import simple

AST = 'src/parser/ast.rs'
V = 'src/compiler/value.rs'
COMP = "^impl < 'a > Compiler < 'a >$"
NODEC = '#[verifier::exec_allows_no_decreases_clause]'

TYPES = r'''
enum SyntaxError { ExportNotAllowed, ExpectedExpr, TokenExpected(TokenKind), TokenExpectedWasEOF(TokenKind), TokenExpectedWas(TokenKind, TokenKind), UnexpectedEOF, UnexpectedToken }
struct FuncCall { range: SourceRange, x: u64 } struct FuncDef { range: SourceRange, x: u64 } struct LetIn { range: SourceRange, x: u64 } struct Match { range: SourceRange, x: u64 } struct Tag { range: SourceRange, x: u64 } struct Export { x: u64 } struct TemplatePart { x: u64 }
#[verifier::external_body] struct Text { x: u64 }
#[verifier::external_body] struct Type { x: u64 }
/// A boxed slice is given by its items.
uninterp spec fn box_of<T>(s: Seq<T>) -> Box<[T]>;
#[verifier::external_body] fn boxed_of<T>(v: Vec<T>) -> (r: Box<[T]>) ensures r@ == v@, r == box_of(v@) { v.into_boxed_slice() }
#[verifier::external_body] fn ascii_space(c: char) -> (r: bool) ensures r == is_ws(c) { c.is_ascii_whitespace() }
impl Export { #[verifier::external_body] fn range(&self) -> (r: SourceRange) ensures r == export_range(*self) { unimplemented!() } }
uninterp spec fn export_range(e: Export) -> SourceRange;
'''
GRAMMAR = r'''
spec fn from_to(a: SourceRange, end: u32) -> SourceRange { SourceRange { src_id: a.src_id, start: a.start, end } }
spec fn next_is(st: Seq<Token>, k: TokenKind) -> bool { st.len() > 0 && st.last().kind == k }
/// The name in a token, without its sigil.
spec fn tok_id(src: Src, t: Token) -> NameID { id_of(if t.kind == TokenKind::Name { span(src, t.range) } else { span(src, t.range).skip(1) }) }
/// What the rest of the parser reads, without an error: calls, definitions and lists (C29), `@match` (C31), tags (C28), strings and characters (C23), text (C27), numbers (C14).
uninterp spec fn call_of(src: Src, t: Token, st: Seq<Token>) -> Option<(FuncCall, Seq<Token>)>;
uninterp spec fn def_of(src: Src, t: Token, allow_anonymous: bool, st: Seq<Token>) -> Option<(FuncDef, Seq<Token>)>;
uninterp spec fn let_of(src: Src, t: Token, is_export: bool, st: Seq<Token>) -> Option<(LetIn, Seq<Token>)>;
uninterp spec fn match_of(src: Src, t: Token, st: Seq<Token>) -> Option<(Match, Seq<Token>)>;
uninterp spec fn list_of(src: Src, t: Token, st: Seq<Token>) -> Option<(Expr, Seq<Token>)>;
uninterp spec fn tag_of(src: Src, t: Token, st: Seq<Token>) -> Option<(Expr, Seq<Token>)>;
uninterp spec fn parts_of(src: Src, t: Token, k: QuoteKind, st: Seq<Token>) -> Option<(Vec<TemplatePart>, SourceRange, Seq<Token>)>;
uninterp spec fn export_of(src: Src, t: Token, st: Seq<Token>) -> Option<(Export, Seq<Token>)>;
uninterp spec fn text_of(src: Src, t: Token, st: Seq<Token>) -> Option<(AST, Seq<Token>)>;
uninterp spec fn char_of(src: Src, t: Token) -> Option<char>;
uninterp spec fn number_of(s: Seq<char>) -> Option<i64>;
type Read = Option<(Expr, Seq<Token>)>;

spec fn name_range(n: Name) -> SourceRange { match n { Name::Simple(x) => x.range, Name::Index(x) => x.range, Name::Attr(x) => x.range } }
/// An attribute or an index of what is before it, from left to right.
spec fn chain_of(src: Src, n: Name, st: Seq<Token>) -> Option<(Name, Seq<Token>)> decreases st.len() {
    if !(next_is(st, TokenKind::DoubleColon) || next_is(st, TokenKind::QuestionMarkDoubleColon)) { Some((n, st)) } else {
        let is_coalescing = st.last().kind == TokenKind::QuestionMarkDoubleColon; let a = st.drop_last();
        if next_is(a, TokenKind::Number) { match number_of(span(src, a.last().range)) { Some(index) => chain_of(src, Name::Index(Box::new(IndexName { subject: n, is_coalescing, index, range: from_to(name_range(n), a.last().range.end) })), a.drop_last()), None => None } }
        else if next_is(a, TokenKind::Name) { chain_of(src, Name::Attr(Box::new(AttrName { subject: n, is_coalescing, attr_name_id: tok_id(src, a.last()), range: from_to(name_range(n), a.last().range.end) })), a.drop_last()) }
        else { None }
    }
}
#[verifier::opaque]
spec fn name_of(src: Src, t: Token, st: Seq<Token>) -> Option<(Name, Seq<Token>)> { chain_of(src, Name::Simple(SimpleName { name_id: tok_id(src, t), range: t.range }), st) }
spec fn opens_tag(st: Seq<Token>) -> bool { next_is(st, TokenKind::Name) || next_is(st, TokenKind::VarName) || next_is(st, TokenKind::ExclamationMark) }
spec fn expr_range(e: Expr) -> SourceRange { match e { Expr::FuncCall(c) => c.range, Expr::FuncDef(d) => d.range, Expr::LetIn(l) => l.range, Expr::Match(m) => m.range, Expr::Tag(t) => t.range, Expr::Name(n) => name_range(n), Expr::Unit(r) => r, Expr::Bool(_, r) => r, Expr::Int(_, r) => r, Expr::BareString(r) => r, Expr::Verbatim(r) => r, Expr::Group(_, r) => r, Expr::List(_, r) => r, Expr::Template(_, r) => r } }
/// A value which is written out, of which a declaration around it has no use.
spec fn literal(e: Expr) -> bool { e is Unit || e is Bool || e is Int || e is BareString || e is Verbatim }
spec fn node_range(n: AST) -> SourceRange { match n { AST::Expr(e) => expr_range(e), AST::Export(e) => export_range(*e), AST::FuncDef(d) => d.range, AST::Text(_, r) => r, AST::Char(_, r) => r, AST::CodeFence(r, _) => r, AST::Whitespace(r) => r, AST::ParagraphBreak(r) => r } }
/// From the opening token to the closing one, or to the end of the last node if there is none.
spec fn group_range(open: Token, s: Seq<AST>, close: Option<Token>) -> SourceRange { from_to(open.range, match close { Some(t) => t.range.end, None => if s.len() > 0 { node_range(s.last()).end } else { open.range.end } }) }
/// Nothing between the braces is none.
spec fn group_node(open: Token, s: Seq<AST>, close: Option<Token>) -> Expr { let r = group_range(open, s, close); if s.len() == 0 { Expr::Unit(r) } else { Expr::Group(box_of(s), r) } }
spec fn brace() -> spec_fn(Token) -> bool { |t: Token| t.kind == TokenKind::RBrace }
/// `{...}`: the nodes up to the closing brace.
#[verifier::opaque]
spec fn group_of(src: Src, open: Token, st: Seq<Token>) -> Read decreases st.len(), 4int {
    match node_list(src, Seq::empty(), skipped(st), brace()) { Some(x) => match x.end { Some(t) => Some((group_node(open, trimmed(x.nodes), x.end), x.rest)), None => None }, None => None }
}
/// The nodes up to the end of the group, tag or document which it stands in.
spec fn remaining(src: Src, acc: Seq<AST>, st: Seq<Token>) -> Option<(Seq<AST>, Seq<Token>)> decreases st.len(), 3int {
    if st.len() == 0 || next_is(st, TokenKind::CloseTag) || next_is(st, TokenKind::RBrace) { Some((acc, st)) }
    else { match node_of(src, st.last(), st.drop_last()) { Some(x) => if x.1.len() < st.len() { remaining(src, acc.push(x.0), x.1) } else { None }, None => None } }
}
#[verifier::opaque]
spec fn ellipsis_of(src: Src, open: Token, st: Seq<Token>) -> Read decreases st.len(), 4int { match remaining(src, Seq::empty(), st) { Some(x) => Some((group_node(open, x.0, None), x.1)), None => None } }
/// An expression which starts with a token.
#[verifier::opaque]
spec fn expr_from(src: Src, t: Token, st: Seq<Token>) -> Read decreases st.len(), 5int {
    match t.kind {
        TokenKind::Dot => Some((Expr::Unit(t.range), st)),
        TokenKind::Boolean(b) => Some((Expr::Bool(b, t.range), st)),
        TokenKind::Name => Some((Expr::BareString(t.range), st)),
        TokenKind::Number => match number_of(span(src, t.range)) { Some(i) => Some((Expr::Int(i, t.range), st)), None => None },
        TokenKind::Verbatim(_) => Some((Expr::Verbatim(t.range), st)),
        TokenKind::VarName => match name_of(src, t, st) { Some(x) => Some((Expr::Name(x.0), x.1)), None => None },
        TokenKind::FuncName => match call_of(src, t, st) { Some(x) => Some((Expr::FuncCall(Box::new(x.0)), x.1)), None => None },
        TokenKind::Keyword(Keyword::Export) => None,
        TokenKind::Keyword(Keyword::Fn) => match def_of(src, t, true, st) { Some(x) => Some((Expr::FuncDef(Box::new(x.0)), x.1)), None => None },
        TokenKind::Keyword(Keyword::Match) => match match_of(src, t, st) { Some(x) => Some((Expr::Match(Box::new(x.0)), x.1)), None => None },
        TokenKind::Keyword(_) => match let_of(src, t, false, st) { Some(x) => Some((Expr::LetIn(Box::new(x.0)), x.1)), None => None },
        TokenKind::LBrace => group_of(src, t, st),
        TokenKind::LSqb => list_of(src, t, st),
        TokenKind::LAngle => if opens_tag(st) { tag_of(src, t, st) } else { None },
        TokenKind::Quote(k, _) => match parts_of(src, t, k, st) { Some(x) => Some((Expr::Template(box_of(x.0@), x.1), x.2)), None => None },
        _ => None,
    }
}
spec fn as_node(x: Read) -> Option<(AST, Seq<Token>)> { match x { Some(x) => Some((AST::Expr(x.0), x.1)), None => None } }
/// A node of a document, group or tag: of the expressions only those which text cannot be.
#[verifier::opaque]
spec fn node_here(src: Src, t: Token, st: Seq<Token>) -> Option<(AST, Seq<Token>)> decreases st.len(), 6int {
    match t.kind {
        TokenKind::Keyword(Keyword::Export) => match export_of(src, t, st) { Some(x) => Some((AST::Export(Box::new(x.0)), x.1)), None => None },
        TokenKind::Keyword(Keyword::Fn) => match def_of(src, t, false, st) { Some(x) => Some((AST::FuncDef(Box::new(x.0)), x.1)), None => None },
        TokenKind::Verbatim(k) => Some((AST::CodeFence(t.range, k == VerbatimKind::Multiline), st)),
        TokenKind::FuncName | TokenKind::Keyword(_) | TokenKind::VarName | TokenKind::LBrace | TokenKind::LSqb => as_node(expr_from(src, t, st)),
        TokenKind::CloseTag | TokenKind::RBrace | TokenKind::RSqb => None,
        TokenKind::Whitespace => Some((AST::Whitespace(t.range), st)),
        TokenKind::Newline => Some((AST::ParagraphBreak(t.range), st)),
        TokenKind::Escape | TokenKind::Entity => match char_of(src, t) { Some(c) => Some((AST::Char(c, t.range), st)), None => None },
        _ => if t.kind == TokenKind::LAngle && opens_tag(st) { as_node(tag_of(src, t, st)) } else { text_of(src, t, st) },
    }
}
/// An expression, perhaps after white space; in some places also `...`.
#[verifier::opaque]
spec fn expr_of(src: Src, st0: Seq<Token>) -> Read { let st = skipped(st0); if st.len() == 0 { None } else { expr_from(src, st.last(), st.drop_last()) } }
#[verifier::opaque]
spec fn body_of(src: Src, st0: Seq<Token>) -> Read { let st = skipped(st0); if next_is(st, TokenKind::Ellipsis) { ellipsis_of(src, st.last(), st.drop_last()) } else { expr_of(src, st) } }
type Node = AST;
spec fn node_view(n: AST) -> Node { n }
spec fn space_node(n: AST) -> bool { match n { AST::Whitespace(_) => true, AST::ParagraphBreak(_) => true, AST::Char(c, _) => is_ws(c), _ => false } }
spec fn strict() -> bool { true }
'''
SUB = "(&mut self, ARGS) -> (r: Reported<T>) requires clean(old(self).src, old(self).tokens@) ensures reads(*old(self), *final(self)), match SPEC { Some(x) => r == Ok::<T, AlreadyReported>(x.0) && final(self).tokens@ == x.1 && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ } { unimplemented!() }"


def shim(name, args, t, spec):
    return f'#[verifier::external_body] fn {name}' + SUB.replace('ARGS', args).replace('<T>', f'<{t}>').replace('<T,', f'<{t},').replace('SPEC', spec)


SELF = 'old(self).src, t, '
REST = 'old(self).tokens@'
READ = '\n'.join([
    shim('parse_func_call', 't: Token', 'FuncCall', f'call_of({SELF}{REST})'),
    shim('parse_func_def', 't: Token, a: bool', 'FuncDef', f'def_of({SELF}a, {REST})'),
    shim('parse_let_in', 't: Token, e: bool', 'LetIn', f'let_of({SELF}e, {REST})'),
    shim('parse_match', 't: Token', 'Match', f'match_of({SELF}{REST})'),
    shim('parse_list', 't: Token', 'Expr', f'list_of({SELF}{REST})'),
    shim('parse_tag', 't: Token', 'Expr', f'tag_of({SELF}{REST})'),
    shim('parse_export', 't: Token', 'Export', f'export_of({SELF}{REST})'),
    r'''
    #[verifier::external_body] fn parse_template_parts(&mut self, t: Token, k: QuoteKind) -> (r: Reported<(Vec<TemplatePart>, SourceRange)>)
        ensures reads(*old(self), *final(self)), match parts_of(old(self).src, t, k, old(self).tokens@) { Some(x) => r == Ok::<(Vec<TemplatePart>, SourceRange), AlreadyReported>((x.0, x.1)) && final(self).tokens@ == x.2 && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ } { unimplemented!() }
    #[verifier::external_body] fn parse_text(&mut self, t: Token) -> (r: AST)
        ensures reads(*old(self), *final(self)), match text_of(old(self).src, t, old(self).tokens@) { Some(x) => r == x.0 && final(self).tokens@ == x.1 && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ } { unimplemented!() }
    #[verifier::external_body] fn read_char(&mut self, t: Token) -> (r: char)
        ensures reads(*old(self), *final(self)), final(self).tokens == old(self).tokens, match char_of(old(self).src, t) { Some(c) => r == c && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ } { unimplemented!() }
    fn unescape_char(&mut self, t: Token) -> (r: char)
        ensures reads(*old(self), *final(self)), final(self).tokens == old(self).tokens, match char_of(old(self).src, t) { Some(c) => r == c && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ } { self.read_char(t) }
    fn decode_entity(&mut self, t: Token) -> (r: char)
        ensures reads(*old(self), *final(self)), final(self).tokens == old(self).tokens, match char_of(old(self).src, t) { Some(c) => r == c && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ } { self.read_char(t) }
    #[verifier::external_body] fn parse_number(&mut self, t: Token) -> (r: Reported<i64>)
        ensures reads(*old(self), *final(self)), final(self).tokens == old(self).tokens, match number_of(span(old(self).src, t.range)) { Some(i) => r == Ok::<i64, AlreadyReported>(i) && final(self).errors@ == old(self).errors@, None => r is Err && final(self).errors@ > old(self).errors@ } { unimplemented!() }
    #[verifier::external_body] fn tok_name_id(&mut self, t: Token) -> (r: NameID) requires t.kind == TokenKind::Name || t.kind == TokenKind::VarName ensures *final(self) == *old(self), r == tok_id(old(self).src, t) { unimplemented!() }
'''])
CLEAN = 'clean(old(self).src, old(self).tokens@)'
READS = 'reads(*old(self), *final(self))'
START = 'broadcast use reading::group_reads; proof { lemma_reads_self(*self); }'


def base(name):
    u = Unit(name)
    token_types(u)
    LEMMAS = '''    pub(crate) broadcast proof fn lemma_same(ns: Seq<AST>) ensures #[trigger] nodes_view(ns) == ns { assert(nodes_view(ns) =~= ns); }
    pub(crate) proof fn lemma_reads(a: Parser, b: Parser, c: Parser) requires reads(a, b), reads(b, c) ensures reads(a, c) {}
    pub(crate) proof fn lemma_reads_clean(a: Parser, b: Parser) requires reads(a, b), clean(a.src, a.tokens@) ensures clean(b.src, b.tokens@) {}
    pub(crate) broadcast group'''
    u.parts = [simple(p).replace('    pub(crate) broadcast group', LEMMAS).replace('{ lemma_last }', '{ lemma_last, lemma_same }') if p is TOKENS else p for p in u.parts]
    u.text(NAMES + TYPES)
    for k, n in (('struct', 'SimpleName'), ('enum', 'Name'), ('struct', 'AttrName'), ('struct', 'IndexName'), ('enum', 'Expr')):
        u.item(AST, k, n)
    u.item(AST, 'enum', 'AST', subs=[('Rc < str >', 'Text')])
    grammar = GRAMMAR + re.sub(r'proof fn lemma_never.*?\n}\n', '', NODES, flags=re.S)
    if name == 'defined':
        # by recursion on the number of tokens
        grammar = grammar.replace('spec fn node_here(', 'spec fn node_of(').replace('decreases st.len() {\n    if st.len() == 0 { Some(Nodes', 'decreases st.len(), 3int {\n    if st.len() == 0 { Some(Nodes')
    else:
        # here only the equation which it satisfies
        grammar = re.sub(r'decreases st\.len\(\), [456]int ', '', grammar) + '''
uninterp spec fn node_of(src: Src, t: Token, st: Seq<Token>) -> Option<(AST, Seq<Token>)>;
#[verifier::external_body] proof fn axiom_node(src: Src, t: Token, st: Seq<Token>) ensures node_of(src, t, st) == node_here(src, t, st) {}
'''
    u.text(grammar)
    return u


def ranges(u):
    u.text('impl Name {')
    f = u.fn(AST, 'range', impl='^impl Name$')
    f.ensures('r == name_range(*self)')
    u.text('} impl Expr {')
    u.fn(AST, 'range', impl='^impl Expr$').ensures('r == expr_range(*self)')
    u.fn(AST, 'is_literal', impl='^impl Expr$').sub('matches ! ( $x , $p )', '(match $x { $p => true, _ => false })', 0).ensures('r == literal(*self)')
    u.text('} impl AST {')
    u.fn(AST, 'range', impl='^impl AST$').ensures('r == node_range(*self)')
    u.fn(AST, 'is_whitespace', impl='^impl AST$').sub('matches ! ( $x , $p )', '(match $x { $p => true, _ => false })', 0).sub('$i:c . is_ascii_whitespace ( )', 'ascii_space(*$c)', 0).ensures('r == space_node(*self)')
    u.text('}')


MAPS = [('self . $i:f ( $x ) . map ( Box :: new ) . map ( $p )', '(match self.$f($x) { Ok(n) => Ok($p(Box::new(n))), Err(e) => Err(e) })'),
        ('self . $i:f ( $x ) . map ( | $i:n | $p )', '(match self.$f($x) { Ok($n) => Ok($p), Err(e) => Err(e) })'),
        ('self . $i:f ( $x ) . map ( $p )', '(match self.$f($x) { Ok(n) => Ok($p(n)), Err(e) => Err(e) })')]


def expressions():
    u = base('expressions')
    ranges(u)
    u.text('impl Parser {' + READ)
    queue(u)

    def maps(f):
        for a, b in MAPS:
            f.sub(a, b, 0)
        f.sub('self . has_next ( | t | matches ! ( $x , $p ) )', 'self.has_next(|t: Token| -> (r: bool) ensures r == (t.kind == TokenKind::Name || t.kind == TokenKind::VarName || t.kind == TokenKind::ExclamationMark) { match $x { $p => true, _ => false } })', 0)

    def read(f, spec, value='r == Ok::<Expr, AlreadyReported>(x.0) && final(self).tokens@ == x.1'):
        f.requires(CLEAN).ensures(READS, outcome(spec, value))
        f.attr(NODEC)
    f = u.fn(B, 'parse_name', impl=PI)
    f.sub('| _self , t | matches ! ( $x , $p ) )', '|_self: &Parser, t: Token| -> (r: bool) ensures r == (t.kind == TokenKind::DoubleColon || t.kind == TokenKind::QuestionMarkDoubleColon) { match $x { $p => true, _ => false } })', 0)
    f.requires('token.kind == TokenKind::VarName')
    W = 'name_of(old(self).src, token, old(self).tokens@)'
    read(f, W, 'r == Ok::<Name, AlreadyReported>(x.0) && final(self).tokens@ == x.1')
    f.start(START + 'proof { reveal(name_of); }')
    f.loop(0, invariant=['reads(*old(self), *self)', 'clean(self.src, self.tokens@)', 'self.errors@ == old(self).errors@', f'{W} == chain_of(self.src, name, self.tokens@)'],
           ensures=['!(next_is(self.tokens@, TokenKind::DoubleColon) || next_is(self.tokens@, TokenKind::QuestionMarkDoubleColon))'], decreases='self.tokens@.len()')
    f.loop_start(0, 'proof { reveal_with_fuel(chain_of, 2); }')
    f = u.fn(B, 'seq_range', impl=PI)
    f.ensures('r == group_range(open, children@, close)')
    f = u.fn(B, 'group_of', impl=PI)
    f.sub('children . into_boxed_slice ( )', 'boxed_of(children)', 0).sub('children . is_empty ( )', '(children.len() == 0)', 0)
    f.ensures('*final(self) == *old(self)', 'r == group_node(open, children@, close)')
    f = u.fn(B, 'parse_expr_tok', impl=PI)
    maps(f)
    f.sub('parts . into_boxed_slice ( )', 'boxed_of(parts)', 0)
    read(f, 'expr_from(old(self).src, tok, old(self).tokens@)')
    f.start(START + 'proof { reveal(expr_from); }')
    f = u.fn(B, 'parse_node', impl=PI)
    maps(f)
    f.requires('good(old(self).src, tok)')
    f.requires(CLEAN).ensures(READS, outcome('node_of(old(self).src, tok, old(self).tokens@)', 'r == Ok::<AST, AlreadyReported>(x.0) && final(self).tokens@ == x.1'))
    f.attr(NODEC)
    f.start(START + 'proof { reveal(node_here); axiom_node(self.src, tok, self.tokens@); }')
    f = nodes_until(u).attr(NODEC)
    f.loop_start(0, 'broadcast use reading::group_reads;')
    f = u.fn(B, 'parse_group', impl=PI)
    f.sub('self . parse_nodes_until ( | _self , tok | $x )', 'self.parse_nodes_until(|_self: &Parser, tok: Token| -> (r: bool) ensures r == (tok.kind == TokenKind::RBrace) { $x }, Ghost(brace()))', 1)
    f.sub('close . is_none ( )', '(match close { None => true, _ => false })', 0)
    read(f, 'group_of(old(self).src, open, old(self).tokens@)', 'r == x.0 && final(self).tokens@ == x.1')
    f.start(START + 'proof { reveal(group_of); }')
    f = u.fn(B, 'parse_ellipsis_group', impl=PI)
    f.sub('| _self , tok | ! matches ! ( $x , $p ) )', '|_self: &Parser, tok: Token| -> (r: bool) ensures r == !(tok.kind == TokenKind::CloseTag || tok.kind == TokenKind::RBrace) { !(match $x { $p => true, _ => false }) })', 0)
    W = 'ellipsis_of(old(self).src, open, old(self).tokens@)'
    R = 'remaining(old(self).src, Seq::empty(), old(self).tokens@)'
    read(f, W, 'r == x.0 && final(self).tokens@ == x.1')
    f.start(START + 'proof { reveal(ellipsis_of); }')
    f.loop(0, invariant=['reads(*old(self), *self)', 'clean(self.src, self.tokens@)', f'self.errors@ == old(self).errors@ && {R} == remaining(self.src, children@, self.tokens@) || self.errors@ > old(self).errors@ && {R} is None'],
           ensures=['self.tokens@.len() == 0 || next_is(self.tokens@, TokenKind::CloseTag) || next_is(self.tokens@, TokenKind::RBrace)'], decreases='self.tokens@.len()')
    f.loop_start(0, 'broadcast use reading::group_reads; proof { reveal_with_fuel(remaining, 2); }')
    f = u.fn(B, 'parse_expr', impl=PI)
    read(f, 'expr_of(old(self).src, old(self).tokens@)')
    f.start(START + 'proof { reveal(expr_of); }')
    f = u.fn(B, 'parse_expr_or_ellipsis', impl=PI)
    read(f, 'body_of(old(self).src, old(self).tokens@)')
    f.start(START + 'proof { reveal(body_of); reveal(expr_of); }')
    u.text('}')
    return u


def defined():
    """What the nodes of a text are."""
    u = base('defined')
    ranges(u)
    return u



VALUES = r"""
#[derive(Clone, Copy)] struct SourceFileID { n: u64 }
#[verifier::external_body] struct AlreadyReported { e: u8 }
type Reported<T> = Result<T, AlreadyReported>;
struct FuncCall { x: u64 } struct FuncDef { range: SourceRange, x: u64 } struct LetIn { x: u64 } struct Match { x: u64 } struct Tag { x: u64 } struct TemplatePart { x: u64 } struct AST { x: u64 } struct Name { x: u64 }
/// What is there outside the values: the errors which were reported, the variables, the files.
#[verifier::external_body] struct World { x: u64 }
struct Compiler { world: Ghost<World> }
#[verifier::external_body] struct Value { x: u64 }
#[verifier::external_body] struct Func { x: u64 }
#[verifier::external_body] struct HTML { x: u64 }
#[verifier::external_body] struct TypeError { x: u64 }
#[verifier::external_body] #[derive(Clone, Copy)] struct ContentKind { x: u64 }
/// A list is given by its items.
struct List { items: Vec<Value> }
/// A type, of which it matters here what its items are.
#[verifier::external_body] struct Type { x: u64 }
uninterp spec fn type_list(t: Type) -> Type;
uninterp spec fn type_item(t: Type) -> Type;
uninterp spec fn type_html(t: Type) -> bool;
uninterp spec fn type_any() -> Type;
uninterp spec fn type_function() -> Type;
impl Type {
    #[verifier::external_body] fn clone(&self) -> (r: Type) ensures r == *self { unimplemented!() }
    #[verifier::external_body] fn list(self) -> (r: Type) ensures r == type_list(self) { unimplemented!() }
    #[verifier::external_body] fn component_type(&self) -> (r: &Type) ensures *r == type_item(*self) { unimplemented!() }
    #[verifier::external_body] fn is_html(&self) -> (r: bool) ensures r == type_html(*self) { unimplemented!() }
}
/// Values by what they are made of.
uninterp spec fn v_unit() -> Value;
uninterp spec fn v_bool(b: bool) -> Value;
uninterp spec fn v_int(i: i64) -> Value;
uninterp spec fn v_str(s: Seq<char>) -> Value;
uninterp spec fn v_func(f: Func) -> Value;
uninterp spec fn v_html(h: HTML) -> Value;
uninterp spec fn v_list(s: Seq<Value>) -> Value;
uninterp spec fn list_items(v: Value) -> Seq<Value>;
/// The value has the type `list`, whatever its items are.
uninterp spec fn is_list(v: Value) -> bool;
#[verifier::external_body] fn unit_value() -> (r: Value) ensures r == v_unit() { unimplemented!() }
#[verifier::external_body] fn bool_value(b: bool) -> (r: Value) ensures r == v_bool(b) { unimplemented!() }
#[verifier::external_body] fn int_value(i: i64) -> (r: Value) ensures r == v_int(i) { unimplemented!() }
#[verifier::external_body] fn str_value(s: &str) -> (r: Value) ensures r == v_str(s@) { unimplemented!() }
#[verifier::external_body] fn func_value(f: Func) -> (r: Value) ensures r == v_func(f) { unimplemented!() }
#[verifier::external_body] fn html_value(h: HTML) -> (r: Value) ensures r == v_html(h) { unimplemented!() }
#[verifier::external_body] fn list_value(v: Vec<Value>) -> (r: Value) ensures r == v_list(v@) { unimplemented!() }
#[verifier::external_body] fn expect_list(v: Value) -> (r: List) requires is_list(v) ensures r.items@ == list_items(v) { unimplemented!() }
/// Vec::extend.
#[verifier::external_body] fn extend(v: &mut Vec<Value>, l: List) ensures final(v)@ == old(v)@ + l.items@ { unimplemented!() }
/// The source text of a range.
uninterp spec fn source(r: SourceRange) -> Seq<char>;
uninterp spec fn verbatim_text(s: Seq<char>) -> Seq<char>;
uninterp spec fn expr_range(e: Expr) -> SourceRange;
impl Expr { #[verifier::external_body] fn range(&self) -> (r: SourceRange) ensures r == expr_range(*self) { unimplemented!() } }
uninterp spec fn allow_p() -> ContentKind;
#[verifier::external_body] fn content_allow_p() -> (r: ContentKind) ensures r == allow_p() { unimplemented!() }
type Out = (Option<Value>, World);
/// What the other parts of the evaluator give: C17 and C18, C19, C22, C30 (names), C23 (strings), C08 (sequences and tags), C11 (coercion).
uninterp spec fn call_value(c: FuncCall, h: Type, w: World) -> Out;
uninterp spec fn let_value(l: LetIn, h: Type, export: bool, w: World) -> Out;
uninterp spec fn match_value(m: Match, h: Type, w: World) -> Out;
uninterp spec fn name_value(n: Name, h: Type, w: World) -> Out;
uninterp spec fn template_value(p: Seq<TemplatePart>, w: World) -> Out;
uninterp spec fn function_of(d: FuncDef, w: World) -> (Func, World);
uninterp spec fn sequence_html(c: Seq<AST>, k: ContentKind, w: World) -> (HTML, World);
uninterp spec fn tag_html(t: Tag, w: World) -> (Option<HTML>, World);
uninterp spec fn coerced(v: Value, h: Type) -> Option<Value>;
/// An error is reported at a range.
uninterp spec fn reported(w: World, r: SourceRange) -> World;
spec fn fits(v: Value, h: Type, r: SourceRange, w: World) -> Out { match coerced(v, h) { Some(v) => (Some(v), w), None => (None, reported(w, r)) } }
/// The values of the items of a list, in order; those of `*item` are the items of its value. The first error ends it.
uninterp spec fn eval(e: Expr, h: Type, w: World) -> Out;
spec fn items(s: Seq<(Expr, bool)>, h: Type, w: World) -> (Option<Seq<Value>>, World) decreases s.len() {
    if s.len() == 0 { (Some(Seq::empty()), w) } else {
        let before = items(s.drop_last(), h, w); let (e, spread) = s.last();
        match before.0 {
            None => before,
            Some(vs) => { let x = eval(e, if spread { type_list(h) } else { h }, before.1); match x.0 { Some(v) => (Some(if spread { vs + list_items(v) } else { vs.push(v) }), x.1), None => (None, x.1) } },
        }
    }
}
proof fn lemma_stopped(s: Seq<(Expr, bool)>, k: int, h: Type, w: World) requires 0 <= k <= s.len(), items(s.take(k), h, w).0 is None ensures items(s, h, w) == items(s.take(k), h, w) decreases s.len() - k {
    if k < s.len() { assert(s.take(k + 1).drop_last() =~= s.take(k)); lemma_stopped(s, k + 1, h, w); } else { assert(s.take(k) =~= s); }
}
spec fn list_of(s: Seq<(Expr, bool)>, h: Type, r: SourceRange, w: World) -> Out { let x = items(s, type_item(h), w); match x.0 { Some(vs) => fits(v_list(vs), h, r, x.1), None => (None, x.1) } }
spec fn node_value(e: Expr, h: Type, w: World) -> Out {
    match e {
        Expr::Unit(r) => fits(v_unit(), h, expr_range(e), w),
        Expr::Bool(b, r) => fits(v_bool(b), h, expr_range(e), w),
        Expr::Int(i, r) => fits(v_int(i), h, expr_range(e), w),
        Expr::BareString(r) => fits(v_str(source(r)), h, expr_range(e), w),
        Expr::Verbatim(r) => fits(v_str(verbatim_text(source(r))), h, expr_range(e), w),
        Expr::FuncCall(c) => call_value(*c, h, w),
        Expr::FuncDef(d) => { let x = function_of(*d, w); if type_html(h) { (None, reported(x.1, d.range)) } else { fits(v_func(x.0), h, expr_range(e), x.1) } },
        Expr::LetIn(l) => let_value(*l, h, false, w),
        Expr::Match(m) => match_value(*m, h, w),
        Expr::Name(n) => name_value(n, h, w),
        Expr::Template(p, r) => { let x = template_value(p@, w); match x.0 { Some(v) => fits(v, h, expr_range(e), x.1), None => x } },
        Expr::Group(c, r) => { let x = sequence_html(c@, allow_p(), w); fits(v_html(x.0), h, expr_range(e), x.1) },
        Expr::Tag(t) => { let x = tag_html(*t, w); match x.0 { Some(v) => fits(v_html(v), h, expr_range(e), x.1), None => (None, x.1) } },
        Expr::List(s, r) => list_of(s@, h, r, w),
    }
}
/// An expression within another: the same, by recursion over the expression.
#[verifier::external_body] proof fn axiom_eval(e: Expr, h: Type, w: World) ensures eval(e, h, w) == node_value(e, h, w) {}
/// Coercion to a list type gives a list (C11), and so does every expression of which a list is expected.
#[verifier::external_body] proof fn axiom_list(e: Expr, h: Type, w: World) ensures eval(e, type_list(h), w).0 matches Some(v) ==> is_list(v) {}
spec fn gives(r: Reported<Value>, w: World, x: Out) -> bool { w == x.1 && match x.0 { Some(v) => r == Ok::<Value, AlreadyReported>(v), None => r is Err } }
"""
PARTS = r"""
    #[verifier::external_body] fn evaluate_func_call(&mut self, c: &FuncCall, h: &Type) -> (r: Reported<Value>) ensures gives(r, final(self).world@, call_value(*c, *h, old(self).world@)) { unimplemented!() }
    #[verifier::external_body] fn evaluate_let_in(&mut self, l: &LetIn, h: &Type, e: bool) -> (r: Reported<Value>) ensures gives(r, final(self).world@, let_value(*l, *h, e, old(self).world@)) { unimplemented!() }
    #[verifier::external_body] fn evaluate_match(&mut self, m: &Match, h: &Type) -> (r: Reported<Value>) ensures gives(r, final(self).world@, match_value(*m, *h, old(self).world@)) { unimplemented!() }
    #[verifier::external_body] fn evaluate_name(&mut self, n: &Name, h: &Type) -> (r: Reported<Value>) ensures gives(r, final(self).world@, name_value(*n, *h, old(self).world@)) { unimplemented!() }
    #[verifier::external_body] fn evaluate_template(&mut self, p: &[TemplatePart]) -> (r: Reported<Value>) ensures gives(r, final(self).world@, template_value(p@, old(self).world@)) { unimplemented!() }
    #[verifier::external_body] fn compile_func_def(&mut self, d: &FuncDef) -> (r: Func) ensures (r, final(self).world@) == function_of(*d, old(self).world@) { unimplemented!() }
    #[verifier::external_body] fn compile_sequence(&mut self, c: &[AST], k: ContentKind) -> (r: HTML) ensures (r, final(self).world@) == sequence_html(c@, k, old(self).world@) { unimplemented!() }
    #[verifier::external_body] fn compile_tag(&mut self, t: &Tag) -> (r: Reported<HTML>) ensures final(self).world@ == tag_html(*t, old(self).world@).1, match tag_html(*t, old(self).world@).0 { Some(h) => r == Ok::<HTML, AlreadyReported>(h), None => r is Err } { unimplemented!() }
    #[verifier::external_body] fn coerce(&self, v: Value, h: &Type) -> (r: Result<Value, TypeError>) ensures match coerced(v, *h) { Some(x) => r == Ok::<Value, TypeError>(x), None => r is Err } { unimplemented!() }
    #[verifier::external_body] fn report_error(&mut self, r: SourceRange) -> (e: AlreadyReported) ensures final(self).world@ == reported(old(self).world@, r) { unimplemented!() }
    #[verifier::external_body] fn get_source_str(&self, r: SourceRange) -> (s: &str) ensures s@ == source(r) { unimplemented!() }
    #[verifier::external_body] fn get_verbatim_text(s: &str) -> (r: &str) ensures r@ == verbatim_text(s@) { unimplemented!() }
"""


def evaluation():
    """The values of expressions."""
    u = Unit('evaluation')
    u.text('use std::rc::Rc;')
    u.item('src/utils/sourcefile.rs', 'struct', 'SourceRange', attrs='#[derive(Clone, Copy)]')
    u.item(AST, 'enum', 'Expr')
    u.text(VALUES + 'impl Compiler {' + PARTS)

    def common(f):
        f.sub('self . coerce ( $v , $h ) . map_err ( | e | self . report ( e , $r ) )', '(match self.coerce($v, $h) { Ok(v) => Ok(v), Err(_) => Err(self.report_error($r)) })', 0)
        f.sub('self . report ( $e , $r )', 'self.report_error($r)', 0)
        f.sub('errors :: Reported', 'Reported', 0)
        f.attr(NODEC)
    f = u.fn(V, 'evaluate_verbatim', impl=COMP)
    f.sub('token :: Token :: get_verbatim_text ( $x ) . into ( )', 'str_value(Compiler::get_verbatim_text($x))', 1)
    f.ensures('r == v_str(verbatim_text(source(range)))', '*final(self) == *old(self)')
    f = u.fn(V, 'evaluate_list', impl=COMP)
    f.sub('for & ( ref $i:c , $i:s ) in $l . iter ( ) {', 'let mut at: usize = 0; while at < $l.len() { let $c = &$l[at].0; let $s = $l[at].1; at += 1;', 0)
    f.sub('for ( $i:c , $i:s ) in $l . iter ( ) {', 'let mut at: usize = 0; while at < $l.len() { let $c = &$l[at].0; let $s = &$l[at].1; at += 1;', 0)
    f.sub('let $i:g : List = $x ? . expect_convert ( ) ;', 'let $g: List = { let v = $x?; proof { axiom_list(*child, *child_type_hint, w1); } expect_list(v) };', 0)
    f.sub('$i:c . extend ( $i:g . as_ref ( ) . iter ( ) . cloned ( ) )', 'extend(&mut $c, $g)', 0)
    f.sub('$i:c . into ( )', 'list_value($c)', 0)
    common(f)
    W = 'old(self).world@'
    f.ensures(f'gives(r, final(self).world@, list_of(list@, *type_hint, range, {W}))')
    f.loop(0, invariant=['at <= list@.len()', '*child_type_hint == type_item(*type_hint)', f'items(list@.take(at as int), type_item(*type_hint), {W}) == (Some(children@), self.world@)'], decreases='list@.len() - at')
    f.loop_start(0, f'let ghost w1 = self.world@; proof {{ let k = at + 1; assert(list@.take(k).drop_last() =~= list@.take(at as int)); assert(list@.take(k).last() == list@[at as int]); if items(list@.take(k), type_item(*type_hint), {W}).0 is None {{ lemma_stopped(list@, k, type_item(*type_hint), {W}); }} }}')
    f.before('( match self . coerce', 'proof { assert(list@.take(at as int) =~= list@); }')
    f = u.fn(V, 'evaluate_node', impl=COMP)
    f.sub('Value :: UNIT', 'unit_value()', 0).sub('& Expr :: $p =>', 'Expr::$p =>', 0)
    f.sub('taginfo :: ContentKind :: ALLOW_P', 'content_allow_p()', 0)
    f.sub('Expr :: Bool ( $b , .. ) => $b . into ( )', 'Expr::Bool($b, ..) => bool_value(*$b)', 0)
    f.sub('Expr :: Int ( $b , .. ) => $b . into ( )', 'Expr::Int($b, ..) => int_value(*$b)', 0)
    f.sub('self . get_source_str ( $r ) . into ( )', 'str_value(self.get_source_str(*$r))', 0)
    f.sub('self . evaluate_verbatim ( $r )', 'self.evaluate_verbatim(*$r)', 0)
    f.sub('f . into ( )', 'func_value(f)', 0)
    f.sub('self . compile_sequence ( $x ) . into ( )', 'html_value(self.compile_sequence($x))', 0)
    f.sub('self . compile_tag ( $x ) ? . into ( )', 'html_value(self.compile_tag($x)?)', 0)
    common(f)
    f.ensures('gives(r, final(self).world@, eval(*node, *type_hint, old(self).world@))')
    f.start('proof { axiom_eval(*node, *type_hint, self.world@); }')
    u.text('}')
    return u


UNITS = [defined, expressions, evaluation]

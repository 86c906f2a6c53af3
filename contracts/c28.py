"""C28: tags come out as they are written."""
from vx import Unit
from contracts.libparse import *
from contracts.liblex import kinds, lexer
from contracts.libtype import type_fns
from contracts.libvalue import world

TAG = 'src/parser/tag.rs'
AST = 'src/parser/ast.rs'
CT = 'src/compiler/tag.rs'

GRAMMAR = r'''
uninterp spec fn doctype() -> NameID;
#[verifier::external_body] fn id_doctype() -> (r: NameID) ensures r == doctype() { unimplemented!() }
struct Export { x: u64 } struct FuncDef { x: u64 } struct Name { x: u64 }
enum Expr { Tag(Box<Tag>), Other(u64) }
uninterp spec fn expr_range(e: Expr) -> SourceRange;
impl Expr { #[verifier::external_body] fn range(&self) -> (r: SourceRange) ensures r == expr_range(*self) { unimplemented!() } }
/// Letters in either case are the same.
spec fn lower_char(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
spec fn same_ci(a: Seq<char>, b: Seq<char>) -> bool { a.map_values(|c: char| lower_char(c)) =~= b.map_values(|c: char| lower_char(c)) }
#[verifier::external_body] fn eq_ci(a: &str, b: &str) -> (r: bool) ensures r == same_ci(a@, b@) { a.eq_ignore_ascii_case(b) }
#[verifier::external_body] fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
/// Of a text with one byte for each character.
#[verifier::external_body] fn ascii_len(s: &str) -> (r: usize) requires is_ascii(s@) ensures r == s@.len() { s.len() }
#[verifier::external_body] fn ascii_cut<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str) requires is_ascii(s@), a <= b <= s@.len() ensures r@ == s@.subrange(a as int, b as int) { &s[a..b] }
/// Tags which have no content and no closing tag (C08).
uninterp spec fn void(id: NameID) -> bool;
#[verifier::external_body] fn is_self_closing(id: NameID) -> (r: bool) ensures r == void(id) { unimplemented!() }

type Node = AST;
spec fn node_view(n: AST) -> AST { n }
spec fn space_node(n: AST) -> bool { n is Whitespace || n is ParagraphBreak || (n matches AST::Char(c, _) && is_ws(c)) }
#[verifier::external_body] fn ascii_whitespace(c: &char) -> (r: bool) ensures r == is_ws(*c) { c.is_ascii_whitespace() }
spec fn strict() -> bool { true }
/// What the rest of the parser reads, without an error: a node, an expression, a name.
uninterp spec fn node_of(src: Src, t: Token, st: Seq<Token>) -> Option<(AST, Seq<Token>)>;
uninterp spec fn expr_of(src: Src, st: Seq<Token>) -> Option<(Expr, Seq<Token>)>;
uninterp spec fn name_of(src: Src, t: Token, st: Seq<Token>) -> Option<(Name, Seq<Token>)>;

/// `name`, `name=value`, `name?=value` or `**value`.
spec fn attr_of(src: Src, st0: Seq<Token>) -> Option<(TagAttrOrSpread, Seq<Token>)> {
    let st = skipped(st0);
    if st.len() > 0 && st.last().kind == TokenKind::Asterisk { None }
    else if st.len() > 0 && st.last().kind == TokenKind::DoubleAsterisk { match expr_of(src, st.drop_last()) { Some((e, rest)) => Some((TagAttrOrSpread::Spread(e), rest)), None => None } }
    else { attr_named(src, skipped(st)) }
}
spec fn attr_named(src: Src, st: Seq<Token>) -> Option<(TagAttrOrSpread, Seq<Token>)> {
    if st.len() == 0 || st.last().kind != TokenKind::Name { None } else {
        let t = st.last(); let name_id = id_of(span(src, t.range)); let a = skipped(st.drop_last());
        let question_mark = a.len() > 0 && a.last().kind == TokenKind::QuestionMark;
        let b = skipped(if question_mark { a.drop_last() } else { a });
        if b.len() > 0 && b.last().kind == TokenKind::Equals {
            match expr_of(src, b.drop_last()) { Some((e, rest)) => Some((TagAttrOrSpread::Attr(TagAttribute { range: SourceRange { src_id: t.range.src_id, start: t.range.start, end: expr_range(e).end }, name_id, question_mark, value: Some(e) }), rest)), None => None }
        } else if question_mark { None } else { Some((TagAttrOrSpread::Attr(TagAttribute { range: t.range, name_id, question_mark: false, value: None }), b)) }
    }
}
ghost struct Attrs { attrs: Seq<TagAttrOrSpread>, close: Token, rest: Seq<Token> }
/// Attributes up to `>` or `/>`.
spec fn attrs_of(src: Src, acc: Seq<TagAttrOrSpread>, st0: Seq<Token>) -> Option<Attrs> decreases st0.len() {
    let st = skipped(st0);
    if st.len() > 0 && st.last().kind == TokenKind::RAngle { Some(Attrs { attrs: acc, close: st.last(), rest: st.drop_last() }) }
    else { match attr_of(src, st) { Some((a, rest)) => if rest.len() < st0.len() { attrs_of(src, acc.push(a), skipped(rest)) } else { None }, None => None } }
}
/// No name is given twice.
spec fn names_to(s: Seq<TagAttrOrSpread>) -> Set<NameID> decreases s.len() { if s.len() == 0 { Set::empty() } else { match s.last() { TagAttrOrSpread::Attr(a) => names_to(s.drop_last()).insert(a.name_id), TagAttrOrSpread::Spread(_) => names_to(s.drop_last()) } } }
spec fn distinct(s: Seq<TagAttrOrSpread>) -> bool decreases s.len() { s.len() == 0 || distinct(s.drop_last()) && match s.last() { TagAttrOrSpread::Attr(a) => !names_to(s.drop_last()).contains(a.name_id), TagAttrOrSpread::Spread(_) => true } }
proof fn lemma_distinct(s: Seq<TagAttrOrSpread>, n: int) requires 0 <= n <= s.len(), !distinct(s.take(n)) ensures !distinct(s) decreases s.len() - n {
    if n < s.len() { assert(s.take(n + 1).drop_last() =~= s.take(n)); lemma_distinct(s, n + 1); } else { assert(s.take(n) =~= s); }
}
/// `</>`, or `</name>` with the same name in either case.
spec fn closes(src: Src, id: NameID, t: Token) -> bool {
    t.kind == TokenKind::CloseTag && (span(src, t.range) == seq!['<', '/', '>'] || id != anonymous() && same_ci(name_text(id), span(src, t.range).subrange(2, span(src, t.range).len() - 1)))
}
spec fn closer_of(src: Src, id: NameID) -> spec_fn(Token) -> bool { |t: Token| closes(src, id, t) }
/// The name: its lowercase form, a variable, or `!DOCTYPE`.
spec fn tag_name(src: Src, st: Seq<Token>) -> Option<(TagName, NameID, Seq<Token>)> {
    if st.len() == 0 { None } else { let t = st.last(); let rest = st.drop_last(); match t.kind {
        TokenKind::Name => Some((TagName::Literal(id_of(lowercase(span(src, t.range)))), id_of(lowercase(span(src, t.range))), rest)),
        TokenKind::VarName => match name_of(src, t, rest) { Some((n, rest)) => Some((TagName::Name(n), anonymous(), rest)), None => None },
        _ => if rest.len() > 0 && same_ci(span(src, rest.last().range), seq!['D', 'O', 'C', 'T', 'Y', 'P', 'E']) { Some((TagName::Literal(doctype()), doctype(), rest.drop_last())) } else { None },
    } }
}
ghost struct TagNode { range: SourceRange, name: TagName, attrs: Seq<TagAttrOrSpread>, children: Seq<AST>, rest: Seq<Token> }
/// The tag which starts with this `<`.
spec fn tag_of(src: Src, langle: Token, st: Seq<Token>) -> Option<TagNode> {
    match tag_name(src, st) { None => None, Some((name, id, st1)) => match attrs_of(src, Seq::empty(), st1) { None => None, Some(x) => if !distinct(x.attrs) { None } else {
        if span(src, x.close.range) == seq!['/', '>'] || void(id) { Some(TagNode { range: ends(langle, x.close), name, attrs: x.attrs, children: Seq::empty(), rest: x.rest }) }
        else { match node_list(src, Seq::empty(), skipped(x.rest), closer_of(src, id)) { None => None, Some(y) => match y.end { None => None, Some(close) => Some(TagNode { range: ends(langle, close), name, attrs: x.attrs, children: trimmed(y.nodes), rest: y.rest }) } } }
    } } }
}
spec fn ends(a: Token, b: Token) -> SourceRange { SourceRange { src_id: a.range.src_id, start: a.range.start, end: b.range.end } }
spec fn is_tag(r: Reported<Expr>, v: TagNode) -> bool { r matches Ok(Expr::Tag(b)) && b.range == v.range && b.name == v.name && b.attrs@ == v.attrs && b.children@ == v.children }
spec fn opener(t: Token) -> bool { t.kind == TokenKind::Name || t.kind == TokenKind::VarName || t.kind == TokenKind::ExclamationMark }
'''
READERS = r'''
    #[verifier::external_body] fn parse_node(&mut self, t: Token) -> (r: Reported<AST>) requires good(old(self).src, t), clean(old(self).src, old(self).tokens@)
        ensures reads(*old(self), *final(self)), match node_of(old(self).src, t, old(self).tokens@) { Some(x) => r == Ok::<AST, AlreadyReported>(x.0) && final(self).tokens@ == x.1 && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ } { unimplemented!() }
    #[verifier::external_body] fn parse_expr(&mut self) -> (r: Reported<Expr>)
        ensures reads(*old(self), *final(self)), match expr_of(old(self).src, old(self).tokens@) { Some(x) => r == Ok::<Expr, AlreadyReported>(x.0) && final(self).tokens@ == x.1 && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ }, r is Ok ==> final(self).tokens@.len() < old(self).tokens@.len() { unimplemented!() }
    #[verifier::external_body] fn parse_name(&mut self, t: Token) -> (r: Reported<Name>)
        ensures reads(*old(self), *final(self)), match name_of(old(self).src, t, old(self).tokens@) { Some(x) => r == Ok::<Name, AlreadyReported>(x.0) && final(self).tokens@ == x.1 && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ } { unimplemented!() }
    #[verifier::external_body] fn tok_lowercase_name_id(&mut self, t: Token) -> (r: NameID) requires t.kind == TokenKind::Name ensures *final(self) == *old(self), r == id_of(lowercase(span(old(self).src, t.range))) { unimplemented!() }
    #[verifier::external_body] fn tok_name_id(&mut self, t: Token) -> (r: NameID) requires t.kind == TokenKind::Name ensures *final(self) == *old(self), r == id_of(span(old(self).src, t.range)) { unimplemented!() }
    #[verifier::external_body] fn pool_get(&self, id: NameID) -> (r: &str) ensures r@ == name_text(id) { unimplemented!() }
'''


def parsing():
    u = Unit('parsing')
    token_types(u)
    u.item(AST, 'enum', 'AST')
    u.item(AST, 'enum', 'SpreadKind', attrs='#[derive(Clone, Copy, PartialEq, Eq, Structural)]')
    for k, n in (('struct', 'TagAttribute'), ('enum', 'TagAttrOrSpread'), ('enum', 'TagName'), ('struct', 'Tag')):
        u.item(AST, k, n)
    u.text('enum SyntaxError { SpreadPositionalNotAllowed, SpreadNamedNotAllowed, TokenExpected(TokenKind), TokenExpectedDoctype, TagDuplicateAttr, TagUnmatchedOpen, TokenExpectedWasEOF(TokenKind), TokenExpectedWas(TokenKind, TokenKind), UnexpectedEOF }')
    u.text(NAMES + GRAMMAR + NODES + 'impl AST {')
    f = u.fn(AST, 'is_whitespace', impl='^impl AST$')
    f.sub('c . is_ascii_whitespace ( )', 'ascii_whitespace(c)', 0)
    f.ensures('r == space_node(node_view(*self))')
    u.text('} impl Parser {' + READERS)
    queue(u)
    nodes_until(u)
    poll_if_spread(u)
    f = u.fn(TAG, 'parse_tag_attribute', impl=PI)
    f.sub('self . parse_expr ( ) . map ( $p )', '(match self.parse_expr() { Ok(e) => Ok($p(e)), Err(e) => Err(e) })', 0)
    f.sub('question_mark . is_some ( )', 'question_mark.is_some()', 0)
    f.ensures('reads(*old(self), *final(self))', outcome('attr_of(old(self).src, old(self).tokens@)', 'r == Ok::<TagAttrOrSpread, AlreadyReported>(x.0) && final(self).tokens@ == x.1'), 'r is Ok ==> final(self).tokens@.len() < old(self).tokens@.len()')
    f.start('broadcast use reading::group_reads; proof { lemma_reads_self(*self); }')
    # the generic function, for the reader of attributes
    f = u.fn(B, 'parse_separated_until', impl=PI)
    f.sub('< T > ( & mut self', '(&mut self', 1).sub('parse : impl Fn ( & mut Self ) -> Reported < T > ,', '', 1).sub('Vec < T >', 'Vec<TagAttrOrSpread>', 1)
    f.sub('parse ( self ) . map_err ( | _ | { self . err_unmatched ( open ) ; self . report ( $e , self . src . eof_range ( ) ) } ) ?', '(match self.parse_tag_attribute() { Ok(a) => a, Err(_) => { let ghost p5 = *self; self.err_unmatched(open); let range = self.src.eof_range(); let e = self.report($e, range); proof { reading::lemma_reads(*old(self), p3, p5); assert(self.tokens@ == p5.tokens@); } return Err(e); } })', 1)
    f.sub('self . expect_poll_kind ( $k ) . ok ( )', '(match self.expect_poll_kind($k) { Ok(t) => Some(t), Err(_) => None })', 0)
    f.sub('let close = loop {', 'let close: Token; loop {', 1).sub('break close', '{ close = found; break }', 1).sub('if let Some ( close ) = close {', 'proof { reading::lemma_reads(*old(self), p2, *self); } let ghost p3 = *self; if let Some(found) = found_close {', 1).sub('let close = if', 'let found_close = if', 1)
    f.requires('sep_kind == TokenKind::Whitespace', 'close_kind == TokenKind::RAngle')
    A = 'attrs_of(old(self).src, Seq::empty(), old(self).tokens@)'
    f.ensures('reads(*old(self), *final(self))', outcome(A, 'r is Ok && r->Ok_0.0@ == x.attrs && r->Ok_0.1 == x.close && final(self).tokens@ == x.rest'), 'r is Ok ==> r->Ok_0.1.kind == close_kind')
    KEEP = ['reads(*old(self), *self)', 'sep_kind == TokenKind::Whitespace', 'close_kind == TokenKind::RAngle']
    f.loop(0, invariant=KEEP, except_break=['!expect_end', f'self.errors@ == old(self).errors@ && {A} == attrs_of(self.src, children@, self.tokens@) || self.errors@ > old(self).errors@ && {A} is None'],
           ensures=[f'match {A} {{ Some(x) => x == (Attrs {{ attrs: children@, close, rest: self.tokens@ }}) && self.errors@ == old(self).errors@, None => self.errors@ > old(self).errors@ }}', 'close.kind == close_kind'], decreases='self.tokens@.len()')
    f.start('broadcast use reading::group_reads; proof { lemma_reads_self(*self); }')
    f.loop_start(0, 'let ghost p1 = *self;')
    f.before('let found_close', 'let ghost p2 = *self; proof { reading::lemma_reads(*old(self), p1, p2); assert(skipped(p2.tokens@) == skipped(p1.tokens@) || p2.tokens@.len() > 0 && space(p2.tokens@.last())); }')
    f.before('children . push', 'let ghost p4 = *self; proof { reading::lemma_reads(*old(self), p3, p4); }')
    f.loop_end(0, 'proof { reading::lemma_reads(*old(self), p4, *self); }')
    f = u.fn(TAG, 'is_close_tag', impl=PI)
    f.sub('s == "</>"', 'str_eq(s, "</>")', 0).sub('self . string_pool . get ( $x ) . eq_ignore_ascii_case ( $y )', 'eq_ci(self.pool_get($x), $y)', 0)
    f.sub('& s [ $a .. $b ]', 'ascii_cut(s, $a, $b)', 0).sub('s . len ( )', 'ascii_len(s)', 0)
    f.requires('good(self.src, tok)').ensures('r == closes(self.src, name_id, tok)')
    f.start('proof { reveal_strlit("</>"); assert("</>"@ =~= seq![\'<\', \'/\', \'>\']); }')
    f = u.fn(TAG, 'parse_tag', impl=PI)
    f.sub('langle , Parser :: parse_tag_attribute ,', 'langle,', 1)
    f.sub('self . tok_str ( doctype ) . eq_ignore_ascii_case ( $x )', 'eq_ci(self.tok_str(doctype), $x)', 0)
    f.sub('str_ids :: _DOCTYPE', 'id_doctype()', 0).sub('str_ids :: ANONYMOUS', 'id_anonymous()', 0).sub('taginfo :: ', '', 0)
    f.sub('let name = self . string_pool . get ( $x ) ; self . report ( SyntaxError :: TagDuplicateAttr ( name ) , $r )', 'self.report(SyntaxError::TagDuplicateAttr, $r)', 0)
    f.sub('for attr in attrs . iter ( ) {', 'let mut at: usize = 0; while at < attrs.len() { let attr = &attrs[at]; at += 1; proof { assert(attrs@.take(at as int).drop_last() =~= attrs@.take(at - 1)); }', 0)
    f.sub('attrs . into_boxed_slice ( )', 'boxed(attrs)', 0).sub('children . into_boxed_slice ( )', 'boxed(children)', 0).sub('Box :: from ( [ ] )', 'boxed_none()', 0)
    f.sub('self . tok_str ( rangle ) == "/>"', 'str_eq(self.tok_str(rangle), "/>")', 0)
    f.sub('let ( children , Some ( close ) ) = self . parse_nodes_until ( | _self , tok | $c ) else {', 'let read = self.parse_nodes_until(|_self: &Parser, tok: Token| -> (r: bool) requires good(_self.src, tok) ensures r == closes(_self.src, name_id, tok) { $c }, Ghost(closer_of(self.src, name_id))); let (children, Some(close)) = read else {', 1)
    f.requires('clean(old(self).src, old(self).tokens@)', 'old(self).tokens@.len() > 0 && opener(old(self).tokens@.last())')
    T = 'tag_of(old(self).src, langle, old(self).tokens@)'
    f.ensures('reads(*old(self), *final(self))', outcome(T, 'is_tag(r, x) && final(self).tokens@ == x.rest'))
    f.attr('#[verifier::loop_isolation(false)]')
    f.start('broadcast use reading::group_reads; proof { lemma_reads_self(*self); reveal_strlit("DOCTYPE"); reveal_strlit("/>"); assert("/>"@ =~= seq![\'/\', \'>\']); assert("DOCTYPE"@ =~= seq![\'D\', \'O\', \'C\', \'T\', \'Y\', \'P\', \'E\']); }')
    f.before('let mut names_used', 'let ghost p2 = *self;')
    f.loop(0, invariant=['at <= attrs@.len()', 'self.src == p2.src', 'self.tokens@ == p2.tokens@', 'names_used@ == names_to(attrs@.take(at as int))', 'self.errors@ >= p2.errors@', 'distinct(attrs@.take(at as int)) == (self.errors@ == p2.errors@)'], decreases='attrs@.len() - at')
    f.before('let mut tag', 'let ghost attrs0 = attrs@; let ghost p3 = *self; proof { assert(attrs@.take(attrs@.len() as int) =~= attrs@); lemma_reads_self(p2); assert(reads(p2, *self)); reading::lemma_reads(*old(self), p2, *self); }')
    f.before('Ok (', '''proof { let t = tag_of(old(self).src, langle, old(self).tokens@); assert(self.errors@ >= p3.errors@); if t is Some { assert(tag_name(old(self).src, old(self).tokens@) is Some); assert(attrs_of(self.src, Seq::empty(), tag_name(old(self).src, old(self).tokens@)->Some_0.2) is Some); assert(distinct(attrs0));  assert(t->Some_0.range == tag.range); assert(t->Some_0.name == tag.name); assert(t->Some_0.attrs == tag.attrs@); assert(t->Some_0.children == tag.children@); assert(self.tokens@ == t->Some_0.rest); } }''', -1)
    u.text('}')
    return u


def forms():
    u = Unit('forms')
    kinds(u)
    lexer(u)
    u.text(r'''
/// A closing tag of C02 has the form which is_close_tag relies on.
proof fn lemma_close_form(s: Seq<char>) requires s.len() > 0, lex(s).1 == TokenKind::CloseTag
    ensures ({ let t = s.take(lex(s).0); t.len() >= 3 && t[0] == '<' && t[1] == '/' && t.last() == '>' && forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i] as u32) < 128 })
{
    let t = s.take(lex(s).0);
    reveal_strlit("</>"); reveal_strlit("</"); reveal_strlit("<");
    assert(s[0] == '<');
    if s.len() > 2 && start(s[2]) { lemma_run_all(s.skip(3), Class::Cont); assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i] as u32) < 128 by { if 3 <= i < t.len() - 1 { assert(s.skip(3)[i - 3] == s[i]); } } }
    else { assert(starts(s, "</>"@)); assert(s[2] == "</>"@[2]); }
}
/// And so have names and variables.
proof fn lemma_name_form(s: Seq<char>) requires s.len() > 0
    ensures lex(s).1 == TokenKind::VarName || lex(s).1 == TokenKind::FuncName ==> ({ let t = s.take(lex(s).0); t.len() >= 2 && (t[0] == '$' || t[0] == '@') }), lex(s).1 == TokenKind::Name ==> lex(s).0 > 0
{
    if s.len() > 1 && start(s[1]) { lemma_run_all(s.skip(1), Class::Cont); assert(s.skip(1)[0] == s[1]); lemma_run_all(s.skip(1).skip(1), Class::Cont); assert(within(Class::Cont, s[1])); }
    lemma_run_all(s.skip(1), Class::Cont);
}
proof fn lemma_run_all(s: Seq<char>, c: Class) ensures 0 <= run(s, c) <= s.len(), forall|i: int| 0 <= i < run(s, c) ==> within(c, #[trigger] s[i]) decreases s.len() {
    if s.len() > 0 && within(c, s[0]) { let t = s.skip(1); lemma_run_all(t, c); assert forall|i: int| 0 <= i < run(s, c) implies within(c, #[trigger] s[i]) by { if i > 0 { assert(within(c, t[i - 1])); } } }
}
''')
    return u


COMPILE = r'''
struct Expr { x: u64 } struct Name { x: u64 } struct AST { x: u64 }
#[derive(Clone, Copy)] struct SourceRange { x: u64 }
struct AlreadyReported { e: u8 }
type Reported<T = ()> = Result<T, AlreadyReported>;
/// The attributes with their values, in order.
impl View for AttrMap { type V = Seq<(NameID, Option<Seq<char>>)>; uninterp spec fn view(&self) -> Seq<(NameID, Option<Seq<char>>)>; }
spec fn given(s: Seq<(NameID, Option<Seq<char>>)>, k: NameID) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
spec fn text_of(v: Option<RcStr>) -> Option<Seq<char>> { match v { Some(s) => Some(s@), None => None } }
impl AttrMap {
    #[verifier::external_body] fn default() -> (r: AttrMap) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body] fn insert(&mut self, k: NameID, v: Option<RcStr>) -> (r: Option<Option<RcStr>>) ensures r is Some == given(old(self)@, k), r is None ==> final(self)@ == old(self)@.push((k, text_of(v))) { unimplemented!() }
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body] fn at(&self, i: usize) -> (r: (NameID, Option<RcStr>)) requires i < self@.len() ensures r.0 == self@[i as int].0, text_of(r.1) == self@[i as int].1 { unimplemented!() }
}
impl Value { #[verifier::external_body] fn is_unit(&self) -> (r: bool) ensures r == is_none(*self) { unimplemented!() } }
impl Dict {
    #[verifier::external_body] fn len(&self) -> (r: usize) ensures r == self.keys@.len() { unimplemented!() }
    #[verifier::external_body] fn key(&self, i: usize) -> (r: NameID) requires i < self.keys@.len() ensures r == self.keys@[i as int] { unimplemented!() }
    #[verifier::external_body] fn item(&self, i: usize) -> (r: &Value) requires i < self.items@.len() ensures *r == self.items@[i as int] { unimplemented!() }
}
/// A dict has one value for each of its keys.
spec fn dict_ok(v: Value) -> bool { v matches Value::Dict(d) ==> d.keys@.len() == d.items@.len() && d.keys@.no_duplicates() }
spec fn string_of(v: Value) -> Option<Seq<char>> { if is_none(v) { None } else { Some(v->Str_0@) } }
/// What the compiler knows: its variables, its pool of names, what was written and reported.
#[verifier::external_body] struct State { x: u64 }
struct Compiler { state: Ghost<State>, errors: Ghost<nat> }
enum NameError { InvalidTag(RcStr) }
enum RuntimeError { AttrMultipleValues }
/// Evaluation, where no error ends it; a sequence of nodes; the names of the pool (C05).
uninterp spec fn eval(s: State, e: Expr, t: Type) -> Option<(Value, State)>;
uninterp spec fn eval_name(s: State, e: Name, t: Type) -> Option<(Value, State)>;
uninterp spec fn sequence(s: State, nodes: Seq<AST>, tag: NameID) -> (HTML, State);
uninterp spec fn identifier(s: Seq<char>) -> bool;
uninterp spec fn lower_id(s: Seq<char>) -> NameID;
spec fn lower_char(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
spec fn same_ci(a: Seq<char>, b: Seq<char>) -> bool { a.map_values(|c: char| lower_char(c)) =~= b.map_values(|c: char| lower_char(c)) }
#[verifier::external_body] fn eq_ci(a: &str, b: &str) -> (r: bool) ensures r == same_ci(a@, b@) { a.eq_ignore_ascii_case(b) }
#[verifier::external_body] fn is_identifier(s: &str) -> (r: bool) ensures r == identifier(s@) { unimplemented!() }
impl Expr { #[verifier::external_body] fn range(&self) -> SourceRange { unimplemented!() } }
impl Name { #[verifier::external_body] fn range(&self) -> SourceRange { unimplemented!() } }
spec fn same_but_errors(a: Compiler, b: Compiler) -> bool { b.state@ == a.state@ && b.errors@ > a.errors@ }
impl Compiler {
    #[verifier::external_body] fn report<E>(&mut self, e: E, range: SourceRange) -> (r: AlreadyReported) ensures final(self).errors@ == old(self).errors@ + 1 { unimplemented!() }
    #[verifier::external_body] fn evaluate_node(&mut self, node: &Expr, ty: &Type) -> (r: Reported<Value>)
        ensures final(self).errors@ >= old(self).errors@, match eval(old(self).state@, *node, *ty) { Some((v, st)) => r == Ok::<Value, AlreadyReported>(v) && final(self).state@ == st && accepts(*ty, v) && dict_ok(v), None => r is Err && final(self).errors@ > old(self).errors@ } { unimplemented!() }
    #[verifier::external_body] fn evaluate_name(&mut self, name: &Name, ty: &Type) -> (r: Reported<Value>)
        ensures final(self).errors@ >= old(self).errors@, match eval_name(old(self).state@, *name, *ty) { Some((v, st)) => r == Ok::<Value, AlreadyReported>(v) && final(self).state@ == st && accepts(*ty, v), None => r is Err && final(self).errors@ > old(self).errors@ } { unimplemented!() }
    #[verifier::external_body] fn compile_sequence_in_tag(&mut self, nodes: &[AST], tag: NameID) -> (r: HTML)
        ensures final(self).errors@ >= old(self).errors@, r == sequence(old(self).state@, nodes@, tag).0, final(self).state@ == sequence(old(self).state@, nodes@, tag).1 { unimplemented!() }
    #[verifier::external_body] fn pool_insert_lowercase(&mut self, s: RcStr) -> (r: NameID) ensures *final(self) == *old(self), r == lower_id(s@) { unimplemented!() }
}
ghost struct Attrs { state: State, attrs: Seq<(NameID, Option<Seq<char>>)> }
/// An attribute is given once.
spec fn with_attr(d: Attrs, k: NameID, v: Option<Seq<char>>) -> Option<Attrs> { if given(d.attrs, k) { None } else { Some(Attrs { attrs: d.attrs.push((k, v)), ..d }) } }
/// Of a dict, each entry is an attribute, `none` one without a value.
spec fn with_entries(d: Attrs, m: RcDict, n: nat) -> Option<Attrs> decreases n {
    if n == 0 { Some(d) } else { match with_entries(d, m, (n - 1) as nat) { Some(d) => with_attr(d, m.keys@[n - 1], string_of(m.items@[n - 1])), None => None } }
}
/// `name` has no value; `name=value` has the string; `name?=value` is left out when that is `none`.
spec fn attr_step(d: Attrs, a: TagAttrOrSpread) -> Option<Attrs> {
    match a {
        TagAttrOrSpread::Attr(a) => match a.value {
            None => with_attr(d, a.name_id, None),
            Some(e) => match eval(d.state, e, if a.question_mark { Type::Optional(Box::new(Type::Str)) } else { Type::Str }) {
                Some((v, state)) => if is_none(v) { Some(Attrs { state, ..d }) } else { with_attr(Attrs { state, ..d }, a.name_id, string_of(v)) },
                None => None,
            },
        },
        TagAttrOrSpread::Spread(e) => match eval(d.state, e, Type::Dict(Box::new(Type::Optional(Box::new(Type::Str))))) {
            Some((Value::Dict(m), state)) => with_entries(Attrs { state, ..d }, m, m.keys@.len()),
            _ => None,
        },
    }
}
spec fn attrs_to(s: State, a: Seq<TagAttrOrSpread>, n: nat) -> Option<Attrs> decreases n {
    if n == 0 { Some(Attrs { state: s, attrs: Seq::empty() }) } else { match attrs_to(s, a, (n - 1) as nat) { Some(d) => attr_step(d, a[n - 1]), None => None } }
}
proof fn lemma_attrs_none(s: State, a: Seq<TagAttrOrSpread>, n: nat, m: nat) requires n <= m, attrs_to(s, a, n) is None ensures attrs_to(s, a, m) is None decreases m { if n < m { lemma_attrs_none(s, a, n, (m - 1) as nat); } }
proof fn lemma_entries_none(d: Attrs, a: RcDict, n: nat, m: nat) requires n <= m, with_entries(d, a, n) is None ensures with_entries(d, a, m) is None decreases m { if n < m { lemma_entries_none(d, a, n, (m - 1) as nat); } }
spec fn name_value(s: State, n: TagName) -> Option<(NameID, State)> {
    match n { TagName::Literal(id) => Some((id, s)), TagName::Name(n) => match eval_name(s, n, Type::Str) {
        Some((v, st)) => if identifier(v->Str_0@) { Some((lower_id(v->Str_0@), st)) } else if same_ci(v->Str_0@, seq!['!', 'D', 'O', 'C', 'T', 'Y', 'P', 'E']) { Some((str_ids::_DOCTYPE, st)) } else { None },
        None => None,
    } }
}
ghost struct Value4 { id: NameID, attrs: Seq<(NameID, Option<Seq<char>>)>, content: HTML, state: State }
/// The name, the attributes in their order, then the content.
spec fn tag_value(s: State, t: TagAst) -> Option<Value4> {
    match name_value(s, t.name) { None => None, Some((id, s1)) => match attrs_to(s1, t.attrs@, t.attrs@.len()) { None => None, Some(d) => { let c = sequence(d.state, t.children@, id); Some(Value4 { id, attrs: d.attrs, content: c.0, state: c.1 }) } } }
}
#[verifier::external_body] fn expected<T>(r: Result<T, ()>) -> (v: T) requires r is Ok ensures r == Ok::<T, ()>(v) { r.unwrap() }
#[verifier::external_body] fn clone_rc_value(v: &Value) -> (r: Value) ensures r == *v { unimplemented!() }
proof fn lemma_string(v: Value) ensures accepts(Type::Str, v) ==> v is Str, accepts(Type::Optional(Box::new(Type::Str)), v) ==> is_none(v) || v is Str { reveal_with_fuel(accepts, 3); }
proof fn lemma_item(v: Value, i: int) requires accepts(Type::Dict(Box::new(Type::Optional(Box::new(Type::Str)))), v), v is Dict, 0 <= i < v->Dict_0.items@.len() ensures is_none(v->Dict_0.items@[i]) || v->Dict_0.items@[i] is Str { reveal_with_fuel(accepts, 2); assert(accepts(Type::Optional(Box::new(Type::Str)), v->Dict_0.items@[i])); lemma_string(v->Dict_0.items@[i]); }
struct OfStr; struct OfOption; struct OfDict; struct OfMap;
'''
CV = 'src/compiler/value_convert.rs'


def compiling():
    u = Unit('compiling')
    world(u)
    for k, n in (('struct', 'TagAttribute'), ('enum', 'TagAttrOrSpread'), ('enum', 'TagName')):
        u.item(AST, k, n)
    u.item(AST, 'struct', 'Tag', name='TagAst') if 0 else u.item(AST, 'struct', 'Tag', subs=[('struct Tag', 'struct TagAst')])
    u.text(COMPILE + 'impl Type {')
    type_fns(u, ['option', 'unit_is_assignable', 'option_if', 'dict'])
    u.text('}')
    # the conversions, for the types which are needed here
    OK = 'match r { Ok(x) => %s, Err(_) => false }'
    u.text('impl OfStr {')
    f = u.fn(CV, 'try_convert', impl='^impl TryConvert for RcStr$')
    f.ensures('r is Ok == (value is Str)', 'r matches Ok(s) ==> s == value->Str_0')
    u.text('} impl OfOption {')
    f = u.fn(CV, 'try_convert', impl='^impl < T : TryConvert > TryConvert for Option < T >$')
    f.sub('T :: try_convert ( value ) . map ( Option :: Some )', '(match OfStr::try_convert(value) { Ok(s) => Ok(Some(s)), Err(e) => Err(e) })', 0).sub('Option < T >', 'Option<RcStr>', 0)
    f.ensures('r is Ok == (is_none(value) || value is Str)', 'r matches Ok(s) ==> text_of(s) == string_of(value)')
    u.text('} impl OfDict {')
    f = u.fn(CV, 'try_convert', impl='^impl TryConvert for RcDict$')
    f.ensures('r is Ok == (value is Dict)', 'r matches Ok(s) ==> s == value->Dict_0')
    u.text('} impl OfMap {')
    f = u.fn(CV, 'try_convert', impl='^impl < T : TryConvert > TryConvert for NameIDMap < T >$')
    f.sub('NameIDMap < T >', 'AttrMap', 0).sub('NameIDMap :: default', 'AttrMap::default', 0).sub('TryConvert :: try_convert ( value )', 'OfDict::try_convert(value)', 0)
    f.sub('T :: try_convert ( v . clone ( ) )', 'OfOption::try_convert(clone_rc_value(v))', 0)
    f.sub('for ( & k , v ) in vs . iter ( ) {', 'let mut at: usize = 0; while at < vs.len() { let k = vs.key(at); let v = vs.item(at); at += 1;', 1)
    f.requires('dict_ok(value)')
    f.ensures('accepts(Type::Dict(Box::new(Type::Optional(Box::new(Type::Str)))), value) && value is Dict ==> r is Ok', 'r matches Ok(s) ==> value matches Value::Dict(d) && s@ == entries(d)')
    f.loop(0, invariant=['at <= vs.keys@.len()', 'dict_ok(value)', 'value == Value::Dict(vs)', 'out@ =~= entries(vs).take(at as int)'], decreases='vs.keys@.len() - at')
    f.loop_start(0, 'proof { let e = entries(vs); let n = at as int; assert(!given(e.take(n), vs.keys@[n])) by { assert forall|i: int| 0 <= i < n implies e.take(n)[i].0 != vs.keys@[n] by { assert(e.take(n)[i].0 == vs.keys@[i]); } } if accepts(Type::Dict(Box::new(Type::Optional(Box::new(Type::Str)))), value) { lemma_item(value, n); } assert(e.take(n + 1) =~= e.take(n).push(e[n])); }')
    u.text('} spec fn entries(d: RcDict) -> Seq<(NameID, Option<Seq<char>>)> { Seq::new(d.keys@.len(), |i: int| (d.keys@[i], string_of(d.items@[i]))) } impl Tag {')
    f = u.fn(CT, 'new_with_attrs', impl='^impl Tag$')
    f.ensures('r.name_id == name_id', 'r.attributes == attributes', 'r.content == content')
    u.text('} impl Compiler {')
    u.default_subs = [('errors :: $i', '$i'), ('ast :: Tag ', 'TagAst '), ('ast :: $i', '$i')]
    I = "^impl < 'a > Compiler < 'a >$"
    f = u.fn(CT, 'add_attr', impl=I)
    f.sub('let name = self . get_name ( name_id ) ;', '', 0).sub('AttrMultipleValues ( name )', 'AttrMultipleValues', 0)
    f.ensures('final(self).errors@ >= old(self).errors@', 'given(old(attrs)@, name_id) ==> r is Err && final(self).errors@ > old(self).errors@', '!given(old(attrs)@, name_id) ==> r is Ok && *final(self) == *old(self) && final(attrs)@ == old(attrs)@.push((name_id, text_of(value)))')
    f = u.fn(CT, 'compile_tag_name', impl=I)
    f.sub('let name_str : RcStr = $x . expect_convert ( ) ;', 'let name_str: RcStr = expected(OfStr::try_convert($x));', 0)
    f.sub('text :: is_identifier', 'is_identifier', 0).sub('self . string_pool_mut ( ) . insert_lowercase ( $x )', 'self.pool_insert_lowercase($x)', 0).sub('name_str . eq_ignore_ascii_case ( $x )', 'eq_ci(&name_str, $x)', 0)
    f.ensures('final(self).errors@ >= old(self).errors@', 'match name_value(old(self).state@, *name) { Some((id, st)) => r == Ok::<NameID, AlreadyReported>(id) && final(self).state@ == st, None => r is Err && final(self).errors@ > old(self).errors@ }')
    f.start('proof { reveal_strlit("!DOCTYPE"); assert("!DOCTYPE"@ =~= seq![\'!\', \'D\', \'O\', \'C\', \'T\', \'Y\', \'P\', \'E\']); }')
    f = u.fn(CT, 'compile_tag', impl=I)
    f.sub('let s : Option < RcStr > = $x . expect_convert ( ) ;', 'let given = $x; proof { lemma_string(given); } let s: Option<RcStr> = expected(OfOption::try_convert(given));', 0)
    f.sub('let dict : AttrMap = $x . expect_convert ( ) ;', 'let dict: AttrMap = expected(OfMap::try_convert($x));', 0)
    f.sub('& AttrMap :: as_type ( )', '&Type::Str.option().dict()', 0).sub('attr . value . as_ref ( )', '&attr.value', 0)
    f.sub('for attr in tag . attrs . iter ( ) {', 'let mut at: usize = 0; while at < tag.attrs.len() { let attr = &tag.attrs[at]; at += 1;', 1)
    f.sub('for ( k , s ) in dict . into_iter ( ) {', 'let mut n: usize = 0; while n < dict.len() { let (k, s) = dict.at(n); n += 1;', 1)
    f.ensures('final(self).errors@ >= old(self).errors@', 'match tag_value(old(self).state@, *tag) { Some(x) => r matches Ok(t) && t.name_id == x.id && t.attributes@ == x.attrs && t.content == x.content && final(self).state@ == x.state, None => r is Err && final(self).errors@ > old(self).errors@ }')
    D = 'attrs_to(s0, tag.attrs@, tag.attrs@.len())'
    E = 'with_entries(d1, d, d.keys@.len())'
    f.attr('#[verifier::loop_isolation(false)]')
    f.before('let mut attrs', 'let ghost s0 = self.state@;')
    f.loop(0, invariant=['at <= tag.attrs@.len()', 'self.errors@ >= old(self).errors@', 'attrs_to(s0, tag.attrs@, at as nat) == Some(Attrs { state: self.state@, attrs: attrs@ })', 'name_value(old(self).state@, tag.name) == Some((tag_name_id, s0))'], decreases='tag.attrs@.len() - at')
    f.before('let mut at', 'proof { assert(attrs@ =~= Seq::empty()); }')
    f.loop_start(0, 'let ghost b1 = self.errors@; let ghost d0 = Attrs { state: self.state@, attrs: attrs@ }; proof { if attr_step(d0, tag.attrs@[at as int]) is None { assert(attrs_to(s0, tag.attrs@, (at + 1) as nat) is None); lemma_attrs_none(s0, tag.attrs@, (at + 1) as nat, tag.attrs@.len()); } }')
    f.before('let dict', 'let ghost d = eval(self.state@, *spread, Type::Dict(Box::new(Type::Optional(Box::new(Type::Str))))); ')
    f.before('let range = spread', 'let ghost d = d->Some_0.0->Dict_0; let ghost d1 = Attrs { state: self.state@, attrs: attrs@ };')
    f.loop(1, invariant=['n <= dict@.len()', 'self.errors@ >= old(self).errors@', 'self.state@ == d1.state', 'dict@ == entries(d)', 'with_entries(d1, d, n as nat) == Some(Attrs { state: self.state@, attrs: attrs@ })'], decreases='dict@.len() - n')
    f.loop_start(1, 'proof { if given(attrs@, d.keys@[n as int]) { assert(with_entries(d1, d, (n + 1) as nat) is None); lemma_entries_none(d1, d, (n + 1) as nat, d.keys@.len()); } }')
    u.text('}')
    return u


UNITS = [forms, parsing, compiling]

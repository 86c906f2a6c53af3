"""C29: declarations, parameters and arguments are read as they are written."""
from vx import Unit
from contracts.libparse import *
from contracts import libbind

FUNC = 'src/parser/func.rs'
AST = 'src/parser/ast.rs'
SIG = 'src/compiler/signature.rs'

# the generic list of items, which is specialised to one kind of item
LIST = r'''
/// Items with commas between them, and perhaps one after the last, up to a closing bracket.
spec fn NAME(src: Src, acc: Seq<ITEM>, st0: Seq<Token>, must_end: bool, close: TokenKind) -> Option<(Seq<ITEM>, Token, Seq<Token>)> decreases st0.len() {
    let st = skipped(st0);
    if st.len() > 0 && st.last().kind == close { Some((acc, st.last(), st.drop_last())) }
    else if must_end { None }
    else { match READ(src, st) {
        Some((a, rest)) => if rest.len() < st0.len() { let after = skipped(rest); let comma = after.len() > 0 && after.last().kind == TokenKind::Comma; NAME(src, acc.push(a), if comma { after.drop_last() } else { after }, !comma, close) } else { None },
        None => None,
    } }
}
'''


def list_spec(name, item, read):
    return LIST.replace('NAME', name).replace('ITEM', item).replace('READ', read)


def separated(u, spec, item, call, rename=None, extra=(), each=None):
    """parse_separated_until for one kind of item, which `call` reads; within `impl Parser {`."""
    f = u.fn(B, 'parse_separated_until', impl=PI)
    f.sub('fn parse_separated_until < T > ( & mut self', f'fn {rename or "parse_separated_until"}(&mut self', 1).sub('parse : impl Fn ( & mut Self ) -> Reported < T > ,', '', 1).sub('Vec < T >', f'Vec<{item}>', 1)
    f.sub('parse ( self ) . map_err ( | _ | { self . err_unmatched ( open ) ; self . report ( $e , self . src . eof_range ( ) ) } ) ?', f'(match {call} {{ Ok(a) => a, Err(_) => {{ let ghost p5 = *self; self.err_unmatched(open); let range = self.src.eof_range(); let e = self.report($e, range); proof {{ reading::lemma_reads(*old(self), p3, p5); assert(self.tokens@ == p5.tokens@); }} return Err(e); }} }})', 1)
    f.sub('self . expect_poll_kind ( $k ) . ok ( )', '(match self.expect_poll_kind($k) { Ok(t) => Some(t), Err(_) => None })', 0)
    f.sub('let close = loop {', 'let close: Token; loop {', 1).sub('break close', '{ close = found; break }', 1).sub('if let Some ( close ) = close {', 'proof { reading::lemma_reads(*old(self), p2, *self); } let ghost p3 = *self; if let Some(found) = found_close {', 1).sub('let close = if', 'let found_close = if', 1)
    f.requires('sep_kind == TokenKind::Comma', 'close_kind != TokenKind::Comma && close_kind != TokenKind::Whitespace && close_kind != TokenKind::Newline', 'clean(old(self).src, old(self).tokens@)', *extra)
    A = f'{spec}(old(self).src, Seq::empty(), old(self).tokens@, false, close_kind)'
    f.ensures('reads(*old(self), *final(self))', outcome(A, 'r is Ok && r->Ok_0.0@ == x.0 && r->Ok_0.1 == x.1 && final(self).tokens@ == x.2'), 'r is Ok ==> r->Ok_0.1.kind == close_kind')
    if each:
        f.ensures(f'r matches Ok(x) ==> forall|i: int| 0 <= i < x.0@.len() ==> {each("#[trigger] x.0@[i]")}')
    f.loop(0, invariant=([f'forall|i: int| 0 <= i < children@.len() ==> {each("#[trigger] children@[i]")}'] if each else []) + ['reads(*old(self), *self)', 'clean(self.src, self.tokens@)', 'sep_kind == TokenKind::Comma', 'close_kind != TokenKind::Comma && close_kind != TokenKind::Whitespace && close_kind != TokenKind::Newline'],
           except_break=[f'self.errors@ == old(self).errors@ && {A} == {spec}(self.src, children@, self.tokens@, expect_end, close_kind) || self.errors@ > old(self).errors@ && {A} is None'],
           ensures=[f'match {A} {{ Some(x) => x == (children@, close, self.tokens@) && self.errors@ == old(self).errors@, None => self.errors@ > old(self).errors@ }}', 'close.kind == close_kind'], decreases='self.tokens@.len()')
    f.start('broadcast use reading::group_reads; proof { lemma_reads_self(*self); }')
    f.loop_start(0, 'let ghost p1 = *self;')
    f.before('let found_close', 'let ghost p2 = *self; proof { reading::lemma_reads(*old(self), p1, p2); reading::lemma_reads_clean(p1, p2); }')
    f.before('children . push', 'let ghost p4 = *self; proof { reading::lemma_reads(*old(self), p3, p4); reading::lemma_reads_clean(p3, p4); }')
    f.after('children . push ( child ) ; self . skip_whitespace ( ) ;', 'let ghost p6 = *self; proof { reading::lemma_reads(*old(self), p4, p6); reading::lemma_reads_clean(p4, p6); }')
    f.loop_end(0, 'proof { reading::lemma_reads(*old(self), p6, *self); reading::lemma_reads_clean(p6, *self); }')
    return f


COMMON = r'''
struct Export { x: u64 } struct Name { x: u64 }
#[verifier::external_body] struct Expr { x: u64 }
uninterp spec fn expr_range(e: Expr) -> SourceRange;
impl Expr { #[verifier::external_body] fn range(&self) -> (r: SourceRange) ensures r == expr_range(*self) { unimplemented!() } }
/// What the rest of the parser reads, without an error: an expression.
uninterp spec fn expr_of(src: Src, st: Seq<Token>) -> Option<(Expr, Seq<Token>)>;
/// The name in a token, without its sigil.
spec fn tok_id(src: Src, t: Token) -> NameID { id_of(if t.kind == TokenKind::Name { span(src, t.range) } else { span(src, t.range).skip(1) }) }
#[verifier::external_body] fn without_sigil(s: &str) -> (r: &str) requires s@.len() >= 1, (s@[0] as u32) < 128 ensures r@ == s@.skip(1) { &s[1..] }
#[verifier::external_body] fn starts_with(s: &str, p: &str) -> (r: bool) ensures r == (p@.len() <= s@.len() && s@.take(p@.len() as int) == p@) { s.starts_with(p) }
/// Only the empty text has the anonymous name (C05).
#[verifier::external_body] proof fn axiom_anonymous(s: Seq<char>) ensures (id_of(s) == anonymous()) == (s.len() == 0) {}
spec fn from_to(a: SourceRange, end: u32) -> SourceRange { SourceRange { src_id: a.src_id, start: a.start, end } }
'''
READ_EXPR = r'''
    #[verifier::external_body] fn parse_expr(&mut self) -> (r: Reported<Expr>)
        ensures reads(*old(self), *final(self)), match expr_of(old(self).src, old(self).tokens@) { Some(x) => r == Ok::<Expr, AlreadyReported>(x.0) && final(self).tokens@ == x.1 && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ }, r is Ok ==> final(self).tokens@.len() < old(self).tokens@.len() { unimplemented!() }
'''


PARAMS = r'''
type Raw = (Param, SpreadKind, bool);
/// Is there a token of this kind, after white space?
spec fn next_is(st: Seq<Token>, k: TokenKind) -> bool { st.len() > 0 && st.last().kind == k }
spec fn spread_kind(st: Seq<Token>) -> SpreadKind { if next_is(st, TokenKind::Asterisk) { SpreadKind::Positional } else if next_is(st, TokenKind::DoubleAsterisk) { SpreadKind::Named } else { SpreadKind::NoSpread } }
spec fn after_spread(st: Seq<Token>) -> Seq<Token> { skipped(if spread_kind(st) == SpreadKind::NoSpread { st } else { st.drop_last() }) }
ghost struct Typed { implicit: bool, ty: Type, range: Option<SourceRange>, rest: Seq<Token> }
/// `: type` or `: @implicit type`, or neither.
spec fn annotation(src: Src, st: Seq<Token>) -> Option<Typed> {
    if !next_is(st, TokenKind::Colon) { Some(Typed { implicit: false, ty: Type::Any, range: None, rest: st }) } else {
        let a = skipped(st.drop_last()); let implicit = next_is(a, TokenKind::Keyword(Keyword::Implicit));
        match type_of(src, if implicit { a.drop_last() } else { a }) { Some((ty, range, rest)) => Some(Typed { implicit, ty, range: Some(range), rest }), None => None }
    }
}
/// `= value`, or nothing.
spec fn default_value(src: Src, st: Seq<Token>) -> Option<(Option<Box<Expr>>, Seq<Token>)> {
    if !next_is(st, TokenKind::Equals) { Some((None, st)) } else { match expr_of(src, st.drop_last()) { Some((e, rest)) => Some((Some(Box::new(e)), rest)), None => None } }
}
/// A parameter: `$name`, perhaps with `*` or `**` before it, and `?`, a type or a default value after it.
#[verifier::opaque]
spec fn param_of(src: Src, st00: Seq<Token>) -> Option<(Raw, Seq<Token>)> {
    let st0 = skipped(st00); let kind = spread_kind(st0); let st1 = after_spread(st0);
    if !next_is(st1, TokenKind::VarName) { None } else {
        let name = st1.last(); let st2 = skipped(st1.drop_last());
        let optional = next_is(st2, TokenKind::QuestionMark); let st3 = skipped(if optional { st2.drop_last() } else { st2 });
        match annotation(src, st3) { None => None, Some(x) => match default_value(src, skipped(x.rest)) { None => None, Some((v, rest)) =>
            // a spread parameter has no default value
            if v is Some && kind != SpreadKind::NoSpread { None } else {
                let start = if kind == SpreadKind::NoSpread { name.range } else { st0.last().range };
                let end = match v { Some(e) => expr_range(*e).end, None => match x.range { Some(r) => r.end, None => if optional { st2.last().range.end } else { name.range.end } } };
                Some(((Param { range: from_to(start, end), name_id: tok_id(src, name), question_mark: optional, is_implicit: x.implicit, type_annotation: x.ty, default_value: v }, kind, underscored(src, name)), rest))
            } } }
    }
}
/// `$_name` is a positional parameter.
spec fn underscored(src: Src, t: Token) -> bool { span(src, t.range).len() >= 2 && span(src, t.range).take(2) == seq!['$', '_'] }
spec fn spread(x: Raw) -> bool { x.1 != SpreadKind::NoSpread }
spec fn positional(x: Raw) -> bool { x.1 == SpreadKind::Positional || x.1 == SpreadKind::NoSpread && x.2 }
spec fn required(x: Raw) -> bool { !spread(x) && !x.0.question_mark && x.0.default_value is None }
/// May this parameter follow those?
#[verifier::opaque]
spec fn may_follow(s: Seq<Raw>, x: Raw) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.name_id != x.0.name_id
    &&& forall|i: int| 0 <= i < s.len() && positional(x) ==> positional(#[trigger] s[i])
    &&& forall|i: int| 0 <= i < s.len() && required(x) && positional(#[trigger] s[i]) == positional(x) && !spread(s[i]) ==> required(s[i])
    &&& forall|i: int| 0 <= i < s.len() && spread(#[trigger] s[i]) ==> positional(s[i]) != positional(x)
    &&& x.0.is_implicit ==> !positional(x) && !spread(x) && x.0.default_value is None
    &&& spread(x) ==> positional(x) == x.2
}
/// Each parameter may follow those before it.
spec fn legal(s: Seq<Raw>) -> bool decreases s.len() { s.len() == 0 || legal(s.drop_last()) && may_follow(s.drop_last(), s.last()) }
/// How many there are of a class.
spec fn number(s: Seq<Raw>, pos: bool, spr: bool) -> nat decreases s.len() { if s.len() == 0 { 0 } else { number(s.drop_last(), pos, spr) + if positional(s.last()) == pos && spread(s.last()) == spr { 1nat } else { 0 } } }
spec fn decls(s: Seq<Raw>) -> Seq<Param> { s.map_values(|x: Raw| x.0) }
spec fn names(s: Seq<Raw>) -> Set<NameID> decreases s.len() { if s.len() == 0 { Set::empty() } else { names(s.drop_last()).insert(s.last().0.name_id) } }
spec fn any_named(s: Seq<Raw>) -> bool { exists|i: int| 0 <= i < s.len() && !positional(#[trigger] s[i]) }
spec fn any_optional(s: Seq<Raw>, pos: bool) -> bool { exists|i: int| 0 <= i < s.len() && positional(#[trigger] s[i]) == pos && !spread(s[i]) && !required(s[i]) }
spec fn any_spread(s: Seq<Raw>, pos: bool) -> bool { exists|i: int| 0 <= i < s.len() && positional(#[trigger] s[i]) == pos && spread(s[i]) }
proof fn lemma_names(s: Seq<Raw>, n: NameID) ensures names(s).contains(n) == (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.name_id == n) decreases s.len() {
    if s.len() > 0 { let t = s.drop_last(); lemma_names(t, n); assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == s[i]); if names(s).contains(n) && names(t).contains(n) { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).0.name_id == n; assert(s[i].0.name_id == n); }
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.name_id == n { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0.name_id == n; if i < t.len() { assert(t[i].0.name_id == n); } } assert(s.last() == s[s.len() - 1]); }
}
proof fn lemma_flags(s: Seq<Raw>, x: Raw) ensures
    any_named(s.push(x)) == (any_named(s) || !positional(x)),
    forall|pos: bool| #[trigger] any_optional(s.push(x), pos) == (any_optional(s, pos) || positional(x) == pos && !spread(x) && !required(x)),
    forall|pos: bool| #[trigger] any_spread(s.push(x), pos) == (any_spread(s, pos) || positional(x) == pos && spread(x)),
{
    let t = s.push(x); let n = s.len() as int;
    assert(t[n] == x); assert(forall|i: int| 0 <= i < n ==> #[trigger] s[i] == t[i]);
    if any_named(s) { let i = choose|i: int| 0 <= i < s.len() && !positional(#[trigger] s[i]); assert(!positional(t[i])); }
    if any_named(t) { let i = choose|i: int| 0 <= i < t.len() && !positional(#[trigger] t[i]); if i < n { assert(!positional(s[i])); } }
    assert forall|pos: bool| #[trigger] any_optional(t, pos) == (any_optional(s, pos) || positional(x) == pos && !spread(x) && !required(x)) by {
        if any_optional(s, pos) { let i = choose|i: int| 0 <= i < s.len() && positional(#[trigger] s[i]) == pos && !spread(s[i]) && !required(s[i]); assert(positional(t[i]) == pos); }
        if any_optional(t, pos) { let i = choose|i: int| 0 <= i < t.len() && positional(#[trigger] t[i]) == pos && !spread(t[i]) && !required(t[i]); if i < n { assert(positional(s[i]) == pos); } }
    }
    assert forall|pos: bool| #[trigger] any_spread(t, pos) == (any_spread(s, pos) || positional(x) == pos && spread(x)) by {
        if any_spread(s, pos) { let i = choose|i: int| 0 <= i < s.len() && positional(#[trigger] s[i]) == pos && spread(s[i]); assert(positional(t[i]) == pos); }
        if any_spread(t, pos) { let i = choose|i: int| 0 <= i < t.len() && positional(#[trigger] t[i]) == pos && spread(t[i]); if i < n { assert(positional(s[i]) == pos); } }
    }
}
/// The rules in the form in which they are checked.
proof fn lemma_may_follow(s: Seq<Raw>, x: Raw) ensures may_follow(s, x) == (!names(s).contains(x.0.name_id) && !(positional(x) && any_named(s)) && !(required(x) && any_optional(s, positional(x)))
    && !(x.0.is_implicit && (positional(x) || spread(x) || x.0.default_value is Some)) && !any_spread(s, positional(x)) && (spread(x) ==> positional(x) == x.2))
{
    reveal(may_follow); lemma_names(s, x.0.name_id);
    if may_follow(s, x) { }
    else if !names(s).contains(x.0.name_id) && !(positional(x) && any_named(s)) && !(required(x) && any_optional(s, positional(x))) && !any_spread(s, positional(x)) {
        assert(forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0.name_id != x.0.name_id);
        if positional(x) { assert(forall|i: int| 0 <= i < s.len() ==> positional(#[trigger] s[i])); }
        assert forall|i: int| 0 <= i < s.len() && spread(#[trigger] s[i]) implies positional(s[i]) != positional(x) by { if positional(s[i]) == positional(x) { assert(any_spread(s, positional(x))); } }
        assert forall|i: int| 0 <= i < s.len() && required(x) && positional(#[trigger] s[i]) == positional(x) && !spread(s[i]) implies required(s[i]) by { if !required(s[i]) { assert(any_optional(s, positional(x))); } }
    }
}
ghost struct Sig { raw: Seq<Raw>, content: Option<Param>, range: SourceRange, rest: Seq<Token> }
/// A signature: perhaps parameters in parentheses, then the content parameter or `.` for none.
#[verifier::opaque]
spec fn signature_of(src: Src, st00: Seq<Token>) -> Option<Sig> {
    let st0 = skipped(st00);
    if next_is(st0, TokenKind::LPar) { match param_list(src, Seq::empty(), st0.drop_last(), false, TokenKind::RPar) {
        Some((raw, _, rest)) => if legal(raw) { with_content(src, raw, Some(st0.last()), rest) } else { None },
        None => None,
    } } else { with_content(src, Seq::empty(), None, st0) }
}
spec fn with_content(src: Src, raw: Seq<Raw>, lpar: Option<Token>, st00: Seq<Token>) -> Option<Sig> {
    let st = skipped(st00);
    if next_is(st, TokenKind::Dot) { Some(Sig { raw, content: None, range: opened(lpar, st.last().range), rest: st.drop_last() }) }
    else { match param_of(src, st) { Some((x, rest)) => if content_ok(raw, x) { Some(Sig { raw, content: Some(x.0), range: opened(lpar, x.0.range), rest }) } else { None }, None => None } }
}
/// The content parameter has another name, is not spread and has no default value.
spec fn content_ok(raw: Seq<Raw>, x: Raw) -> bool { !names(raw).contains(x.0.name_id) && !spread(x) && x.0.default_value is None }
spec fn opened(lpar: Option<Token>, r: SourceRange) -> SourceRange { match lpar { Some(t) => SourceRange { start: t.range.start, ..r }, None => r } }
spec fn is_signature(s: Signature, x: Sig) -> bool {
    &&& s.range == x.range &&& s.has_content == (x.content is Some)
    &&& s.params@ == (match x.content { Some(c) => decls(x.raw).push(c), None => decls(x.raw) })
    &&& s.positional_count == number(x.raw, true, false) &&& s.named_count == number(x.raw, false, false)
    &&& s.positional_spread == (number(x.raw, true, true) > 0) &&& s.named_spread == (number(x.raw, false, true) > 0)
}
proof fn lemma_number(s: Seq<Raw>, pos: bool, spr: bool) ensures number(s, pos, spr) <= s.len() decreases s.len() { if s.len() > 0 { lemma_number(s.drop_last(), pos, spr); } }
/// In a signature, positional parameters are first, then that which takes the rest of them, then named parameters, then that which takes the rest of those.
spec fn class(x: Raw) -> int { if positional(x) { if spread(x) { 1 } else { 0 } } else { if spread(x) { 3 } else { 2 } } }
spec fn in_class(s: Seq<Raw>, c: int) -> nat { number(s, c < 2, c % 2 == 1) }
proof fn lemma_any(s: Seq<Raw>, pos: bool) ensures any_spread(s, pos) == (number(s, pos, true) > 0) decreases s.len() {
    if s.len() > 0 { let t = s.drop_last(); lemma_any(t, pos); lemma_flags(t, s.last()); assert(t.push(s.last()) =~= s); } 
}
spec fn place(s: Seq<Raw>, k: int) -> int { let a = in_class(s, 0); let b = a + in_class(s, 1); let c = b + in_class(s, 2); if k < a { 0 } else if k < b { 1 } else if k < c { 2 } else { 3 } }
proof fn lemma_layout(s: Seq<Raw>) requires legal(s)
    ensures s.len() == in_class(s, 0) + in_class(s, 1) + in_class(s, 2) + in_class(s, 3), in_class(s, 1) <= 1, in_class(s, 3) <= 1, forall|k: int| 0 <= k < s.len() ==> class(#[trigger] s[k]) == place(s, k)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last(); let x = s.last();
        lemma_layout(t); lemma_may_follow(t, x); lemma_any(t, true); lemma_any(t, false);
        assert(in_class(t, 0) == number(t, true, false)); assert(in_class(t, 1) == number(t, true, true)); assert(in_class(t, 2) == number(t, false, false)); assert(in_class(t, 3) == number(t, false, true));
        assert(in_class(s, 0) == number(s, true, false)); assert(in_class(s, 1) == number(s, true, true)); assert(in_class(s, 2) == number(s, false, false)); assert(in_class(s, 3) == number(s, false, true));
        let n = s.len() - 1;
        if positional(x) {
            assert(in_class(t, 2) == 0 && in_class(t, 3) == 0) by {
                if in_class(t, 2) > 0 || in_class(t, 3) > 0 { let k = t.len() - 1; assert(class(t[k]) == place(t, k)); assert(!positional(t[k])); assert(any_named(t)); }
            }
        }
        assert forall|k: int| 0 <= k < s.len() implies class(#[trigger] s[k]) == place(s, k) by { if k < n { assert(s[k] == t[k]); assert(class(t[k]) == place(t, k)); } else { assert(s[k] == x); } }
    }
}
/// What the compiler relies on: the parameters are as many as counted, and have distinct names.
spec fn sound_signature(s: Signature) -> bool {
    &&& s.params@.len() == s.positional_count + (if s.positional_spread { 1int } else { 0 }) + s.named_count + (if s.named_spread { 1int } else { 0 }) + (if s.has_content { 1int } else { 0 })
    &&& forall|i: int, j: int| 0 <= i < j < s.params@.len() ==> (#[trigger] s.params@[i]).name_id != (#[trigger] s.params@[j]).name_id
    &&& forall|i: int| 0 <= i < s.params@.len() ==> (#[trigger] s.params@[i]).name_id != anonymous()
}
proof fn lemma_distinct(s: Seq<Raw>, i: int, j: int) requires legal(s), 0 <= i < j < s.len() ensures s[i].0.name_id != s[j].0.name_id decreases s.len() {
    let t = s.drop_last(); assert(s[i] == t[i]);
    if j < t.len() { lemma_distinct(t, i, j); assert(s[j] == t[j]); } else { lemma_may_follow(t, s.last()); lemma_names(t, s.last().0.name_id); }
}
proof fn lemma_sound(s: Signature, x: Sig) requires is_signature(s, x), legal(x.raw), x.content matches Some(c) ==> !names(x.raw).contains(c.name_id), forall|i: int| 0 <= i < s.params@.len() ==> (#[trigger] s.params@[i]).name_id != anonymous() ensures sound_signature(s) {
    let raw = x.raw; lemma_layout(raw);
    assert(in_class(raw, 0) == number(raw, true, false)); assert(in_class(raw, 1) == number(raw, true, true)); assert(in_class(raw, 2) == number(raw, false, false)); assert(in_class(raw, 3) == number(raw, false, true));
    assert forall|i: int, j: int| 0 <= i < j < s.params@.len() implies (#[trigger] s.params@[i]).name_id != (#[trigger] s.params@[j]).name_id by {
        if j < raw.len() { lemma_distinct(raw, i, j); } else { let n = s.params@[j].name_id; lemma_names(raw, n); assert(raw[i].0 == s.params@[i]); }
    }
}
ghost struct Def { name_id: NameID, sig: Sig, body: Expr, rest: Seq<Token> }
/// A function definition: a name, or none where that is allowed, a signature, `->` and the body.
spec fn def_of(src: Src, allow_anonymous: bool, st00: Seq<Token>) -> Option<Def> {
    let st0 = skipped(st00); let named = next_is(st0, TokenKind::Name);
    match signature_of(src, if named { st0.drop_last() } else { st0 }) { None => None, Some(sig) => { let st = skipped(sig.rest); if !next_is(st, TokenKind::Arrow) { None } else { match expr_of(src, st.drop_last()) { None => None, Some((body, rest)) =>
        if !named && !allow_anonymous { None } else { Some(Def { name_id: if named { tok_id(src, st0.last()) } else { anonymous() }, sig, body, rest }) } } } } }
}
spec fn is_def(f: FuncDef, at: Token, x: Def) -> bool { f.name_id == x.name_id && is_signature(f.signature, x.sig) && *f.body == x.body && f.range == from_to(at.range, expr_range(x.body).end) }
'''
READ_TYPE = r'''
    #[verifier::external_body] fn parse_type(&mut self) -> (r: Reported<(Type, SourceRange)>)
        ensures reads(*old(self), *final(self)), match type_of(old(self).src, old(self).tokens@) { Some(x) => r == Ok::<(Type, SourceRange), AlreadyReported>((x.0, x.1)) && final(self).tokens@ == x.2 && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ } { unimplemented!() }
'''
ERRS = 'enum SyntaxError { SpreadPositionalNotAllowed, SpreadNamedNotAllowed, TokenExpected(TokenKind), TokenExpectedWasEOF(TokenKind), TokenExpectedWas(TokenKind, TokenKind), UnexpectedEOF, AnonymousFunctionNotAllowed, ParamDuplicateName, ParamPositionalAfterNamed, ParamRequiredAfterOptional, ParamPositionalImplicit, ParamSpreadImplicit, ParamDefaultImplicit, ParamMultipleSpread, ParamAfterSpread, ParamNamedSpreadUnderscore, ParamPositionalSpreadNoUnderscore, ParamContentSpread, ParamContentDefault, ParamSpreadDefault, ArgDuplicateName, ArgPositionalAfterNamed, ArgSpreadNamed, ArgNamedNotAllowed, DeclMissingArgs, DeclPositionalArg, LetInLiteral, ExportNotAllowed, ExpectedExpr }'
DUP = [('let name = self . string_pool . get ( $x ) ; self . report ( SyntaxError :: $i:e ( name ) , $r )', 'self.report(SyntaxError::$e, $r)')]


def parser_types(u):
    token_types(u)
    u.default_subs = u.default_subs + DUP
    u.item(AST, 'enum', 'SpreadKind', attrs='#[derive(Clone, Copy, PartialEq, Eq, Structural)]')
    u.text(ERRS + NAMES)
    u.text('#[verifier::external_body] fn take_first<T>(v: &mut Vec<T>) -> (r: Option<T>) ensures match r { Some(x) => old(v)@.len() > 0 && x == old(v)@[0] && final(v)@ == old(v)@.skip(1), None => old(v)@.len() == 0 && final(v)@ == old(v)@ } { unimplemented!() }')


def tok_id(u):
    u.text('#[verifier::external_body] fn pool_insert(&self, s: &str) -> (r: NameID) ensures r == id_of(s@) { unimplemented!() }')
    f = u.fn(B, 'tok_name_id', impl=PI)
    f.sub('self . src . get_span ( tok . range )', 'self.tok_str(tok)', 0).sub('& s [ 1 .. ]', 'without_sigil(s)', 0).sub('self . string_pool . insert ( $x )', 'self.pool_insert($x)', 0)
    f.requires('good(old(self).src, tok)', 'tok.kind == TokenKind::Name || tok.kind == TokenKind::VarName || tok.kind == TokenKind::FuncName')
    f.ensures('*final(self) == *old(self)', 'r == tok_id(old(self).src, tok)')


def signature():
    u = Unit('signature')
    parser_types(u)
    u.item('src/parser/types.rs', 'enum', 'Type')
    for n in ('Param', 'Signature', 'FuncDef'):
        u.item(AST, 'struct', n)
    u.text(COMMON + 'uninterp spec fn type_of(src: Src, st: Seq<Token>) -> Option<(Type, SourceRange, Seq<Token>)>;' + list_spec('param_list', 'Raw', 'param_of') + PARAMS)
    u.text('impl Parser {' + READ_EXPR + READ_TYPE)
    queue(u, ('poll', 'poll_if', 'skip_whitespace', 'poll_if_kind', 'expect_poll', 'expect_poll_kind'))
    poll_if_spread(u)
    tok_id(u)
    START = 'broadcast use reading::group_reads; proof { lemma_reads_self(*self); }'
    f = u.fn(FUNC, 'parse_param', impl=PI)
    f.sub('self . tok_str ( name_tok ) . starts_with ( $x )', 'starts_with(self.tok_str(name_tok), $x)', 0)
    f.sub('self . parse_type ( ) . map_or_else ( | _ | $a , | ( t , r ) | $b , )', '(match self.parse_type() { Ok((t, r)) => $b, Err(_) => $a })', 0).sub('self . parse_type ( ) . map_or_else ( | _ | $a , | ( t , r ) | $b )', '(match self.parse_type() { Ok((t, r)) => $b, Err(_) => $a })', 0)
    f.sub('default_value . as_ref ( ) . unwrap ( )', 'default_value.as_ref().unwrap()', 0)
    f.sub('''default_value . as_ref ( ) . map ( | v | $a ) . or_else ( | | type_annotation_range . map ( | t | $b ) ) . or_else ( | | question_mark . as_ref ( ) . map ( | t | $c ) ) . unwrap_or ( $d )''',
          '(match &default_value { Some(v) => $a, None => match type_annotation_range { Some(t) => $b, None => match &question_mark { Some(t) => $c, None => $d } } })', 0)
    f.sub('default_value . map ( Box :: new )', '(match default_value { Some(v) => Some(Box::new(v)), None => None })', 0)
    f.requires('clean(old(self).src, old(self).tokens@)')
    f.ensures('reads(*old(self), *final(self))', outcome('param_of(old(self).src, old(self).tokens@)', 'r == Ok::<Raw, AlreadyReported>(x.0) && final(self).tokens@ == x.1'), 'r is Ok ==> final(self).tokens@.len() < old(self).tokens@.len()', 'r matches Ok(x) ==> x.0.name_id != anonymous()')
    f.before('let p = Param', 'proof { let s = span(old(self).src, name_tok.range); axiom_anonymous(s.skip(1)); assert(s.skip(1).len() > 0); }')
    f.start(START + 'proof { reveal(param_of); reveal_strlit("$_"); assert("$_"@ =~= seq![\'$\', \'_\']); }')
    separated(u, 'param_list', 'Raw', 'self.parse_param()', each=lambda x: f'({x}).0.name_id != anonymous()')
    f = u.fn(FUNC, 'parse_signature', impl=PI)
    f.sub('lpar , Parser :: parse_param ,', 'lpar,', 1)
    f.sub('for ( param , spread_kind , is_underscore ) in raw_params {', 'let mut raw_params = raw_params; let total = raw_params.len(); while let Some((param, spread_kind, is_underscore)) = take_first(&mut raw_params) {', 1)
    f.sub('$i:a |= $x ;', '$a = $a || ($x);', 0).sub('params . into_boxed_slice ( )', 'boxed(params)', 0)
    f.requires('clean(old(self).src, old(self).tokens@)')
    f.ensures('reads(*old(self), *final(self))', outcome('signature_of(old(self).src, old(self).tokens@)', 'r matches Ok(s) && is_signature(s, x) && final(self).tokens@ == x.rest'), 'r is Ok ==> final(self).tokens@.len() < old(self).tokens@.len()', 'r matches Ok(s) ==> (final(self).errors@ == old(self).errors@ ==> sound_signature(s))')
    f.start('proof { reveal(signature_of); lemma_reads_self(*self); }')
    f.before('let lpar', 'let ghost mut raw: Seq<Raw> = Seq::empty(); let ghost p1 = *self; proof { reading::lemma_reads_clean(*old(self), p1); }')
    f.before('if let Some ( lpar ) = lpar {', 'let ghost q1 = *self; proof { assert forall|b: Parser| #[trigger] reads(q1, b) implies reads(*old(self), b) by { reading::lemma_reads(p1, q1, b); reading::lemma_reads(*old(self), p1, b); } reading::lemma_reads(*old(self), p1, q1); reading::lemma_reads_clean(p1, q1); }')
    f.before('let mut any_named_params', 'let ghost p2 = *self; let ghost raw0 = raw_params@; let ghost mut at: int = 0; proof { raw = raw0; reading::lemma_reads(*old(self), q1, p2); }')
    f.before('self . skip_whitespace ( ) ; let ( has_content', '''proof {
        reading::lemma_reads(p1, q1, *self); reading::lemma_reads(*old(self), p1, *self); reading::lemma_reads_clean(*old(self), *self);
        lemma_any(raw, true); lemma_any(raw, false); assert(raw.take(raw.len() as int) =~= raw);
        if self.errors@ == old(self).errors@ { assert(signature_of(old(self).src, old(self).tokens@) == with_content(self.src, raw, lpar, self.tokens@)); } else { assert(signature_of(old(self).src, old(self).tokens@) is None); }
    } let ghost p3 = *self;''')
    S = 'raw0.take(at)'
    f.loop(0, invariant=['0 <= at <= raw0.len()', 'raw0.len() == total', 'raw_params@ == raw0.skip(at)', f'names_used@ == names({S})', f'any_named_params == any_named({S})', f'any_optional_params == any_optional({S}, true)', f'any_optional_named_params == any_optional({S}, false)',
        f'positional_spread == any_spread({S}, true)', f'named_spread == any_spread({S}, false)', f'positional_count == number({S}, true, false)', f'named_count == number({S}, false, false)', f'params@ =~= decls({S})',
        'self.src == p2.src', 'self.tokens@ == p2.tokens@', 'self.errors@ >= p2.errors@', 'forall|i: int| 0 <= i < raw0.len() ==> (#[trigger] raw0[i]).0.name_id != anonymous()', 'forall|i: int| 0 <= i < params@.len() ==> (#[trigger] params@[i]).name_id != anonymous()', f'(self.errors@ == p2.errors@) == legal({S})'], decreases='raw0.len() - at', ensures=['at == raw0.len()'])
    f.before('let ( has_content', 'let ghost p4 = *self; proof { reading::lemma_reads(*old(self), p3, p4); reading::lemma_reads_clean(p3, p4); assert forall|b: Parser| #[trigger] reads(p4, b) implies reads(*old(self), b) by { reading::lemma_reads(*old(self), p4, b); } }')
    f.before('let ( c , spread_kind', 'let ghost p5 = *self; proof { reading::lemma_reads(*old(self), p4, p5); reading::lemma_reads_clean(p4, p5); assert forall|b: Parser| #[trigger] reads(p5, b) implies reads(*old(self), b) by { reading::lemma_reads(*old(self), p5, b); } }')
    f.sub('Ok ( Signature { $x } )', 'let made = Signature { $x }; Ok(made)', 1)
    f.before('let made', '''proof {
        let w = with_content(p3.src, raw, lpar, p3.tokens@);
        if self.errors@ == p3.errors@ && self.errors@ == old(self).errors@ {
            assert(w is Some);
            assert(w->Some_0.range == range);
            assert(has_content == (w->Some_0.content is Some));
            assert(params@ =~= (match w->Some_0.content { Some(c) => decls(raw).push(c), None => decls(raw) }));
            assert(self.tokens@ == w->Some_0.rest);
        } else { assert(self.errors@ > p3.errors@ ==> w is None); assert(signature_of(old(self).src, old(self).tokens@) is None); }
    }''')
    f.before('Ok ( made', 'proof { if self.errors@ == old(self).errors@ { let x = signature_of(old(self).src, old(self).tokens@)->Some_0; assert(is_signature(made, x)); assert(x.raw == raw); assert(legal(raw)); lemma_sound(made, x); } }')
    f.loop_start(0, 'proof { let s = raw0.take(at); let x = raw0[at]; lemma_may_follow(s, x); lemma_flags(s, x); lemma_number(s, true, false); lemma_number(s, false, false); assert(s.push(x) =~= raw0.take(at + 1)); assert(s.push(x).drop_last() =~= s); assert(decls(s.push(x)) =~= decls(s).push(x.0)); assert(raw0.skip(at).skip(1) =~= raw0.skip(at + 1)); at = at + 1; }')
    f = u.fn(FUNC, 'parse_func_def', impl=PI)
    f.sub('self . poll_if_kind ( TokenKind :: Name ) . map_or ( $a , | t | $b , )', '(match self.poll_if_kind(TokenKind::Name) { Some(t) => $b, None => $a })', 0).sub('self . poll_if_kind ( TokenKind :: Name ) . map_or ( $a , | t | $b )', '(match self.poll_if_kind(TokenKind::Name) { Some(t) => $b, None => $a })', 0)
    f.sub('str_ids :: ANONYMOUS', 'id_anonymous()', 0)
    f.requires('clean(old(self).src, old(self).tokens@)')
    f.ensures('reads(*old(self), *final(self))', outcome('def_of(old(self).src, allow_anonymous, old(self).tokens@)', 'r matches Ok(f) && is_def(f, at, x) && final(self).tokens@ == x.rest'), 'r is Ok ==> final(self).tokens@.len() < old(self).tokens@.len()')
    f.start(START + 'proof { let st = skipped(self.tokens@); if st.len() > 0 { axiom_anonymous(span(self.src, st.last().range)); } }')
    u.text('}')
    return u


ARGS = r"""
/// Is there a token of this kind?
spec fn next_is(st: Seq<Token>, k: TokenKind) -> bool { st.len() > 0 && st.last().kind == k }
spec fn spread_kind(st: Seq<Token>) -> SpreadKind { if next_is(st, TokenKind::Asterisk) { SpreadKind::Positional } else if next_is(st, TokenKind::DoubleAsterisk) { SpreadKind::Named } else { SpreadKind::NoSpread } }
spec fn after_spread(st: Seq<Token>) -> Seq<Token> { skipped(if spread_kind(st) == SpreadKind::NoSpread { st } else { st.drop_last() }) }
/// An argument: `value`, `*value`, `**value` or `name=value`.
#[verifier::opaque]
spec fn arg_of(src: Src, st00: Seq<Token>) -> Option<(Arg, Seq<Token>)> {
    let st0 = skipped(st00); let kind = spread_kind(st0); let st1 = after_spread(st0);
    if next_is(st1, TokenKind::Name) {
        let name = st1.last(); let st2 = skipped(st1.drop_last()); let start = if kind == SpreadKind::NoSpread { name.range } else { st0.last().range };
        if next_is(st2, TokenKind::Equals) {
            // a spread argument has no name
            if kind != SpreadKind::NoSpread { None } else { match expr_of(src, st2.drop_last()) { Some((e, rest)) => Some((Arg { range: from_to(start, expr_range(e).end), spread_kind: SpreadKind::NoSpread, name_id: tok_id(src, name), value: e }, rest)), None => None } }
        } else { Some((Arg { range: from_to(start, name.range.end), spread_kind: kind, name_id: anonymous(), value: Expr::BareString(name.range) }, st2)) }
    } else { match expr_of(src, st1) {
        Some((e, rest)) => Some((Arg { range: if kind == SpreadKind::NoSpread { expr_range(e) } else { from_to(st0.last().range, expr_range(e).end) }, spread_kind: kind, name_id: anonymous(), value: e }, rest)),
        None => None,
    } }
}
spec fn is_named(a: Arg) -> bool { a.name_id != anonymous() }
/// Positional, perhaps a positional spread.
spec fn is_pos(a: Arg) -> bool { !is_named(a) && a.spread_kind != SpreadKind::Named }
/// May this argument follow those? A name is given once, and what is positional is first.
#[verifier::opaque]
spec fn arg_may_follow(s: Seq<Arg>, a: Arg) -> bool {
    &&& is_named(a) ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).name_id != a.name_id
    &&& is_pos(a) ==> forall|i: int| 0 <= i < s.len() ==> is_pos(#[trigger] s[i])
}
spec fn legal_args(s: Seq<Arg>) -> bool decreases s.len() { s.len() == 0 || legal_args(s.drop_last()) && arg_may_follow(s.drop_last(), s.last()) }
spec fn arg_names(s: Seq<Arg>) -> Set<NameID> decreases s.len() { if s.len() == 0 { Set::empty() } else if is_named(s.last()) { arg_names(s.drop_last()).insert(s.last().name_id) } else { arg_names(s.drop_last()) } }
spec fn any_named_arg(s: Seq<Arg>) -> bool decreases s.len() { s.len() > 0 && (any_named_arg(s.drop_last()) || !is_pos(s.last())) }
proof fn lemma_arg_names(s: Seq<Arg>, n: NameID) requires n != anonymous() ensures arg_names(s).contains(n) == (exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name_id == n), any_named_arg(s) == (exists|i: int| 0 <= i < s.len() && !is_pos(#[trigger] s[i])) decreases s.len() {
    if s.len() > 0 {
        let t = s.drop_last(); lemma_arg_names(t, n); assert(forall|i: int| 0 <= i < t.len() ==> #[trigger] t[i] == s[i]); assert(s.last() == s[s.len() - 1]);
        if exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).name_id == n { let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).name_id == n; assert(s[i].name_id == n); }
        if exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name_id == n { let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name_id == n; if i < t.len() { assert(t[i].name_id == n); } }
        if exists|i: int| 0 <= i < t.len() && !is_pos(#[trigger] t[i]) { let i = choose|i: int| 0 <= i < t.len() && !is_pos(#[trigger] t[i]); assert(!is_pos(s[i])); }
        if exists|i: int| 0 <= i < s.len() && !is_pos(#[trigger] s[i]) { let i = choose|i: int| 0 <= i < s.len() && !is_pos(#[trigger] s[i]); if i < t.len() { assert(!is_pos(t[i])); } }
    }
}
proof fn lemma_arg_follows(s: Seq<Arg>, a: Arg) ensures arg_may_follow(s, a) == (!(is_named(a) && arg_names(s).contains(a.name_id)) && !(is_pos(a) && any_named_arg(s))) {
    reveal(arg_may_follow);
    let n = NameID { n: if anonymous().n == 0 { 1 } else { 0 } }; lemma_arg_names(s, n);
    if is_named(a) { lemma_arg_names(s, a.name_id); }
}
/// No arguments, or some in parentheses.
#[verifier::opaque]
spec fn args_of(src: Src, st00: Seq<Token>) -> Option<(Seq<Arg>, Seq<Token>)> {
    let st = skipped(st00);
    if !next_is(st, TokenKind::LPar) { Some((Seq::empty(), st)) } else { match arg_list(src, Seq::empty(), st.drop_last(), false, TokenKind::RPar) { Some((args, _, rest)) => if legal_args(args) { Some((args, rest)) } else { None }, None => None } }
}
/// Some names with their values, and nothing else.
spec fn pairs(s: Seq<Arg>) -> Seq<(NameID, Expr)> { s.map_values(|a: Arg| (a.name_id, a.value)) }
spec fn all_named(s: Seq<Arg>) -> bool decreases s.len() { s.len() == 0 || all_named(s.drop_last()) && is_named(s.last()) && s.last().spread_kind == SpreadKind::NoSpread }
#[verifier::opaque]
spec fn vars_of(src: Src, st: Seq<Token>) -> Option<(Seq<(NameID, Expr)>, Seq<Token>)> {
    match args_of(src, st) { Some((args, rest)) => if args.len() > 0 && all_named(args) { Some((pairs(args), rest)) } else { None }, None => None }
}
/// A body: everything after `...`, or an expression.
spec fn body_of(src: Src, st00: Seq<Token>) -> Option<(Expr, Seq<Token>)> { let st = skipped(st00); if next_is(st, TokenKind::Ellipsis) { ellipsis_of(src, st.last(), st.drop_last()) } else { expr_of(src, st) } }
ghost struct Let { vars: Seq<(NameID, Expr)>, child: Expr, rest: Seq<Token> }
/// `(name=value, ...)` and a body; which is not a literal, as the declaration would have no effect.
spec fn let_of(src: Src, is_export: bool, st: Seq<Token>) -> Option<Let> {
    match vars_of(src, st) { None => None, Some((vars, st1)) => match body_of(src, st1) { None => None, Some((child, rest)) => if literal(child) && !is_export { None } else { Some(Let { vars, child, rest }) } } }
}
spec fn is_let(l: LetIn, at: Token, x: Let) -> bool { l.vars@ == x.vars && l.child == x.child && l.is_implicit == (at.kind == TokenKind::Keyword(Keyword::Implicit)) && l.range == from_to(at.range, expr_range(x.child).end) }
ghost struct Call { func: Name, args: Seq<Arg>, content: Expr, rest: Seq<Token> }
/// A function, perhaps arguments in parentheses, and the content.
spec fn call_of(src: Src, at: Token, st: Seq<Token>) -> Option<Call> {
    match name_of(src, at, st) { None => None, Some((func, st1)) => match args_of(src, st1) { None => None, Some((args, st2)) => match body_of(src, st2) { None => None, Some((content, rest)) => Some(Call { func, args, content, rest }) } } }
}
spec fn is_call(c: FuncCall, x: Call) -> bool { c.func == x.func && c.args@ == x.args && c.content == x.content && c.range == from_to(name_range(x.func), expr_range(x.content).end) }
/// What is exported: a function with a name, the names of a `@let`, or names with their values.
ghost enum Exported { Fn(Token, Def), Let(Token, Let), Names(Seq<(NameID, Expr)>, Token) }
spec fn export_of(src: Src, st00: Seq<Token>) -> Option<(Exported, Seq<Token>)> {
    let st = skipped(st00);
    if next_is(st, TokenKind::Keyword(Keyword::Fn)) { match def_of(src, false, st.drop_last()) { Some(d) => Some((Exported::Fn(st.last(), d), rest_of(d))), None => None } }
    else if next_is(st, TokenKind::Keyword(Keyword::Let)) { match let_of(src, true, st.drop_last()) { Some(l) => Some((Exported::Let(st.last(), l), l.rest)), None => None } }
    else { match vars_of(src, st) { None => None, Some((vars, rest)) => { let st = skipped(rest); if next_is(st, TokenKind::Dot) { Some((Exported::Names(vars, st.last()), st.drop_last())) } else { None } } } }
}
spec fn is_export(e: Export, at: Token, x: Exported) -> bool {
    match (e, x) {
        (Export::Names(r, v), Exported::Names(vars, dot)) => v@ == vars && r == from_to(at.range, dot.range.end),
        (Export::LetIn(r, l), Exported::Let(t, x)) => is_let(l, t, x) && r == from_to(at.range, l.range.end),
        (Export::FuncDef(r, f), Exported::Fn(t, x)) => is_def(f, t, x) && r == from_to(at.range, def_range(f).end),
        _ => false,
    }
}
/// An item of a list: a value, or a spread of values.
spec fn item_of(src: Src, st: Seq<Token>) -> Option<((Expr, bool), Seq<Token>)> { match arg_of(src, st) { Some((a, rest)) => if is_pos(a) { Some(((a.value, a.spread_kind == SpreadKind::Positional), rest)) } else { None }, None => None } }
"""
ARG_TYPES = r"""
struct Name { x: u64 }
ghost struct Def { x: int }
struct FuncDef { range: SourceRange, x: u64 }
enum Expr { BareString(SourceRange), List(Box<[(Expr, bool)]>, SourceRange), Other(u64) }
uninterp spec fn expr_range(e: Expr) -> SourceRange;
uninterp spec fn name_range(e: Name) -> SourceRange;
uninterp spec fn literal(e: Expr) -> bool;
#[verifier::external_body] proof fn axiom_bare(r: SourceRange) ensures expr_range(Expr::BareString(r)) == r {}
impl Expr {
    #[verifier::external_body] fn range(&self) -> (r: SourceRange) ensures r == expr_range(*self) { unimplemented!() }
    #[verifier::external_body] fn is_literal(&self) -> (r: bool) ensures r == literal(*self) { unimplemented!() }
}
impl Name { #[verifier::external_body] fn range(&self) -> (r: SourceRange) ensures r == name_range(*self) { unimplemented!() } }
spec fn def_range(f: FuncDef) -> SourceRange { f.range }
/// The names, definitions (unit signature) and sequences of nodes which the rest of the parser reads.
uninterp spec fn name_of(src: Src, t: Token, st: Seq<Token>) -> Option<(Name, Seq<Token>)>;
uninterp spec fn ellipsis_of(src: Src, t: Token, st: Seq<Token>) -> Option<(Expr, Seq<Token>)>;
uninterp spec fn def_of(src: Src, allow_anonymous: bool, st: Seq<Token>) -> Option<Def>;
uninterp spec fn rest_of(d: Def) -> Seq<Token>;
uninterp spec fn is_def(f: FuncDef, at: Token, x: Def) -> bool;
uninterp spec fn expr_of(src: Src, st: Seq<Token>) -> Option<(Expr, Seq<Token>)>;
"""
READ_ARGS = r"""
    #[verifier::external_body] fn parse_name(&mut self, t: Token) -> (r: Reported<Name>)
        ensures reads(*old(self), *final(self)), match name_of(old(self).src, t, old(self).tokens@) { Some(x) => r == Ok::<Name, AlreadyReported>(x.0) && final(self).tokens@ == x.1 && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ } { unimplemented!() }
    #[verifier::external_body] fn parse_ellipsis_group(&mut self, t: Token) -> (r: Expr)
        ensures reads(*old(self), *final(self)), match ellipsis_of(old(self).src, t, old(self).tokens@) { Some(x) => r == x.0 && final(self).tokens@ == x.1 && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ } { unimplemented!() }
    #[verifier::external_body] fn parse_func_def(&mut self, at: Token, allow_anonymous: bool) -> (r: Reported<FuncDef>) requires clean(old(self).src, old(self).tokens@)
        ensures reads(*old(self), *final(self)), match def_of(old(self).src, allow_anonymous, old(self).tokens@) { Some(x) => r matches Ok(f) && is_def(f, at, x) && final(self).tokens@ == rest_of(x) && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ } { unimplemented!() }
"""
COMMON_REST = COMMON[COMMON.index('/// The name in a token'):]


def arguments():
    u = Unit('arguments')
    parser_types(u)
    u.text(ARG_TYPES)
    for k, n in (('struct', 'Arg'), ('struct', 'LetIn'), ('enum', 'Export'), ('struct', 'FuncCall')):
        u.item(AST, k, n)
    u.text(COMMON_REST + list_spec('arg_list', 'Arg', 'arg_of') + list_spec('item_list', '(Expr, bool)', 'item_of') + ARGS + 'impl Arg {')
    u.fn(AST, 'is_positional', impl='^impl Arg$').ensures('r == is_pos(*self)')
    u.fn(AST, 'is_spread', impl='^impl Arg$').ensures('r == (self.spread_kind != SpreadKind::NoSpread)')
    u.text('} impl Parser {' + READ_EXPR + READ_ARGS)
    queue(u, ('poll', 'poll_if', 'skip_whitespace', 'poll_if_kind', 'expect_poll', 'expect_poll_kind'))
    poll_if_spread(u)
    tok_id(u)
    START = 'broadcast use reading::group_reads; proof { lemma_reads_self(*self); }'
    CLEAN = 'clean(old(self).src, old(self).tokens@)'
    LESS = 'r is Ok ==> final(self).tokens@.len() < old(self).tokens@.len()'
    f = u.fn(FUNC, 'parse_arg', impl=PI)
    f.sub('str_ids :: ANONYMOUS', 'id_anonymous()', 0)
    f.sub('spread_range . map_or ( v_range , | r | $b )', '(match spread_range { Some(r) => $b, None => v_range })', 0)
    f.requires(CLEAN).ensures('reads(*old(self), *final(self))', outcome('arg_of(old(self).src, old(self).tokens@)', 'r == Ok::<Arg, AlreadyReported>(x.0) && final(self).tokens@ == x.1'), LESS)
    f.start(START + 'proof { reveal(arg_of); }')
    separated(u, 'arg_list', 'Arg', 'self.parse_arg()')
    f = u.fn(FUNC, 'parse_args', impl=PI)
    f.sub('lpar , Parser :: parse_arg ,', 'lpar,', 1)
    f.sub('for arg in args . iter ( ) {', 'let mut at: usize = 0; while at < args.len() { let arg = &args[at]; at += 1;', 1)
    f.requires(CLEAN).ensures('reads(*old(self), *final(self))', outcome('args_of(old(self).src, old(self).tokens@)', 'r is Ok && r->Ok_0@ == x.0 && final(self).tokens@ == x.1'))
    f.start(START + 'proof { reveal(args_of); }')
    f.before('let mut any_named', 'let ghost p2 = *self;')
    S = 'args@.take(at as int)'
    f.loop(0, invariant=['at <= args@.len()', f'names_used@ == arg_names({S})', f'any_named == any_named_arg({S})', 'self.src == p2.src', 'self.tokens@ == p2.tokens@', 'self.errors@ >= p2.errors@', f'(self.errors@ == p2.errors@) == legal_args({S})'], decreases='args@.len() - at')
    f.loop_start(0, 'proof { let s = args@.take(at as int); let x = args@[at as int]; lemma_arg_follows(s, x); assert(args@.take(at + 1).drop_last() =~= s); }')
    f.before('Ok ( args', 'proof { assert(args@.take(at as int) =~= args@); }')
    f = u.fn(B, 'parse_expr_or_ellipsis', impl=PI)
    f.requires(CLEAN).ensures('reads(*old(self), *final(self))', outcome('body_of(old(self).src, old(self).tokens@)', 'r == Ok::<Expr, AlreadyReported>(x.0) && final(self).tokens@ == x.1'), LESS)
    f.start(START)
    f = u.fn(FUNC, 'parse_func_call', impl=PI)
    f.sub('self . parse_args ( ) ? . into_boxed_slice ( )', 'boxed(self.parse_args()?)', 0)
    f.requires(CLEAN).ensures('reads(*old(self), *final(self))', outcome('call_of(old(self).src, at, old(self).tokens@)', 'r matches Ok(c) && is_call(c, x) && final(self).tokens@ == x.rest'), LESS)
    f.start(START)
    f = u.fn(B, 'parse_some_named_args', impl=PI)
    f.sub('args . is_empty ( )', '(args.len() == 0)', 0)
    f.sub('Ok ( args . into_iter ( ) . filter_map ( | arg | { $b } ) . collect ( ) )', 'let mut rest = args; let mut found: Vec<(NameID, Expr)> = Vec::new(); while let Some(arg) = take_first(&mut rest) { let one: Option<(NameID, Expr)> = { $b }; if let Some(pair) = one { found.push(pair); } } Ok(boxed(found))', 1)
    f.requires(CLEAN).ensures('reads(*old(self), *final(self))', outcome('vars_of(old(self).src, old(self).tokens@)', 'r is Ok && r->Ok_0@ == x.0 && final(self).tokens@ == x.1'))
    f.start(START + 'proof { reveal(vars_of); }')
    f.before('let mut rest', 'let ghost p2 = *self; let ghost args0 = args@; let ghost mut at: int = 0;')
    f.loop(0, invariant=['0 <= at <= args0.len()', 'rest@ == args0.skip(at)', 'self.src == p2.src', 'self.tokens@ == p2.tokens@', 'self.errors@ >= p2.errors@', '(self.errors@ == p2.errors@) == all_named(args0.take(at))', 'self.errors@ == p2.errors@ ==> found@ =~= pairs(args0.take(at))'], ensures=['at == args0.len()'], decreases='args0.len() - at')
    f.loop_start(0, 'proof { assert(args0.take(at + 1).drop_last() =~= args0.take(at)); assert(args0.skip(at).skip(1) =~= args0.skip(at + 1)); assert(pairs(args0.take(at + 1)) =~= pairs(args0.take(at)).push((args0[at].name_id, args0[at].value))); at = at + 1; }')
    f.before('Ok ( boxed', 'proof { assert(args0.take(at) =~= args0); }')
    f = u.fn(B, 'parse_let_in', impl=PI)
    f.requires(CLEAN).ensures('reads(*old(self), *final(self))', outcome('let_of(old(self).src, is_export, old(self).tokens@)', 'r matches Ok(l) && is_let(l, at, x) && final(self).tokens@ == x.rest'), LESS)
    f.start(START)
    f = u.fn(B, 'parse_export', impl=PI)
    f.requires(CLEAN).ensures('reads(*old(self), *final(self))', outcome('export_of(old(self).src, old(self).tokens@)', 'r matches Ok(e) && is_export(e, at, x.0) && final(self).tokens@ == x.1'))
    f.start(START)
    # the closure which reads an item, as a method
    f = u.fn(B, 'parse_list', impl=PI)
    f.sub('fn parse_list ( & mut self , open : Token ) -> Reported < Expr > { let ( children , close ) = self . parse_separated_until ( open , | _self | { $body } , $x ) ? ; $body2 }', 'fn parse_item(&mut self) -> Reported<(Expr, bool)> { $body }', 1)
    f.sub('_self . parse_arg', 'self.parse_arg', 0).sub('_self . report', 'self.report', 0)
    f.emit_name = 'parse_item'
    f.requires(CLEAN).ensures('reads(*old(self), *final(self))', outcome('item_of(old(self).src, old(self).tokens@)', 'r == Ok::<(Expr, bool), AlreadyReported>(x.0) && final(self).tokens@ == x.1'), LESS)
    f.start(START)
    separated(u, 'item_list', '(Expr, bool)', 'self.parse_item()', 'parse_items_until').emit_name = 'parse_items_until'
    f = u.fn(B, 'parse_list', impl=PI)
    f.sub('self . parse_separated_until ( open , | _self | { $body } , $x )', 'self.parse_items_until(open, $x)', 1).sub('children . into_boxed_slice ( )', 'boxed(children)', 0)
    f.requires(CLEAN).ensures('reads(*old(self), *final(self))', outcome('item_list(old(self).src, Seq::empty(), old(self).tokens@, false, TokenKind::RSqb)', 'r matches Ok(Expr::List(b, g)) && b@ == x.0 && g == from_to(open.range, x.1.range.end) && final(self).tokens@ == x.2'))
    f.start(START)
    u.text('}')
    return u


COMPILED = r"""
impl ParamMap {
    #[verifier::external_body] fn default() -> (r: ParamMap) ensures r@ == Seq::<FuncParam>::empty() { unimplemented!() }
    /// A parameter whose name is new is put last.
    #[verifier::external_body] fn insert(&mut self, n: NameID, p: FuncParam) -> (r: Option<FuncParam>) ensures n == p.name_id && named_param(old(self)@, n) is None ==> r is None && final(self)@ == old(self)@.push(p) { unimplemented!() }
}
uninterp spec fn the_unit() -> Value;
uninterp spec fn unit_type() -> Type;
/// `T?`: C07 and C11.
uninterp spec fn optional(t: Type) -> Type;
#[verifier::external_body] proof fn axiom_optional(t: Type) ensures accepted(optional(t), the_unit()) {}
/// What an expression evaluates to is of the type which is asked for: C11.
#[verifier::external_body] proof fn axiom_eval(x: Expr, hint: Type, w: World) ensures eval(x, hint, w).0 matches Some(v) ==> accepted(hint, v) {}
#[verifier::external_body] fn unit_value() -> (r: Value) ensures r == the_unit() { unimplemented!() }
#[verifier::external_body] fn type_unit() -> (r: Type) ensures r == unit_type() { unimplemented!() }
#[verifier::external_body] fn id_anonymous() -> (r: NameID) ensures r == anonymous() { unimplemented!() }
#[verifier::external_body] fn option_if(t: &Type, c: bool) -> (r: Type) ensures r == (if c { optional(*t) } else { *t }) { unimplemented!() }
spec fn type_as(p: Param) -> Type { if p.question_mark { optional(p.type_annotation) } else { p.type_annotation } }
spec fn value_as(p: Param, w: World) -> (Option<Value>, World) { match p.default_value { Some(x) => eval(*x, type_as(p), w), None => (None, w) } }
/// The parameter which is declared: of its type, with its default value, which is `.` for an optional parameter without another.
spec fn param_as(p: Param, w: World) -> FuncParam {
    FuncParam { name_id: p.name_id, is_implicit: p.is_implicit, type_: type_as(p), default_value: match value_as(p, w).0 { Some(v) => Some(Box::new(v)), None => if p.question_mark { Some(Box::new(the_unit())) } else { None } } }
}
/// The state after the default values of the first k parameters, in order.
spec fn after(s: Seq<Param>, k: int, w: World) -> World decreases k { if k <= 0 { w } else { value_as(s[k - 1], after(s, k - 1, w)).1 } }
spec fn params_as(s: Seq<Param>, a: int, b: int, w: World) -> Seq<FuncParam> { Seq::new((b - a) as nat, |i: int| param_as(s[a + i], after(s, a + i, w))) }
proof fn lemma_next(s: Seq<Param>, a: int, b: int, w: World) requires a <= b ensures params_as(s, a, b + 1, w) == params_as(s, a, b, w).push(param_as(s[b], after(s, b, w))) { assert(params_as(s, a, b + 1, w) =~= params_as(s, a, b, w).push(param_as(s[b], after(s, b, w)))); }
/// The places of the parameters in a declaration.
spec fn end_pos(s: Signature) -> int { s.positional_count as int }
spec fn end_spread(s: Signature) -> int { end_pos(s) + if s.positional_spread { 1int } else { 0 } }
spec fn end_named(s: Signature) -> int { end_spread(s) + s.named_count }
spec fn end_all(s: Signature) -> int { end_named(s) + if s.named_spread { 1int } else { 0 } }
/// What the parser ensures (unit signature).
spec fn sound_signature(s: Signature) -> bool {
    &&& s.params@.len() == end_all(s) + (if s.has_content { 1int } else { 0 })
    &&& forall|i: int, j: int| 0 <= i < j < s.params@.len() ==> (#[trigger] s.params@[i]).name_id != (#[trigger] s.params@[j]).name_id
    &&& forall|i: int| 0 <= i < s.params@.len() ==> (#[trigger] s.params@[i]).name_id != anonymous()
}
spec fn plain(n: NameID, t: Type) -> FuncParam { FuncParam { name_id: n, is_implicit: false, type_: t, default_value: None } }
spec fn one(f: Option<Box<FuncParam>>) -> Option<FuncParam> { match f { Some(b) => Some(*b), None => None } }
/// Each parameter which is declared is at its place.
spec fn is_compiled(f: FuncSignature, s: Signature, w: World) -> bool {
    let p = |i: int| param_as(s.params@[i], after(s.params@, i, w));
    &&& f.positional_params@ == params_as(s.params@, 0, end_pos(s), w)
    &&& one(f.spread_param) == (if s.positional_spread { Some(p(end_pos(s))) } else { None })
    &&& f.named_params@ == params_as(s.params@, end_spread(s), end_named(s), w)
    &&& one(f.spread_named_param) == (if s.named_spread { Some(p(end_named(s))) } else { None })
    &&& f.content_param == (if s.has_content { p(end_all(s)) } else { plain(anonymous(), unit_type()) })
}
proof fn lemma_new(s: Signature, a: int, b: int, w: World) requires sound_signature(s), 0 <= a <= b < s.params@.len() ensures named_param(params_as(s.params@, a, b, w), s.params@[b].name_id) is None {
    let q = params_as(s.params@, a, b, w);
    assert forall|i: int| 0 <= i < q.len() implies q[i].name_id != s.params@[b].name_id by { assert(s.params@[a + i].name_id != s.params@[b].name_id); }
}
"""
# the compiled signature is as C17 and C18 need it
FORMED = r"""
spec fn index(s: Signature, t: Slot) -> int { match t { Slot::Pos(i) => i, Slot::Named(i) => end_spread(s) + i, Slot::Spread => end_pos(s), Slot::SpreadNamed => end_named(s), Slot::Content => end_all(s) } }
proof fn lemma_well_formed(f: FuncSignature, s: Signature, w: World) requires is_compiled(f, s, w), sound_signature(s) ensures well_formed(f) {
    assert forall|t: Slot| #[trigger] valid(f, t) implies (if t is Content && !s.has_content { param(f, t) == plain(anonymous(), unit_type()) } else { 0 <= index(s, t) < s.params@.len() && param(f, t) == param_as(s.params@[index(s, t)], after(s.params@, index(s, t), w)) }) by {}
    assert forall|t: Slot, u: Slot| valid(f, t) && valid(f, u) && t != u implies #[trigger] param(f, t).name_id != #[trigger] param(f, u).name_id by {
        let i = index(s, t); let j = index(s, u);
        if t is Content && !s.has_content { assert(s.params@[j].name_id != anonymous()); } else if u is Content && !s.has_content { assert(s.params@[i].name_id != anonymous()); }
        else { assert(i != j); if i < j { assert(s.params@[i].name_id != s.params@[j].name_id); } else { assert(s.params@[j].name_id != s.params@[i].name_id); } }
    }
    assert forall|t: Slot| valid(f, t) implies (default_of(#[trigger] param(f, t)) matches Some(v) ==> accepted(param(f, t).type_, v)) by {
        if !(t is Content && !s.has_content) { let p = s.params@[index(s, t)]; axiom_optional(p.type_annotation); if let Some(x) = p.default_value { axiom_eval(*x, type_as(p), after(s.params@, index(s, t), w)); } }
    }
    assert forall|t: Slot| valid(f, t) && !(t is Content) implies #[trigger] param(f, t).name_id != anonymous() by { assert(s.params@[index(s, t)].name_id != anonymous()); }
}
"""


def compiled():
    u = Unit('compiled')
    libbind.base(u)
    for n in ('Param', 'Signature'):
        u.item(AST, 'struct', n)
    u.text(COMPILED + libbind.COMPLETE[:libbind.COMPLETE.index('/// Positional parameters are bound up to pos')] + FORMED)
    u.default_subs = libbind.ERRORS + [('Value :: UNIT', 'unit_value()'), ('Type :: Unit', 'type_unit()'), ('str_ids :: ANONYMOUS', 'id_anonymous()'), ('NameIDMap :: default', 'ParamMap::default')]
    u.text('impl FuncParam {')
    u.fn(SIG, 'new', impl='^impl FuncParam$').ensures('r == plain(name_id, type_)')
    f = u.fn(SIG, 'with_default', impl='^impl FuncParam$')
    f.sub('( mut self', '(self', 1).sub('{ self . default_value = $x ; self }', '{ let mut this = self; this.default_value = $x; this }', 0)
    f.ensures('r == (FuncParam { default_value: Some(Box::new(default_value)), ..self })')
    u.text('} impl FuncSignature {')
    f = u.fn(SIG, 'builder', impl='^impl FuncSignature$')
    f.ensures('r.positional_params@.len() == 0', 'r.named_params@.len() == 0', 'one(r.spread_param) is None', 'one(r.spread_named_param) is None', 'r.content_param == plain(anonymous(), unit_type())')
    SAME = {'positional_params': 'r.positional_params@ == self.positional_params@', 'spread_param': 'one(r.spread_param) == one(self.spread_param)', 'named_params': 'r.named_params@ == self.named_params@', 'spread_named_param': 'one(r.spread_named_param) == one(self.spread_named_param)', 'content_param': 'r.content_param == self.content_param'}
    for n, field, e in (('positional', 'positional_params', 'r.positional_params@ == self.positional_params@.push(param)'), ('named', 'named_params', 'named_param(self.named_params@, param.name_id) is None ==> r.named_params@ == self.named_params@.push(param)'), ('pos_spread', 'spread_param', 'one(r.spread_param) == Some(param)'), ('named_spread', 'spread_named_param', 'one(r.spread_named_param) == Some(param)'), ('content', 'content_param', 'r.content_param == param')):
        f = u.fn(SIG, n, impl='^impl FuncSignature$')
        f.sub('( mut self', '(self', 1).sub('FuncSignature { $body ; self }', 'FuncSignature { let mut this = self; $body ; this }', 1).sub('self . $i:f', 'this.$f', 0)
        f.ensures(e, *[v for k, v in SAME.items() if k != field])
    f = u.fn(SIG, 'implicit', impl='^impl FuncSignature$')
    f.sub('mut param', 'param', 1).sub('param . is_implicit = $x ; self . named ( param )', 'let mut changed = param; changed.is_implicit = $x; self.named(changed)', 0)
    f.ensures('named_param(self.named_params@, param.name_id) is None ==> r.named_params@ == self.named_params@.push(FuncParam { is_implicit: true, ..param })', *[v for k, v in SAME.items() if k != 'named_params'])
    u.fn(SIG, 'build', impl='^impl FuncSignature$').sub('self : FuncSignature', 'self', 0).ensures('*r.0 == self')
    u.text('} impl Compiler {')
    CI = "^impl < 'a > Compiler < 'a >$"
    f = u.fn(SIG, 'compile_param', impl=CI)
    f.sub('param . type_annotation . clone ( ) . option_if ( $x )', 'option_if(&param.type_annotation, $x)', 0)
    f.sub('param . default_value . as_ref ( ) . and_then ( | v | $a ) . or_else ( | | param . question_mark . then_some ( $x ) ) . map ( Box :: new )',
          '(match (match (match &param.default_value { Some(v) => $a, None => None }) { Some(v) => Some(v), None => if param.question_mark { Some($x) } else { None } }) { Some(v) => Some(Box::new(v)), None => None })', 0)
    f.sub('Err ( AlreadyReported )', 'Err(_)', 0).sub('evaluate_node ( v ,', 'evaluate_node(&**v,', 0)
    f.ensures('r == param_as(*param, old(self).w@)', 'final(self).w@ == value_as(*param, old(self).w@).1')
    f = u.fn(SIG, 'compile_func_signature', impl=CI)
    f.sub('let mut params = sig . params . iter ( ) . map ( | p | self . compile_param ( p ) ) ;', 'let mut at: usize = 0;', 1)
    for n, field in ((0, 'positional'), (1, 'named')):
        f.sub(f'for _ in 0 .. sig . {field}_count {{ $body }}', f'let mut i{n}: usize = 0; while i{n} < sig.{field}_count {{ i{n} += 1; $body }}', 0)
    f.sub('params . next ( ) . unwrap ( )', '{ let p = self.compile_param(&sig.params[at]); at += 1; p }', None)
    f.requires('sound_signature(*sig)')
    f.ensures('is_compiled(*r.0, *sig, old(self).w@)', 'well_formed(*r.0)', 'final(self).w@ == after(sig.params@, sig.params@.len() as int, old(self).w@)')
    W = 'old(self).w@'
    INV = ['sound_signature(*sig)', f'self.w@ == after(sig.params@, at as int, {W})', 'out.content_param == plain(anonymous(), unit_type())', 'one(out.spread_named_param) is None']
    f.loop(0, invariant=INV + ['at == i0 <= sig.positional_count', f'out.positional_params@ == params_as(sig.params@, 0, at as int, {W})', 'one(out.spread_param) is None', 'out.named_params@.len() == 0'], decreases='sig.positional_count - i0')
    f.loop(1, invariant=INV + ['i1 <= sig.named_count', 'at == end_spread(*sig) + i1', f'out.positional_params@ == params_as(sig.params@, 0, end_pos(*sig), {W})', f'one(out.spread_param) == (if sig.positional_spread {{ Some(param_as(sig.params@[end_pos(*sig)], after(sig.params@, end_pos(*sig), {W}))) }} else {{ None }})', f'out.named_params@ == params_as(sig.params@, end_spread(*sig), at as int, {W})'], decreases='sig.named_count - i1')
    f.before('let mut i0', f'proof {{ assert(out.positional_params@ =~= params_as(sig.params@, 0, 0, {W})); }}')
    f.before('let mut i1', f'proof {{ assert(out.named_params@ =~= params_as(sig.params@, end_spread(*sig), end_spread(*sig), {W})); }}')
    f.loop_start(0, f'proof {{ lemma_next(sig.params@, 0, at as int, {W}); }}')
    f.loop_start(1, f'proof {{ lemma_next(sig.params@, end_spread(*sig), at as int, {W}); lemma_new(*sig, end_spread(*sig), at as int, {W}); }}')
    f.before('out . build', f'proof {{ assert(is_compiled(out, *sig, {W})); lemma_well_formed(out, *sig, {W}); }}')
    u.text('}')
    return u


UNITS = [signature, arguments, compiled]

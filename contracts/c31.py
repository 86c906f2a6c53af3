"""C31: patterns are read as they are written."""
import re
from vx import Unit
from contracts.libparse import *

PM = 'src/parser/matcher.rs'
AST = 'src/parser/ast.rs'
TAG = 'src/parser/tag.rs'

ERRS = '''enum SyntaxError { SpreadPositionalNotAllowed, SpreadNamedNotAllowed, SpreadWildcardNotAllowed, TokenExpected(TokenKind), TokenExpectedWasEOF(TokenKind), TokenExpectedWas(TokenKind, TokenKind), UnexpectedEOF,
    PatternBareName, PatternMultipleSpreads, PatternNamedUnderscore, PatternNamedAfterSpread, PatternDuplicateName, PatternIncorrectCloseTag, PatternCannotMatchHTML, PatternAttrAccess, PatternIndexAccess, ParamMultipleSpread }'''
TYPES = r'''
#[verifier::external_body] struct Type { x: u64 }
enum Expr { Bool(bool, SourceRange), Int(i64, SourceRange), List(Box<[Expr]>, SourceRange), Template(Box<[TemplatePart]>, SourceRange), Other(u64) }
#[verifier::external_body] struct Regex { x: u64 }
/// The patterns of a dict by name, in order.
struct PatternMap { entries: Ghost<Seq<(NameID, MatchPattern)>> }
spec fn keys(s: Seq<(NameID, MatchPattern)>) -> Seq<NameID> { s.map_values(|e: (NameID, MatchPattern)| e.0) }
impl PatternMap {
    #[verifier::external_body] fn default() -> (r: PatternMap) ensures r.entries@ == Seq::<(NameID, MatchPattern)>::empty() { unimplemented!() }
    /// IndexMap::insert.
    #[verifier::external_body] fn insert(&mut self, k: NameID, p: MatchPattern) -> (r: Option<MatchPattern>)
        ensures (r is Some) == keys(old(self).entries@).contains(k), r is None ==> final(self).entries@ == old(self).entries@.push((k, p)), r is Some ==> keys(final(self).entries@) == keys(old(self).entries@) { unimplemented!() }
    #[verifier::external_body] fn is_empty(&self) -> (r: bool) ensures r == (self.entries@.len() == 0) { unimplemented!() }
}
/// A boxed slice is given by its items.
uninterp spec fn box_of<T>(s: Seq<T>) -> Box<[T]>;
#[verifier::external_body] fn boxed_of<T>(v: Vec<T>) -> (r: Box<[T]>) ensures r@ == v@, r == box_of(v@) { v.into_boxed_slice() }
#[verifier::external_body] fn take_first<T>(v: &mut Vec<T>) -> (r: Option<T>) ensures match r { Some(x) => old(v)@.len() > 0 && x == old(v)@[0] && final(v)@ == old(v)@.skip(1), None => old(v)@.len() == 0 && final(v)@ == old(v)@ } { unimplemented!() }
#[verifier::external_body] fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body] fn starts_with_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == c) { s.starts_with(c) }
/// Tags which have no content and no closing tag (C08).
uninterp spec fn void(id: NameID) -> bool;
#[verifier::external_body] fn is_self_closing(id: NameID) -> (r: bool) ensures r == void(id) { unimplemented!() }
/// `</>`, or the closing tag of a name: C28.
uninterp spec fn closes(src: Src, id: NameID, t: Token) -> bool;
/// The names of the variables of a pattern (C22).
uninterp spec fn name_seq(p: MatchPattern) -> Seq<NameID>;
uninterp spec fn distinct_names(s: Seq<NameID>) -> Box<[NameID]>;
#[verifier::external_body] struct IDs { s: u64 }
impl View for IDs { type V = Seq<NameID>; uninterp spec fn view(&self) -> Seq<NameID>; }
impl IDs {
    #[verifier::external_body] fn default() -> (r: IDs) ensures r@ == Seq::<NameID>::empty() { unimplemented!() }
    #[verifier::external_body] fn to_names(self) -> (r: Box<[NameID]>) ensures r == distinct_names(self@) { unimplemented!() }
}
uninterp spec fn pattern_range(p: MatchPattern) -> SourceRange;
impl MatchPattern {
    #[verifier::external_body] fn get_name_ids(&self, out: &mut IDs) ensures final(out)@ == old(out)@ + name_seq(*self) { unimplemented!() }
    #[verifier::external_body] fn range(&self) -> (r: SourceRange) ensures r == pattern_range(*self) { unimplemented!() }
}
impl NamedMatchPattern { #[verifier::external_body] fn range(&self) -> (r: SourceRange) { unimplemented!() } }
'''
LIST = r'''
/// Items up to a closing token, with commas between them and perhaps after the last, or without.
spec fn NAME(src: Src, acc: Seq<ITEM>, st0: Seq<Token>, must_end: bool, commas: bool, close: TokenKind) -> Option<(Seq<ITEM>, Token, Seq<Token>)> decreases st0.len(), 6int {
    let st = skipped(st0);
    if next_is(st, close) { Some((acc, st.last(), st.drop_last())) }
    else if must_end { None }
    else { match READ {
        Some((a, rest)) => if rest.len() < st0.len() { let after = skipped(rest); let comma = commas && next_is(after, TokenKind::Comma); NAME(src, acc.push(a), if comma { after.drop_last() } else { after }, commas && !comma, commas, close) } else { None },
        None => None,
    } }
}
'''


def list_spec(name, item, read):
    return LIST.replace('NAME', name).replace('ITEM', item).replace('READ', read)


GRAMMAR = r'''
/// What the rest of the parser reads, without an error.
uninterp spec fn expr_of(src: Src, st: Seq<Token>) -> Option<(Expr, Seq<Token>)>;
uninterp spec fn expr_from(src: Src, t: Token, st: Seq<Token>) -> Option<(Expr, Seq<Token>)>;
uninterp spec fn name_of(src: Src, t: Token, st: Seq<Token>) -> Option<(Name, Seq<Token>)>;
uninterp spec fn type_of(src: Src, st: Seq<Token>) -> Option<(Type, SourceRange, Seq<Token>)>;
/// The parts of a template (C23).
uninterp spec fn parts_of(src: Src, t: Token, k: QuoteKind, st: Seq<Token>) -> Option<(Vec<TemplatePart>, SourceRange, Seq<Token>)>;
spec fn next_is(st: Seq<Token>, k: TokenKind) -> bool { st.len() > 0 && st.last().kind == k }
spec fn from_to(a: SourceRange, end: u32) -> SourceRange { SourceRange { src_id: a.src_id, start: a.start, end } }
spec fn tok_id(src: Src, t: Token) -> NameID { id_of(span(src, t.range)) }
type Read = Option<(MatchPattern, Seq<Token>)>;

/// A variable, without an attribute or index.
spec fn variable(src: Src, t: Token, st: Seq<Token>) -> Option<(SimpleName, Seq<Token>)> { match name_of(src, t, st) { Some((Name::Simple(n), rest)) => Some((n, rest)), _ => None } }
/// After `_` or a variable there may be a type, or a variable for it.
#[verifier::opaque]
spec fn typed(src: Src, p: MatchPattern, st0: Seq<Token>) -> Read {
    let st = skipped(st0);
    if !next_is(st, TokenKind::Colon) { Some((p, st)) } else {
        let a = skipped(st.drop_last());
        let ty = if next_is(a, TokenKind::VarName) { match variable(src, a.last(), a.drop_last()) { Some((n, rest)) => Some((MatchPattern::TypeOf(n), rest)), None => None } }
            else { match type_of(src, a) { Some((ty, range, rest)) => Some((MatchPattern::Typed(range, ty), rest)), None => None } };
        match ty { Some((ty, rest)) => Some((if p is Ignore { ty } else { MatchPattern::And(Box::new((ty, p))) }, rest)), None => None }
    }
}
/// Patterns with `|` between them, each of which may be patterns with `&` between them.
#[verifier::opaque]
spec fn pattern_of(src: Src, st: Seq<Token>) -> Read decreases st.len(), 4int { match and_of(src, st) { Some((p, rest)) => if rest.len() < st.len() { or_from(src, p, rest) } else { None }, None => None } }
spec fn either(p: MatchPattern, q: MatchPattern) -> MatchPattern { MatchPattern::Or(Box::new((p, q)), distinct_names(name_seq(p) + name_seq(q))) }
spec fn or_from(src: Src, p: MatchPattern, st0: Seq<Token>) -> Read decreases st0.len(), 4int {
    let st = skipped(st0);
    if !next_is(st, TokenKind::Bar) { Some((p, st)) } else { match and_of(src, st.drop_last()) { Some((q, rest)) => if rest.len() < st0.len() { or_from(src, either(p, q), rest) } else { None }, None => None } }
}
#[verifier::opaque]
spec fn and_of(src: Src, st: Seq<Token>) -> Read decreases st.len(), 3int { match primary_of(src, st) { Some((p, rest)) => if rest.len() < st.len() { and_from(src, p, rest) } else { None }, None => None } }
spec fn and_from(src: Src, p: MatchPattern, st0: Seq<Token>) -> Read decreases st0.len(), 3int {
    let st = skipped(st0);
    if !next_is(st, TokenKind::Ampersand) { Some((p, st)) } else { match primary_of(src, st.drop_last()) { Some((q, rest)) => if rest.len() < st0.len() { and_from(src, MatchPattern::And(Box::new((p, q))), rest) } else { None }, None => None } }
}
spec fn equals(x: Option<(Expr, Seq<Token>)>) -> Read { match x { Some((e, rest)) => Some((MatchPattern::EqualsValue(e), rest)), None => None } }
#[verifier::opaque]
spec fn primary_of(src: Src, st0: Seq<Token>) -> Read decreases st0.len(), 2int {
    let st = skipped(st0);
    if st.len() == 0 { None } else { let t = st.last(); let rest = st.drop_last(); match t.kind {
        TokenKind::Underscore => typed(src, MatchPattern::Ignore(t.range), rest),
        TokenKind::VarName => match variable(src, t, rest) { Some((n, rest)) => typed(src, MatchPattern::VarName(n), rest), None => None },
        TokenKind::Dot => Some((MatchPattern::LiteralNone(t.range), rest)),
        TokenKind::Boolean(_) => equals(expr_from(src, t, rest)),
        TokenKind::Number => equals(expr_from(src, t, rest)),
        TokenKind::Verbatim(_) => equals(expr_from(src, t, rest)),
        TokenKind::Equals => equals(expr_of(src, rest)),
        TokenKind::LAngle => tag_of(src, t, rest),
        TokenKind::LSqb => sequence_of(src, t, rest, true, TokenKind::RSqb),
        TokenKind::LPar => dict_of(src, t, rest),
        TokenKind::LBrace => sequence_of(src, t, rest, false, TokenKind::RBrace),
        TokenKind::Quote(k, _) => template_of(src, t, k, rest),
        _ => None,
    } }
}
/// An item of a list: a pattern, `*pattern` for the others, or `...`.
#[verifier::opaque]
spec fn positional_of(src: Src, st0: Seq<Token>) -> Option<(PositionalMatchPattern, Seq<Token>)> decreases st0.len(), 5int {
    let st = skipped(st0);
    if next_is(st, TokenKind::Ellipsis) { Some((PositionalMatchPattern::Spread(MatchPattern::Ignore(st.last().range)), st.drop_last())) }
    else if next_is(st, TokenKind::DoubleAsterisk) { None }
    else if next_is(st, TokenKind::Asterisk) { match nested(src, st.drop_last()) { Some((p, rest)) => Some((PositionalMatchPattern::Spread(p), rest)), None => None } }
    else { match nested(src, st) { Some((p, rest)) => Some((PositionalMatchPattern::One(p), rest)), None => None } }
}
/// An entry: `name=pattern`, in a tag also `name` for an attribute without a value, `**pattern` for the others, or `...`.
#[verifier::opaque]
spec fn named_of(src: Src, lone: bool, st0: Seq<Token>) -> Option<(NamedMatchPattern, Seq<Token>)> decreases st0.len(), 5int {
    let st = skipped(st0);
    if next_is(st, TokenKind::Ellipsis) { Some((NamedMatchPattern::Spread(MatchPattern::Ignore(st.last().range)), st.drop_last())) }
    else if next_is(st, TokenKind::Asterisk) { None }
    else if next_is(st, TokenKind::DoubleAsterisk) { match nested(src, st.drop_last()) { Some((p, rest)) => Some((NamedMatchPattern::Spread(p), rest)), None => None } }
    else if !next_is(st, TokenKind::Name) { None }
    else if span(src, st.last().range)[0] == '_' { None }
    else {
        let id = tok_id(src, st.last()); let a = skipped(st.drop_last());
        if next_is(a, TokenKind::Equals) { match nested(src, a.drop_last()) { Some((p, rest)) => Some((NamedMatchPattern::One(id, p), rest)), None => None } }
        else if lone { Some((NamedMatchPattern::One(id, MatchPattern::LiteralNone(st.last().range)), a)) } else { None }
    }
}
spec fn inner(c: PositionalMatchPattern) -> MatchPattern { match c { PositionalMatchPattern::One(p) => p, PositionalMatchPattern::Spread(p) => p } }
spec fn inners(s: Seq<PositionalMatchPattern>) -> Seq<MatchPattern> { s.map_values(|c: PositionalMatchPattern| inner(c)) }
spec fn spread_at(s: Seq<PositionalMatchPattern>) -> Option<u32> decreases s.len() { if s.len() == 0 { None } else if s.last() is Spread { Some((s.len() - 1) as u32) } else { spread_at(s.drop_last()) } }
/// There is at most one spread.
spec fn one_spread(s: Seq<PositionalMatchPattern>) -> bool decreases s.len() { s.len() == 0 || one_spread(s.drop_last()) && !(s.last() is Spread && spread_at(s.drop_last()) is Some) }
/// Which patterns may be in a sequence of HTML content.
spec fn can_be_html(p: MatchPattern) -> bool decreases p {
    match p {
        MatchPattern::And(pair) => can_be_html(pair.0) && can_be_html(pair.1),
        MatchPattern::Or(pair, _) => can_be_html(pair.0) && can_be_html(pair.1),
        MatchPattern::EqualsValue(e) => !(e is Bool || e is Int || e is List),
        MatchPattern::ExactList(..) => false,
        MatchPattern::SpreadList(..) => false,
        MatchPattern::Dict(..) => false,
        _ => true,
    }
}
spec fn all_html(s: Seq<MatchPattern>) -> bool { forall|i: int| 0 <= i < s.len() ==> can_be_html(#[trigger] s[i]) }
spec fn sequence_node(list: bool, range: SourceRange, s: Seq<PositionalMatchPattern>) -> MatchPattern {
    let ps = box_of(inners(s));
    match spread_at(s) {
        Some(i) => if list { MatchPattern::SpreadList(range, ps, i) } else { MatchPattern::SpreadHTMLSeq(range, ps, i) },
        None => if list { MatchPattern::ExactList(range, ps) } else if s.len() == 0 { MatchPattern::LiteralNone(range) } else { MatchPattern::ExactHTMLSeq(range, ps) },
    }
}
/// A list in brackets, or a sequence in braces.
#[verifier::opaque]
spec fn sequence_of(src: Src, open: Token, st: Seq<Token>, commas: bool, close: TokenKind) -> Read decreases st.len(), 7int {
    let list = open.kind == TokenKind::LSqb;
    match positional_list(src, Seq::empty(), st, false, commas, close) { Some((s, t, rest)) => if one_spread(s) && (list || all_html(inners(s))) { Some((sequence_node(list, from_to(open.range, t.range.end), s), rest)) } else { None }, None => None }
}
spec fn entries(s: Seq<NamedMatchPattern>) -> Seq<(NameID, MatchPattern)> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { NamedMatchPattern::One(n, p) => entries(s.drop_last()).push((n, p)), NamedMatchPattern::Spread(_) => entries(s.drop_last()) } } }
spec fn others(s: Seq<NamedMatchPattern>) -> Option<MatchPattern> decreases s.len() { if s.len() == 0 { None } else { match s.last() { NamedMatchPattern::One(..) => others(s.drop_last()), NamedMatchPattern::Spread(p) => Some(p) } } }
/// No name is repeated, and nothing is after a spread.
spec fn legal(s: Seq<NamedMatchPattern>) -> bool decreases s.len() { s.len() == 0 || legal(s.drop_last()) && others(s.drop_last()) is None && match s.last() { NamedMatchPattern::One(n, _) => !keys(entries(s.drop_last())).contains(n), NamedMatchPattern::Spread(_) => true } }
/// In a tag, `**pattern` alone is the pattern itself, as the attributes are a dict in any case.
spec fn dict_node(range: SourceRange, s: Seq<NamedMatchPattern>, tag: bool) -> MatchPattern {
    if tag && entries(s).len() == 0 && others(s) is Some { others(s)->Some_0 } else { MatchPattern::Dict(range, Box::new(DictMatchPattern { attrs: PatternMap { entries: Ghost(entries(s)) }, spread: others(s) })) }
}
#[verifier::opaque]
spec fn dict_of(src: Src, open: Token, st: Seq<Token>) -> Read decreases st.len(), 7int {
    match named_list(src, Seq::empty(), st, false, true, TokenKind::RPar) { Some((s, t, rest)) => if legal(s) { Some((dict_node(from_to(open.range, t.range.end), s, false), rest)) } else { None }, None => None }
}
/// The name of a tag: any, a lowercase name or a variable; and what its closing tag must have.
spec fn tag_name(src: Src, st: Seq<Token>) -> Option<(MatchPattern, NameID, Seq<Token>)> {
    if st.len() == 0 { None } else { let t = st.last(); let rest = st.drop_last(); match t.kind {
        TokenKind::Underscore => Some((MatchPattern::Ignore(t.range), anonymous(), rest)),
        TokenKind::Name => { let id = id_of(lowercase(span(src, t.range))); Some((MatchPattern::LiteralName(t.range, id), id, rest)) },
        TokenKind::VarName => match variable(src, t, rest) { Some((n, rest)) => Some((MatchPattern::VarName(n), anonymous(), rest)), None => None },
        _ => None,
    } }
}
/// The content of a tag and the token at its end.
spec fn content_of(src: Src, id: NameID, rangle: Token, st0: Seq<Token>) -> Option<(MatchPattern, Token, Seq<Token>)> decreases st0.len(), 5int {
    let st = skipped(st0);
    if span(src, rangle.range) == seq!['/', '>'] || void(id) { Some((MatchPattern::LiteralNone(rangle.range), rangle, st)) }
    else if next_is(st, TokenKind::CloseTag) { if closes(src, id, st.last()) { Some((MatchPattern::LiteralNone(st.last().range), st.last(), st.drop_last())) } else { None } }
    else { match nested(src, st) { Some((p, rest)) => { let end = skipped(rest); if next_is(end, TokenKind::CloseTag) && closes(src, id, end.last()) { Some((p, end.last(), end.drop_last())) } else { None } }, None => None } }
}
#[verifier::opaque]
spec fn tag_of(src: Src, open: Token, st: Seq<Token>) -> Read decreases st.len(), 7int {
    match tag_name(src, st) { None => None, Some((name, id, st1)) => if st1.len() > st.len() { None } else { match named_list(src, Seq::empty(), st1, false, false, TokenKind::RAngle) { None => None, Some((s, rangle, st2)) => if !legal(s) || st2.len() > st.len() { None } else {
        match content_of(src, id, rangle, st2) { None => None, Some((content, close, rest)) =>
            Some((MatchPattern::Tag(from_to(open.range, close.range.end), Box::new(TagMatchPattern { name, attrs: dict_node(from_to(open.range, rangle.range.end), s, true), content })), rest)) }
    } } } }
}
/// The regular expression of a template: text is itself, white space any white space, a variable any text which is not empty.
uninterp spec fn escaped(s: Seq<char>) -> Seq<char>;
uninterp spec fn regex_of(s: Seq<char>) -> Regex;
spec fn literal(p: TemplatePart) -> bool { p is Literal || p is LiteralChar }
spec fn all_literal(s: Seq<TemplatePart>) -> bool { forall|i: int| 0 <= i < s.len() ==> literal(#[trigger] s[i]) }
spec fn simple(p: TemplatePart) -> bool { p matches TemplatePart::Name(n) ==> n is Simple }
spec fn all_simple(s: Seq<TemplatePart>) -> bool decreases s.len() { s.len() == 0 || all_simple(s.drop_last()) && simple(s.last()) }
spec fn group() -> Seq<char> { seq!['(', '.', '+', '?', ')'] }
spec fn any_space() -> Seq<char> { seq!['\\', 's', '+'] }
spec fn regex_text(src: Src, s: Seq<TemplatePart>) -> Seq<char> decreases s.len() {
    if s.len() == 0 { seq!['^', '(', '?', 's', ':'] } else { regex_text(src, s.drop_last()) + match s.last() { TemplatePart::Literal(r) => escaped(span(src, r)), TemplatePart::LiteralChar(c) => escaped(seq![c]), TemplatePart::Name(Name::Simple(_)) => group(), TemplatePart::Name(_) => Seq::empty(), TemplatePart::Whitespace => any_space() } }
}
spec fn variables(s: Seq<TemplatePart>) -> Seq<SimpleName> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { TemplatePart::Name(Name::Simple(n)) => variables(s.drop_last()).push(n), _ => variables(s.drop_last()) } } }
#[verifier::opaque]
spec fn template_of(src: Src, open: Token, k: QuoteKind, st: Seq<Token>) -> Read {
    match parts_of(src, open, k, st) { None => None, Some((parts, range, rest)) =>
        if all_literal(parts@) { Some((MatchPattern::EqualsValue(Expr::Template(box_of(parts@), range)), rest)) }
        else if !all_simple(parts@) { None }
        else { Some((MatchPattern::Regex(range, Box::new(RegexMatchPattern { regex: regex_of(regex_text(src, parts@) + seq![')', '$']), names: box_of(variables(parts@)) })), rest)) } }
}
/// `pattern -> value`.
spec fn branch_of(src: Src, st: Seq<Token>) -> Option<((MatchPattern, Expr), Seq<Token>)> {
    match nested(src, st) { None => None, Some((p, rest)) => { let a = skipped(rest); if !next_is(a, TokenKind::Arrow) { None } else { match expr_of(src, a.drop_last()) { Some((e, rest)) => Some(((p, e), rest)), None => None } } } }
}
/// `@match value { branches }`.
spec fn match_of(src: Src, at: Token, st: Seq<Token>) -> Option<(Match, Seq<Token>)> {
    match expr_of(src, st) { None => None, Some((value, rest)) => { let a = skipped(rest); if !next_is(a, TokenKind::LBrace) { None } else { match branch_list(src, Seq::empty(), a.drop_last(), false, true, TokenKind::RBrace) { None => None, Some((s, close, rest)) =>
        Some((Match { range: from_to(at.range, close.range.end), value, branches: box_of(s) }, rest)) } } } }
}
'''
READ = r'''
    #[verifier::external_body] fn err_unexpected_token(&mut self, t: Token) -> AlreadyReported ensures final(self).src == old(self).src, final(self).tokens == old(self).tokens, final(self).errors@ == old(self).errors@ + 1, reads(*old(self), *final(self)) { unimplemented!() }
    #[verifier::external_body] fn parse_expr(&mut self) -> (r: Reported<Expr>)
        ensures reads(*old(self), *final(self)), match expr_of(old(self).src, old(self).tokens@) { Some(x) => r == Ok::<Expr, AlreadyReported>(x.0) && final(self).tokens@ == x.1 && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ }, r is Ok ==> final(self).tokens@.len() < old(self).tokens@.len() { unimplemented!() }
    #[verifier::external_body] fn parse_expr_tok(&mut self, t: Token) -> (r: Reported<Expr>)
        ensures reads(*old(self), *final(self)), match expr_from(old(self).src, t, old(self).tokens@) { Some(x) => r == Ok::<Expr, AlreadyReported>(x.0) && final(self).tokens@ == x.1 && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ } { unimplemented!() }
    #[verifier::external_body] fn parse_name(&mut self, t: Token) -> (r: Reported<Name>)
        ensures reads(*old(self), *final(self)), match name_of(old(self).src, t, old(self).tokens@) { Some(x) => r == Ok::<Name, AlreadyReported>(x.0) && final(self).tokens@ == x.1 && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ } { unimplemented!() }
    #[verifier::external_body] fn parse_type(&mut self) -> (r: Reported<(Type, SourceRange)>)
        ensures reads(*old(self), *final(self)), match type_of(old(self).src, old(self).tokens@) { Some(x) => r == Ok::<(Type, SourceRange), AlreadyReported>((x.0, x.1)) && final(self).tokens@ == x.2 && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ } { unimplemented!() }
    #[verifier::external_body] fn parse_template_parts(&mut self, t: Token, k: QuoteKind) -> (r: Reported<(Vec<TemplatePart>, SourceRange)>)
        ensures reads(*old(self), *final(self)), match parts_of(old(self).src, t, k, old(self).tokens@) { Some(x) => r == Ok::<(Vec<TemplatePart>, SourceRange), AlreadyReported>((x.0, x.1)) && final(self).tokens@ == x.2 && final(self).errors@ == old(self).errors@, None => final(self).errors@ > old(self).errors@ } { unimplemented!() }
    #[verifier::external_body] fn tok_lowercase_name_id(&mut self, t: Token) -> (r: NameID) requires t.kind == TokenKind::Name ensures *final(self) == *old(self), r == id_of(lowercase(span(old(self).src, t.range))) { unimplemented!() }
    #[verifier::external_body] fn tok_name_id(&mut self, t: Token) -> (r: NameID) requires t.kind == TokenKind::Name ensures *final(self) == *old(self), r == tok_id(old(self).src, t) { unimplemented!() }
    #[verifier::external_body] fn is_close_tag(&self, t: Token, id: NameID) -> (r: bool) requires good(self.src, t) ensures r == closes(self.src, id, t) { unimplemented!() }
'''
CLEAN = 'clean(old(self).src, old(self).tokens@)'
READS = 'reads(*old(self), *final(self))'
LESS = 'r is Ok ==> final(self).tokens@.len() < old(self).tokens@.len()'
START = 'broadcast use reading::group_reads; proof { lemma_reads_self(*self); }'
LITS = r'''reveal_strlit("^(?s:"); assert("^(?s:"@ =~= seq!['^', '(', '?', 's', ':']); reveal_strlit("(.+?)"); assert("(.+?)"@ =~= group()); reveal_strlit(r"\s+"); assert(r"\s+"@ =~= any_space()); reveal_strlit(")$"); assert(")$"@ =~= seq![')', '$']);'''
NODEC = '#[verifier::exec_allows_no_decreases_clause]'


def separated(u, spec, item, call, name, lone=''):
    """parse_separated_until for one kind of item, which `call` reads."""
    f = u.fn(B, 'parse_separated_until', impl=PI)
    f.emit_name = name
    L = 'lone, ' if lone else ''
    f.sub('fn parse_separated_until < T > ( & mut self', f'fn {name}(&mut self', 1).sub('parse : impl Fn ( & mut Self ) -> Reported < T > ,', 'lone: bool,' if lone else '', 1).sub('Vec < T >', f'Vec<{item}>', 1)
    f.sub('parse ( self ) . map_err ( | _ | { self . err_unmatched ( open ) ; self . report ( $e , self . src . eof_range ( ) ) } ) ?', f'(match {call} {{ Ok(a) => a, Err(_) => {{ self.err_unmatched(open); let range = self.src.eof_range(); let e = self.report($e, range); return Err(e); }} }})', 1)
    f.sub('self . expect_poll_kind ( $k ) . ok ( )', '(match self.expect_poll_kind($k) { Ok(t) => Some(t), Err(_) => None })', 0)
    f.sub('let close = loop {', 'let close: Token; loop {', 1).sub('break close', '{ close = found; break }', 1).sub('if let Some ( close ) = close {', 'if let Some(found) = found_close {', 1).sub('let close = if', 'let found_close = if', 1)
    K = 'close_kind != TokenKind::Comma && close_kind != TokenKind::Whitespace && close_kind != TokenKind::Newline'
    SEP = 'sep_kind == TokenKind::Comma || sep_kind == TokenKind::Whitespace'
    KEEP = [K, SEP] + (['lone == (sep_kind == TokenKind::Whitespace)'] if lone else [])
    f.requires(CLEAN, *KEEP)
    A = f'{spec}(old(self).src, Seq::empty(), old(self).tokens@, false, sep_kind == TokenKind::Comma, close_kind)'
    f.ensures(READS, outcome(A, 'r is Ok && r->Ok_0.0@ == x.0 && r->Ok_0.1 == x.1 && final(self).tokens@ == x.2'), 'r is Ok ==> r->Ok_0.1.kind == close_kind')
    f.loop(0, invariant=['reads(*old(self), *self)', 'clean(self.src, self.tokens@)'] + KEEP,
           except_break=[f'self.errors@ == old(self).errors@ && {A} == {spec}(self.src, children@, self.tokens@, expect_end, sep_kind == TokenKind::Comma, close_kind) || self.errors@ > old(self).errors@ && {A} is None'],
           ensures=[f'match {A} {{ Some(x) => x == (children@, close, self.tokens@) && self.errors@ == old(self).errors@, None => self.errors@ > old(self).errors@ }}', 'close.kind == close_kind'], decreases='self.tokens@.len()')
    f.start(START)
    f.attr(NODEC)
    f.loop_start(0, 'proof { reveal_with_fuel(%s, 2); }' % spec)
    return f


def read(f, spec, value='r == Ok::<MatchPattern, AlreadyReported>(x.0) && final(self).tokens@ == x.1', less=True):
    f.requires(CLEAN).ensures(READS, outcome(spec, value))
    if less:
        f.ensures(LESS)
    f.attr(NODEC)


# reading which keeps the tokens clean: composes without lemmas
def simple(text):
    a, b = text.index('spec fn reads('), text.index('proof fn lemma_reads_self')
    return text[:a].replace('spec fn clean(', '#[verifier::opaque] spec fn clean(').replace('assert forall|i: int| 0 <= i < k implies', 'reveal(clean); assert forall|i: int| 0 <= i < k implies') + r'''
spec fn reads(a: Parser, b: Parser) -> bool { b.src == a.src && b.tokens@.len() <= a.tokens@.len() && (clean(a.src, a.tokens@) ==> clean(b.src, b.tokens@)) && b.errors@ >= a.errors@ }
mod reading {
    use super::*;
    pub(crate) broadcast proof fn lemma_last(src: Src, st: Seq<Token>) requires #[trigger] clean(src, st), st.len() > 0 ensures good(src, #[trigger] st.last()) { reveal(clean); assert(st.last() == st[st.len() - 1]); }
    pub(crate) broadcast group group_reads { lemma_last }
}
proof fn lemma_reads_self(a: Parser) ensures clean(a.src, a.tokens@) && a.tokens@.len() > 0 ==> clean(a.src, a.tokens@.drop_last()) { let t = a.tokens@; if clean(a.src, t) && t.len() > 0 { lemma_clean(a.src, t, t.len() - 1); assert(t.take(t.len() - 1) =~= t.drop_last()); } }
'''


def base(name):
    u = Unit(name)
    token_types(u)
    u.parts = [simple(p) if p is TOKENS else p for p in u.parts]
    u.default_subs = u.default_subs + [('let name = self . string_pool . get ( $x ) ; self . report ( SyntaxError :: $i:e ( name ) , $r )', 'self.report(SyntaxError::$e, $r)')]
    u.item(AST, 'enum', 'SpreadKind', attrs='#[derive(Clone, Copy, PartialEq, Eq, Structural)]')
    u.text(ERRS + NAMES + TYPES)
    u.item(AST, 'struct', 'SimpleName')
    u.item(AST, 'enum', 'Name')
    u.item(AST, 'struct', 'AttrName')
    u.item(AST, 'struct', 'IndexName')
    u.item(AST, 'enum', 'TemplatePart')
    u.item(AST, 'enum', 'MatchPattern')
    u.item(AST, 'struct', 'RegexMatchPattern', subs=[('regex :: Regex', 'Regex')])
    u.item(AST, 'struct', 'DictMatchPattern', subs=[('NameIDMap < MatchPattern >', 'PatternMap')])
    u.item(AST, 'struct', 'TagMatchPattern')
    u.item(AST, 'struct', 'Match')
    u.item(PM, 'enum', 'PositionalMatchPattern')
    u.item(PM, 'enum', 'NamedMatchPattern')
    grammar = GRAMMAR + list_spec('positional_list', 'PositionalMatchPattern', 'positional_of(src, st)') + list_spec('named_list', 'NamedMatchPattern', 'named_of(src, !commas, st)') + list_spec('branch_list', '(MatchPattern, Expr)', 'branch_of(src, st)')
    if name == 'defined':
        # the definition by recursion on the number of tokens: each use of a pattern within another is one of fewer
        grammar = re.sub(r'\bnested\(', 'pattern_of(', grammar)
    else:
        # here only the equation which it satisfies
        grammar = re.sub(r'(spec fn (?!(?:or_from|and_from|\w+_list|can_be_html|spread_at|one_spread|entries|others|legal|all_simple|regex_text|variables)\b)[^{]*?) decreases [^{]* \{', r'\1 {', grammar) + '''
/// A pattern within another.
uninterp spec fn nested(src: Src, st: Seq<Token>) -> Read;
#[verifier::external_body] proof fn axiom_nested(src: Src, st: Seq<Token>) ensures nested(src, st) == pattern_of(src, st) {}
'''
    u.text(grammar)
    return u


def whole(u):
    u.text('impl MatchPattern {')
    u.fn(AST, 'can_match_html', impl='^impl MatchPattern$').ensures('r == can_be_html(*self)').decreases('*self')
    u.text('} impl TemplatePart {')
    u.fn(AST, 'is_literal', impl='^impl TemplatePart$').sub('matches ! ( self , $p )', '(match self { $p => true, _ => false })', 0).ensures('r == literal(*self)')
    u.text('}')


def patterns():
    """The parser of patterns."""
    u = base('patterns')
    whole(u)
    u.text('impl Parser {' + READ)
    queue(u, ('poll', 'poll_if', 'skip_whitespace', 'poll_if_kind', 'expect_poll', 'expect_poll_kind'))
    poll_if_spread(u)
    f = u.fn(PM, 'parse_name_pattern', impl=PI)
    read(f, 'variable(old(self).src, token, old(self).tokens@)', 'r == Ok::<SimpleName, AlreadyReported>(x.0) && final(self).tokens@ == x.1', False)
    f.start(START)
    f = u.fn(PM, 'parse_optional_typed_pattern', impl=PI)
    f.sub('matches ! ( $x , $p )', '(match $x { $p => true, _ => false })', 0)
    read(f, 'typed(old(self).src, pattern, old(self).tokens@)', less=False)
    f.start(START + 'proof { reveal(typed); }')
    f = u.fn(PM, 'parse_and_match_pattern', impl=PI)
    read(f, 'and_of(old(self).src, old(self).tokens@)')
    f.start(START + 'proof { reveal(and_of); }')
    W = 'and_of(old(self).src, old(self).tokens@)'
    def chain(f, whole, step):
        f.loop(0, invariant=['reads(*old(self), *self)', 'clean(self.src, self.tokens@)', 'self.tokens@.len() < old(self).tokens@.len()'], except_break=[f'self.errors@ == old(self).errors@ && {whole} == {step}(self.src, p, self.tokens@) || self.errors@ > old(self).errors@ && {whole} is None'],
               ensures=[f'match {whole} {{ Some(x) => x == (p, self.tokens@) && self.errors@ == old(self).errors@, None => self.errors@ > old(self).errors@ }}'], decreases='self.tokens@.len()')
        f.loop_start(0, 'proof { reveal_with_fuel(%s, 2); }' % step)
    chain(f, W, 'and_from')
    f = u.fn(PM, 'parse_match_pattern', impl=PI)
    f.sub('NameIDSet :: default', 'IDs::default', 0).sub('name_ids . into_iter ( ) . collect ( )', 'name_ids.to_names()', 0)
    read(f, 'nested(old(self).src, old(self).tokens@)')
    f.start(START + 'proof { reveal(pattern_of); axiom_nested(self.src, self.tokens@); }')
    chain(f, W.replace('and_of', 'nested'), 'or_from')
    f = u.fn(PM, 'parse_primary_match_pattern', impl=PI)
    f.sub('self . parse_expr_tok ( tok ) . map ( $p )', '(match self.parse_expr_tok(tok) { Ok(e) => Ok($p(e)), Err(e) => Err(e) })', 0).sub('self . parse_expr ( ) . map ( $p )', '(match self.parse_expr() { Ok(e) => Ok($p(e)), Err(e) => Err(e) })', 0)
    read(f, 'primary_of(old(self).src, old(self).tokens@)')
    f.start(START + 'proof { reveal(primary_of); }')
    f = u.fn(PM, 'parse_positional_match_pattern', impl=PI)
    read(f, 'positional_of(old(self).src, old(self).tokens@)', 'r == Ok::<PositionalMatchPattern, AlreadyReported>(x.0) && final(self).tokens@ == x.1')
    f.start(START + 'proof { reveal(positional_of); }')
    f = u.fn(PM, 'parse_named_match_pattern', impl=PI)
    f.sub('self . parse_match_pattern ( ) . map ( $p )', '(match self.parse_match_pattern() { Ok(p) => Ok($p(p)), Err(e) => Err(e) })', 0)
    f.sub('self . tok_str ( name_tok ) . starts_with ( $x )', 'starts_with_char(self.tok_str(name_tok), $x)', 0)
    f.sub('self . expect_poll_kind ( $k ) . ok ( )', '(match self.expect_poll_kind($k) { Ok(t) => Some(t), Err(_) => None })', 0)
    read(f, 'named_of(old(self).src, allow_lone_name, old(self).tokens@)', 'r == Ok::<NamedMatchPattern, AlreadyReported>(x.0) && final(self).tokens@ == x.1')
    f.start(START + 'proof { reveal(named_of); }')
    separated(u, 'positional_list', 'PositionalMatchPattern', 'self.parse_positional_match_pattern()', 'parse_positional_until')
    separated(u, 'named_list', 'NamedMatchPattern', 'self.parse_named_match_pattern(lone)', 'parse_named_until', 'lone')
    f = u.fn(PM, 'parse_seq_pattern', impl=PI)
    f.sub('self . parse_separated_until ( $a , Parser :: parse_positional_match_pattern , $b )', 'self.parse_positional_until($a, $b)', 1)
    f.sub('let child_patterns : Box < [ MatchPattern ] > = children . into_iter ( ) . enumerate ( ) . map ( | ( $i:n , $i:c ) | match $i:m { $b } ) . collect ( ) ;', 'let mut children = children; let mut made: Vec<MatchPattern> = Vec::new(); let mut $n: usize = 0; while let Some($c) = take_first(&mut children) { let p = match $m { $b }; $n += 1; made.push(p); } let child_patterns = boxed_of(made);', 0)
    f.sub('for $i:c in child_patterns . iter ( ) . filter ( | $i:p | $b ) {', 'let mut at: usize = 0; while at < child_patterns.len() { let $c = &child_patterns[at]; let $p = $c; at += 1; if !($b) { continue; }', 0)
    f.sub('child_patterns . is_empty ( )', '(child_patterns.len() == 0)', 0)
    f.requires('sep_kind == TokenKind::Comma || sep_kind == TokenKind::Whitespace', 'close_kind == TokenKind::RSqb || close_kind == TokenKind::RBrace')
    read(f, 'sequence_of(old(self).src, open, old(self).tokens@, sep_kind == TokenKind::Comma, close_kind)', less=False)
    f.start(START + 'proof { reveal(sequence_of); }')
    f.before('let mut spread_index', 'proof { assert(children.len() <= usize::MAX); } let ghost s = children@; let ghost p2 = *self;')
    SAME2 = ['self.src == p2.src', 'self.tokens@ == p2.tokens@', 'self.errors@ >= p2.errors@']
    f.loop(0, invariant=['i <= s.len()', 'children@ == s.skip(i as int)', 'made@ =~= inners(s.take(i as int))', 'spread_index == spread_at(s.take(i as int))', '(self.errors@ == p2.errors@) == one_spread(s.take(i as int))', 's.len() <= usize::MAX'] + SAME2, ensures=['i == s.len()'], decreases='s.len() - i')
    f.loop_start(0, 'proof { let t = s.take(i + 1); assert(t.drop_last() =~= s.take(i as int)); assert(t.last() == s[i as int]); assert(s.skip(i as int).skip(1) =~= s.skip(i + 1)); assert(inners(t) =~= inners(s.take(i as int)).push(inner(s[i as int]))); }')
    f.loop(1, invariant=['at <= child_patterns@.len()', '(self.errors@ == e1) == (forall|k: int| 0 <= k < at ==> can_be_html(#[trigger] child_patterns@[k]))', 'self.errors@ >= e1'] + SAME2, decreases='child_patterns@.len() - at')
    f.after('let child_patterns = $x ;', 'let ghost e1 = self.errors@; proof { assert(s.take(s.len() as int) =~= s); }')
    f = u.fn(PM, 'make_dict_pattern', impl=PI)
    f.sub('NameIDMap :: default ( )', 'PatternMap::default()', 0)
    f.sub('for $i:p in parts . into_iter ( ) {', 'let mut parts = parts; while let Some($p) = take_first(&mut parts) {', 0)
    f.ensures('final(self).src == old(self).src', 'final(self).tokens@ == old(self).tokens@', 'final(self).errors@ >= old(self).errors@', '(final(self).errors@ == old(self).errors@) == legal(parts@)', 'legal(parts@) ==> r == Ok::<MatchPattern, AlreadyReported>(dict_node(range, parts@, simplify))', 'r is Ok')
    f.start('let ghost s = parts@; let ghost mut k: int = 0;')
    f.loop(0, invariant=['0 <= k <= s.len()', 'parts@ == s.skip(k)', '(spread is Some) == (others(s.take(k)) is Some)', 'legal(s.take(k)) ==> spread == others(s.take(k)) && attrs.entries@ == entries(s.take(k))', '(self.errors@ == old(self).errors@) == legal(s.take(k))', 'self.errors@ >= old(self).errors@', 'self.src == old(self).src', 'self.tokens@ == old(self).tokens@'], ensures=['k == s.len()'], decreases='s.len() - k')
    f.loop_start(0, 'proof { let t = s.take(k + 1); assert(t.drop_last() =~= s.take(k)); assert(t.last() == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); k = k + 1; }')
    f.before('if simplify &&', 'proof { assert(s.take(k) =~= s); }')
    f = u.fn(PM, 'parse_dict_pattern', impl=PI)
    f.sub('self . parse_separated_until ( $a , | _self | _self . parse_named_match_pattern ( $c ) , $b )', 'self.parse_named_until($a, $c, $b)', 1)
    read(f, 'dict_of(old(self).src, lpar, old(self).tokens@)', less=False)
    f.start(START + 'proof { reveal(dict_of); }')
    f = u.fn(PM, 'parse_tag_pattern', impl=PI)
    f.sub('self . parse_separated_until ( $a , | _self | _self . parse_named_match_pattern ( $c ) , $b )', 'self.parse_named_until($a, $c, $b)', 1)
    f.sub('str_ids :: ANONYMOUS', 'id_anonymous()', 0).sub('taginfo :: ', '', 0).sub('self . tok_str ( rangle ) == "/>"', 'str_eq(self.tok_str(rangle), "/>")', 0)
    read(f, 'tag_of(old(self).src, langle, old(self).tokens@)', less=False)
    f.start(START + 'proof { reveal(tag_of); reveal_strlit("/>"); assert("/>"@ =~= seq![\'/\', \'>\']); }')
    f = u.fn(PM, 'parse_template_pattern', impl=PI)
    f.sub('parts . iter ( ) . all ( TemplatePart :: is_literal )', '{ let mut all = true; let mut n: usize = 0; while n < parts.len() { if !parts[n].is_literal() { all = false; break; } n += 1; } all }', 0)
    f.sub('Expr :: Template ( parts . into ( ) , range )', 'Expr::Template(boxed_of(parts), range)', 0)
    f.sub('"^(?s:" . to_string ( )', 'owned("^(?s:")', 0)
    f.sub('for part in parts {', 'let mut rest = parts; while let Some(part) = take_first(&mut rest) {', 1)
    f.sub('regex_str += & regex :: escape ( self . src . get_span ( $r ) )', 'append(&mut regex_str, &escape(self.span_text($r)))', 0)
    f.sub('let mut arr = [ 0u8 ; 4 ] ; let s = c . encode_utf8 ( & mut arr ) ; regex_str += & regex :: escape ( s )', 'let s = char_text(c); append(&mut regex_str, &escape(&s))', 0)
    f.sub('regex_str += $x ;', 'append(&mut regex_str, $x);', 0)
    f.sub('regex :: RegexBuilder :: new ( & regex_str ) $x . build ( ) . unwrap_or_else ( $y )', 'compiled(&regex_str)', 0)
    f.sub('vars . into_boxed_slice ( )', 'boxed_of(vars)', 0)
    read(f, 'template_of(old(self).src, open, open_kind, old(self).tokens@)', less=False)
    f.start(START + '''proof { reveal(template_of); ''' + LITS + ''' }''')
    f.loop(0, invariant=['n <= parts@.len()'], except_break=['all', 'forall|k: int| 0 <= k < n ==> literal(#[trigger] parts@[k])'], ensures=['all == all_literal(parts@)'], decreases='parts@.len() - n')
    f.before('let mut rest', 'let ghost s = parts@; let ghost mut k: int = 0; let ghost p2 = *self;')
    f.loop(1, invariant=['0 <= k <= s.len()', 'rest@ == s.skip(k)', 'self.src == p2.src', 'self.tokens@ == p2.tokens@', 'self.errors@ >= p2.errors@', '(self.errors@ == p2.errors@) == all_simple(s.take(k))', 'regex_str@ =~= regex_text(self.src, s.take(k))', 'vars@ =~= variables(s.take(k))'], ensures=['k == s.len()'], decreases='s.len() - k')
    f.loop_start(1, 'proof { ' + LITS + ' let t = s.take(k + 1); assert(t.drop_last() =~= s.take(k)); assert(t.last() == s[k]); assert(s.skip(k).skip(1) =~= s.skip(k + 1)); k = k + 1; }')
    f.before('let regex =', 'proof { assert(s.take(k) =~= s); }')
    f = u.fn(PM, 'parse_match_branch', impl=PI)
    read(f, 'branch_of(old(self).src, old(self).tokens@)', 'r == Ok::<(MatchPattern, Expr), AlreadyReported>(x.0) && final(self).tokens@ == x.1')
    f.start(START)
    separated(u, 'branch_list', '(MatchPattern, Expr)', 'self.parse_match_branch()', 'parse_branches_until')
    f = u.fn(PM, 'parse_match', impl=PI)
    f.sub('self . parse_separated_until ( $a , Parser :: parse_match_branch , $b )', 'self.parse_branches_until($a, $b)', 1).sub('branches . into_boxed_slice ( )', 'boxed_of(branches)', 0)
    read(f, 'match_of(old(self).src, at, old(self).tokens@)', 'r == Ok::<Match, AlreadyReported>(x.0) && final(self).tokens@ == x.1', less=False)
    f.start(START)
    u.text(r'''
    #[verifier::external_body] fn span_text(&self, r: SourceRange) -> (s: &str) ensures s@ == span(self.src, r) { unimplemented!() }
}
#[verifier::external_body] fn escape(s: &str) -> (r: String) ensures r@ == escaped(s@) { unimplemented!() }
#[verifier::external_body] fn char_text(c: char) -> (r: String) ensures r@ == seq![c] { c.to_string() }
#[verifier::external_body] fn compiled(s: &str) -> (r: Regex) ensures r == regex_of(s@) { unimplemented!() }
''')
    return u


def defined():
    """What a pattern is, and which of its parts are literal or can be in content."""
    u = base('defined')
    whole(u)
    return u


UNITS = [defined, patterns]

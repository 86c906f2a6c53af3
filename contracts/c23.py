"""C23: escapes and entities denote the right characters."""
from vx import Unit
from contracts.liblex import *

TXT = 'src/parser/text.rs'
AST = 'src/parser/ast.rs'
PI = "^impl < 'a > Parser < 'a >$"

CHARACTERS = r'''
#[derive(Clone, Copy)]
struct SourceFileID { n: u64 }
struct AlreadyReported { e: u8 }
type Reported<T> = Result<T, AlreadyReported>;
enum ParseError { TokenInvalidEscape, TokenInvalidEntity, ExpectedExpr, Other }
/// The text of a token; tokens are made by the tokenizer (C01, C02).
uninterp spec fn text_of(t: Token) -> Seq<char>;
spec fn lexed(t: Token) -> bool { exists|s: Seq<char>| s.len() > 0 && (#[trigger] lex(s)).1 == t.kind && text_of(t) == s.take(lex(s).0) }
spec fn hexdigit(c: char) -> nat { if is_num(c) { (c as int - 48) as nat } else if 'a' <= c && c <= 'f' { (c as int - 87) as nat } else { (c as int - 55) as nat } }
spec fn hexval(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { hexval(s.drop_last()) * 16 + hexdigit(s.last()) } }
spec fn all_hex(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_hex(#[trigger] s[i]) }
spec fn power(n: nat) -> nat decreases n { if n == 0 { 1 } else { 16 * power((n - 1) as nat) } }
proof fn lemma_hexval(s: Seq<char>) requires all_hex(s) ensures hexval(s) < power(s.len()) decreases s.len() {
    if s.len() > 0 { let t = s.drop_last(); assert forall|i: int| 0 <= i < t.len() implies is_hex(#[trigger] t[i]) by { assert(t[i] == s[i]); } lemma_hexval(t); assert(is_hex(s[s.len() - 1])); assert(hexdigit(s.last()) < 16); }
}
/// Unicode scalar values.
spec fn scalar(n: nat) -> bool { n < 0xD800 || 0xE000 <= n <= 0x10FFFF }
/// The character an escape denotes, if there is one.
spec fn coded(t: Seq<char>) -> bool { t[1] == 'x' || t[1] == 'u' || t[1] == 'U' }
spec fn escape_char(t: Seq<char>, c: char) -> bool { if coded(t) { c as nat == hexval(t.skip(2)) } else { c == (if t[1] == 'n' { '\n' } else if t[1] == 't' { '\t' } else { t[1] }) } }
spec fn escape_bad(t: Seq<char>) -> bool { coded(t) && !scalar(hexval(t.skip(2))) }
/// An escape is a backslash and a character, or one of x, u, U and two, four or eight hexadecimal digits.
spec fn escape_form(t: Seq<char>) -> bool { t.len() >= 2 && t[0] == '\\' && if coded(t) { t.len() == (if t[1] == 'x' { 4int } else if t[1] == 'u' { 6 } else { 10 }) && all_hex(t.skip(2)) } else { t.len() == 2 } }
proof fn lemma_escape_form(t: Token) requires t.kind == TokenKind::Escape, lexed(t) ensures escape_form(text_of(t)), all_hex(text_of(t).skip(2)) ==> hexval(text_of(t).skip(2)) <= u32::MAX || text_of(t).len() > 10 {
    let s = choose|s: Seq<char>| s.len() > 0 && (#[trigger] lex(s)).1 == t.kind && text_of(t) == s.take(lex(s).0);
    assert(s[0] == '\\');
    let u = text_of(t).skip(2);
    if coded(s) { assert forall|i: int| 0 <= i < u.len() implies is_hex(#[trigger] u[i]) by { assert(u[i] == s[i + 2]); } }
    if all_hex(u) { lemma_hexval(u); reveal_with_fuel(power, 10); }
}
/// What entity::decode of the crate htmlentity gives for a text.
uninterp spec fn decoded(t: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn entity_decode(s: &str) -> (r: Vec<char>) ensures r@ == decoded(s@) { unimplemented!() }
#[verifier::external_body]
fn nth_char(s: &str, n: usize) -> (r: char) requires n < s@.len() ensures r == s@[n as int] { s.chars().nth(n).unwrap() }
struct ParseIntError { e: u8 }
/// u32::from_str_radix(s, 16)
#[verifier::external_body]
fn from_hex(s: &str) -> (r: Result<u32, ParseIntError>) ensures s@.len() > 0 && all_hex(s@) && hexval(s@) <= u32::MAX ==> (r matches Ok(n) && n as nat == hexval(s@)) { unimplemented!() }
#[verifier::external_body]
fn char_from_u32(n: u32) -> (r: Option<char>) ensures scalar(n as nat) ==> (r matches Some(c) && c as u32 == n), !scalar(n as nat) ==> r is None { char::from_u32(n) }
#[verifier::external_body]
fn ice<T>() -> (r: T) requires false { unimplemented!() }
/// The parser, with the reports in order.
struct Parser { log: Ghost<Seq<(ParseError, SourceRange)>>, read: Ghost<Seq<Event>>, x: u64 }
/// What was read: a token, or the name which follows a token.
ghost enum Event { Read(Token), Name(Option<Name>) }
impl Parser {
    #[verifier::external_body]
    fn tok_str(&self, t: Token) -> (r: &str) ensures r@ == text_of(t) { unimplemented!() }
    #[verifier::external_body]
    fn report(&mut self, e: ParseError, range: SourceRange) -> (r: AlreadyReported) ensures final(self).log@ == old(self).log@.push((e, range)), final(self).read@ == old(self).read@ { unimplemented!() }
'''
# what reading a character from an escape or an entity gives, and reports
READ = r'''
/// The character of an escape or an entity.
spec fn char_of(t: Token) -> char {
    let s = text_of(t);
    if is_bad(t) { '\u{FFFD}' } else if t.kind == TokenKind::Escape { if coded(s) { (hexval(s.skip(2)) as u32) as char } else if s[1] == 'n' { '\n' } else if s[1] == 't' { '\t' } else { s[1] } } else { decoded(s)[0] }
}
spec fn is_bad(t: Token) -> bool { if t.kind == TokenKind::Escape { escape_bad(text_of(t)) } else { decoded(text_of(t)).len() != 1 } }
/// The replacement character is reported, and nothing else.
spec fn read_char(log: Seq<(ParseError, SourceRange)>, after: Seq<(ParseError, SourceRange)>, t: Token, c: char) -> bool {
    c == char_of(t) && after == (if is_bad(t) { log.push((if t.kind == TokenKind::Escape { ParseError::TokenInvalidEscape } else { ParseError::TokenInvalidEntity }, t.range)) } else { log })
}
/// The character of an escape: the one with that code, or a newline, a tab or the character itself.
proof fn lemma_char_of(t: Token) requires t.kind == TokenKind::Escape, lexed(t), !is_bad(t) ensures escape_char(text_of(t), char_of(t)) {
    let s = text_of(t);
    if coded(s) { let n = hexval(s.skip(2)); let c = (n as u32) as char; lemma_escape_form(t); assert(c as nat == n); assert(escape_char(s, c)); } else { assert(escape_char(s, if s[1] == 'n' { '\n' } else if s[1] == 't' { '\t' } else { s[1] })); }
}
'''
KEEPS = 'final(self).read@ == old(self).read@'
SYNTAX = [('SyntaxError ::', 'ParseError::'), ('char :: REPLACEMENT_CHARACTER', "'\\u{FFFD}'"), ('self . ice_at ( $x )', 'ice()')]
LEXED = 'tok.kind == TokenKind::Escape ==> lexed(tok)'


def reading(u):
    f = u.fn(TXT, 'decode_entity', impl=PI)
    f.sub('entity :: decode ( s )', 'entity_decode(s)', 0)
    f.requires('tok.kind == TokenKind::Entity').ensures('read_char(old(self).log@, final(self).log@, tok, r)', KEEPS)
    f = u.fn(TXT, 'unescape_char', impl=PI)
    f.sub('s . chars ( ) . nth ( $n ) . unwrap ( )', 'nth_char(s, $n)', 0).sub('& s [ $a .. ]', 'tail(s, $a)', 0)
    f.sub('u32 :: from_str_radix ( $x , 16 ) . unwrap_or_else ( | e | $b )', '(match from_hex($x) { Ok(n) => n, Err(e) => $b })', 0)
    f.sub('char :: from_u32 ( $x )', 'char_from_u32($x)', 0)
    f.requires('tok.kind == TokenKind::Escape', 'lexed(tok)').ensures('read_char(old(self).log@, final(self).log@, tok, r)', KEEPS)
    f.start('broadcast use bounds::group_bounds; proof { lemma_escape_form(tok); let t = text_of(tok); if coded(t) { assert(is_b(t, 2)); } }')


def base(name):
    u = Unit(name)
    kinds(u)
    u.text(LEX)
    u.default_subs = SYNTAX
    u.item('src/utils/sourcefile.rs', 'struct', 'SourceRange', attrs='#[derive(Clone, Copy)]')
    u.item(TOKEN, 'struct', 'Token', attrs='#[derive(Clone, Copy)]')
    u.text('impl SourceRange {')
    u.fn('src/utils/sourcefile.rs', 'to_end', impl='^impl SourceRange$').ensures('r == (SourceRange { src_id: self.src_id, start: self.start, end })')
    u.text('}' + READ)
    return u


SHIMS = ['parse_export -> Export', 'parse_func_def bool -> FuncDef', 'parse_expr_tok -> Expr', 'parse_tag -> Expr']


def characters():
    u = base('characters')
    u.text('struct Export { x: u64 } struct FuncDef { x: u64 } struct Expr { x: u64 } struct Text { x: u64 } struct Name { x: u64 }')
    u.item(AST, 'enum', 'AST', subs=[('Rc < str >', 'Text')])
    u.text(CHARACTERS)
    reading(u)
    for s in SHIMS:
        name, t = s.split(' -> ')
        name, *extra = name.split()
        u.text(f'#[verifier::external_body] fn {name}(&mut self, tok: Token{"".join(f", b: {x}" for x in extra)}) -> Reported<{t}> {{ unimplemented!() }}')
    u.text('''#[verifier::external_body] fn opens_tag(&mut self) -> bool { unimplemented!() }
    #[verifier::external_body] fn err_unmatched(&mut self, tok: Token) -> AlreadyReported { unimplemented!() }
    #[verifier::external_body] fn parse_text(&mut self, tok: Token) -> AST { unimplemented!() }''')
    f = u.fn('src/parser/base.rs', 'parse_node', impl=PI)
    f.sub('self . $i:f ( $x ) . map ( Box :: new ) . map ( $p )', '(match self.$f($x) { Ok(n) => Ok($p(Box::new(n))), Err(e) => Err(e) })', 0)
    f.sub('self . $i:f ( $x ) . map ( $p )', '(match self.$f($x) { Ok(n) => Ok($p(n)), Err(e) => Err(e) })', 0)
    f.sub('self . has_next ( | t | $x )', 'self.opens_tag()', 0)
    f.requires(LEXED, 'tok.kind != TokenKind::Comment')
    f.ensures('tok.kind == TokenKind::Escape || tok.kind == TokenKind::Entity ==> (r matches Ok(AST::Char(c, g)) && g == tok.range && read_char(old(self).log@, final(self).log@, tok, c))')
    u.text('}')
    return u



# what the parts of a quoted string are, by what was read
TEMPLATE = r"""
spec fn merged(parts: Seq<TemplatePart>, r: SourceRange) -> Seq<TemplatePart> {
    if parts.len() > 0 && (parts.last() matches TemplatePart::Literal(q) && q.end == r.start) { parts.drop_last().push(TemplatePart::Literal(SourceRange { src_id: parts.last()->Literal_0.src_id, start: parts.last()->Literal_0.start, end: r.end })) } else { parts.push(TemplatePart::Literal(r)) }
}
spec fn step(s: (Seq<TemplatePart>, int), e: Event) -> (Seq<TemplatePart>, int) {
    let (parts, depth) = s;
    match e {
        Event::Name(Some(n)) => (parts.push(TemplatePart::Name(n)), depth),
        Event::Name(None) => s,
        Event::Read(t) => match t.kind {
            TokenKind::Newline | TokenKind::Verbatim(_) | TokenKind::VarName => s,
            TokenKind::LBrace => (parts, depth + 1),
            TokenKind::RBrace => if depth == 0 { s } else { (if parts.len() > 0 && parts.last() is Whitespace { parts.drop_last() } else { parts }, depth - 1) },
            TokenKind::Escape | TokenKind::Entity => (parts.push(TemplatePart::LiteralChar(char_of(t))), depth),
            TokenKind::Whitespace => (parts.push(TemplatePart::Whitespace), depth),
            _ => (merged(parts, t.range), depth),
        },
    }
}
spec fn template(es: Seq<Event>) -> (Seq<TemplatePart>, int) decreases es.len() { if es.len() == 0 { (Seq::empty(), 0) } else { step(template(es.drop_last()), es.last()) } }
/// No token which ends the string is among those read.
spec fn inner(es: Seq<Event>, k: QuoteKind) -> bool { forall|i: int| 0 <= i < es.len() ==> ((#[trigger] es[i]) matches Event::Read(t) ==> !(t.kind matches TokenKind::Quote(q, _) && q == k)) }
/// What was read since then.
spec fn since(old: Seq<Event>, now: Seq<Event>) -> Seq<Event> { now.skip(old.len() as int) }
spec fn running(old: Seq<Event>, now: Seq<Event>, k: QuoteKind, parts: Seq<TemplatePart>, depth: int) -> bool { old.len() <= now.len() && now.take(old.len() as int) == old && inner(since(old, now), k) && template(since(old, now)) == (parts, depth) }
/// The string was read to its end, and the parts are those of what was read.
spec fn ended(old: Seq<Event>, now: Seq<Event>, k: QuoteKind, parts: Seq<TemplatePart>) -> bool {
    now.len() > old.len() && (now.last() matches Event::Read(close) && (close.kind matches TokenKind::Quote(q, _) && q == k)) && now.take(old.len() as int) == old && inner(since(old, now.drop_last()), k) && parts == template(since(old, now.drop_last())).0
}
proof fn lemma_step(old: Seq<Event>, now: Seq<Event>, e: Event, k: QuoteKind) requires old.len() <= now.len(), now.take(old.len() as int) == old, inner(since(old, now), k) ensures now.push(e).drop_last() == now, now.push(e).take(old.len() as int) == old, template(since(old, now.push(e))) == step(template(since(old, now)), e), !(e matches Event::Read(t) && (t.kind matches TokenKind::Quote(q, _) && q == k)) ==> inner(since(old, now.push(e)), k), now.push(e).last() == e {
    let a = since(old, now); let b = since(old, now.push(e));
    assert(now.push(e).drop_last() =~= now); assert(now.push(e).take(old.len() as int) =~= now.take(old.len() as int)); assert(b =~= a.push(e)); assert(b.drop_last() =~= a);
}
#[verifier::external_body]
fn last_mut(v: &mut Vec<TemplatePart>) -> (r: Option<&mut TemplatePart>) ensures old(v)@.len() == 0 ==> r is None && final(v)@ == old(v)@, old(v)@.len() > 0 ==> (r matches Some(p) && *p == old(v)@.last() && final(v)@ == old(v)@.drop_last().push(*final(p))) { v.last_mut() }
"""
QUEUE = r"""
    #[verifier::external_body]
    fn expect_poll(&mut self) -> (r: Reported<Token>) ensures match r { Ok(t) => final(self).read@ == old(self).read@.push(Event::Read(t)) && (t.kind == TokenKind::Escape ==> lexed(t)), Err(_) => final(self).read@ == old(self).read@ } { unimplemented!() }
    #[verifier::external_body]
    fn parse_name(&mut self, t: Token) -> (r: Reported<Name>) ensures final(self).read@ == old(self).read@.push(Event::Name(match r { Ok(n) => Some(n), Err(_) => None })) { unimplemented!() }
    #[verifier::external_body]
    fn skip_whitespace(&mut self) ensures final(self).read@ == old(self).read@ { unimplemented!() }
    #[verifier::external_body]
    fn err_unmatched(&mut self, tok: Token) -> AlreadyReported ensures final(self).read@ == old(self).read@ { unimplemented!() }
    #[verifier::external_body]
    fn err_unexpected_token(&mut self, tok: Token) -> AlreadyReported ensures final(self).read@ == old(self).read@ { unimplemented!() }
"""


def templates():
    u = base('templates')
    u.text('struct Name { x: u64 }')
    u.item(AST, 'enum', 'TemplatePart')
    u.text(TEMPLATE + CHARACTERS)
    reading(u)
    u.text(QUEUE)
    f = u.fn('src/parser/template.rs', 'parse_template_parts', impl=PI)
    f.sub('self . expect_poll ( ) . map_err ( | _ | $e ) ?', '(match self.expect_poll() { Ok(t) => t, Err(_) => { return Err($e); } })', 0)
    # a guard on a part borrowed mutably is asked for first
    f.sub('match parts . last_mut ( ) { Some ( TemplatePart :: Literal ( $i:q ) ) if $c => { $body } , _ => { $body2 } , }',
        '{ let joins = match parts.last() { Some(TemplatePart::Literal($q)) => $c, _ => false }; if joins { match last_mut(&mut parts) { Some(TemplatePart::Literal($q)) => { $body }, _ => {} } } else { $body2 } }', 0)
    f.sub('parts . last_mut ( )', 'last_mut(&mut parts)', 0)
    f.sub('let close = loop {', 'let close: Token; loop {', 1).sub('break tok', '{ close = tok; break }', 0)
    f.sub('self . parse_name ( $x )', '{ let n = self.parse_name($x); proof { lemma_step(old(self).read@, before, self.read@.last(), open_kind); } n }', 0)
    f.attr('#[verifier::exec_allows_no_decreases_clause]')
    f.ensures('match r { Ok(p) => ended(old(self).read@, final(self).read@, open_kind, p.0@), Err(_) => true }')
    f.loop(0, except_break=['running(old(self).read@, self.read@, open_kind, parts@, brace_stack@.len() as int)'], ensures=['ended(old(self).read@, self.read@, open_kind, parts@)'])
    f.start('proof { let o = self.read@; assert(o.take(o.len() as int) =~= o); assert(since(o, o) =~= Seq::<Event>::empty()); }')
    f.loop_start(0, 'let ghost before0 = self.read@;')
    f.before('match tok . kind', 'let ghost before = self.read@; proof { lemma_step(old(self).read@, before0, Event::Read(tok), open_kind); }')
    f.before('Ok ( ( parts', 'proof { assert(ended(old(self).read@, self.read@, open_kind, parts@)); }')
    f.loop(1, invariant=['ended(old(self).read@, self.read@, open_kind, parts@)'])
    u.text('}')
    return u


VALUES = r"""
struct AlreadyReported { e: u8 }
type Reported<T> = Result<T, AlreadyReported>;
enum Type { Str, Option(Box<Type>), Other }
impl Type { #[verifier::external_body] fn option(self) -> (r: Type) ensures r == Type::Option(Box::new(self)) { unimplemented!() } }
struct Value { x: u64 }
struct RcStr { x: u64 }
uninterp spec fn rc_text(s: RcStr) -> Seq<char>;
uninterp spec fn text_of_value(v: Value) -> Seq<char>;
impl RcStr { #[verifier::external_body] fn as_ref(&self) -> (r: &str) ensures r@ == rc_text(*self) { unimplemented!() } }
/// What is written at a place of the source.
uninterp spec fn source(r: SourceRange) -> Seq<char>;
/// What a name evaluates to (C19), as a string or nothing; or an error.
uninterp spec fn named(n: Name) -> Option<Option<Seq<char>>>;
struct Compiler { x: u64 }
/// The text of a part: what is written, the character, what the name stands for, or one space.
spec fn part_text(p: TemplatePart) -> Option<Seq<char>> {
    match p { TemplatePart::Literal(r) => Some(source(r)), TemplatePart::LiteralChar(c) => Some(seq![c]), TemplatePart::Name(n) => match named(n) { None => None, Some(None) => Some(Seq::empty()), Some(Some(s)) => Some(s) }, TemplatePart::Whitespace => Some(seq![' ']) }
}
spec fn joined(ps: Seq<TemplatePart>) -> Option<Seq<char>> decreases ps.len() {
    if ps.len() == 0 { Some(Seq::empty()) } else { match (joined(ps.drop_last()), part_text(ps.last())) { (Some(a), Some(b)) => Some(a + b), _ => None } }
}
proof fn lemma_joined_none(ps: Seq<TemplatePart>, n: int) requires 0 <= n <= ps.len(), joined(ps.take(n)) is None ensures joined(ps) is None decreases ps.len() - n {
    if n < ps.len() { assert(ps.take(n + 1).drop_last() =~= ps.take(n)); lemma_joined_none(ps, n + 1); } else { assert(ps.take(n) =~= ps); }
}
#[verifier::external_body]
fn append(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body]
fn push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body]
fn into_value(s: String) -> (r: Value) ensures text_of_value(r) == s@ { unimplemented!() }
struct NameValue { x: u64 }
uninterp spec fn as_text(v: NameValue) -> Option<Seq<char>>;
impl NameValue { #[verifier::external_body] fn expect_convert(self) -> (r: Option<RcStr>) ensures match as_text(self) { None => r is None, Some(t) => r matches Some(s) && rc_text(s) == t } { unimplemented!() } }
impl Compiler {
    #[verifier::external_body]
    fn get_source_str(&self, r: SourceRange) -> (s: &str) ensures s@ == source(r) { unimplemented!() }
    #[verifier::external_body]
    fn evaluate_name(&mut self, n: &Name, t: &Type) -> (r: Reported<NameValue>) requires *t == Type::Option(Box::new(Type::Str)) ensures match r { Ok(v) => named(*n) == Some(as_text(v)), Err(_) => named(*n) is None } { unimplemented!() }
"""


def values():
    u = Unit('values')
    u.item('src/utils/sourcefile.rs', 'struct', 'SourceRange', attrs='#[derive(Clone, Copy)]')
    u.text('#[derive(Clone, Copy)] struct SourceFileID { n: u64 } struct Name { x: u64 }')
    u.item(AST, 'enum', 'TemplatePart')
    u.text(VALUES)
    f = u.fn('src/compiler/value.rs', 'evaluate_template', impl="^impl < 'a > Compiler < 'a >$")
    f.sub('errors :: ', '', 0).sub('ast :: ', '', 0).sub('"" . to_string ( )', 'String::new()', 0).sub('out += $x ;', 'append(&mut out, $x);', 0)
    f.sub('out . push ( $x )', 'push(&mut out, $x)', 0).sub('Ok ( out . into ( ) )', 'Ok(into_value(out))', 0)
    f.ensures('match r { Ok(v) => joined(parts@) == Some(text_of_value(v)), Err(_) => joined(parts@) is None }')
    f.start('proof { assert(parts@.take(0) =~= Seq::<TemplatePart>::empty()); assert(parts@.take(parts@.len() as int) =~= parts@); reveal_strlit(" "); reveal_strlit(""); }')
    f.loop(0, it='it', invariant=['it.seq() =~= parts@.map_values(|p: TemplatePart| &p)', 'joined(parts@.take(it.index@ as int)) == Some(out@)', 'parts@.take(parts@.len() as int) == parts@'])
    f.loop_start(0, 'proof { let n = it.index@ as int; reveal_strlit(" "); assert(" "@ =~= seq![\' \']); let t = parts@.take(n + 1); assert(t.drop_last() =~= parts@.take(n)); assert(t.last() == *part); if joined(t) is None { lemma_joined_none(parts@, n + 1); } }')
    u.text('}')
    return u


UNITS = [characters, templates, values]

"""The tokenizer: what the token at the start of a text is, as characters."""
from contracts.libstr import BLEN, STR_EQ

TK = 'src/parser/tokenizer.rs'
TOKEN = 'src/parser/token.rs'
TEXT = 'src/utils/text.rs'

BOUNDS = r'''
/// Byte n of the text is the start of its k-th character.
spec fn bnd(s: Seq<char>, n: int, k: int) -> bool { 0 <= k <= s.len() && blen(s.take(k)) == n }
spec fn is_b(s: Seq<char>, n: int) -> bool { exists|k: int| bnd(s, n, k) }
spec fn idx(s: Seq<char>, n: int) -> int { choose|k: int| bnd(s, n, k) }
proof fn lemma_unique(s: Seq<char>, n: int, k: int) requires bnd(s, n, k) ensures is_b(s, n), idx(s, n) == k {
    let j = idx(s, n);
    if j < k { lemma_blen_mono(s, j, k); } else if k < j { lemma_blen_mono(s, k, j); }
}
proof fn lemma_blen_add(s: Seq<char>, t: Seq<char>) ensures blen(s + t) == blen(s) + blen(t) decreases t.len() {
    if t.len() > 0 { lemma_blen_add(s, t.drop_last()); assert((s + t).drop_last() =~= s + t.drop_last()); assert((s + t).last() == t.last()); } else { assert(s + t =~= s); }
}
proof fn lemma_b_at(s: Seq<char>, n: int) requires is_b(s, n), idx(s, n) < s.len() ensures is_b(s, n + clen(s[idx(s, n)])), idx(s, n + clen(s[idx(s, n)])) == idx(s, n) + 1 { let k = idx(s, n); assert(s.take(k + 1).drop_last() =~= s.take(k)); assert(s.take(k + 1).last() == s[k]); lemma_unique(s, n + clen(s[k]), k + 1); }
/// The end of a text found there.
proof fn lemma_b_found(s: Seq<char>, n: int, p: Seq<char>) requires is_b(s, n), starts(s.skip(idx(s, n)), p) ensures is_b(s, n + blen(p)), idx(s, n + blen(p)) == idx(s, n) + p.len() { let k = idx(s, n); assert(s.take(k + p.len()) =~= s.take(k) + p); lemma_blen_add(s.take(k), p); lemma_unique(s, n + blen(p), k + p.len()); }
proof fn lemma_ascii_blen(s: Seq<char>) requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 ensures blen(s) == s.len() decreases s.len() { if s.len() > 0 { lemma_ascii_blen(s.drop_last()); } }
proof fn lemma_between(s: Seq<char>, a: int, b: int) requires is_b(s, a), is_b(s, b), a <= b, forall|j: int| 0 <= j < s.subrange(idx(s, a), idx(s, b)).len() ==> (#[trigger] s.subrange(idx(s, a), idx(s, b))[j] as u32) < 128 ensures idx(s, b) - idx(s, a) == b - a {
    let i = idx(s, a); let j = idx(s, b);
    if j < i { lemma_blen_mono(s, j, i); }
    let t = s.subrange(i, j);
    assert(s.take(j) =~= s.take(i) + t);
    lemma_blen_add(s.take(i), t); lemma_ascii_blen(t);
}
mod bounds {
    use super::*;
    pub(crate) broadcast proof fn lemma_b_zero(s: Seq<char>) ensures #[trigger] is_b(s, 0), idx(s, 0) == 0 { assert(s.take(0) =~= Seq::<char>::empty()); lemma_unique(s, 0, 0); }
    pub(crate) broadcast proof fn lemma_b_all(s: Seq<char>) ensures #[trigger] is_b(s, blen(s) as int), idx(s, blen(s) as int) == s.len() { assert(s.take(s.len() as int) =~= s); lemma_unique(s, blen(s) as int, s.len() as int); }
    /// The first characters are ASCII.
    pub(crate) broadcast proof fn lemma_b_ascii(s: Seq<char>, n: int) requires 0 <= n <= s.len(), forall|i: int| 0 <= i < n ==> (#[trigger] s[i] as u32) < 128 ensures #[trigger] is_b(s, n), idx(s, n) == n decreases n {
        if n > 0 { lemma_b_ascii(s, n - 1); lemma_blen_take(s, n - 1); } else { assert(s.take(0) =~= Seq::<char>::empty()); }
        lemma_unique(s, n, n);
    }
    /// Bytes of the rest are bytes of the whole.
    pub(crate) broadcast proof fn lemma_b_add(s: Seq<char>, a: int, b: int) requires is_b(s, a), is_b(s.skip(idx(s, a)), b) ensures is_b(s, a + b), idx(s, a + b) == idx(s, a) + idx(#[trigger] s.skip(idx(s, a)), b), #[trigger] is_b(s.skip(idx(s, a)), b) {
        let j = idx(s, a); let t = s.skip(j); let k = idx(t, b);
        assert(s.take(j + k) =~= s.take(j) + t.take(k));
        lemma_blen_add(s.take(j), t.take(k));
        lemma_unique(s, a + b, j + k);
    }
    pub(crate) broadcast proof fn lemma_one(c: char) ensures #[trigger] blen(seq![c]) == clen(c) { assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(blen(Seq::<char>::empty()) == 0); }
    pub(crate) broadcast proof fn lemma_b_range(s: Seq<char>, n: int) requires #[trigger] is_b(s, n) ensures 0 <= idx(s, n) <= s.len(), 0 <= n <= blen(s), blen(s.take(idx(s, n))) == n { lemma_blen_mono(s, idx(s, n), s.len() as int); assert(s.take(s.len() as int) =~= s); }
    pub(crate) broadcast group group_bounds { lemma_b_zero, lemma_b_all, lemma_b_ascii, lemma_b_add, lemma_b_range, lemma_one }
}
proof fn lemma_start(s: Seq<char>) requires s.len() > 0 ensures is_b(s, clen(s[0]) as int), idx(s, clen(s[0]) as int) == 1, s.len() > 1 && (s[0] as u32) < 128 ==> is_b(s, (1 + clen(s[1])) as int) && idx(s, (1 + clen(s[1])) as int) == 2 {
    bounds::lemma_b_zero(s); lemma_b_at(s, 0);
    if s.len() > 1 && (s[0] as u32) < 128 { assert(clen(s[0]) == 1); lemma_b_at(s, 1); }
}
/// Classes of characters.
ghost enum Class { Line, White, Cont, Digit, Entity, Backtick, Raw, Hex }
spec fn is_white(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0C' }
spec fn is_alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
spec fn is_num(c: char) -> bool { '0' <= c && c <= '9' }
spec fn is_hex(c: char) -> bool { is_num(c) || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
spec fn start(c: char) -> bool { is_alpha(c) || c == '_' }
spec fn cont(c: char) -> bool { is_alpha(c) || is_num(c) || c == '_' }
spec fn special(c: char) -> bool { c == '(' || c == ')' || c == '[' || c == ']' || c == '{' || c == '}' || c == '<' || c == '>' || c == '.' || c == ',' || c == '-' || c == '=' || c == ':' || c == '*' || c == '!' || c == '?' || c == '/' || c == '|' || c == '#' || c == '@' || c == '$' || c == '&' || c == '\\' || c == '`' || c == '\'' || c == '"' }
spec fn within(k: Class, c: char) -> bool {
    match k { Class::Line => c != '\n', Class::White => is_white(c), Class::Cont => cont(c), Class::Digit => is_num(c), Class::Entity => !is_white(c) && c != ';', Class::Backtick => c == '`', Class::Raw => !special(c) && !cont(c) && !is_white(c), Class::Hex => is_hex(c) }
}
/// How many characters of the class the text starts with.
spec fn run(s: Seq<char>, k: Class) -> int decreases s.len() { if s.len() == 0 || !within(k, s[0]) { 0 } else { 1 + run(s.skip(1), k) } }
proof fn lemma_run_at(s: Seq<char>, c: Class, k: int) requires 0 <= k <= s.len(), k < s.len() ==> !within(c, s[k]), forall|j: int| 0 <= j < k ==> within(c, #[trigger] s[j]) ensures run(s, c) == k decreases k {
    if k > 0 { assert(within(c, s[0])); let t = s.skip(1); assert forall|j: int| 0 <= j < k - 1 implies within(c, #[trigger] t[j]) by { assert(t[j] == s[j + 1]); } if k - 1 < t.len() { assert(t[k - 1] == s[k]); } lemma_run_at(t, c, k - 1); }
}
spec fn count(s: Seq<char>, c: char) -> int decreases s.len() { if s.len() == 0 { 0 } else { count(s.drop_last(), c) + if s.last() == c { 1int } else { 0 } } }
spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && forall|i: int| #![trigger s[i]] #![trigger p[i]] 0 <= i < p.len() ==> s[i] == p[i] }
/// Where p first occurs in s.
spec fn first(s: Seq<char>, p: Seq<char>, k: int) -> bool { 0 <= k <= s.len() && starts(s.skip(k), p) && forall|j: int| 0 <= j < k ==> !starts(#[trigger] s.skip(j), p) }
spec fn find(s: Seq<char>, p: Seq<char>) -> Option<int> { if exists|k: int| first(s, p, k) { Some(choose|k: int| first(s, p, k)) } else { None } }
proof fn lemma_find(s: Seq<char>, p: Seq<char>, k: int) requires first(s, p, k) ensures find(s, p) == Some(k) { let j = find(s, p)->0; if j < k { assert(!starts(s.skip(j), p)); } else if k < j { assert(!starts(s.skip(k), p)); } }
#[verifier::when_used_as_spec(is_white)]
fn is_ws(c: char) -> (r: bool) ensures r == is_white(c) { c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\x0C' }
#[verifier::when_used_as_spec(is_num)]
fn is_dg(c: char) -> (r: bool) ensures r == is_num(c) { '0' <= c && c <= '9' }
#[verifier::when_used_as_spec(is_hex)]
fn is_hx(c: char) -> (r: bool) ensures r == is_hex(c) { ('0' <= c && c <= '9') || ('a' <= c && c <= 'f') || ('A' <= c && c <= 'F') }
#[verifier::when_used_as_spec(is_alpha)]
fn is_al(c: char) -> (r: bool) ensures r == is_alpha(c) { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
fn is_an(c: char) -> (r: bool) ensures r == (is_alpha(c) || is_num(c)) { is_al(c) || is_dg(c) }
#[verifier::external_body]
fn utf8_len(c: char) -> (r: usize) ensures r == clen(c) { c.len_utf8() }
/// A text of the compiler is smaller than a quarter of the address space.
#[verifier::external_body]
fn raw_len(s: &str) -> (r: usize) ensures r as nat == blen(s@), r <= usize::MAX / 4 { s.len() }
fn str_len(s: &str) -> (r: usize) ensures r as nat == blen(s@), r <= usize::MAX / 4, is_b(s@, r as int), idx(s@, r as int) == s@.len() { let r = raw_len(s); proof { bounds::lemma_b_all(s@); } r }
/// &s[n..]
#[verifier::external_body]
fn tail<'a>(s: &'a str, n: usize) -> (r: &'a str) requires is_b(s@, n as int) ensures r@ == s@.skip(idx(s@, n as int)), r@.len() == s@.len() - idx(s@, n as int), n + blen(r@) == blen(s@), n <= usize::MAX / 4 { &s[n..] }
/// &s[a..b]
#[verifier::external_body]
fn cut<'a>(s: &'a str, a: usize, b: usize) -> (r: &'a str) requires is_b(s@, a as int), is_b(s@, b as int), a <= b ensures r@ == s@.subrange(idx(s@, a as int), idx(s@, b as int)) { &s[a..b] }
/// s.get(a..b)
#[verifier::external_body]
fn raw_get<'a>(s: &'a str, a: usize, b: usize) -> (r: Option<&'a str>) requires a <= b ensures match r { Some(t) => is_b(s@, a as int) && is_b(s@, b as int) && t@ == s@.subrange(idx(s@, a as int), idx(s@, b as int)), None => !(is_b(s@, a as int) && is_b(s@, b as int)) } { s.get(a..b) }
fn get_cut<'a>(s: &'a str, a: usize, b: usize) -> (r: Option<&'a str>) requires a <= b ensures match r { Some(t) => is_b(s@, a as int) && is_b(s@, b as int) && t@ == s@.subrange(idx(s@, a as int), idx(s@, b as int)) && ((forall|j: int| 0 <= j < t@.len() ==> (#[trigger] t@[j] as u32) < 128) ==> idx(s@, b as int) - idx(s@, a as int) == b - a) && (forall|i: int| idx(s@, a as int) <= i < idx(s@, b as int) ==> t@[i - idx(s@, a as int)] == #[trigger] s@[i]), None => !(is_b(s@, a as int) && is_b(s@, b as int)) } {
    let r = raw_get(s, a, b);
    proof { if let Some(t) = r { if forall|j: int| 0 <= j < t@.len() ==> (#[trigger] t@[j] as u32) < 128 { lemma_between(s@, a as int, b as int); } } }
    r
}
trait Pattern: Sized { spec fn text(&self) -> Seq<char>; spec fn occurs(&self, s: Seq<char>) -> bool; }
impl Pattern for char { spec fn text(&self) -> Seq<char> { seq![*self] } spec fn occurs(&self, s: Seq<char>) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == *self } }
impl Pattern for &str { spec fn text(&self) -> Seq<char> { self@ } spec fn occurs(&self, s: Seq<char>) -> bool { exists|i: int| 0 <= i <= s.len() && starts(#[trigger] s.skip(i), self@) } }
#[verifier::external_body]
fn raw_starts_with<P: Pattern>(s: &str, p: P) -> (r: bool) ensures r == starts(s@, p.text()) { unimplemented!() }
fn starts_with<P: Pattern>(s: &str, p: P) -> (r: bool) ensures r == starts(s@, p.text()), r ==> is_b(s@, blen(p.text()) as int) && idx(s@, blen(p.text()) as int) == p.text().len() {
    broadcast use bounds::group_bounds;
    let ghost t = p.text();
    let r = raw_starts_with(s, p);
    proof { assert(s@.skip(0) =~= s@); if r { assert(is_b(s@, 0)); lemma_b_found(s@, 0, t); } }
    r
}
#[verifier::external_body]
fn contains<P: Pattern>(s: &str, p: P) -> (r: bool) ensures r == p.occurs(s@) { unimplemented!() }
#[verifier::external_body]
fn count_char(s: &str, c: char) -> (r: usize) ensures r == count(s@, c) { unimplemented!() }
/// s.find(p) of a text.
#[verifier::external_body]
fn raw_find(s: &str, p: &str) -> (r: Option<usize>) ensures match r { Some(n) => is_b(s@, n as int) && first(s@, p@, idx(s@, n as int)) && blen(s@) <= usize::MAX / 4, None => find(s@, p@) is None } { s.find(p) }
fn find_str(s: &str, p: &str) -> (r: Option<usize>) ensures match r { Some(n) => is_b(s@, n as int) && find(s@, p@) == Some(idx(s@, n as int)) && is_b(s@, (n + blen(p@)) as int) && idx(s@, (n + blen(p@)) as int) == idx(s@, n as int) + p@.len() && n + blen(p@) <= blen(s@) && blen(s@) <= usize::MAX / 4, None => find(s@, p@) is None } {
    broadcast use bounds::group_bounds;
    let r = raw_find(s, p);
    proof { if let Some(n) = r { lemma_find(s@, p@, idx(s@, n as int)); lemma_b_found(s@, n as int, p@); } }
    r
}
/// s.find(f) of a class of characters.
#[verifier::external_body]
fn find_char<F: Fn(char) -> bool>(s: &str, f: F) -> (r: Option<usize>)
    requires forall|c: char| f.requires((c,))
    ensures match r { Some(n) => is_b(s@, n as int) && n <= blen(s@) && n <= usize::MAX / 4 && idx(s@, n as int) < s@.len() && f.ensures((s@[idx(s@, n as int)],), true) && (forall|j: int| 0 <= j < idx(s@, n as int) ==> f.ensures((#[trigger] s@[j],), false)), None => forall|j: int| 0 <= j < s@.len() ==> f.ensures((#[trigger] s@[j],), false) }
{ s.find(f) }
#[verifier::external_body]
fn all_chars<F: Fn(char) -> bool>(s: &str, f: F) -> (r: bool)
    requires forall|c: char| f.requires((c,))
    ensures r ==> (forall|j: int| 0 <= j < s@.len() ==> f.ensures((#[trigger] s@[j],), true)), !r ==> exists|j: int| 0 <= j < s@.len() && f.ensures((#[trigger] s@[j],), false)
{ s.chars().all(f) }
/// str::chars, with the characters still to come.
struct Chars { rest: Ghost<Seq<char>>, x: u64 }
#[verifier::external_body]
fn chars_of(s: &str) -> (r: Chars) ensures r.rest@ == s@ { unimplemented!() }
impl Chars {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<char>) ensures old(self).rest@.len() == 0 ==> r is None && final(self).rest@ == old(self).rest@, old(self).rest@.len() > 0 ==> r == Some(old(self).rest@[0]) && final(self).rest@ == old(self).rest@.skip(1) { unimplemented!() }
}
#[derive(Clone, Copy)]
enum SyntaxError { TokenEntityMissingSemicolon, TokenInvalidEscape, TokenExpectedWasEOF(TokenKind), TokenVerbatimTooManyBackticks, TokenVerbatimMultilineNotEnoughBackticks, TokenVerbatimEOF, TagCloseMalformed, Other }
#[verifier::external_body]
fn ice_no_source<T>() -> (r: T) requires false { unimplemented!() }
'''

LEX = r'''
type Lexeme = (int, TokenKind, Option<SyntaxError>);
spec fn plain(n: int, k: TokenKind) -> Lexeme { (n, k, None) }
spec fn word(t: Seq<char>) -> TokenKind { if t == "True"@ { TokenKind::Boolean(true) } else if t == "False"@ { TokenKind::Boolean(false) } else if t == "_"@ { TokenKind::Underscore } else { TokenKind::Name } }
spec fn keyword(t: Seq<char>) -> TokenKind {
    if t == "export"@ { TokenKind::Keyword(Keyword::Export) } else if t == "fn"@ { TokenKind::Keyword(Keyword::Fn) } else if t == "implicit"@ { TokenKind::Keyword(Keyword::Implicit) } else if t == "let"@ { TokenKind::Keyword(Keyword::Let) } else if t == "match"@ { TokenKind::Keyword(Keyword::Match) } else { TokenKind::FuncName }
}
spec fn broken(s: Seq<char>) -> bool { count(s, '\n') >= 2 }
spec fn has(s: Seq<char>, c: char) -> bool { exists|i: int| 0 <= i < s.len() && s[i] == c }
/// A line comment: to the end of the line, and the white space after it unless that is a paragraph break.
spec fn line_comment(s: Seq<char>) -> Lexeme { let i = 1 + run(s.skip(1), Class::Line); let w = run(s.skip(i), Class::White); plain(if broken(s.subrange(i, i + w)) { i } else { i + w }, TokenKind::Comment) }
spec fn space(s: Seq<char>) -> Lexeme { let n = 1 + run(s.skip(1), Class::White); plain(n, if broken(s.take(n)) { TokenKind::Newline } else { TokenKind::Whitespace }) }
spec fn entity(s: Seq<char>) -> Lexeme { let n = 2 + run(s.skip(2), Class::Entity); if n < s.len() && s[n] == ';' { plain(n + 1, TokenKind::Entity) } else { (n, TokenKind::Entity, Some(SyntaxError::TokenEntityMissingSemicolon)) } }
spec fn digits(s: Seq<char>, a: int, b: int) -> bool { b <= s.len() && forall|i: int| a <= i < b ==> is_hex(#[trigger] s[i]) }
spec fn escape(s: Seq<char>) -> Lexeme {
    if s.len() < 2 { (1, TokenKind::RawText, Some(SyntaxError::TokenExpectedWasEOF(TokenKind::Escape))) }
    else if s[1] == '\n' { (1, TokenKind::RawText, Some(SyntaxError::TokenInvalidEscape)) }
    else if s[1] == 'x' || s[1] == 'u' || s[1] == 'U' { let n: int = if s[1] == 'x' { 4 } else if s[1] == 'u' { 6 } else { 10 }; if digits(s, 2, n) { plain(n, TokenKind::Escape) } else { (2, TokenKind::RawText, Some(SyntaxError::TokenInvalidEscape)) } }
    else { plain(2, TokenKind::Escape) }
}
/// A string: from a number of backticks to as many of them, and all which follow those.
spec fn verbatim(s: Seq<char>) -> Lexeme {
    let o = 1 + run(s.skip(1), Class::Backtick);
    let kind = TokenKind::Verbatim(if starts(s, "```"@) { VerbatimKind::Multiline } else { VerbatimKind::Simple });
    match find(s.skip(o), s.take(o)) {
        None => (s.len() as int, kind, Some(SyntaxError::TokenVerbatimEOF)),
        Some(m) => { let c = o + m; let l = run(s.skip(c + o), Class::Backtick); (c + o + l, kind, if l > 0 { Some(SyntaxError::TokenVerbatimTooManyBackticks) } else if o < 3 && has(s.subrange(o, c), '\n') { Some(SyntaxError::TokenVerbatimMultilineNotEnoughBackticks) } else { None }) }
    }
}
spec fn angle(s: Seq<char>) -> Lexeme {
    if starts(s, "<!--"@) { plain(match find(s.skip(4), "-->"@) { Some(m) => m + 7, None => s.len() as int }, TokenKind::Comment) }
    else if starts(s, "</"@) {
        if s.len() > 2 && start(s[2]) { let n = 3 + run(s.skip(3), Class::Cont); if n < s.len() && s[n] == '>' { plain(n + 1, TokenKind::CloseTag) } else { (n, TokenKind::RawText, Some(SyntaxError::TagCloseMalformed)) } }
        else if starts(s, "</>"@) { plain(3, TokenKind::CloseTag) } else { (2, TokenKind::RawText, Some(SyntaxError::TagCloseMalformed)) }
    } else { plain(1, TokenKind::LAngle) }
}
/// The token at the start of the text: how many characters it has, its kind, and the error if there is one.
spec fn lex(s: Seq<char>) -> Lexeme {
    let c = s[0];
    let second = s.len() > 1;
    if c == '#' { line_comment(s) }
    else if is_white(c) { space(s) }
    else if start(c) { let n = 1 + run(s.skip(1), Class::Cont); plain(n, word(s.take(n))) }
    else if is_num(c) { plain(1 + run(s.skip(1), Class::Digit), TokenKind::Number) }
    else if (c == '$' || c == '@') && second && start(s[1]) { let n = 1 + run(s.skip(1), Class::Cont); plain(n, if c == '$' { TokenKind::VarName } else { keyword(s.subrange(1, n)) }) }
    else if c == '&' && second && (is_alpha(s[1]) || s[1] == '#') { entity(s) }
    else if c == '\\' { escape(s) }
    else if c == '`' { verbatim(s) }
    else if c == '<' { angle(s) }
    else if starts(s, "->"@) { plain(2, TokenKind::Arrow) }
    else if c == '-' && second && is_num(s[1]) { plain(2 + run(s.skip(2), Class::Digit), TokenKind::Number) }
    else if starts(s, "/>"@) { plain(2, TokenKind::RAngle) }
    else if starts(s, "**"@) { plain(2, TokenKind::DoubleAsterisk) }
    else if starts(s, "::"@) { plain(2, TokenKind::DoubleColon) }
    else if starts(s, "?::"@) { plain(3, TokenKind::QuestionMarkDoubleColon) }
    else if starts(s, "..."@) { plain(3, TokenKind::Ellipsis) }
    else { match punctuation(c) { Some(k) => plain(1, k), None => plain(1 + run(s.skip(1), Class::Raw), TokenKind::RawText) } }
}
spec fn punctuation(c: char) -> Option<TokenKind> {
    if c == '(' { Some(TokenKind::LPar) } else if c == ')' { Some(TokenKind::RPar) } else if c == '[' { Some(TokenKind::LSqb) } else if c == ']' { Some(TokenKind::RSqb) } else if c == '{' { Some(TokenKind::LBrace) } else if c == '}' { Some(TokenKind::RBrace) }
    else if c == '>' { Some(TokenKind::RAngle) } else if c == '&' { Some(TokenKind::Ampersand) } else if c == '|' { Some(TokenKind::Bar) } else if c == ',' { Some(TokenKind::Comma) } else if c == '=' { Some(TokenKind::Equals) } else if c == '!' { Some(TokenKind::ExclamationMark) }
    else if c == '*' { Some(TokenKind::Asterisk) } else if c == ':' { Some(TokenKind::Colon) } else if c == '?' { Some(TokenKind::QuestionMark) } else if c == '.' { Some(TokenKind::Dot) }
    else if c == '\'' { Some(TokenKind::Quote(QuoteKind::Single, QuoteDir::Left)) } else if c == '"' { Some(TokenKind::Quote(QuoteKind::Double, QuoteDir::Left)) } else { None }
}
'''

# scan_while, and what it says of the classes
SCAN = r'''
fn scan<F: Fn(char) -> bool>(src: &str, f: F) -> (r: usize)
    requires forall|c: char| f.requires((c,))
    ensures is_b(src@, r as int), r <= usize::MAX / 4, forall|k: Class| (forall|c: char| f.ensures((c,), true) ==> within(k, c)) && (forall|c: char| f.ensures((c,), false) ==> !within(k, c)) ==> #[trigger] run(src@, k) == idx(src@, r as int)
{
    broadcast use bounds::group_bounds;
    let r = scan_while(src, f);
    proof { assert forall|k: Class| (forall|c: char| f.ensures((c,), true) ==> within(k, c)) && (forall|c: char| f.ensures((c,), false) ==> !within(k, c)) implies #[trigger] run(src@, k) == idx(src@, r as int) by { lemma_run_at(src@, k, idx(src@, r as int)); } }
    r
}
'''
# next_token is proved once for each of these cases of the first character, which are all there are
CASES = [('hash', "c == '#'"), ('space', 'is_white(c)'), ('name', 'start(c)'), ('number', 'is_num(c)'), ('sigil', "c == '$' || c == '@'"), ('ampersand', "c == '&'"), ('backslash', "c == '\\\\'"), ('backtick', "c == '`'"), ('angle_bang', "c == '<' && s.len() > 1 && s[1] == '!'"), ('angle_slash', "c == '<' && s.len() > 1 && s[1] == '/'"), ('angle', "c == '<' && !(s.len() > 1 && (s[1] == '!' || s[1] == '/'))"), ('long', "c == '-' || c == '/' || c == '*' || c == ':' || c == '?' || c == '.'")]
CASES.append(('rest', ' && '.join(f'!({x})' for _, x in CASES)))
LITS = ['<!--', '-->', '</', '</>', '->', '/>', '**', '::', '?::', '...', '```']


def seq(s):
    return 'seq![' + ', '.join("'" + c + "'" for c in s) + ']'


def kinds(u):
    u.text(BLEN + STR_EQ)
    for k in ('VerbatimKind', 'Keyword', 'QuoteKind', 'QuoteDir', 'TokenKind'):
        u.item(TOKEN, 'enum', k, attrs='#[derive(Clone, Copy, PartialEq, Eq, Structural)]')
    u.text(BOUNDS)


def lexer(u):
    u.text(LEX)
    u.default_subs = [('text :: $i:f', ' $f'), ('errors :: SyntaxError', 'SyntaxError'), ('c . is_ascii_whitespace ( )', 'is_ws(c)'), ('c . is_ascii_digit ( )', 'is_dg(c)'), ('c . is_ascii_hexdigit ( )', 'is_hx(c)'), ('c . is_ascii_alphabetic ( )', 'is_al(c)'), ('c . is_ascii_alphanumeric ( )', 'is_an(c)'),
        ('$i:c . len_utf8 ( )', 'utf8_len($c)'),
        ('| c : char |', '| c |'),
        ('scan_while ( $x , | c | $b )', 'scan($x, |c: char| -> (r: bool) ensures r == ($b) { $b })'),
        ('scan_while ( $x , $i:f )', 'scan($x, $f)'),
        ('errors :: ice ( $x )', 'ice_no_source()'), ('on_error ( $x )', 'reported = Some($x)'), ('return $x ;', 'return { let result = $x; *error = reported; result };')]
    for name, spec in (('is_ident_start', 'start'), ('is_ident_cont', 'cont')):
        u.fn(TEXT, name).ensures(f'r == {spec}(c)')
    f = u.fn(TK, 'scan_while')
    f.sub('src . find ( | c | $b ) . unwrap_or ( src . len ( ) )', '(match find_char(src, |c: char| -> (r: bool) requires f.requires((c,)) ensures f.ensures((c,), !r) { $b }) { Some(n) => n, None => str_len(src) })', 0)
    f.requires('forall|c: char| f.requires((c,))')
    f.start('broadcast use bounds::group_bounds;')
    f.ensures('is_b(src@, r as int)', 'r <= blen(src@)', 'r <= usize::MAX / 4', '0 <= idx(src@, r as int) <= src@.len()', 'forall|j: int| 0 <= j < idx(src@, r as int) ==> f.ensures((#[trigger] src@[j],), true)', 'idx(src@, r as int) < src@.len() ==> f.ensures((src@[idx(src@, r as int)],), false)')
    u.text(SCAN)
    f = u.fn(TK, 'is_paragraph_break')
    f.sub("s . chars ( ) . filter ( | c | * c == '\\n' ) . count ( )", "count_char(s, '\\n')", 0)
    f.ensures('r == broken(s@)')
    f = u.fn(TK, 'is_raw_text').ensures('r == within(Class::Raw, c)')


def next_token(u, i):
    u.text(f'spec fn case(s: Seq<char>) -> bool {{ let c = s[0]; {CASES[i][1]} }}')
    f = u.fn(TK, 'next_token')
    f.sub('mut on_error : impl FnMut ( SyntaxError )', 'error: &mut Option<SyntaxError>', 1).sub('src . chars ( )', 'chars_of(src)', 1)
    # a part of the text, with or without the `&` (methods take it by reference)
    f.sub('& & src [ $x ]', '&& SRC[$x]', 0)
    for part in ('& src', 'src', 'SRC'):
        f.sub(part + ' [ $a .. ]', 'tail(src, $a)', 0).sub(part + ' [ .. $b ]', 'cut(src, 0, $b)', 0).sub(part + ' [ $a .. $b ]', 'cut(src, $a, $b)', 0)
    for part in ('tail ( $x )', 'cut ( $x )', 'src'):
        name = part.replace('( $x )', '($x)').replace(' (', '(')
        f.sub(part + ' . starts_with ( $p )', f'starts_with({name}, $p)', 0).sub(part + ' . contains ( $p )', f'contains({name}, $p)', 0).sub(part + ' . find ( $p )', f'find_str({name}, $p)', 0)
    f.sub('src . len ( )', 'str_len(src)', 0)
    f.sub('matches! ( src . get ( $a .. $b ) , Some ( $i:d ) if $i:e . chars ( ) . all ( | $i:c | $t ) )', '(match get_cut(src, $a, $b) { Some($d) => all_chars($e, |$c: char| -> (r: bool) ensures r == ($t) { $t }), None => false })', 0)
    # an alternative of patterns with a guard
    f.sub("'$' | '@' if", "_ if (first_char == '$' || first_char == '@') &&", 0).sub("'@' | '$' if", "_ if (first_char == '$' || first_char == '@') &&", 0)
    f.requires('src@.len() > 0', 'case(src@)')
    f.ensures('is_b(src@, r.0 as int)', '0 < idx(src@, r.0 as int) == lex(src@).0', 'r.1 == lex(src@).1', '*final(error) == (match lex(src@).2 { Some(e) => Some(e), None => *old(error) })')
    f.start('broadcast use bounds::group_bounds; proof { ' + ' '.join(f'reveal_strlit("{x}");' for x in LITS) + ' '.join(f'lemma_ascii_blen("{x}"@);' for x in LITS) + '  lemma_start(src@); } let mut reported = *error; let result = {').end('}; *error = reported; result')
    return f

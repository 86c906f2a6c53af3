"""Identifiers: strings, character classes, and the String operations whose
contracts are assumed. Texts are their characters; byte lengths are `blen`."""
from contracts.libstr import BLEN, DECIMAL

TEXT = 'src/utils/text.rs'

IDENT = r'''
spec fn is_alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
spec fn is_num(c: char) -> bool { '0' <= c && c <= '9' }
spec fn start(c: char) -> bool { is_alpha(c) || c == '_' }
spec fn cont(c: char) -> bool { is_alpha(c) || is_num(c) || c == '_' }
/// [a-zA-Z_][a-zA-Z0-9_]*
spec fn ident(s: Seq<char>) -> bool { s.len() > 0 && start(s[0]) && forall|i: int| 0 <= i < s.len() ==> cont(#[trigger] s[i]) }
spec fn ascii(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] as u32) < 128 }
spec fn lower(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> !('A' <= #[trigger] s[i] && s[i] <= 'Z') }
spec fn lower_char(c: char) -> char { if 'A' <= c && c <= 'Z' { ((c as u32 + 32) as u8) as char } else { c } }
proof fn lemma_ascii_len(s: Seq<char>)
    requires ascii(s),
    ensures blen(s) == s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i] as u32) < 128 by { assert(s[i] == s.drop_last()[i]); }
        lemma_ascii_len(s.drop_last());
    }
}
fn is_ascii_alphabetic(c: char) -> (r: bool) ensures r == is_alpha(c) { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') }
fn is_ascii_alphanumeric(c: char) -> (r: bool) ensures r == (is_alpha(c) || is_num(c)) { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') }
/// str::chars, with the characters still to come.
struct Chars { rest: Ghost<Seq<char>>, x: u64 }
#[verifier::external_body]
fn chars_of(s: &str) -> (r: Chars) ensures r.rest@ == s@ { unimplemented!() }
impl Chars {
    #[verifier::external_body]
    fn next(&mut self) -> (r: Option<char>) ensures old(self).rest@.len() == 0 ==> r is None && final(self).rest@ == old(self).rest@, old(self).rest@.len() > 0 ==> r == Some(old(self).rest@[0]) && final(self).rest@ == old(self).rest@.skip(1) { unimplemented!() }
}
#[verifier::external_body]
fn str_len(s: &str) -> (r: usize) ensures r as nat == blen(s@), r <= usize::MAX / 2 { s.len() }
#[verifier::external_body]
fn empty_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
fn push_char(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { s.push(c) }
#[verifier::external_body]
fn push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body]
fn string_of(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
#[verifier::external_body]
fn string_len(s: &String) -> (r: usize) ensures r as nat == blen(s@) { s.len() }
#[verifier::external_body]
fn ends_with_char(s: &str, c: char) -> (r: bool) ensures r == (s@.len() > 0 && s@.last() == c) { s.ends_with(c) }
#[verifier::external_body]
fn string_str(s: &String) -> (r: &str) ensures r@ == s@ { s }
#[verifier::external_body]
fn rc_str(s: String) -> (r: Rc<str>) ensures r@ == s@ { Rc::from(s) }
#[verifier::external_body]
fn clone_rc(s: &Rc<str>) -> (r: Rc<str>) ensures r@ == s@ { s.clone() }
#[verifier::external_body]
fn rc_as_str<'a>(s: &'a Rc<str>) -> (r: &'a str) ensures r@ == s@ { s }
/// &s[..n] of a text with one byte for each character.
#[verifier::external_body]
fn str_to<'a>(s: &'a str, n: usize) -> (r: &'a str) requires blen(s@) == s@.len(), n <= s@.len(), ensures r@ == s@.take(n as int) { &s[..n] }
#[verifier::external_body]
fn make_lower(s: &mut String) ensures final(s)@ == old(s)@.map_values(|c: char| lower_char(c)) { s.make_ascii_lowercase() }
'''


def identifiers(u):
    """is_ident_start, is_ident_cont, is_identifier."""
    u.text('use std::rc::Rc;\n' + BLEN + DECIMAL + IDENT)
    for name, spec in (('is_ident_start', 'start'), ('is_ident_cont', 'cont')):
        f = u.fn(TEXT, name)
        f.sub('c . is_ascii_alphabetic ( )', 'is_ascii_alphabetic(c)', 0).sub('c . is_ascii_alphanumeric ( )', 'is_ascii_alphanumeric(c)', 0)
        f.ensures(f'r == {spec}(c)')
    f = u.fn(TEXT, 'is_identifier')
    f.sub('s . chars ( )', 'chars_of(s)', 0)
    f.sub('$i:v . all ( $i:f )', '({ let mut all = true; while let Some(c) = $v.next() { if !$f(c) { all = false; break; } } all })', 1)
    f.ensures('r == ident(s@)')
    f.loop(0, invariant=['s@.len() > 0', 'start(s@[0])', 's_chars.rest@.len() < s@.len()', 's_chars.rest@ =~= s@.skip(s@.len() - s_chars.rest@.len())'], except_break=['all', 'forall|i: int| 0 <= i < s@.len() - s_chars.rest@.len() ==> cont(#[trigger] s@[i])'],
           ensures=['all == ident(s@)'], decreases='s_chars.rest@.len()')

"""Shared spec library: UTF-8 lengths of text, and the std string operations
whose contracts are assumed. Text is `Seq<char>`; positions are byte offsets."""

BLEN = r'''
/// Number of bytes of the UTF-8 form of a character.
pub open spec fn clen(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
/// Number of bytes of the UTF-8 form of a text.
pub open spec fn blen(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { blen(s.drop_last()) + clen(s.last()) }
}
pub proof fn lemma_blen_take(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures blen(s.take(k + 1)) == blen(s.take(k)) + clen(s[k]),
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
pub proof fn lemma_blen_mono(s: Seq<char>, j: int, k: int)
    requires 0 <= j <= k <= s.len(),
    ensures blen(s.take(j)) + (k - j) <= blen(s.take(k)), blen(s.take(k)) <= blen(s), blen(s.take(k)) <= blen(s.take(j)) + 4 * (k - j),
    decreases s.len() + s.len() - j - k,
{
    if j < k {
        lemma_blen_mono(s, j + 1, k);
        lemma_blen_take(s, j);
    } else if k < s.len() {
        lemma_blen_mono(s, j, k + 1);
        lemma_blen_take(s, k);
    } else {
        assert(s.take(k) =~= s);
    }
}
'''

# needed where string literals are patterns: `match s { "x" => .. }` compares
# values of type str, and the specifications speak about their characters
STR_EQ = r'''
mod str_axioms {
    use super::*;
    /// Two texts with the same characters are equal.
    #[verifier::external_body]
    pub broadcast proof fn axiom_str_eq(a: &str, b: &str)
        ensures (#[trigger] a@ == #[trigger] b@) ==> a == b,
    {}
}
broadcast use str_axioms::axiom_str_eq;
'''

# the decimal digits of integers, as ToString gives them
DECIMAL = r'''
/// The decimal digits of a number.
spec fn digit(n: int) -> char { ((n + 48) as u8) as char }
spec fn dec(n: nat) -> Seq<char> decreases n {
    if n < 10 { seq![digit(n as int)] } else { dec(n / 10).push(digit((n % 10) as int)) }
}
/// ToString of an integer.
spec fn int_text(n: int) -> Seq<char> { if n < 0 { seq!['-'] + dec((-n) as nat) } else { dec(n as nat) } }
'''

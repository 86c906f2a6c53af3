"""C14: integer arithmetic is exact or is an error."""
from vx import Unit
from contracts.libslice import slices
from contracts.libstr import DECIMAL
from contracts.libhtml import LEAVES_VALUE
from contracts.libvalue import world
from contracts.c11 import coercion
from contracts.c13 import enumerate_fn, SPEC as LIST_SPEC

SPEC = DECIMAL + r'''
#[verifier::external_body]
struct Value { v: u64 }
type Int = i64;
type List = SliceRef<Value>;
type RcStr = Rc<str>;
#[verifier::external_body]
struct PapyriError { e: u64 }
type PapyriResult<T> = Result<T, PapyriError>;
#[verifier::external_body]
#[derive(Clone, Copy)]
struct Reported { r: u8 }
#[verifier::external_body]
struct ParseIntError { e: u64 }
#[verifier::external_body]
fn overflow() -> PapyriError { unimplemented!() }
#[verifier::external_body]
fn parse_error(e: ParseIntError) -> PapyriError { unimplemented!() }
spec fn fits(n: int) -> bool { i64::MIN <= n <= i64::MAX }
/// The sum of the first k numbers.
spec fn sum(s: Seq<i64>, k: int) -> int decreases k { if k <= 0 { 0 } else { sum(s, k - 1) + s[k - 1] } }
/// Every partial sum is a 64-bit integer.
spec fn sums_fit(s: Seq<i64>, k: int) -> bool { forall|i: int| 0 <= i <= k ==> fits(#[trigger] sum(s, i)) }
#[verifier::external_body]
fn ok_or<T>(o: Option<T>, e: PapyriError) -> (r: PapyriResult<T>) ensures o matches Some(x) ==> r == PapyriResult::<T>::Ok(x), o is None ==> r == PapyriResult::<T>::Err(e) { unimplemented!() }
#[verifier::external_body]
fn checked_neg(a: Int) -> (r: Option<Int>) ensures fits(-(a as int)) ==> r == Some((-(a as int)) as i64), !fits(-(a as int)) ==> r is None { a.checked_neg() }
/// The number which a sequence of digits denotes.
spec fn is_digits(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] && s[i] <= '9' }
spec fn denotes(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 { 0 } else { denotes(s.drop_last()) * 10 + (s.last() as int - 48) } }
/// An optional sign and digits.
spec fn integer(s: Seq<char>) -> Option<int> {
    if is_digits(s) { Some(denotes(s)) }
    else if s.len() > 0 && s[0] == '-' && is_digits(s.skip(1)) { Some(-denotes(s.skip(1))) }
    else if s.len() > 0 && s[0] == '+' && is_digits(s.skip(1)) { Some(denotes(s.skip(1))) }
    else { None }
}
spec fn parsed(s: Seq<char>) -> Option<i64> {
    match integer(s) { Some(n) => if fits(n) { Some(n as i64) } else { None }, None => None }
}
/// <i64 as FromStr>::from_str
#[verifier::external_body]
fn parse_i64(s: &str) -> (r: Result<i64, ParseIntError>) ensures parsed(s@) matches Some(n) ==> r == Result::<i64, ParseIntError>::Ok(n), parsed(s@) is None ==> r is Err { unimplemented!() }
#[verifier::external_body]
fn rc_as_str(s: &RcStr) -> (r: &str) ensures r@ == s@ { unimplemented!() }
/// A string is no longer than isize::MAX.
uninterp spec fn bytes(s: Seq<char>) -> int;
#[verifier::external_body]
fn str_len(s: &RcStr) -> (r: usize) ensures r as int == bytes(s@), r <= isize::MAX { unimplemented!() }
/// What reading the digits of a number gives is that number.
/// An integer written out and read again.
proof fn lemma_round(n: int)
    requires fits(n),
    ensures parsed(int_text(n)) == Some(n as i64),
{
    if n < 0 { lemma_read((-n) as nat); let d = dec((-n) as nat); assert(int_text(n)[0] == '-'); assert(int_text(n).skip(1) =~= d); assert(!is_digits(int_text(n))); } else { lemma_read(n as nat); }
}
proof fn lemma_read(n: nat)
    ensures is_digits(dec(n)), denotes(dec(n)) == n, parsed(dec(n)) == (if n <= i64::MAX { Some(n as i64) } else { None::<i64> }),
    decreases n,
{
    if n < 10 {
        assert(dec(n).drop_last() =~= Seq::<char>::empty());
        assert(denotes(dec(n).drop_last()) == 0);
    } else {
        lemma_read(n / 10);
        assert(dec(n).drop_last() =~= dec(n / 10));
    }
}
/// Token::range's text; report() gives proof of having reported.
#[verifier::external_body]
#[derive(Clone, Copy)]
struct Token { t: u64 }
struct Parser { errors: u64 }
uninterp spec fn text_of(t: Token) -> Seq<char>;
impl Parser {
    #[verifier::external_body]
    fn tok_str(&self, t: Token) -> (s: &str) ensures s@ == text_of(t) { unimplemented!() }
    #[verifier::external_body]
    fn report(&mut self, e: ParseIntError, t: Token) -> Reported { unimplemented!() }
}
'''


def integers():
    u = Unit('integers')
    u.text('use std::rc::Rc;\n')
    slices(u)
    u.text(SPEC)
    f = u.native('INT', 'ADD', 'ARGS: pos_spread Vec<Int>', 'ARGS: Vec<Int>', 'Int')
    f.sub('ARGS . into_iter ( ) . try_fold ( $a , $b ) . ok_or ( errors :: RuntimeError :: IntegerOverflow ) ?', 'ok_or({ let mut total: Option<Int> = Some($a); for x in ARGS.iter() { total = match total { Some(t) => $b(t, *x), None => None }; if total.is_none() { break; } } total }, overflow())?', 1)
    f.loop(0, it='it', invariant=['it.seq() =~= ARGS@.map_values(|v: Int| &v)', 'total matches Some(t) ==> t as int == sum(ARGS@, it.index@ as int) && sums_fit(ARGS@, it.index@ as int)', 'total is None ==> !sums_fit(ARGS@, ARGS@.len() as int)'], ensures=['total matches Some(t) ==> t as int == sum(ARGS@, ARGS@.len() as int) && sums_fit(ARGS@, ARGS@.len() as int)', 'total is None ==> !sums_fit(ARGS@, ARGS@.len() as int)'])
    f.loop_start(0, 'proof { assert(sum(ARGS@, it.index@ + 1) == sum(ARGS@, it.index@ as int) + ARGS@[it.index@ as int]); }')
    f.ensures('sums_fit(ARGS@, ARGS@.len() as int) ==> (r matches Ok(n) && n as int == sum(ARGS@, ARGS@.len() as int))',
              '!sums_fit(ARGS@, ARGS@.len() as int) ==> r is Err')
    f = u.native('INT', 'NEGATE', 'PARAM: content Int', 'PARAM: Int', 'Int')
    f.sub('PARAM . checked_neg ( ) . ok_or ( errors :: RuntimeError :: IntegerOverflow ) ?', 'ok_or(checked_neg(PARAM), overflow())?', 1)
    f.ensures('fits(-(PARAM as int)) ==> (r matches Ok(n) && n as int == -(PARAM as int))', '!fits(-(PARAM as int)) ==> r is Err')
    f = u.native('INT', 'PARSE', 'PARAM: content RcStr', 'PARAM: RcStr', 'Int')
    f.sub('PARAM . parse :: < Int > ( ) . map_err ( errors :: RuntimeError :: ParseIntError ) ?', '(match parse_i64(rc_as_str(&PARAM)) { Ok(n) => n, Err(e) => return Err(parse_error(e)) })', 1)
    f.ensures('parsed(PARAM@) matches Some(n) ==> r == PapyriResult::<Int>::Ok(n)', 'parsed(PARAM@) is None ==> r is Err')
    f = u.native('LIST', 'LEN', 'LIST: content List', 'LIST: List', 'Int')
    f.requires('wf_slice(LIST)').ensures('r matches Ok(n) && n as int == items_of(LIST).len()')
    f = u.native('STR', 'LEN', 'STR: content RcStr', 'STR: RcStr', 'Int')
    f.sub('STR . len ( )', 'str_len(&STR)', 0)
    f.ensures('r matches Ok(n) && n as int == bytes(STR@)')
    u.text('impl Parser {')
    f = u.fn('src/parser/base.rs', 'parse_number', impl="^impl < 'a > Parser < 'a >$")
    f.sub('-> Reported < i64 >', '-> Result<i64, Reported>', 1)
    f.sub('self . tok_str ( $a ) . parse :: < i64 > ( ) . map_err ( | $i:e | $b )', '(match parse_i64(self.tok_str($a)) { Ok(n) => Ok(n), Err($e) => Err($b) })', 1)
    f.sub('SyntaxError :: TokenInvalidNumber ( e )', 'e', 0).sub('token . range', 'token', 0)
    f.ensures('parsed(text_of(token)) matches Some(n) ==> r == Result::<i64, Reported>::Ok(n)', 'parsed(text_of(token)) is None ==> r is Err')
    u.text('}')
    return u


def numbering():
    u = Unit('numbering')
    world(u)
    u.text(LEAVES_VALUE + LIST_SPEC)
    enumerate_fn(u)
    return u

UNITS = [integers, numbering, coercion]

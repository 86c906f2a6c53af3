"""C12: list indexing and slicing select exactly the right items."""
from vx import Unit
from contracts.libslice import slices

SPEC = r'''
/// A value; only its identity matters here.
#[verifier::external_body]
struct Value { v: u64 }
type Int = i64;
type List = SliceRef<Value>;
#[verifier::external_body]
struct PapyriError { e: u64 }
type PapyriResult<T> = Result<T, PapyriError>;
struct Compiler { c: u64 }
/// Derived: a structural copy.
#[verifier::external_body]
fn clone_value(v: &Value) -> (r: Value) ensures r == *v { unimplemented!() }
/// The index error.
uninterp spec fn is_index_error(e: PapyriError, i: Int, n: int) -> bool;
#[verifier::external_body]
fn index_out_of_range(i: Int, n: usize) -> (r: PapyriError) ensures is_index_error(r, i, n as int) { unimplemented!() }
/// A position counted from the start, or from the end when it is negative,
/// and clamped to the list.
spec fn position(i: int, n: int) -> int {
    let p = if i < 0 { n + i } else { i };
    if p < 0 { 0 } else if p > n { n } else { p }
}
spec fn items_from_to(s: Seq<Value>, a: int, b: int) -> Seq<Value> {
    if a < b { s.subrange(a, b) } else { Seq::empty() }
}
'''


def lists():
    u = Unit('lists')
    u.text('use std::rc::Rc;\n')
    slices(u, equality=True)
    u.text(SPEC + 'impl Compiler {')
    f = u.fn('src/compiler/names.rs', 'list_get', impl="^impl < 'a > Compiler < 'a >$")
    f.sub('errors :: PapyriResult', 'PapyriResult', 0)
    f.sub('let e = errors :: RuntimeError :: IndexOutOfRange ( $a , $b ) ; Err ( e . into ( ) )', 'Err(index_out_of_range($a, $b))', 0)
    f.sub('list . get ( $x ) . clone ( )', 'clone_value(list.get($x))', 0)
    f.requires('wf_slice(list)').ensures(
        '0 <= i < items_of(list).len() ==> r == PapyriResult::<Value>::Ok(items_of(list)[i as int])',
        '-items_of(list).len() <= i < 0 ==> r == PapyriResult::<Value>::Ok(items_of(list)[items_of(list).len() + i])',
        '!(-items_of(list).len() <= i < items_of(list).len()) ==> (r matches Err(e) && is_index_error(e, i, items_of(list).len() as int))')
    u.text('}')
    f = u.native('LIST', 'GET', 'I: positional Int, LIST: content List', 'compiler: &mut Compiler, I: Int, LIST: List', 'Value')
    f.requires('wf_slice(LIST)').ensures(
        '0 <= I < items_of(LIST).len() ==> r == PapyriResult::<Value>::Ok(items_of(LIST)[I as int])',
        '-items_of(LIST).len() <= I < 0 ==> r == PapyriResult::<Value>::Ok(items_of(LIST)[items_of(LIST).len() + I])',
        '!(-items_of(LIST).len() <= I < items_of(LIST).len()) ==> (r matches Err(e) && is_index_error(e, I, items_of(LIST).len() as int))')
    f = u.native('LIST', 'SLICE', 'A: positional Int, B: positional Option<Int> = (), LIST: content List', 'A: Int, B: Option<Int>, LIST: List', 'List')
    f.requires('wf_slice(LIST)').ensures(
        'r matches Ok(l) && wf_slice(l) && items_of(l) =~= items_from_to(items_of(LIST), position(A as int, items_of(LIST).len() as int), match B { Some(b) => position(b as int, items_of(LIST).len() as int), None => items_of(LIST).len() as int })')
    for m in ('max', 'min'):
        f.sub(f'0 . {m} ( $x )', f'int_{m}(0, $x)', 0)
        f.sub(f'$i:v . {m} ( $x )', f'int_{m}($v, $x)', 0)
    u.text('''
fn int_max(a: Int, b: Int) -> (r: Int) ensures r == (if a >= b { a } else { b }) { if a >= b { a } else { b } }
fn int_min(a: Int, b: Int) -> (r: Int) ensures r == (if a <= b { a } else { b }) { if a <= b { a } else { b } }
''')
    f = u.native('LIST', 'LEN', 'LIST: content List', 'LIST: List', 'Int')
    f.requires('wf_slice(LIST)').ensures('r matches Ok(n) && n as int == items_of(LIST).len()')
    f = u.native('LIST', 'IS_EMPTY', 'LIST: content List', 'LIST: List', 'bool')
    f.requires('wf_slice(LIST)').ensures('r matches Ok(b) && b == (items_of(LIST).len() == 0)')
    return u

UNITS = [lists]

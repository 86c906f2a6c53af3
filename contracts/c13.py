"""C13: list functions return what their definitions say."""
from vx import Unit
from contracts.libhtml import LEAVES_VALUE
from contracts.libvalue import world, VAL

SPEC = r'''
#[verifier::external_body]
struct PapyriError { e: u64 }
type PapyriResult<T> = Result<T, PapyriError>;
#[derive(Clone, Copy)]
struct SourceRange { r: u64 }
/// A call of a callback: its argument and what it returned, or none if it
/// failed. The callback may do anything else.
struct Call { f: Func, arg: Value, res: Option<Value> }
struct Compiler { calls: Ghost<Seq<Call>> }
impl Compiler {
    #[verifier::external_body]
    fn eval_bool(&mut self, f: Func, arg: Value, r: SourceRange) -> (b: PapyriResult<bool>)
        ensures final(self).calls@ == old(self).calls@.push(Call { f, arg, res: match b { Ok(x) => Some(Value::Bool(x)), Err(_) => None } }),
    { unimplemented!() }
    #[verifier::external_body]
    fn eval_value(&mut self, f: Func, arg: Value, r: SourceRange) -> (v: PapyriResult<Value>)
        ensures final(self).calls@ == old(self).calls@.push(Call { f, arg, res: match v { Ok(x) => Some(x), Err(_) => None } }),
    { unimplemented!() }
}
/// The calls after the first k.
spec fn since(c: Seq<Call>, k: int) -> Seq<Call> { c.subrange(k, c.len() as int) }
/// The callback was called on the first k items, in order, and did not fail.
spec fn called(c0: Seq<Call>, c1: Seq<Call>, f: Func, s: Seq<Value>, k: int) -> bool {
    &&& 0 <= k <= s.len() && c1.len() == c0.len() + k && c1.subrange(0, c0.len() as int) =~= c0
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] c1[c0.len() + i]).f == f && c1[c0.len() + i].arg == s[i] && c1[c0.len() + i].res is Some
}
/// The same for the first k - 1 items, and the call on item k - 1 failed.
spec fn failed_at(c0: Seq<Call>, c1: Seq<Call>, f: Func, s: Seq<Value>) -> bool {
    &&& c1.len() > c0.len() && called(c0, c1.drop_last(), f, s, c1.len() - c0.len() - 1) && c1.len() - c0.len() <= s.len()
    &&& c1.last() == (Call { f, arg: s[c1.len() - c0.len() - 1], res: None })
}
spec fn said(c: Call, b: bool) -> bool { c.res == Some(Value::Bool(b)) }
/// The items for which the callback said True.
spec fn accepted(s: Seq<Value>, c: Seq<Call>, k: int) -> Seq<Value> decreases k {
    if k <= 0 { Seq::empty() } else if said(c[k - 1], true) { accepted(s, c, k - 1).push(s[k - 1]) } else { accepted(s, c, k - 1) }
}
proof fn lemma_accepted(s: Seq<Value>, c: Seq<Call>, d: Seq<Call>, k: int)
    requires 0 <= k <= c.len(), k <= d.len(), forall|i: int| 0 <= i < k ==> c[i] == d[i],
    ensures accepted(s, c, k) == accepted(s, d, k),
    decreases k,
{ if k > 0 { lemma_accepted(s, c, d, k - 1); } }
spec fn not_none(s: Seq<Value>, k: int) -> Seq<Value> decreases k {
    if k <= 0 { Seq::empty() } else if is_none(s[k - 1]) { not_none(s, k - 1) } else { not_none(s, k - 1).push(s[k - 1]) }
}
/// One level of lists is replaced by their items.
spec fn flat1(v: Value) -> Seq<Value> { match v { Value::List(l) => l.items@, _ => seq![v] } }
spec fn flat(s: Seq<Value>, k: int) -> Seq<Value> decreases k {
    if k <= 0 { Seq::empty() } else { flat(s, k - 1) + flat1(s[k - 1]) }
}
#[verifier::external_body]
fn clone_func(f: &Func) -> (r: Func) ensures r == *f { unimplemented!() }
#[verifier::external_body]
fn list_to_vec(l: &List) -> (r: Vec<Value>) ensures r@ == l.items@ { unimplemented!() }
#[verifier::external_body]
fn extend_from(v: &mut Vec<Value>, s: &[Value]) ensures final(v)@ == old(v)@ + s@ { unimplemented!() }
#[verifier::external_body]
fn vec_reverse<T>(v: &mut Vec<T>) ensures final(v)@ == old(v)@.reverse() { v.reverse() }
fn unit_value(x: ()) -> (r: Value) ensures is_none(r) { Value::HTML(HTML::Empty) }
impl List {
    /// Proved in C12.
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r as int == self.items@.len(), r <= u32::MAX { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self.items@.len() == 0) { unimplemented!() }
}
impl Value {
    /// Proved in C10.
    #[verifier::external_body]
    fn is_unit(&self) -> (r: bool) ensures r == is_none(*self) { unimplemented!() }
}
#[verifier::external_body]
fn overflow() -> PapyriError { unimplemented!() }
#[verifier::external_body]
fn pair_value(i: Int, v: Value) -> (r: Value) ensures r matches Value::List(l) && l.items@ =~= seq![Value::Int(i), v] { unimplemented!() }
#[verifier::external_body]
fn ok_or<T>(o: Option<T>, e: PapyriError) -> (r: PapyriResult<T>) ensures o matches Some(x) ==> r == PapyriResult::<T>::Ok(x), o is None ==> r == PapyriResult::<T>::Err(e) { unimplemented!() }
/// FromIterator<HTML> for HTML: proved in C06.
#[verifier::external_body]
fn html_from_iter(v: Vec<HTML>) -> (r: HTML) ensures all_normal(v@) ==> normal(r) && leaves(r) == leaves_of(v@) { unimplemented!() }
#[verifier::external_body]
fn clone_html(h: &HTML) -> (r: HTML) ensures r == *h { unimplemented!() }
#[verifier::external_body]
fn html_vec_empty(v: &Vec<HTML>) -> (r: bool) ensures r == (v@.len() == 0) { v.is_empty() }
/// The items with the separator between them.
spec fn joined(s: Seq<HTML>, sep: HTML, k: int) -> Seq<HTML> decreases k {
    if k <= 0 { Seq::empty() } else if k == 1 { seq![s[0]] } else { joined(s, sep, k - 1).push(sep).push(s[k - 1]) }
}
proof fn lemma_joined_normal(s: Seq<HTML>, sep: HTML, k: int)
    requires 0 <= k <= s.len(), all_normal(s), normal(sep),
    ensures all_normal(joined(s, sep, k)),
    decreases k,
{ if k > 1 { lemma_joined_normal(s, sep, k - 1); } }
proof fn lemma_joined_empty(s: Seq<HTML>, k: int)
    requires 0 <= k <= s.len(),
    ensures leaves_of(joined(s, HTML::Empty, k)) =~= leaves_of(s.take(k)),
    decreases k,
{
    if k > 0 {
        lemma_joined_empty(s, k - 1);
        assert(s.take(k) =~= s.take(k - 1).push(s[k - 1]));
        lemma_push(s.take(k - 1), s[k - 1]);
        if k == 1 {
            assert(s.take(1) =~= seq![s[0]]);
        } else {
            let a = joined(s, HTML::Empty, k - 1);
            lemma_push(a, HTML::Empty);
            lemma_push(a.push(HTML::Empty), s[k - 1]);
            assert(leaves(HTML::Empty) =~= Seq::<Leaf>::empty());
        }
    }
}
'''

ITEMS = ('for $i:v in LIST . as_ref ( ) {', 'for $v in LIST.as_ref().iter() {')


def subs(f):
    f.sub(*ITEMS, 0)
    f.sub('compiler . eval_callback :: < bool > ( $a , $b , $c )', 'compiler.eval_bool($a, $b, $c)', 0)
    f.sub('compiler . eval_callback ( $a , $b , $c )', 'compiler.eval_value($a, $b, $c)', 0)
    f.sub('FUNCTION . clone ( )', 'clone_func(&FUNCTION)', 0).sub('f . clone ( )', 'clone_func(&f)', 0)
    f.sub('v . clone ( )', 'clone_value(v)', 0).sub('child . clone ( )', 'clone_value(child)', 0)
    f.sub('Ok ( $i:b . into ( ) )', 'Ok($b)', 0)


CALLBACK = 'compiler: &mut Compiler, FUNCTION: Func, LIST: List, call_range: SourceRange'
S = 'LIST.items@'
C0, C1 = 'old(compiler).calls@', 'final(compiler).calls@'
SEQ = f'it.seq() =~= {S}.map_values(|v: Value| &v)'
CALLED = f'called({C0}, compiler.calls@, FUNCTION, {S}, it.index@ as int)'


def enumerate_fn(u):
    f = u.native('LIST', 'ENUMERATE', 'FROM: named Int = 0, LIST: content List', 'FROM: Int, LIST: List', 'Vec<Value>')
    f.sub('LIST . as_ref ( ) . iter ( ) . cloned ( ) . enumerate ( ) . map ( | ( $i:i , $i:v ) | $b ) . collect :: < errors :: PapyriResult < Vec < Value > > > ( ) ?',
        '{ let mut out = Vec::new(); let mut index: usize = 0; for v_ref in LIST.as_ref().iter() { let $i = index; let $v = clone_value(v_ref); let item: PapyriResult<Value> = $b; out.push(item?); index = index + 1; } out }', 1)
    f.sub('FROM . checked_add ( $x ) . ok_or ( errors :: RuntimeError :: IntegerOverflow ) ?', 'ok_or(FROM.checked_add($x), overflow())?', 1)
    f.sub('Ok ( [ Value :: Int ( $a ) , $b ] . into ( ) )', 'Ok(pair_value($a, $b))', 1)
    f.requires(f'{S}.len() <= u32::MAX')
    f.ensures(f'r matches Ok(v) ==> v@.len() == {S}.len() && forall|i: int| 0 <= i < {S}.len() ==> (#[trigger] v@[i] matches Value::List(l) && FROM + i <= i64::MAX && l.items@ =~= seq![Value::Int((FROM + i) as i64), {S}[i]])',
        f'r is Err == ({S}.len() > 0 && FROM + {S}.len() - 1 > i64::MAX)')
    f.loop(0, it='it', invariant=[SEQ, f'{S}.len() <= u32::MAX', 'index == it.index@', 'out@.len() == it.index@', f'it.index@ > 0 ==> FROM + it.index@ - 1 <= i64::MAX',
        f'forall|i: int| 0 <= i < it.index@ ==> (#[trigger] out@[i] matches Value::List(l) && l.items@ =~= seq![Value::Int((FROM + i) as i64), {S}[i]])'])


def list_functions():
    u = Unit('list_functions')
    world(u)
    u.text(LEAVES_VALUE + SPEC)
    for name, stop in (('ALL', 'false'), ('ANY', 'true')):
        go = 'true' if stop == 'false' else 'false'
        f = u.native('LIST', name, 'FUNCTION: positional Func, LIST: content List', CALLBACK, 'bool')
        subs(f)
        f.ensures(
            f'r matches Ok(b) && b == {go} ==> called({C0}, {C1}, FUNCTION, {S}, {S}.len() as int) && forall|i: int| {C0}.len() <= i < {C1}.len() ==> said(#[trigger] {C1}[i], {go})',
            f'r matches Ok(b) && b == {stop} ==> {C1}.len() > {C0}.len() && called({C0}, {C1}, FUNCTION, {S}, {C1}.len() - {C0}.len()) && said({C1}.last(), {stop}) && forall|i: int| {C0}.len() <= i < {C1}.len() - 1 ==> said(#[trigger] {C1}[i], {go})',
            f'r is Err ==> failed_at({C0}, {C1}, FUNCTION, {S})')
        f.loop(0, it='it', invariant=[SEQ, CALLED, f'forall|i: int| {C0}.len() <= i < compiler.calls@.len() ==> said(#[trigger] compiler.calls@[i], {go})'])
        f.loop_start(0, f'let ghost before = compiler.calls@; proof {{ assert forall|c: Call| #[trigger] before.push(c).drop_last() == before by {{ assert(before.push(c).drop_last() =~= before); }} }}')
    f = u.native('LIST', 'FIND', 'FUNCTION: positional Func, LIST: content List', CALLBACK, 'Value', 'unit_value')
    subs(f)
    f.ensures(
        f'r is Err ==> failed_at({C0}, {C1}, FUNCTION, {S})',
        f'''r matches Ok(v) ==> called({C0}, {C1}, FUNCTION, {S}, {C1}.len() - {C0}.len()) && ({{
            let k = {C1}.len() - {C0}.len();
            ||| k > 0 && v == {S}[k - 1] && said({C1}.last(), true) && forall|i: int| {C0}.len() <= i < {C1}.len() - 1 ==> said(#[trigger] {C1}[i], false)
            ||| k == {S}.len() && is_none(v) && forall|i: int| {C0}.len() <= i < {C1}.len() ==> said(#[trigger] {C1}[i], false)
        }})''')
    f.loop(0, it='it', invariant=[SEQ, CALLED, f'forall|i: int| {C0}.len() <= i < compiler.calls@.len() ==> said(#[trigger] compiler.calls@[i], false)'])
    f.loop_start(0, 'let ghost before = compiler.calls@; proof { assert forall|c: Call| #[trigger] before.push(c).drop_last() == before by { assert(before.push(c).drop_last() =~= before); } }')
    f = u.native('LIST', 'FILTER', 'FUNCTION: positional Option<Func> = (), LIST: content List', CALLBACK.replace('FUNCTION: Func', 'FUNCTION: Option<Func>'), 'Vec<Value>')
    subs(f)
    f.sub('LIST . as_ref ( ) . iter ( ) . filter ( | & $i:v | $c ) . cloned ( ) . collect ( )', '{ let mut out = Vec::new(); for $v in LIST.as_ref().iter() { if $c { out.push(clone_value($v)); } } out }', 1)
    f.ensures(
        f'FUNCTION matches Some(f) ==> (r is Err ==> failed_at({C0}, {C1}, f, {S}))',
        f'FUNCTION matches Some(f) ==> (r matches Ok(v) ==> called({C0}, {C1}, f, {S}, {S}.len() as int) && v@ =~= accepted({S}, since({C1}, {C0}.len() as int), {S}.len() as int))',
        f'FUNCTION is None ==> (r matches Ok(v) && v@ =~= not_none({S}, {S}.len() as int))')
    f.loop(0, it='it', invariant=[SEQ, CALLED.replace('FUNCTION', 'f'), 'FUNCTION == Some(f)', f'out@ =~= accepted({S}, since(compiler.calls@, {C0}.len() as int), it.index@ as int)'])
    f.loop_start(0, f'let ghost before = compiler.calls@; proof {{ assert forall|c: Call| #[trigger] before.push(c).drop_last() == before by {{ assert(before.push(c).drop_last() =~= before); }} assert forall|c: Call| accepted({S}, #[trigger] since(before.push(c), {C0}.len() as int), it.index@ as int) == accepted({S}, since(before, {C0}.len() as int), it.index@ as int) by {{ lemma_accepted({S}, since(before.push(c), {C0}.len() as int), since(before, {C0}.len() as int), it.index@ as int); }} }}')
    f.loop(1, it='it', invariant=[SEQ, f'out@ =~= not_none({S}, it.index@ as int)'])
    f = u.native('LIST', 'MAP', 'FUNCTION: positional Func, LIST: content List', CALLBACK, 'Vec<Value>')
    subs(f)
    f.ensures(f'r is Err ==> failed_at({C0}, {C1}, FUNCTION, {S})',
        f'r matches Ok(v) ==> called({C0}, {C1}, FUNCTION, {S}, {S}.len() as int) && v@.len() == {S}.len() && forall|i: int| 0 <= i < {S}.len() ==> (#[trigger] {C1}[{C0}.len() + i]).res == Some(v@[i])')
    f.loop(0, it='it', invariant=[SEQ, CALLED, 'out@.len() == it.index@', f'forall|i: int| 0 <= i < it.index@ ==> (#[trigger] compiler.calls@[{C0}.len() + i]).res == Some(out@[i])'])
    f.loop_start(0, 'let ghost before = compiler.calls@; proof { assert forall|c: Call| #[trigger] before.push(c).drop_last() == before by { assert(before.push(c).drop_last() =~= before); } }')
    f = u.native('LIST', 'FLAT', 'LIST: content List', 'LIST: List', 'Vec<Value>')
    subs(f)
    f.sub('out . extend ( $c . as_ref ( ) . iter ( ) . cloned ( ) )', 'extend_from(&mut out, $c.as_ref())', 0)
    f.ensures(f'r matches Ok(v) && v@ =~= flat({S}, {S}.len() as int)')
    f.loop(0, it='it', invariant=[SEQ, f'out@ =~= flat({S}, it.index@ as int)'])
    f = u.native('LIST', 'REVERSED', 'LIST: content List', 'LIST: List', 'Vec<Value>')
    f.sub('LIST . as_ref ( ) . to_vec ( )', 'list_to_vec(&LIST)', 0).sub('$i:v . reverse ( ) ;', 'vec_reverse(&mut $v);', 0)
    f.ensures(f'r matches Ok(v) && v@ =~= {S}.reverse()')
    enumerate_fn(u)
    f = u.native('LIST', 'JOIN', 'SEP: positional HTML = (), LIST: content Vec<HTML>', 'SEP: HTML, LIST: Vec<HTML>', 'HTML')
    f.sub('LIST . is_empty ( )', 'html_vec_empty(&LIST)', 0).sub('HTML :: from_iter ( $x )', 'html_from_iter($x)', 0).sub('SEP . clone ( )', 'clone_html(&SEP)', 0)
    f.sub('for ( $i:i , $i:v ) in LIST . into_iter ( ) . enumerate ( ) {', 'let mut index: usize = 0; while index < LIST.len() { let $i = index; let $v = clone_html(&LIST[index]); index = index + 1;', 1)
    f.requires('all_normal(LIST@)', 'normal(SEP)', '2 * LIST@.len() < usize::MAX')
    f.ensures('r matches Ok(h) && normal(h) && leaves(h) =~= leaves_of(joined(LIST@, SEP, LIST@.len() as int))')
    f.loop(0, invariant=['0 <= index <= LIST@.len()', 'out@ =~= joined(LIST@, SEP, index as int)'], decreases='LIST@.len() - index')
    f.start('proof { lemma_joined_normal(LIST@, SEP, LIST@.len() as int); if SEP is Empty { lemma_joined_empty(LIST@, LIST@.len() as int); assert(LIST@.take(LIST@.len() as int) =~= LIST@); } assert(normal(HTML::Empty)); }')
    return u

SORT = r"""
/// Characters compare by code point, which for strings agrees with the bytes.
spec fn str_lt(a: Seq<char>, b: Seq<char>, k: nat) -> bool decreases a.len() - k {
    if k >= a.len() { k < b.len() } else { k < b.len() && (a[k as int] < b[k as int] || (a[k as int] == b[k as int] && str_lt(a, b, k + 1))) }
}
spec fn key_lt(a: Value, b: Value) -> bool {
    match (a, b) { (Value::Int(x), Value::Int(y)) => x < y, (Value::Str(x), Value::Str(y)) => str_lt(x@, y@, 0), _ => false }
}
spec fn key_eq(a: Value, b: Value) -> bool {
    match (a, b) { (Value::Int(x), Value::Int(y)) => x == y, (Value::Str(x), Value::Str(y)) => x@ == y@, _ => false }
}
spec fn int_keys(s: Seq<Value>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Int }
spec fn str_keys(s: Seq<Value>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Str }
spec fn permutes(q: Seq<int>, n: int) -> bool {
    &&& q.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] q[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] q[i] != #[trigger] q[j]
}
/// q is the stable order of the keys: up, or down when reversed.
spec fn stable(keys: Seq<Value>, q: Seq<int>, reversed: bool) -> bool {
    permutes(q, keys.len() as int) && forall|i: int, j: int| 0 <= i < j < keys.len() ==>
        (if reversed { key_lt(keys[q[j]], keys[q[i]]) } else { key_lt(keys[q[i]], keys[q[j]]) }) || (key_eq(#[trigger] keys[q[i]], #[trigger] keys[q[j]]) && q[i] < q[j])
}
spec fn arranged<T>(s: Seq<T>, q: Seq<int>, r: Seq<T>) -> bool { r.len() == q.len() && forall|i: int| 0 <= i < r.len() ==> 0 <= q[i] < s.len() && #[trigger] r[i] == s[q[i]] }
spec fn firsts(s: Seq<(Value, Value)>) -> Seq<Value> { s.map_values(|p: (Value, Value)| p.0) }
/// slice::sort_by_key is stable; expect_convert does not fail on such keys.
#[verifier::external_body]
fn sort_by_int(v: &mut Vec<(Value, Value)>) -> (q: Ghost<Seq<int>>)
    requires int_keys(firsts(old(v)@)),
    ensures stable(firsts(old(v)@), q@, false), arranged(old(v)@, q@, final(v)@),
{ unimplemented!() }
#[verifier::external_body]
fn sort_by_str(v: &mut Vec<(Value, Value)>) -> (q: Ghost<Seq<int>>)
    requires str_keys(firsts(old(v)@)),
    ensures stable(firsts(old(v)@), q@, false), arranged(old(v)@, q@, final(v)@),
{ unimplemented!() }
#[verifier::external_body]
fn second_parts(v: Vec<(Value, Value)>) -> (r: Vec<Value>) ensures r@ =~= v@.map_values(|p: (Value, Value)| p.1) { unimplemented!() }
#[verifier::external_body]
fn list_from(v: Vec<Value>) -> (r: List) ensures r.items@ == v@ { unimplemented!() }
#[verifier::external_body]
fn bad_key() -> PapyriError { unimplemented!() }
impl Value {
    /// Proved in C10.
    #[verifier::external_body]
    fn get_type(&self) -> (t: Type) ensures *self is Int ==> t is Int, *self is Str ==> t is Str { unimplemented!() }
}
#[verifier::external_body]
fn ice() -> (r: Ghost<Seq<int>>) requires false { unimplemented!() }
spec fn sortable(k: Value) -> bool { k is Int || k is Str }
/// The keys: the items themselves, or what the callback gives for them.
spec fn keys_are(keys: Seq<Value>, f: Option<Func>, c0: Seq<Call>, c1: Seq<Call>, s: Seq<Value>, k: int) -> bool {
    keys.len() == k && 0 <= k <= s.len() && match f {
        None => c1 == c0 && keys =~= s.take(k),
        Some(f) => called(c0, c1, f, s, k) && forall|i: int| 0 <= i < k ==> (#[trigger] c1[c0.len() + i]).res == Some(keys[i]),
    }
}
/// Some key is neither an int nor a string, or of another type than the first.
spec fn bad_keys(keys: Seq<Value>) -> bool { keys.len() > 0 && (!sortable(keys.last()) || (keys[0] is Int && keys.last() is Str) || (keys[0] is Str && keys.last() is Int)) }
spec fn sorted_as(keys: Seq<Value>, s: Seq<Value>, q: Seq<int>, reversed: bool, r: Seq<Value>) -> bool { stable(keys, q, reversed) && arranged(s, q, r) }
spec fn pairs(keys: Seq<Value>, s: Seq<Value>, k: int) -> Seq<(Value, Value)> { Seq::new(k as nat, |i: int| (keys[i], s[i])) }
proof fn lemma_distinct(q: Seq<int>, n: int, i: int, j: int) requires permutes(q, n), 0 <= i < n, 0 <= j < n, i != j, ensures q[i] != q[j] { if i < j {} else { assert(q[j] != q[i]); } }
/// Sorting the reversed sequence and reversing it again.
proof fn lemma_reversed(keys: Seq<Value>, p: Seq<int>) -> (q: Seq<int>)
    requires stable(keys.reverse(), p, false),
    ensures stable(keys, q, true), q.len() == keys.len(), forall|i: int| 0 <= i < keys.len() ==> q[i] == keys.len() - 1 - p[keys.len() - 1 - i],
{
    let n = keys.len() as int;
    let q = Seq::new(n as nat, |i: int| n - 1 - p[n - 1 - i]);
    assert forall|i: int, j: int| 0 <= i < j < n implies #[trigger] q[i] != #[trigger] q[j] by { lemma_distinct(p, n, n - 1 - i, n - 1 - j); }
    assert forall|i: int, j: int| 0 <= i < j < n implies key_lt(keys[q[j]], keys[q[i]]) || (key_eq(#[trigger] keys[q[i]], #[trigger] keys[q[j]]) && q[i] < q[j]) by {
        let a = n - 1 - j; let b = n - 1 - i;
        assert(keys.reverse()[p[a]] == keys[q[j]]);
        assert(keys.reverse()[p[b]] == keys[q[i]]);
        lemma_eq(keys[q[i]], keys[q[j]]);
    }
    q
}
proof fn lemma_eq(a: Value, b: Value) ensures key_eq(a, b) == key_eq(b, a) {}
spec fn sorts(list: List, f: Option<Func>, reversed: bool, c0: Seq<Call>, c1: Seq<Call>, r: List) -> bool {
    ||| list.items@.len() == 0 && c1 == c0 && r == list
    ||| exists|keys: Seq<Value>, q: Seq<int>| (int_keys(keys) || str_keys(keys)) && keys_are(keys, f, c0, c1, list.items@, list.items@.len() as int) && #[trigger] sorted_as(keys, list.items@, q, reversed, r.items@)
}
"""


def sorting():
    u = Unit('sorting')
    world(u)
    u.text(LEAVES_VALUE + SPEC + SORT + 'impl Compiler {')
    f = u.fn('src/compiler/native.rs', 'native_sorted_impl', impl=r"^impl < 'a > Compiler < 'a >$")
    f.sub('for $i:v in list . as_ref ( ) . iter ( ) . cloned ( ) {', 'for v_ref in list.as_ref().iter() { let $v = clone_value(v_ref);', 1)
    f.sub('key_func . as_ref ( ) . map_or_else ( | | $a , | $i:f | $b , ) ?', '(match &key_func { None => $a, Some($f) => $b })?', 1)
    f.sub('self . eval_callback :: < Value > ( $a , $b , $c )', 'self.eval_value($a, $b, $c)', 0)
    f.sub('f . clone ( )', 'clone_func(f)', 0).sub('v . clone ( )', 'clone_value(&v)', 0)
    f.sub('let e = errors :: TypeError :: $e ; return Err ( e . into ( ) ) ;', 'return Err(bad_key());', 2)
    f.sub('decorated . reverse ( ) ;', 'vec_reverse(&mut decorated);', 0).sub('undecorated . reverse ( ) ;', 'vec_reverse(&mut undecorated);', 0)
    f.sub('match decorated . first ( ) . unwrap ( ) . 0 { $x }', 'let order: Ghost<Seq<int>> = match &decorated[0].0 { $x };', 1)
    f.sub('decorated . sort_by_key ( | p | p . 0 . clone ( ) . expect_convert :: < Int > ( ) )', 'sort_by_int(&mut decorated)', 1)
    f.sub('decorated . sort_by_key ( | p | p . 0 . clone ( ) . expect_convert :: < RcStr > ( ) )', 'sort_by_str(&mut decorated)', 1)
    f.sub('self . ice_at ( $x )', 'ice()', 1).sub('errors :: PapyriResult', 'PapyriResult', 0)
    f.sub('decorated . into_iter ( ) . map ( | p | p . 1 ) . collect ( )', 'second_parts(decorated)', 1)
    f.sub('Ok ( undecorated . into ( ) )', 'let sorted_list = list_from(undecorated); Ok(sorted_list)', 1)
    S = 'list.items@'
    C0, C1 = 'old(self).calls@', 'final(self).calls@'
    f.ensures(
        f'r matches Ok(l) ==> sorts(list, key_func, reversed, {C0}, {C1}, l)',
        f'r is Err ==> (key_func matches Some(f) && failed_at({C0}, {C1}, f, {S})) || (exists|keys: Seq<Value>| #[trigger] bad_keys(keys) && keys_are(keys, key_func, {C0}, {C1}, {S}, keys.len() as int))')
    f.loop(0, it='it', invariant=[
        f'it.seq() =~= {S}.map_values(|v: Value| &v)', f'keys_are(keys, key_func, {C0}, self.calls@, {S}, it.index@ as int)',
        'decorated@ =~= pairs(keys, list.items@, it.index@ as int)', 'it.index@ == 0 ==> key_type is Unit',
        'it.index@ > 0 ==> (key_type is Int && int_keys(keys)) || (key_type is Str && str_keys(keys))'])
    f.before('for $i:v in list', 'let ghost mut keys = Seq::<Value>::empty(); proof { assert(list.items@.take(0) =~= keys); }')
    f.loop_start(0, 'let ghost before = self.calls@; let ghost n = it.index@ as int; proof { assert forall|c: Call| #[trigger] before.push(c).drop_last() == before by { assert(before.push(c).drop_last() =~= before); } assert(list.items@.take(n + 1) =~= list.items@.take(n).push(list.items@[n])); }')
    f.before('if ! matches', 'proof { keys = keys.push(k); assert(keys.last() == k); assert(n > 0 ==> keys[0] == keys.drop_last()[0]); }')
    f.before('return Err ( bad_key ( ) ) ;', 'proof { assert(bad_keys(keys)); assert(keys_are(keys, key_func, old(self).calls@, self.calls@, list.items@, keys.len() as int)); }', 0)
    f.before('return Err ( bad_key ( ) ) ;', 'proof { assert(bad_keys(keys)); assert(keys_are(keys, key_func, old(self).calls@, self.calls@, list.items@, keys.len() as int)); }', 1)
    f.before('if reversed {', 'let ghost straight = decorated@; proof { assert(firsts(straight) =~= keys); assert(firsts(straight.reverse()) =~= keys.reverse()); }', 0)
    f.before('Ok ( sorted_list )', 'proof { assert(int_keys(keys) || str_keys(keys)); assert(keys_are(keys, key_func, old(self).calls@, self.calls@, list.items@, list.items@.len() as int)); if reversed { let q = lemma_reversed(keys, order@); assert(sorted_as(keys, list.items@, q, reversed, sorted_list.items@)); } else { assert(sorted_as(keys, list.items@, order@, reversed, sorted_list.items@)); } assert(sorts(list, key_func, reversed, old(self).calls@, self.calls@, sorted_list)); }')
    u.text('}')
    return u

UNITS = [list_functions, sorting]

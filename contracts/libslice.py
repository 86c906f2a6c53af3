"""Slices of lists: the extracted type and its invariant."""
SR = 'src/utils/sliceref.rs'

SPEC = r'''
/// The items of a slice.
spec fn wf_slice<T>(s: SliceRef<T>) -> bool { s.a <= s.b && s.b as int <= s.original@.len() && s.original@.len() <= u32::MAX }
spec fn items_of<T>(s: SliceRef<T>) -> Seq<T> { s.original@.subrange(s.a as int, s.b as int) }
#[verifier::external_body]
fn rc_clone<T>(r: &Rc<[T]>) -> (c: Rc<[T]>) ensures c@ == r@ { r.clone() }
#[verifier::external_body]
fn rc_len<T>(r: &Rc<[T]>) -> (n: usize) ensures n as int == r@.len() { r.len() }
#[verifier::external_body]
fn rc_at<T>(r: &Rc<[T]>, i: usize) -> (x: &T) requires (i as int) < r@.len() ensures *x == r@[i as int] { &r[i] }
#[verifier::external_body]
fn rc_range<T>(r: &Rc<[T]>, a: usize, b: usize) -> (x: &[T]) requires a <= b, (b as int) <= r@.len() ensures x@ == r@.subrange(a as int, b as int) { &r[a..b] }
/// Item by item, by the equality of the items.
uninterp spec fn equal_item<T>(a: T, b: T) -> bool;
spec fn equal_items<T>(a: Seq<T>, b: Seq<T>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> equal_item(#[trigger] a[i], b[i]) }
#[verifier::external_body]
fn same_items<T>(a: &[T], b: &[T]) -> (r: bool) ensures r == equal_items(a@, b@) { unimplemented!() }
/// The same allocation.
#[verifier::external_body]
fn rc_same<T>(a: &Rc<[T]>, b: &Rc<[T]>) -> (r: bool) ensures r ==> a@ == b@ { Rc::ptr_eq(a, b) }
#[verifier::external_body]
fn ice<T>() -> (r: T) requires false { unimplemented!() }
'''


def slices(u, equality=False):
    u.item(SR, 'struct', 'SliceRef')
    u.text(SPEC)
    f = u.fn(SR, 'from', impl=r'^impl < S , T > From < S > for SliceRef < T >')
    f.sub('fn from ( original : S ) -> SliceRef < T >', 'fn slice_from<T>(original: Rc<[T]>) -> SliceRef<T>', 1)
    f.emit_name = 'slice_from'
    f.sub('Rc :: from ( original )', 'original', 1).sub('original . len ( )', 'rc_len(&original)', 0)
    f.requires('original@.len() <= u32::MAX').ensures('wf_slice(r)', 'items_of(r) =~= original@')
    f = u.fn(SR, 'as_ref', impl=r'^impl < T > AsRef < \[ T \] > for SliceRef < T >')
    u.parts.pop()
    u.text('impl<T> SliceRef<T> {')
    u.parts.append(f)
    f.sub('& self . original [ $a . . $b ]', 'rc_range(&self.original, $a, $b)', 1)
    f.requires('wf_slice(*self)').ensures('r@ == items_of(*self)')
    I = '^impl < T > SliceRef < T >$'
    f = u.fn(SR, 'get', impl=I)
    f.sub('& self . original [ $a ]', 'rc_at(&self.original, $a)', 1)
    f.requires('wf_slice(*self)', '(i as int) < items_of(*self).len()').ensures('*r == items_of(*self)[i as int]')
    f = u.fn(SR, 'is_empty', impl=I)
    f.requires('wf_slice(*self)').ensures('r == (items_of(*self).len() == 0)')
    f = u.fn(SR, 'len', impl=I)
    f.requires('wf_slice(*self)').ensures('r as int == items_of(*self).len()', 'r <= u32::MAX')
    f = u.fn(SR, 'slice', impl=I)
    f.sub('errors :: ice ( $x ) ;', 'return ice();', 0).sub('self . original . len ( )', 'rc_len(&self.original)', 0).sub('self . original . clone ( )', 'rc_clone(&self.original)', 0)
    f.requires('wf_slice(*self)', 'a <= b', 'b as int <= items_of(*self).len()').ensures('wf_slice(r)', 'items_of(r) =~= items_of(*self).subrange(a as int, b as int)', 'r.original@ == self.original@')
    if equality:
        f = u.fn(SR, 'eq', impl=r'^impl < T : PartialEq > PartialEq for SliceRef < T >')
        f.sub('Rc :: ptr_eq ( $a , $b )', 'rc_same($a, $b)', 0).sub('self . as_ref ( ) == other . as_ref ( )', 'same_items(self.as_ref(), other.as_ref())', 0)
        f.requires('wf_slice(*self)', 'wf_slice(*other)').ensures('r == equal_items(items_of(*self), items_of(*other))')
    u.text('}')

"""C19: variables follow lexical scope."""
from vx import Unit

FR = 'src/compiler/frame.rs'
FN = 'src/compiler/func.rs'
AST = 'src/parser/ast.rs'
COMP = "^impl < 'a > Compiler < 'a >$"

TYPES = r'''
use std::rc::Rc;
type NameID = u32;
#[derive(Clone, Copy)]
struct SourceRange { x: u32 }
#[verifier::external_body] struct Value { x: u64 }
#[verifier::external_body] struct Expr { x: u64 }
#[verifier::external_body] struct Type { x: u64 }
#[verifier::external_body] struct Signature { x: u64 }
#[verifier::external_body] struct RcFuncSignature { x: u64 }
#[verifier::external_body] struct PartialParams { x: u64 }
#[verifier::external_body] #[derive(Clone, Copy)] struct NativeFunc { x: u64 }
#[verifier::external_body] struct Name { x: u64 }
#[verifier::external_body] struct State { x: u64 }
/// NameIDMap<Value>.
#[verifier::external_body] struct Dict { x: u64 }
#[verifier::external_body] struct NameIDSet { x: u64 }
impl View for Dict { type V = Map<NameID, Value>; uninterp spec fn view(&self) -> Map<NameID, Value>; }
impl View for NameIDSet { type V = Set<NameID>; uninterp spec fn view(&self) -> Set<NameID>; }
impl Dict {
    #[verifier::external_body]
    fn default() -> (r: Dict) ensures r@ == Map::<NameID, Value>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, k: &NameID) -> (r: Option<&Value>) ensures match r { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) } { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &NameID) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: NameID, v: Value) -> (r: Option<Value>) ensures (r is Some) == old(self)@.dom().contains(k), final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &NameID) -> (r: Option<Value>) ensures (r is Some) == old(self)@.dom().contains(*k), final(self)@ == old(self)@.remove(*k) { unimplemented!() }
}
impl NameIDSet {
    #[verifier::external_body]
    fn default() -> (r: NameIDSet) ensures r@ == Set::<NameID>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, k: &NameID) -> (r: bool) ensures r == self@.contains(*k) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: NameID) -> (r: bool) ensures r == !old(self)@.contains(k), final(self)@ == old(self)@.insert(k) { unimplemented!() }
    #[verifier::external_body]
    fn remove(&mut self, k: &NameID) -> (r: bool) ensures r == old(self)@.contains(*k), final(self)@ == old(self)@.remove(*k) { unimplemented!() }
}
#[verifier::external_body]
fn clone_value(v: &Value) -> (r: Value) ensures r == *v { unimplemented!() }
#[verifier::external_body]
fn clone_func(f: &Func) -> (r: Func) ensures r == *f { unimplemented!() }
#[verifier::external_body]
fn rc_expr(e: &Rc<Expr>) -> (r: Rc<Expr>) ensures r == *e { unimplemented!() }
#[verifier::external_body]
fn opt_value(v: Option<&Value>) -> (r: Option<Value>) ensures match v { Some(v) => r == Some(*v), None => r is None } { unimplemented!() }
/// Rc<RefCell<Frame>>: which frame of the heap it points to.
#[derive(Clone, Copy)]
struct FrameRef { id: Ghost<int> }
'''

SPEC = r'''
/// A frame: the frame around it, the variables declared in it, and those declared implicit.
ghost struct Scope { parent: Option<int>, locals: Map<NameID, Value>, implicit: Set<NameID> }
/// A frame of the call stack: which one it is, and the call it belongs to.
ghost struct Act { frame: int, call: Option<(Func, SourceRange)> }
ghost struct World { stack: Seq<Act>, heap: Seq<Scope>, st: State }
spec fn scope(f: Frame) -> Scope { Scope { parent: match f.lexical_parent { Some(p) => Some(p.f.id@), None => None }, locals: f.locals@, implicit: f.implicit@ } }
spec fn act(f: ActiveFrame) -> Act { Act { frame: f.f.id@, call: f.call } }
/// Frames are around frames made later.
spec fn wf_heap(h: Seq<Scope>) -> bool { forall|i: int| 0 <= i < h.len() ==> ((#[trigger] h[i]).parent matches Some(p) ==> 0 <= p < i) }
spec fn wf(w: World) -> bool { wf_heap(w.heap) && w.stack.len() > 0 && forall|i: int| 0 <= i < w.stack.len() ==> 0 <= (#[trigger] w.stack[i]).frame < w.heap.len() }
/// Whether a frame declares a variable, and if need be declares it implicit.
spec fn declares(s: Scope, n: NameID, implicit: bool) -> bool { s.locals.dom().contains(n) && (implicit ==> s.implicit.contains(n)) }
/// The value of a variable seen from a frame: that of the innermost frame around it which declares it.
spec fn lookup(h: Seq<Scope>, i: int, n: NameID, implicit: bool) -> Option<Value> decreases i {
    if i < 0 || i >= h.len() { None } else if declares(h[i], n, implicit) { Some(h[i].locals[n]) } else {
        match h[i].parent { Some(p) => if 0 <= p < i { lookup(h, p, n, implicit) } else { None }, None => None }
    }
}
spec fn bind(h: Seq<Scope>, i: int, n: NameID, v: Value, implicit: bool) -> Seq<Scope> {
    h.update(i, Scope { locals: h[i].locals.insert(n, v), implicit: if implicit { h[i].implicit.insert(n) } else { h[i].implicit }, ..h[i] })
}
spec fn unbind(h: Seq<Scope>, i: int, ns: Seq<NameID>) -> Seq<Scope> decreases ns.len() {
    if ns.len() == 0 { h } else { let g = unbind(h, i, ns.drop_last()); g.update(i, Scope { locals: g[i].locals.remove(ns.last()), implicit: g[i].implicit.remove(ns.last()), ..g[i] }) }
}
spec fn fill(h: Seq<Scope>, i: int, ns: Seq<NameID>, v: Value) -> Seq<Scope> decreases ns.len() {
    if ns.len() == 0 { h } else { let g = fill(h, i, ns.drop_last(), v); if g[i].locals.dom().contains(ns.last()) { g } else { bind(g, i, ns.last(), v, false) } }
}
spec fn top(w: World) -> int { w.stack.last().frame }
/// Evaluating an expression: its value if it has one, and the world after it.
uninterp spec fn eval(x: Expr, hint: Type, w: World) -> (Option<Value>, World);
uninterp spec fn native(f: NativeFunc, b: Map<NameID, Value>, hint: Type, r: SourceRange, w: World) -> (Option<Value>, World);
/// Frames are kept, and stay inside the same frames.
spec fn grows(a: Seq<Scope>, b: Seq<Scope>) -> bool { a.len() <= b.len() && forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).parent == a[i].parent }
/// The frame f is pushed, and popped when the result is there.
spec fn enter(w: World, a: Act, s: Scope) -> World { World { stack: w.stack.push(Act { frame: w.heap.len() as int, ..a }), heap: w.heap.push(s), st: w.st } }
spec fn leave<T>(r: (T, World)) -> (T, World) { (r.0, World { stack: r.1.stack.drop_last(), ..r.1 }) }
spec fn empty_in(p: int) -> Scope { Scope { parent: Some(p), locals: Map::empty(), implicit: Set::empty() } }
/// Calling a function: its body is evaluated where the function was defined, with its parameters.
spec fn called(f: Func, b: Map<NameID, Value>, hint: Type, r: SourceRange, w: World) -> (Option<Value>, World) decreases f {
    match f {
        Func::NonNative(g) => leave(eval(*g.body, hint, enter(w, Act { frame: 0, call: Some((f, r)) }, Scope { parent: Some(g.closure.f.id@), locals: b, implicit: Set::empty() }))),
        Func::Native(g, _, _) => native(g, b, hint, r, w),
        Func::Bound(g) => called(g.0, b, hint, r, w),
    }
}
spec fn closed(f: Func, h: Seq<Scope>) -> bool decreases f {
    match f { Func::NonNative(g) => 0 <= g.closure.f.id@ < h.len(), Func::Native(..) => true, Func::Bound(g) => closed(g.0, h) }
}
/// The variables of a @let from the k-th, one after the other, each seeing those before; then the body.
spec fn let_from(l: LetIn, k: int, hint: Type, w: World) -> (Option<Value>, World) decreases l.vars@.len() - k {
    if k < 0 || k >= l.vars@.len() { eval(l.child, hint, w) } else {
        let r = eval(l.vars@[k].1, any(), w);
        match r.0 { None => (None, r.1), Some(v) => let_from(l, k + 1, hint, World { heap: bind(r.1.heap, top(r.1), l.vars@[k].0, v, l.is_implicit), ..r.1 }) }
    }
}
uninterp spec fn any() -> Type;
'''

SHIMS = r'''
#[verifier::external_body] struct Heap { x: u64 }
impl View for Heap { type V = Seq<Scope>; uninterp spec fn view(&self) -> Seq<Scope>; }
/// Rc and RefCell: reading, writing and making frames.
impl Heap {
    #[verifier::external_body]
    fn borrow(&self, r: FrameRef) -> (f: &Frame) requires 0 <= r.id@ < self@.len() ensures scope(*f) == self@[r.id@] { unimplemented!() }
    #[verifier::external_body]
    fn borrow_mut(&mut self, r: FrameRef) -> (f: &mut Frame) requires 0 <= r.id@ < old(self)@.len() ensures scope(*f) == old(self)@[r.id@], final(self)@ == old(self)@.update(r.id@, scope(*final(f))) { unimplemented!() }
    #[verifier::external_body]
    fn alloc(&mut self, f: Frame) -> (r: FrameRef) ensures r.id@ == old(self)@.len(), final(self)@ == old(self)@.push(scope(f)) { unimplemented!() }
}
enum Error { NoSuchVariable(Name), ParamExistsButNotImplicit(Name), ParamMissingImplicit(Name) }
#[verifier::external_body] struct AlreadyReported { x: u64 }
type Reported<T> = Result<T, AlreadyReported>;
type PapyriResult<T> = Result<T, Error>;
struct Compiler { call_stack: Vec<ActiveFrame>, heap: Heap, st: Ghost<State> }
impl Compiler { spec fn view(&self) -> World { World { stack: self.call_stack@.map_values(|f: ActiveFrame| act(f)), heap: self.heap@, st: self.st@ } } }
struct ModuleCache { stdlib: Option<InactiveFrame> }
struct Context { module_cache: ModuleCache, natives_frame: InactiveFrame, heap: Heap }
/// A result, as far as the world is concerned.
spec fn value_of<E>(r: Result<Value, E>) -> Option<Value> { match r { Ok(v) => Some(v), Err(_) => None } }
impl Compiler {
    /// Evaluating leaves the call stack as it was, and keeps frames.
    #[verifier::external_body]
    fn evaluate_node(&mut self, x: &Expr, hint: &Type) -> (r: Reported<Value>) requires wf(old(self)@)
        ensures (value_of(r), final(self)@) == eval(*x, *hint, old(self)@), wf(final(self)@), final(self).call_stack@ == old(self).call_stack@, grows(old(self)@.heap, final(self)@.heap) { unimplemented!() }
    #[verifier::external_body]
    fn native_call(&mut self, f: NativeFunc, b: Dict, hint: &Type, range: SourceRange) -> (r: Reported<Value>) requires wf(old(self)@)
        ensures (value_of(r), final(self)@) == native(f, b@, *hint, range, old(self)@), wf(final(self)@), final(self).call_stack@ == old(self).call_stack@, grows(old(self)@.heap, final(self)@.heap) { unimplemented!() }
    #[verifier::external_body]
    fn compile_func_signature(&mut self, s: &Signature) -> (r: RcFuncSignature) requires wf(old(self)@) ensures wf(final(self)@), final(self).call_stack@ == old(self).call_stack@, grows(old(self)@.heap, final(self)@.heap) { unimplemented!() }
    #[verifier::external_body]
    fn get_name(&self, n: NameID) -> Name { unimplemented!() }
    #[verifier::external_body]
    fn report_declared(&mut self, n: Name, r: SourceRange) ensures final(self)@ == old(self)@, final(self).call_stack@ == old(self).call_stack@ { unimplemented!() }
    #[verifier::external_body]
    fn export(&mut self, n: NameID, v: Value, r: SourceRange) ensures final(self)@ == old(self)@, final(self).call_stack@ == old(self).call_stack@ { unimplemented!() }
}
impl Expr { #[verifier::external_body] fn range(&self) -> SourceRange { unimplemented!() } }
#[verifier::external_body]
fn any_type() -> (r: &'static Type) ensures *r == any() { unimplemented!() }
#[verifier::external_body]
fn or_value(a: Option<Value>, b: Option<Value>) -> (r: Option<Value>) ensures r == (if a is Some { a } else { b }) { unimplemented!() }
'''

LEMMAS = r'''
/// The frames around a frame, innermost first.
spec fn around(h: Seq<Scope>, i: int) -> Seq<int> decreases i {
    if i < 0 || i >= h.len() { Seq::empty() } else { seq![i] + (match h[i].parent { Some(p) => if 0 <= p < i { around(h, p) } else { Seq::empty() }, None => Seq::empty() }) }
}
/// A variable is that of the innermost frame around which declares it.
proof fn lemma_innermost(h: Seq<Scope>, i: int, n: NameID, implicit: bool)
    ensures
        lookup(h, i, n, implicit) matches Some(v) ==> exists|k: int| 0 <= k < around(h, i).len() && declares(h[#[trigger] around(h, i)[k]], n, implicit) && h[around(h, i)[k]].locals[n] == v && forall|j: int| 0 <= j < k ==> !declares(h[#[trigger] around(h, i)[j]], n, implicit),
        lookup(h, i, n, implicit) is None ==> forall|k: int| 0 <= k < around(h, i).len() ==> !declares(h[#[trigger] around(h, i)[k]], n, implicit),
    decreases i,
{
    if 0 <= i < h.len() {
        let s = around(h, i);
        if declares(h[i], n, implicit) { assert(s[0] == i); } else {
            assert(s[0] == i);
            if let Some(p) = h[i].parent { if 0 <= p < i {
                lemma_innermost(h, p, n, implicit);
                let t = around(h, p);
                assert(s =~= seq![i] + t);
                if let Some(v) = lookup(h, p, n, implicit) {
                    let k = choose|k: int| 0 <= k < t.len() && declares(h[#[trigger] t[k]], n, implicit) && h[t[k]].locals[n] == v && forall|j: int| 0 <= j < k ==> !declares(h[#[trigger] t[j]], n, implicit);
                    assert(s[k + 1] == t[k]);
                    assert forall|j: int| 0 <= j < k + 1 implies !declares(h[#[trigger] s[j]], n, implicit) by { if j > 0 { assert(s[j] == t[j - 1]); } }
                } else {
                    assert forall|j: int| 0 <= j < s.len() implies !declares(h[#[trigger] s[j]], n, implicit) by { if j > 0 { assert(s[j] == t[j - 1]); } }
                }
            } }
        }
    }
}
/// Declaring variables in a frame which is not around, and making frames, changes nothing that is seen.
proof fn lemma_elsewhere(h: Seq<Scope>, g: Seq<Scope>, i: int, n: NameID, implicit: bool)
    requires 0 <= i < h.len() <= g.len(), wf_heap(h), forall|k: int| 0 <= k < around(h, i).len() ==> h[#[trigger] around(h, i)[k]] == g[around(h, i)[k]],
    ensures lookup(h, i, n, implicit) == lookup(g, i, n, implicit),
    decreases i,
{
    let s = around(h, i);
    assert(s[0] == i);
    if let Some(p) = h[i].parent { if 0 <= p < i {
        let t = around(h, p);
        assert(s =~= seq![i] + t);
        assert forall|k: int| 0 <= k < t.len() implies h[#[trigger] t[k]] == g[t[k]] by { assert(s[k + 1] == t[k]); }
        lemma_elsewhere(h, g, p, n, implicit);
    } }
}
/// What a function sees: its parameters, and otherwise what is seen where it was defined, whatever the call stack.
proof fn lemma_call(h: Seq<Scope>, c: int, b: Map<NameID, Value>, n: NameID)
    requires wf_heap(h), 0 <= c < h.len(),
    ensures ({ let g = h.push(Scope { parent: Some(c), locals: b, implicit: Set::empty() });
        lookup(g, h.len() as int, n, false) == (if b.dom().contains(n) { Some(b[n]) } else { lookup(h, c, n, false) }) && lookup(g, h.len() as int, n, true) == lookup(h, c, n, true) && wf_heap(g) }),
{
    let g = h.push(Scope { parent: Some(c), locals: b, implicit: Set::empty() });
    lemma_in(h, c);
    lemma_elsewhere(h, g, c, n, false);
    lemma_elsewhere(h, g, c, n, true);
}
proof fn lemma_in(h: Seq<Scope>, i: int)
    ensures forall|k: int| 0 <= k < around(h, i).len() ==> 0 <= #[trigger] around(h, i)[k] < h.len(),
    decreases i,
{
    if 0 <= i < h.len() { if let Some(p) = h[i].parent { if 0 <= p < i { lemma_in(h, p); let s = around(h, i); let t = around(h, p); assert forall|k: int| 0 <= k < s.len() implies 0 <= #[trigger] s[k] < h.len() by { if k > 0 { assert(s[k] == t[k - 1]); } } } } }
}
/// A frame which was made inside another one and left is not around anything made before.
proof fn lemma_left(h: Seq<Scope>, i: int, f: int)
    requires wf_heap(h), 0 <= i < f < h.len(),
    ensures !around(h, i).contains(f),
    decreases i,
{
    let s = around(h, i);
    if let Some(p) = h[i].parent { lemma_left(h, p, f); let t = around(h, p); if s.contains(f) { let k = choose|k: int| 0 <= k < s.len() && s[k] == f; assert(t[k - 1] == f); } }
}
'''
HEAPS = [('Rc < RefCell < Frame > >', 'FrameRef'), ('Rc :: new ( RefCell :: new ( Frame { $x } ) )', 'heap.alloc(Frame { $x })'),
         ('self . f . clone ( )', 'self.f'), ('self . clone ( )', 'InactiveFrame { f: self.f }')]


def frames(name):
    """Looking up, declaring and removing variables of a frame."""
    u = Unit(name)
    u.text(TYPES)
    for n in ('ActiveFrame', 'InactiveFrame', 'Frame'):
        u.item(FR, 'struct', n, subs=[('Rc < RefCell < Frame > >', 'FrameRef')] if n != 'Frame' else [])
    u.item(FN, 'enum', 'Func')
    u.item(FN, 'struct', 'NonNativeFunc', subs=[('ast :: ', '')])
    u.item(AST, 'struct', 'LetIn')
    u.item(AST, 'struct', 'FuncDef')
    u.text(SPEC + SHIMS + LEMMAS + 'impl Frame {')
    f = u.fn(FR, 'get', impl='^impl Frame$')
    f.sub('& self , name_id', '&self, heap: &Heap, name_id', 1)
    f.sub('( $c ) . then ( | | $x ) . flatten ( )', 'if $c { $x } else { None }', 0)
    f.sub('$i:r . clone ( )', 'clone_value($r)', 0)
    f.sub('self . lexical_parent . as_ref ( ) ? . f . borrow ( ) . get (', 'heap.borrow((match &self.lexical_parent { Some(p) => p, None => { return None; } }).f).get(heap, ', 0)
    f.requires('wf_heap(heap@)', 'scope(*self).parent matches Some(p) ==> 0 <= p < heap@.len()')
    f.ensures('r == (if declares(scope(*self), name_id, require_implicit) { Some(self.locals@[name_id]) } else { match scope(*self).parent { Some(p) => lookup(heap@, p, name_id, require_implicit), None => None } })')
    f.decreases('match scope(*self).parent { Some(p) => p + 1, None => 0 }')
    f = u.fn(FR, 'has', impl='^impl Frame$')
    f.ensures('r == self.locals@.dom().contains(name_id)')
    f = u.fn(FR, 'set', impl='^impl Frame$')
    f.ensures('r == old(self).locals@.dom().contains(name_id)', 'scope(*final(self)) == (Scope { locals: old(self).locals@.insert(name_id, value), ..scope(*old(self)) })')
    f = u.fn(FR, 'unset', impl='^impl Frame$')
    f.ensures('scope(*final(self)) == (Scope { locals: old(self).locals@.remove(name_id), implicit: old(self).implicit@.remove(name_id), ..scope(*old(self)) })')
    u.text('} impl ActiveFrame {')
    u.default_subs = HEAPS
    AF = '^impl ActiveFrame$'
    f = u.fn(FR, 'new', impl=AF)
    f.sub('new ( lexical_parent', 'new(heap: &mut Heap, lexical_parent', 1)
    NEW = 'Scope { parent: %s, locals: %s, implicit: Set::empty() }'
    f.ensures('act(r) == (Act { frame: old(heap)@.len() as int, call })', f"final(heap)@ == old(heap)@.push({NEW % ('match lexical_parent { Some(p) => Some(p.f.id@), None => None }', 'locals@')})")
    f = u.fn(FR, 'to_inactive', impl=AF)
    f.ensures('r.f.id@ == self.f.id@')
    VALID = ['wf_heap(%s@)', '0 <= self.f.id@ < %s@.len()']
    f = u.fn(FR, 'get', impl=AF)
    f.sub('& self ,', '&self, heap: &Heap, ', 1).sub('self . f . as_ref ( ) . borrow ( )', 'heap.borrow(self.f)', 0).sub('f . get (', 'f.get(heap, ', 0)
    f.requires(*[v % 'heap' for v in VALID]).ensures('r == lookup(heap@, self.f.id@, name_id, require_implicit)')
    for n in ('set', 'unset_all', 'set_all_if_not_present'):
        f = u.fn(FR, n, impl=AF)
        f.sub('& self ,', '&self, heap: &mut Heap, ', 1).sub('self . f . as_ref ( ) . borrow_mut ( )', 'heap.borrow_mut(self.f)', 0)
        f.requires(*[v % 'old(heap)' for v in VALID])
        if n == 'set':
            f.ensures('r == old(heap)@[self.f.id@].locals.dom().contains(name_id)', 'final(heap)@ == bind(old(heap)@, self.f.id@, name_id, value, implicit)')
        else:
            f.sub('for & $i:k in name_ids . iter ( ) {', 'let mut at: usize = 0; while at < name_ids.len() { let $k = name_ids[at]; at += 1;', 0)
            f.sub('value . clone ( )', 'clone_value(&value)', 0)
            fun = 'unbind(h0, self.f.id@, name_ids@%s)' if n == 'unset_all' else 'fill(h0, self.f.id@, name_ids@%s, value)'
            f.ensures('final(heap)@ =~= ' + fun.replace('h0', 'old(heap)@') % '')
            f.start('let ghost h0 = heap@;')
            f.loop(0, invariant=['at <= name_ids@.len()', '0 <= self.f.id@ < h0.len()', fun % '.take(at as int)' + '.len() == h0.len()', 'h0.update(self.f.id@, scope(*f)) =~= ' + fun % '.take(at as int)'], decreases='name_ids@.len() - at')
            f.before('while at < name_ids', 'proof { assert(name_ids@.take(0) =~= Seq::empty()); assert(h0.update(self.f.id@, h0[self.f.id@]) =~= h0); } let ghost s0 = scope(*f);')
            f.loop_start(0, 'proof { assert(name_ids@.take(at + 1).drop_last() =~= name_ids@.take(at as int)); }')
            f.end('proof { assert(name_ids@.take(name_ids@.len() as int) =~= name_ids@); }')
    return u


def lexical():
    u = frames('scopes')
    NEW = 'Scope { parent: %s, locals: %s, implicit: Set::empty() }'
    u.text('} impl InactiveFrame {')
    f = u.fn(FR, 'new_child_frame', impl='^impl InactiveFrame$')
    f.sub('& self ,', '&self, heap: &mut Heap, ', 1).sub('ActiveFrame :: new (', 'ActiveFrame::new(heap, ', 0)
    f.ensures('act(r) == (Act { frame: old(heap)@.len() as int, call: Some((func, call_range)) })', f"final(heap)@ == old(heap)@.push({NEW % ('Some(self.f.id@)', 'locals@')})")
    f = u.fn(FR, 'new_empty_child_frame', impl='^impl InactiveFrame$')
    f.sub('& self )', '&self, heap: &mut Heap)', 1).sub('ActiveFrame :: new (', 'ActiveFrame::new(heap, ', 0)
    f.ensures('act(r) == (Act { frame: old(heap)@.len() as int, call: None })', "final(heap)@ == old(heap)@.push(empty_in(self.f.id@))")
    u.text('} impl Context {')
    f = u.fn('src/compiler/module_loader.rs', 'get_initial_frame', impl='^impl Context$')
    f.sub('& self )', '&mut self)', 1).sub('self . module_cache . stdlib . as_ref ( ) . unwrap_or ( & self . natives_frame )', '(match &self.module_cache.stdlib { Some(s) => s, None => &self.natives_frame })', 0)
    f.sub('new_empty_child_frame ( )', 'new_empty_child_frame(&mut self.heap)', 0)
    f.ensures('r.f.id@ == old(self).heap@.len()', 'r.call is None', 'final(self).heap@ == old(self).heap@.push(empty_in(match old(self).module_cache.stdlib { Some(s) => s.f.id@, None => old(self).natives_frame.f.id@ }))')
    u.text('} impl Compiler {')
    u.default_subs = [('errors :: NameError :: $i:k ( $i:n ) . into ( )', 'Error::$k($n)'), ('errors :: RuntimeError :: $i:k ( $i:n )', 'Error::$k($n)'), ('} . into ( )', '}'), ('errors :: ', ''), ('ast :: ', ''),
                      ('self . frame ( ) . get (', 'self.frame().get(&self.heap, '), ('$i:s . frame ( ) . set (', '$s.call_stack[$s.call_stack.len() - 1].set(&mut $s.heap, '), ('& Type :: Any', 'any_type()'),
                      ('let frame = self . frame ( ) . to_inactive ( ) . new_empty_child_frame ( ) ;', 'let inner = self.frame().to_inactive(); let frame = inner.new_empty_child_frame(&mut self.heap);')]
    f = u.fn(FR, 'frame', impl=COMP)
    f.requires('self.call_stack@.len() > 0').ensures('*r == self.call_stack@.last()')
    f = u.fn(FR, 'get_var', impl=COMP)
    f.sub('self . frame ( ) . get ( $x ) . ok_or_else ( | | { $body } )', 'match self.frame().get($x) { Some(v) => Ok(v), None => Err({ $body }) }', 0)
    f.requires('wf(old(self)@)').ensures('final(self)@ == old(self)@', 'value_of(r) == lookup(old(self)@.heap, top(old(self)@), name_id, false)', 'r matches Err(e) ==> e is NoSuchVariable')
    f = u.fn(FR, 'get_implicit', impl=COMP)
    f.sub('self . frame ( ) . get ( $x ) . or ( $d ) . ok_or_else ( | | { $body } )', 'match or_value(self.frame().get($x), $d) { Some(v) => Ok(v), None => Err({ $body }) }', 0)
    f.requires('wf(old(self)@)').ensures('final(self)@ == old(self)@', '''({ let w = old(self)@; match lookup(w.heap, top(w), name_id, true) { Some(v) => r == PapyriResult::<Value>::Ok(v), None => match default_value { Some(v) => r == PapyriResult::<Value>::Ok(v),
        None => r matches Err(e) && (if lookup(w.heap, top(w), name_id, false) is Some { e is ParamExistsButNotImplicit } else { e is ParamMissingImplicit }) } } })''')
    f = u.fn(FR, 'set_var', impl=COMP)
    f.sub('let name = self . get_name ( $x ) ; self . report_static ( errors :: Warning :: NameAlreadyDeclared ( $n ) , $r ) ;', 'let name = self.get_name($x); self.report_declared(name, $r);', 0)
    f.sub('report_static ( Warning :: NameAlreadyDeclared ( $n ) , $r )', 'report_declared($n, $r)', 0)
    f.requires('wf(old(self)@)').ensures('final(self)@ == (World { heap: bind(old(self)@.heap, top(old(self)@), name_id, value, implicit), ..old(self)@ })', 'final(self).call_stack@ == old(self).call_stack@')
    f = u.fn(FR, 'evaluate_in_frame', impl=COMP)
    f.sub('evaluate_in_frame < T > (', 'evaluate_in_frame<T, F: FnOnce(&mut Compiler) -> T>(', 1).sub('f : impl FnOnce ( & mut Compiler ) -> T', 'f: F', 1)
    f.before('result }', 'proof { assert(old(self)@.stack.push(act(frame)).drop_last() =~= old(self)@.stack); assert(self@.stack =~= old(self)@.stack); }')
    f.before('let result = f', 'proof { assert(self@.stack =~= old(self)@.stack.push(act(frame))); }')
    f.requires('wf(old(self)@)', '0 <= frame.f.id@ < old(self)@.heap.len()', 'forall|c: &mut Compiler| (*c)@ == (World { stack: old(self)@.stack.push(act(frame)), ..old(self)@ }) ==> #[trigger] f.requires((c,))',
               'forall|c: &mut Compiler, t: T| #[trigger] f.ensures((c,), t) ==> final(c).call_stack@ == (*c).call_stack@')
    f.ensures('final(self).call_stack@ == old(self).call_stack@', '''exists|c: &mut Compiler| (*c)@ == (World { stack: old(self)@.stack.push(act(frame)), ..old(self)@ }) && #[trigger] f.ensures((c,), r)
        && final(self)@ == (World { stack: final(c)@.stack.drop_last(), ..final(c)@ })''')
    f = u.fn('src/compiler/value.rs', 'evaluate_let_in', impl=COMP)
    f.sub('| _self | { $body }', '''|_self: &mut Compiler| -> (out: Reported<Value>)
            requires wf(old(_self)@), old(_self)@ == enter(w0, Act { frame: 0, call: None }, empty_in(top(w0)))
            ensures (value_of(out), final(_self)@) == let_from(*let_in, 0, *type_hint, old(_self)@), final(_self).call_stack@ == old(_self).call_stack@
        { let ghost w1 = _self@; let ghost stack = _self.call_stack@; $body }''', 1)
    f.sub('for & ( $i:n , ref $i:v ) in let_in . vars . iter ( ) {', 'let mut at: usize = 0; while at < let_in.vars.len() { let $n = let_in.vars[at].0; let $v = &let_in.vars[at].1; at += 1;', 0)
    f.sub('v . clone ( )', 'clone_value(&v)', 0)
    f.attr('#[verifier::loop_isolation(false)]')
    f.start('let ghost w0 = self@; proof { lemma_call(w0.heap, top(w0), Map::empty(), 0); }')
    f.loop(0, invariant=['at <= let_in.vars@.len()', 'wf(_self@)', '_self.call_stack@ == stack', 'let_from(*let_in, at as int, *type_hint, _self@) == let_from(*let_in, 0, *type_hint, w1)'], decreases='let_in.vars@.len() - at')
    f.requires('wf(old(self)@)').ensures('(value_of(r), final(self)@) == leave(let_from(*let_in, 0, *type_hint, enter(old(self)@, Act { frame: 0, call: None }, empty_in(top(old(self)@)))))', 'final(self).call_stack@ == old(self).call_stack@')
    f = u.fn(FN, 'compile_func_def', impl=COMP)
    f.sub('def . body . clone ( )', 'rc_expr(&def.body)', 0)
    f.requires('wf(old(self)@)').ensures('r matches Func::NonNative(f) && f.closure.f.id@ == top(old(self)@) && f.body == def.body && f.name_id == def.name_id', 'wf(final(self)@)', 'closed(r, final(self)@.heap)', 'final(self).call_stack@ == old(self).call_stack@')
    f = u.fn(FN, 'evaluate_func_call_with_bindings', impl=COMP)
    f.sub('func . clone ( )', 'clone_func(&func)', 0).sub('f . 0 . clone ( )', 'clone_func(&f.0)', 0).sub('new_child_frame ( $x )', 'new_child_frame(&mut self.heap, $x)', 0)
    f.sub('| _self | _self . evaluate_node ( f . body . as_ref ( ) , type_hint )', '''|_self: &mut Compiler| -> (out: Reported<Value>) requires wf(old(_self)@) ensures (value_of(out), final(_self)@) == eval(*f.body, *type_hint, old(_self)@), final(_self).call_stack@ == old(_self).call_stack@ { _self.evaluate_node(&*f.body, type_hint) }''', 0)
    f.sub('self . evaluate_native_func ( $a ) . and_then ( | $i:v | self . coerce ( $x ) ) . map_err ( | $i:e | self . report ( $y ) )', 'self.native_call(f, bindings, type_hint, call_range)', 0)
    f.start('let ghost w0 = self@; proof { if let Func::NonNative(ref f) = func { lemma_call(w0.heap, f.closure.f.id@, bindings@, 0); } }')
    f.requires('wf(old(self)@)', 'closed(func, old(self)@.heap)').ensures('(value_of(r), final(self)@) == called(func, bindings@, *type_hint, call_range, old(self)@)', 'final(self).call_stack@ == old(self).call_stack@').decreases('func')
    u.text('}')
    return u


UNITS = [lexical]

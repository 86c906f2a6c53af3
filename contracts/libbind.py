"""Binding arguments to parameters: signatures, partial parameters, and the
binder, with the specification of what a call binds."""

SIG = 'src/compiler/signature.rs'
FN = 'src/compiler/func.rs'
AST = 'src/parser/ast.rs'
BINDER = "^impl < 'a , 'b > ParamBinder < 'a , 'b >$"

TYPES = r'''
use std::rc::Rc;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
struct NameID(u32);
uninterp spec fn anonymous() -> NameID;
impl NameID { #[verifier::external_body] fn is_anonymous(self) -> (r: bool) ensures r == (self == anonymous()) { unimplemented!() } }
#[derive(Clone, Copy)]
struct SourceRange { x: u32 }
#[verifier::external_body] struct Value { x: u64 }
#[verifier::external_body] struct Expr { x: u64 }
impl Expr { #[verifier::external_body] fn range(&self) -> SourceRange { unimplemented!() } }
#[verifier::external_body] struct InactiveFrame { x: u64 }
#[verifier::external_body]
struct NativeFunc { x: u64 }
#[verifier::external_body] struct Type { x: u64 }
#[verifier::external_body] struct Name { x: u64 }
#[verifier::external_body] struct World { x: u64 }
/// NameIDMap<Value>.
#[verifier::external_body] struct Dict { x: u64 }
impl View for Dict { type V = Map<NameID, Value>; uninterp spec fn view(&self) -> Map<NameID, Value>; }
impl Dict {
    /// The entries in the order in which they were put in.
    uninterp spec fn order(self) -> Seq<(NameID, Value)>;
    #[verifier::external_body]
    fn default() -> (r: Dict) ensures r@ == Map::<NameID, Value>::empty(), r.order() == Seq::<(NameID, Value)>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &NameID) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: NameID, v: Value) -> (r: Option<Value>) ensures (r is Some) == old(self)@.dom().contains(k), final(self)@ == old(self)@.insert(k, v), r is None ==> final(self).order() == old(self).order().push((k, v)) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.order().len() { unimplemented!() }
    #[verifier::external_body]
    fn entry(&self, i: usize) -> (r: (NameID, &Value)) requires i < self.order().len() ensures r.0 == self.order()[i as int].0, *r.1 == self.order()[i as int].1 { unimplemented!() }
}
/// NameIDMap<FuncParam>: in order, by name.
#[verifier::external_body] struct ParamMap { x: u64 }
impl View for ParamMap { type V = Seq<FuncParam>; uninterp spec fn view(&self) -> Seq<FuncParam>; }
spec fn named_param(s: Seq<FuncParam>, n: NameID) -> Option<FuncParam> { if exists|i: int| 0 <= i < s.len() && s[i].name_id == n { Some(s[choose|i: int| 0 <= i < s.len() && s[i].name_id == n]) } else { None } }
impl ParamMap {
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    fn at(&self, i: usize) -> (r: &FuncParam) requires i < self@.len() ensures *r == self@[i as int] { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, n: &NameID) -> (r: Option<&FuncParam>) ensures match named_param(self@, *n) { Some(p) => r matches Some(q) && *q == p, None => r is None } { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, n: &NameID) -> (r: bool) ensures r == named_param(self@, *n) is Some { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
enum Error { NoSuchParameter, ParamMultipleValues, ContentAlreadyBound, TooManyPositionalArgs, NotEnoughPositionalArgs, ParamMissing, Other }
type PapyriResult<T> = Result<T, Error>;
type Reported<T> = Result<T, Error>;
#[verifier::external_body]
fn clone_value(v: &Value) -> (r: Value) ensures r == *v { unimplemented!() }
'''

SPEC = r'''
spec fn sig_of(s: RcFuncSignature) -> FuncSignature { *s.0 }
/// The value coerced to the type, if it can be: C11.
uninterp spec fn coerced(v: Value, t: Type) -> Option<Value>;
uninterp spec fn accepted(t: Type, v: Value) -> bool;
#[verifier::external_body]
proof fn axiom_coerced(v: Value, t: Type) ensures coerced(v, t) matches Some(w) ==> accepted(t, w) {}
uninterp spec fn component(t: Type) -> Type;
uninterp spec fn any() -> Type;
uninterp spec fn any_list() -> Type;
uninterp spec fn any_dict() -> Type;
uninterp spec fn unit(v: Value) -> bool;
uninterp spec fn list_of(s: Seq<Value>) -> Value;
uninterp spec fn dict_of(s: Seq<(NameID, Value)>) -> Value;
uninterp spec fn items(v: Value) -> Seq<Value>;
uninterp spec fn entries(v: Value) -> Seq<(NameID, Value)>;
/// Evaluating an expression.
uninterp spec fn eval(x: Expr, hint: Type, w: World) -> (Option<Value>, World);
/// The variable of this name which is declared implicit in the scope of the caller, C19.
uninterp spec fn implicit(w: World, n: NameID) -> Option<Value>;
/// What is bound: how many positional arguments, what the spread parameters
/// collect in order, and the values of the other parameters.
ghost struct Bound { pos: int, spread: Seq<Value>, named: Seq<(NameID, Value)>, named_map: Map<NameID, Value>, map: Map<NameID, Value> }
spec fn bound(p: PartialParams) -> Bound { Bound { pos: p.positional_arg_count as int, spread: p.spread_pos@, named: p.spread_named.order(), named_map: p.spread_named@, map: p.map@ } }
spec fn nothing() -> Bound { Bound { pos: 0, spread: Seq::empty(), named: Seq::empty(), named_map: Map::empty(), map: Map::empty() } }
spec fn put(b: Bound, n: NameID, v: Value) -> Bound { Bound { map: b.map.insert(n, v), ..b } }
spec fn add_pos(s: FuncSignature, b: Bound, v: Value) -> Option<Bound> {
    let c = Bound { pos: b.pos + 1, ..b };
    if b.pos < s.positional_params@.len() { match coerced(v, s.positional_params@[b.pos].type_) { Some(w) => Some(put(c, s.positional_params@[b.pos].name_id, w)), None => None } }
    else { match s.spread_param { Some(p) => match coerced(v, component(p.type_)) { Some(w) => Some(Bound { spread: b.spread.push(w), ..c }), None => None }, None => Some(c) } }
}
spec fn add_named(s: FuncSignature, b: Bound, n: NameID, v: Value) -> Option<Bound> {
    match named_param(s.named_params@, n) {
        Some(p) => if b.map.dom().contains(n) { None } else { match coerced(v, p.type_) { Some(w) => Some(put(b, n, w)), None => None } },
        None => match s.spread_named_param {
            Some(p) => if b.named_map.dom().contains(n) { None } else { match coerced(v, component(p.type_)) { Some(w) => Some(Bound { named: b.named.push((n, w)), named_map: b.named_map.insert(n, w), ..b }), None => None } },
            None => None,
        },
    }
}
spec fn add_content(s: FuncSignature, b: Bound, v: Value) -> Option<Bound> {
    let n = s.content_param.name_id;
    if b.map.dom().contains(n) { if unit(v) { Some(b) } else { None } }
    else { match coerced(v, s.content_param.type_) { Some(w) => Some(if n == anonymous() { b } else { put(b, n, w) }), None => None } }
}
spec fn add_all_pos(s: FuncSignature, b: Option<Bound>, vs: Seq<Value>) -> Option<Bound> decreases vs.len() {
    if vs.len() == 0 { b } else { match add_all_pos(s, b, vs.drop_last()) { Some(c) => add_pos(s, c, vs.last()), None => None } }
}
spec fn add_all_named(s: FuncSignature, b: Option<Bound>, vs: Seq<(NameID, Value)>) -> Option<Bound> decreases vs.len() {
    if vs.len() == 0 { b } else { match add_all_named(s, b, vs.drop_last()) { Some(c) => add_named(s, c, vs.last().0, vs.last().1), None => None } }
}
spec fn default_of(p: FuncParam) -> Option<Value> { match p.default_value { Some(v) => Some(*v), None => None } }
/// The first k named parameters which are implicit and not bound are taken from the scope of the caller.
spec fn add_implicits(s: FuncSignature, b: Bound, k: int, w: World) -> Option<Bound> decreases k {
    if k <= 0 { Some(b) } else { match add_implicits(s, b, k - 1, w) { None => None, Some(c) => {
        let p = s.named_params@[k - 1];
        if !p.is_implicit || c.map.dom().contains(p.name_id) { Some(c) } else {
            match (match implicit(w, p.name_id) { Some(v) => Some(v), None => default_of(p) }) { None => None, Some(v) => match coerced(v, p.type_) { Some(x) => Some(put(c, p.name_id, x)), None => None } }
        }
    } } }
}
spec fn countable(s: FuncSignature, b: Bound) -> bool { s.spread_param is Some || b.pos <= s.positional_params@.len() }
spec fn collect_pos(s: FuncSignature, b: Bound) -> Option<Map<NameID, Value>> { match s.spread_param { Some(p) => match coerced(list_of(b.spread), p.type_) { Some(v) => Some(b.map.insert(p.name_id, v)), None => None }, None => Some(b.map) } }
spec fn collect_named(s: FuncSignature, b: Bound, m: Map<NameID, Value>) -> Option<Map<NameID, Value>> { match s.spread_named_param { Some(p) => match coerced(dict_of(b.named), p.type_) { Some(v) => Some(m.insert(p.name_id, v)), None => None }, None => Some(m) } }
/// Positional parameters from a to k take their defaults.
spec fn fill_pos(s: FuncSignature, m: Map<NameID, Value>, a: int, k: int) -> Option<Map<NameID, Value>> decreases k - a {
    if k <= a { Some(m) } else { match fill_pos(s, m, a, k - 1) { None => None, Some(x) => match default_of(s.positional_params@[k - 1]) { Some(v) => Some(x.insert(s.positional_params@[k - 1].name_id, v)), None => None } } }
}
spec fn fill_named(s: FuncSignature, m: Map<NameID, Value>, k: int) -> Option<Map<NameID, Value>> decreases k {
    if k <= 0 { Some(m) } else { match fill_named(s, m, k - 1) { None => None, Some(x) => if x.dom().contains(s.named_params@[k - 1].name_id) { Some(x) } else { match default_of(s.named_params@[k - 1]) { Some(v) => Some(x.insert(s.named_params@[k - 1].name_id, v)), None => None } } } }
}
spec fn min(a: int, b: int) -> int { if a < b { a } else { b } }
/// What the parameters are bound to in the end.
spec fn built(s: FuncSignature, b: Bound) -> Option<Map<NameID, Value>> {
    if !countable(s, b) { None } else {
        match collect_pos(s, b) { None => None, Some(m) => match collect_named(s, b, m) { None => None, Some(m) => match fill_pos(s, m, b.pos, s.positional_params@.len() as int) { None => None, Some(m) => fill_named(s, m, s.named_params@.len() as int) } } }
    }
}
'''

SHIMS = r'''
struct Compiler { w: Ghost<World> }
/// No call has as many as 2^64 positional arguments.
#[verifier::external_body]
fn next_count(n: usize) -> (r: usize) ensures n < usize::MAX, r == n + 1 { unimplemented!() }
spec fn ok<T, E>(r: Result<T, E>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }
impl Compiler {
    #[verifier::external_body]
    fn coerce(&mut self, v: Value, t: &Type) -> (r: PapyriResult<Value>) ensures ok(r) == coerced(v, *t), final(self).w@ == old(self).w@ { unimplemented!() }
    #[verifier::external_body]
    fn evaluate_node(&mut self, x: &Expr, hint: &Type) -> (r: Reported<Value>) ensures (ok(r), final(self).w@) == eval(*x, *hint, old(self).w@) { unimplemented!() }
    #[verifier::external_body]
    fn get_name(&self, n: NameID) -> Name { unimplemented!() }
    /// Proved in C19.
    #[verifier::external_body]
    fn get_implicit(&mut self, n: NameID, d: Option<Value>) -> (r: PapyriResult<Value>) ensures ok(r) == (match implicit(old(self).w@, n) { Some(v) => Some(v), None => d }), final(self).w@ == old(self).w@ { unimplemented!() }
}
impl Type {
    #[verifier::external_body]
    fn component_type(&self) -> (r: &Type) ensures *r == component(*self) { unimplemented!() }
}
impl Value { #[verifier::external_body] fn is_unit(&self) -> (r: bool) ensures r == unit(*self) { unimplemented!() } }
impl RcFuncSignature {
    fn as_ref(&self) -> (r: &FuncSignature) ensures *r == *self.0 { &*self.0 }
}
#[verifier::external_body]
fn any_type() -> (r: &'static Type) ensures *r == any() { unimplemented!() }
#[verifier::external_body]
fn any_list_type() -> (r: &'static Type) ensures *r == any_list() { unimplemented!() }
#[verifier::external_body]
fn any_dict_type() -> (r: &'static Type) ensures *r == any_dict() { unimplemented!() }
#[verifier::external_body]
fn list_items(v: Value) -> (r: Vec<Value>) ensures r@ == items(v) { unimplemented!() }
#[verifier::external_body]
fn dict_entries(v: Value) -> (r: Vec<(NameID, Value)>) ensures r@ == entries(v) { unimplemented!() }
#[verifier::external_body]
fn list_value(v: Vec<Value>) -> (r: Value) ensures r == list_of(v@) { unimplemented!() }
#[verifier::external_body]
fn dict_value(v: Dict) -> (r: Value) ensures r == dict_of(v.order()) { unimplemented!() }
#[verifier::external_body]
fn clone_default(v: &Option<Box<Value>>) -> (r: Option<Value>) ensures r == (match *v { Some(v) => Some(*v), None => None }) { unimplemented!() }
fn no_content<T>() -> (r: T) requires false { loop invariant false decreases 0nat { } }
'''

ERRORS = [('errors :: $i:t :: $i:k ( $x )', 'Error::$k'), ('errors :: $i:t :: $i:k', 'Error::$k'), ('errors :: ', ''), ('Err ( e . into ( ) )', 'Err(e)'), ('ast :: ', ''),
          ('PapyriResult {', 'PapyriResult<()> {'), ('Reported {', 'Reported<()> {'), ('PapyriResult ;', 'PapyriResult<()>;')]


def base(u):
    u.text(TYPES)
    u.item(SIG, 'struct', 'FuncParam')
    u.item(SIG, 'struct', 'FuncSignature', subs=[('NameIDMap < FuncParam >', 'ParamMap')])
    u.item(SIG, 'struct', 'RcFuncSignature')
    u.item(SIG, 'struct', 'PartialParams')
    u.item(FN, 'enum', 'Func')
    u.item(FN, 'struct', 'NonNativeFunc', subs=[('ast :: Expr', 'Expr')])
    u.item(AST, 'enum', 'SpreadKind', attrs='#[derive(Clone, Copy, PartialEq, Eq, Structural)]')
    u.item(AST, 'struct', 'Arg')
    u.item(AST, 'struct', 'FuncCall')
    u.item(SIG, 'struct', 'ParamBinder', subs=[("'a , 'b", "'a"), ("Compiler < 'b >", 'Compiler')])
    u.text(SPEC + SHIMS)


SAME = ['final(self).sig == old(self).sig']
SG = 'sig_of(old(self).sig)'


def binder(u, contracts_only=False):
    """The methods of the binder."""
    u.text("impl<'a> ParamBinder<'a> {")
    u.default_subs = ERRORS + [('* v . clone ( )', 'clone_value(&**v)')]
    W = 'final(self).compiler.w@ == old(self).compiler.w@'
    f = u.fn(SIG, 'add_positional_arg', impl=BINDER)
    f.sub('self . bound . positional_arg_count += 1', 'self.bound.positional_arg_count = next_count(self.bound.positional_arg_count)', 0)
    f.ensures(f'match add_pos({SG}, bound(old(self).bound), value) {{ Some(b) => r is Ok && bound(final(self).bound) == b, None => r is Err }}', *SAME, W)
    f = u.fn(SIG, 'add_named_arg', impl=BINDER)
    f.ensures(f'match add_named({SG}, bound(old(self).bound), name_id, value) {{ Some(b) => r is Ok && bound(final(self).bound) == b, None => r is Err }}', *SAME, W)
    f = u.fn(SIG, 'add_content_arg', impl=BINDER)
    f.ensures(f'match add_content({SG}, bound(old(self).bound), content_value) {{ Some(b) => r is Ok && bound(final(self).bound) == b, None => r is Err }}', *SAME, W)
    f = u.fn(SIG, 'check_pos_count', impl=BINDER)
    f.ensures(f'(r is Ok) == countable({SG}, bound(old(self).bound))', 'bound(final(self).bound) == bound(old(self).bound)', *SAME, W)
    f = u.fn(SIG, 'bind_implicit_args', impl=BINDER)
    f.sub('for $i:p in sig . named_params . values ( ) {', 'let mut at: usize = 0; while at < sig.named_params.len() { let $p = sig.named_params.at(at); at += 1;', 0)
    f.sub('$i:p . default_value . as_ref ( ) . map ( | $i:v | clone_value(&**v) )', 'clone_default(&$p.default_value)', 0)
    f.ensures(f'match add_implicits({SG}, bound(old(self).bound), ({SG}).named_params@.len() as int, old(self).compiler.w@) {{ Some(b) => r is Ok && bound(final(self).bound) == b, None => r is Err }}', *SAME, W)
    f.attr('#[verifier::loop_isolation(false)]')
    f.loop(0, invariant=['at <= sig.named_params@.len()', 'sig == &*old(self).sig.0', 'self.sig == old(self).sig', 'self.compiler.w@ == old(self).compiler.w@', 'add_implicits(*sig, bound(old(self).bound), at as int, old(self).compiler.w@) == Some(bound(self.bound))'], decreases='sig.named_params@.len() - at')
    f.loop_start(0, 'proof { lemma_implicits_fail(*sig, bound(old(self).bound), at + 1, sig.named_params@.len() as int, old(self).compiler.w@); }')
    f = u.fn(SIG, 'build', impl=BINDER)
    f.sub('( mut self )', '(self)', 1).sub('self .', 'this .', 0)
    f.sub('sig . positional_params . iter ( ) . filter ( $c ) . count ( )', '0usize', 0)
    f.sub('this . bound . spread_pos . into ( )', 'list_value(this.bound.spread_pos)', 0).sub('this . bound . spread_named . into ( )', 'dict_value(this.bound.spread_named)', 0)
    f.sub('errors :: ice ( "No content arg provided" )', 'no_content::<()>()', 0).sub('ice ( "No content arg provided" )', 'no_content::<()>()', 0)
    f.sub('for $i:p in & sig . positional_params [ this . bound . positional_arg_count .. ] {', 'let mut k: usize = this.bound.positional_arg_count; while k < sig.positional_params.len() { let $p = &sig.positional_params[k]; k += 1;', 0)
    f.sub('for $i:p in sig . named_params . values ( ) {', 'let mut at: usize = 0; while at < sig.named_params.len() { let $p = sig.named_params.at(at); at += 1;', 0)
    f.requires('sig_of(self.sig).content_param.name_id == anonymous() || self.bound.map@.dom().contains(sig_of(self.sig).content_param.name_id)')
    f.ensures('match built(sig_of(self.sig), bound(self.bound)) { Some(m) => r matches Ok(d) && d@ == m, None => r is Err }')
    f.attr('#[verifier::loop_isolation(false)]')
    f.start('let mut this = self; let ghost b0 = bound(this.bound); let ghost n = sig_of(this.sig).positional_params@.len() as int;')
    f.before('let content_name_id', 'let ghost m2 = this.bound.map@; let ghost sg = *sig;')
    f.loop(0, invariant=['b0.pos <= k <= n', 'this.bound.positional_arg_count == b0.pos', 'fill_pos(sg, m2, b0.pos, k as int) == Some(this.bound.map@)'], decreases='n - k')
    f.loop_start(0, 'proof { lemma_fill_pos_fail(sg, m2, b0.pos, k + 1, n); }')
    f.before('let mut at : usize', 'let ghost m3 = this.bound.map@;')
    f.loop(1, invariant=['at <= sg.named_params@.len()', 'fill_named(sg, m3, at as int) == Some(this.bound.map@)'], decreases='sg.named_params@.len() - at')
    f.loop_start(1, 'proof { lemma_fill_named_fail(sg, m3, at + 1, sg.named_params@.len() as int); }')
    u.text('}')


LEMMAS = r'''
proof fn lemma_implicits_fail(s: FuncSignature, b: Bound, k: int, n: int, w: World) requires k <= n ensures add_implicits(s, b, k, w) is None ==> add_implicits(s, b, n, w) is None decreases n - k { if k < n { lemma_implicits_fail(s, b, k, n - 1, w); } }
proof fn lemma_fill_pos_fail(s: FuncSignature, m: Map<NameID, Value>, a: int, k: int, n: int) requires a <= k <= n ensures fill_pos(s, m, a, k) is None ==> fill_pos(s, m, a, n) is None decreases n - k { if k < n { lemma_fill_pos_fail(s, m, a, k, n - 1); } }
proof fn lemma_fill_named_fail(s: FuncSignature, m: Map<NameID, Value>, k: int, n: int) requires 0 <= k <= n ensures fill_named(s, m, k) is None ==> fill_named(s, m, n) is None decreases n - k { if k < n { lemma_fill_named_fail(s, m, k, n - 1); } }
'''


CALLS = r'''
spec fn pos_hint(s: FuncSignature, b: Bound) -> Type { if b.pos < s.positional_params@.len() { s.positional_params@[b.pos].type_ } else { match s.spread_param { Some(p) => component(p.type_), None => any() } } }
spec fn named_hint(s: FuncSignature, n: NameID) -> Type { match named_param(s.named_params@, n) { Some(p) => p.type_, None => match s.spread_named_param { Some(p) => component(p.type_), None => any() } } }
spec fn content_hint(s: FuncSignature, b: Bound) -> Type { if b.map.dom().contains(s.content_param.name_id) { any() } else { s.content_param.type_ } }
/// One argument of a call.
spec fn add_arg(s: FuncSignature, b: Bound, a: Arg, w: World) -> (Option<Bound>, World) {
    if a.name_id == anonymous() && a.spread_kind != SpreadKind::Named {
        let (v, x) = eval(a.value, if a.spread_kind != SpreadKind::NoSpread { any_list() } else { pos_hint(s, b) }, w);
        (match v { None => None, Some(v) => if a.spread_kind != SpreadKind::NoSpread { add_all_pos(s, Some(b), items(v)) } else { add_pos(s, b, v) } }, x)
    } else {
        let (v, x) = eval(a.value, if a.spread_kind != SpreadKind::NoSpread { any_dict() } else { named_hint(s, a.name_id) }, w);
        (match v { None => None, Some(v) => if a.spread_kind != SpreadKind::NoSpread { add_all_named(s, Some(b), entries(v)) } else { add_named(s, b, a.name_id, v) } }, x)
    }
}
/// The first k arguments of a call, in order.
spec fn add_args(s: FuncSignature, b: Bound, a: Seq<Arg>, k: int, w: World) -> (Option<Bound>, World) decreases k {
    if k <= 0 { (Some(b), w) } else { match add_args(s, b, a, k - 1, w) { (Some(c), x) => add_arg(s, c, a[k - 1], x), (None, x) => (None, x) } }
}
spec fn content_bound(s: FuncSignature, b: Bound, x: Expr, w: World) -> Option<Bound> { match eval(x, content_hint(s, b), w).0 { Some(v) => add_content(s, b, v), None => None } }
/// What a call binds.
spec fn call_binds(s: FuncSignature, b: Bound, call: FuncCall, w: World) -> Option<Map<NameID, Value>> {
    match add_args(s, b, call.args@, call.args@.len() as int, w) { (None, _) => None, (Some(c), x) => match add_implicits(s, c, s.named_params@.len() as int, x) { None => None, Some(d) => match content_bound(s, d, call.content, x) { None => None, Some(e) => built(s, e) } } }
}
spec fn synthetic_binds(s: FuncSignature, b: Bound, implicits: bool, v: Value, w: World) -> Option<Map<NameID, Value>> {
    match (if implicits { add_implicits(s, b, s.named_params@.len() as int, w) } else { Some(b) }) { None => None, Some(c) => match add_content(s, c, v) { None => None, Some(d) => built(s, d) } }
}
spec fn signature_of(f: Func) -> FuncSignature decreases f { match f { Func::NonNative(g) => *g.signature.0, Func::Native(_, _, s) => *s.0, Func::Bound(g) => signature_of(g.0) } }
spec fn name_of(f: Func) -> NameID decreases f { match f { Func::NonNative(g) => g.name_id, Func::Native(_, n, _) => n, Func::Bound(g) => name_of(g.0) } }
spec fn partials_of(f: Func) -> Bound { match f { Func::Bound(g) => bound(g.1), _ => nothing() } }
#[verifier::external_body]
fn clone_sig(s: &RcFuncSignature) -> (r: RcFuncSignature) ensures r == *s { unimplemented!() }
#[verifier::external_body]
fn clone_partials(p: &PartialParams) -> (r: PartialParams) ensures bound(r) == bound(*p) { unimplemented!() }
proof fn lemma_all_pos_fail(s: FuncSignature, b: Bound, v: Seq<Value>, k: int) requires 0 <= k <= v.len() ensures add_all_pos(s, Some(b), v.take(k)) is None ==> add_all_pos(s, Some(b), v) is None decreases v.len() - k {
    if k < v.len() { assert(v.take(k + 1).drop_last() =~= v.take(k)); lemma_all_pos_fail(s, b, v, k + 1); } else { assert(v.take(k) =~= v); }
}
proof fn lemma_all_named_fail(s: FuncSignature, b: Bound, v: Seq<(NameID, Value)>, k: int) requires 0 <= k <= v.len() ensures add_all_named(s, Some(b), v.take(k)) is None ==> add_all_named(s, Some(b), v) is None decreases v.len() - k {
    if k < v.len() { assert(v.take(k + 1).drop_last() =~= v.take(k)); lemma_all_named_fail(s, b, v, k + 1); } else { assert(v.take(k) =~= v); }
}
proof fn lemma_args_fail(s: FuncSignature, b: Bound, a: Seq<Arg>, k: int, n: int, w: World) requires k <= n ensures add_args(s, b, a, k, w).0 is None ==> add_args(s, b, a, n, w).0 is None decreases n - k { if k < n { lemma_args_fail(s, b, a, k, n - 1, w); } }
'''


def opened(u):
    """Functions, and binders for calling them."""
    u.default_subs = ERRORS + [("Compiler < 'b >", 'Compiler'), ("ParamBinder < 'a , 'b >", "ParamBinder<'a>")]
    u.text('impl PartialParams {')
    f = u.fn(SIG, 'new', impl='^impl PartialParams$').ensures('bound(r) == nothing()')
    f = u.fn(SIG, 'open', impl='^impl PartialParams$')
    f.ensures('r.sig == sig', 'bound(r.bound) == bound(self)', '*r.compiler == *old(compiler)', '*final(compiler) == *final(r.compiler)')
    u.text('}')
    u.text('impl Func {')
    u.default_subs = ERRORS + [('f . signature . clone ( )', 'clone_sig(&f.signature)'), ('sig . clone ( )', 'clone_sig(sig)'), ('f . 1 . clone ( )', 'clone_partials(&f.1)'), ('Func :: Native ( .. , sig )', 'Func::Native(_, _, sig)')]
    f = u.fn(FN, 'name_id', impl='^impl Func$').ensures('r == name_of(*self)').decreases('self')
    f = u.fn(FN, 'signature', impl='^impl Func$').ensures('*r.0 == signature_of(*self)').decreases('self')
    f = u.fn(FN, 'get_partials', impl='^impl Func$').ensures('bound(r) == partials_of(*self)')
    u.text('}')


def calls(u):
    """Binding the arguments of a call."""
    u.text(CALLS)
    opened(u)
    u.text('impl Arg {')
    u.fn(AST, 'is_positional', impl='^impl Arg$').ensures('r == (self.name_id == anonymous() && self.spread_kind != SpreadKind::Named)')
    u.fn(AST, 'is_spread', impl='^impl Arg$').ensures('r == (self.spread_kind != SpreadKind::NoSpread)')
    u.text('}')
    u.text("impl<'a> ParamBinder<'a> {")
    u.default_subs = ERRORS + [('. map_err ( | e | self . compiler . report ( $x ) )', ''), ('& Type :: Any . list ( )', 'any_list_type()'), ('& Type :: Any . dict ( )', 'any_dict_type()'), ('& Type :: Any', 'any_type()'),
        ('let $i:vs : List = $x ? . expect_convert ( ) ;', 'let $vs = list_items($x?);'), ('let $i:vs : RcDict = $x ? . expect_convert ( ) ;', 'let $vs = dict_entries($x?);'),
        ('for $i:v in $i:vs . as_ref ( ) . iter ( ) . cloned ( ) {', 'let mut at: usize = 0; while at < $vs.len() { let $v = clone_value(&$vs[at]); at += 1;'),
        ('for ( & $i:k , $i:v ) in $i:vs . iter ( ) {', 'let mut at: usize = 0; while at < $vs.len() { let $k = $vs[at].0; let $v = clone_value(&$vs[at].1); at += 1;'), ('v . clone ( )', 'v')]
    post = lambda call: [f'match {call} {{ (Some(b), w) => r is Ok && bound(final(self).bound) == b && final(self).compiler.w@ == w, (None, _) => r is Err }}', *SAME]
    B = f'{SG}, bound(old(self).bound)'
    f = u.fn(SIG, 'compile_positional_arg', impl=BINDER).requires('arg.name_id == anonymous() && arg.spread_kind != SpreadKind::Named').ensures(*post(f'add_arg({B}, *arg, old(self).compiler.w@)'))
    f.attr('#[verifier::loop_isolation(false)]')
    f.start(f'let ghost sg = {SG}; let ghost b0 = bound(old(self).bound);')
    f.loop(0, invariant=['at <= vs@.len()', 'self.sig == old(self).sig', 'self.compiler.w@ == eval(arg.value, any_list(), old(self).compiler.w@).1', 'add_all_pos(sg, Some(b0), vs@.take(at as int)) == Some(bound(self.bound))'], decreases='vs@.len() - at')
    f.loop_start(0, 'proof { assert(vs@.take(at + 1).drop_last() =~= vs@.take(at as int)); lemma_all_pos_fail(sg, b0, vs@, at + 1); }')
    f.before('Ok ( ( ) ) } else', 'proof { assert(vs@.take(at as int) =~= vs@); }')
    f.loop_end(0, '')
    f = u.fn(SIG, 'compile_named_arg', impl=BINDER).requires('!(arg.name_id == anonymous() && arg.spread_kind != SpreadKind::Named)').ensures(*post(f'add_arg({B}, *arg, old(self).compiler.w@)'))
    f.attr('#[verifier::loop_isolation(false)]')
    f.start(f'let ghost sg = {SG}; let ghost b0 = bound(old(self).bound);')
    f.loop(0, invariant=['at <= vs@.len()', 'self.sig == old(self).sig', 'self.compiler.w@ == eval(arg.value, any_dict(), old(self).compiler.w@).1', 'add_all_named(sg, Some(b0), vs@.take(at as int)) == Some(bound(self.bound))'], decreases='vs@.len() - at')
    f.loop_start(0, 'proof { assert(vs@.take(at + 1).drop_last() =~= vs@.take(at as int)); lemma_all_named_fail(sg, b0, vs@, at + 1); }')
    f.before('Ok ( ( ) ) } else', 'proof { assert(vs@.take(at as int) =~= vs@); }')
    f = u.fn(SIG, 'compile_arg', impl=BINDER).ensures(*post(f'add_arg({B}, *arg, old(self).compiler.w@)'))
    f = u.fn(SIG, 'compile_content_arg', impl=BINDER).ensures(f'match content_bound({B}, *node, old(self).compiler.w@) {{ Some(b) => r is Ok && bound(final(self).bound) == b, None => r is Err }}', *SAME)
    u.text('}')
    u.text('impl Func {')
    u.default_subs = ERRORS
    f = u.fn(FN, 'bind_call', impl='^impl Func$')
    f.sub('for $i:a in call . args . iter ( ) {', 'let mut at: usize = 0; while at < call.args.len() { let $a = &call.args[at]; at += 1;', 0)
    f.ensures('match call_binds(signature_of(*self), partials_of(*self), *call, old(compiler).w@) { Some(m) => r matches Ok(d) && d@ == m, None => r is Err }')
    f.attr('#[verifier::loop_isolation(false)]')
    f.start('let ghost sg = signature_of(*self); let ghost b0 = partials_of(*self); let ghost w0 = old(compiler).w@; let ghost n = call.args@.len() as int;')
    f.loop(0, invariant=['at <= n', '*binder.sig.0 == sg', 'add_args(sg, b0, call.args@, at as int, w0) == (Some(bound(binder.bound)), binder.compiler.w@)'], decreases='n - at')
    f.loop_start(0, 'proof { lemma_args_fail(sg, b0, call.args@, at + 1, n, w0); }')
    f = u.fn(FN, 'bind_synthetic_call', impl='^impl Func$')
    f.ensures('match synthetic_binds(signature_of(*self), partials_of(*self), bind_implicits, content_value, old(compiler).w@) { Some(m) => r matches Ok(d) && d@ == m, None => r is Err }')
    u.text('}')

COMPLETE = r'''
/// The places of a signature.
ghost enum Slot { Pos(int), Named(int), Spread, SpreadNamed, Content }
spec fn valid(s: FuncSignature, t: Slot) -> bool { match t { Slot::Pos(i) => 0 <= i < s.positional_params@.len(), Slot::Named(i) => 0 <= i < s.named_params@.len(), Slot::Spread => s.spread_param is Some, Slot::SpreadNamed => s.spread_named_param is Some, Slot::Content => true } }
spec fn param(s: FuncSignature, t: Slot) -> FuncParam { match t { Slot::Pos(i) => s.positional_params@[i], Slot::Named(i) => s.named_params@[i], Slot::Spread => *s.spread_param->0, Slot::SpreadNamed => *s.spread_named_param->0, Slot::Content => s.content_param } }
/// The parameters have distinct names, and defaults of their types.
spec fn well_formed(s: FuncSignature) -> bool {
    &&& forall|t: Slot, u: Slot| valid(s, t) && valid(s, u) && t != u ==> #[trigger] param(s, t).name_id != #[trigger] param(s, u).name_id
    &&& forall|t: Slot| valid(s, t) ==> (default_of(#[trigger] param(s, t)) matches Some(v) ==> accepted(param(s, t).type_, v))
    &&& forall|t: Slot| valid(s, t) && !(t is Content) ==> #[trigger] param(s, t).name_id != anonymous()
}
/// Positional parameters are bound up to pos, the spreads if they are done.
spec fn may(t: Slot, pos: int, spreads: bool, nspreads: bool) -> bool { match t { Slot::Pos(i) => i < pos, Slot::Spread => spreads, Slot::SpreadNamed => nspreads, _ => true } }
spec fn sound(s: FuncSignature, m: Map<NameID, Value>, pos: int, spreads: bool, nspreads: bool) -> bool {
    &&& forall|t: Slot| valid(s, t) && #[trigger] m.dom().contains(param(s, t).name_id) ==> accepted(param(s, t).type_, m[param(s, t).name_id]) && may(t, pos, spreads, nspreads)
    &&& forall|i: int| 0 <= i < pos && i < s.positional_params@.len() ==> #[trigger] m.dom().contains(s.positional_params@[i].name_id)
    &&& forall|n: NameID| #[trigger] m.dom().contains(n) ==> n != anonymous() && exists|t: Slot| valid(s, t) && #[trigger] param(s, t).name_id == n
}
spec fn fine(s: FuncSignature, b: Bound) -> bool { b.pos >= 0 && sound(s, b.map, b.pos, false, false) }
/// Each parameter has one value, of its type, and nothing else has one.
spec fn complete(s: FuncSignature, m: Map<NameID, Value>) -> bool {
    &&& forall|t: Slot| #[trigger] valid(s, t) && param(s, t).name_id != anonymous() ==> m.dom().contains(param(s, t).name_id) && accepted(param(s, t).type_, m[param(s, t).name_id])
    &&& forall|n: NameID| #[trigger] m.dom().contains(n) ==> exists|t: Slot| valid(s, t) && #[trigger] param(s, t).name_id == n
}
proof fn lemma_put(s: FuncSignature, m: Map<NameID, Value>, t: Slot, v: Value, a: int, x: bool, y: bool, pos: int, p: bool, q: bool)
    requires well_formed(s), sound(s, m, a, x, y), valid(s, t), accepted(param(s, t).type_, v), param(s, t).name_id != anonymous(), a <= pos <= a + 1, pos == a + 1 ==> a >= s.positional_params@.len() || t == Slot::Pos(a), x ==> p, y ==> q, may(t, pos, p, q),
    ensures sound(s, m.insert(param(s, t).name_id, v), pos, p, q)
{
    let k = m.insert(param(s, t).name_id, v);
    assert forall|u: Slot| valid(s, u) && #[trigger] k.dom().contains(param(s, u).name_id) implies accepted(param(s, u).type_, k[param(s, u).name_id]) && may(u, pos, p, q) by {
        if u != t { assert(param(s, u).name_id != param(s, t).name_id); assert(m.dom().contains(param(s, u).name_id)); }
    }
    assert forall|i: int| 0 <= i < pos && i < s.positional_params@.len() implies #[trigger] k.dom().contains(s.positional_params@[i].name_id) by { if i < a { assert(m.dom().contains(s.positional_params@[i].name_id)); } }
    assert forall|n: NameID| #[trigger] k.dom().contains(n) implies n != anonymous() && exists|t: Slot| valid(s, t) && #[trigger] param(s, t).name_id == n by { if n == param(s, t).name_id { } else { assert(m.dom().contains(n)); } }
}
proof fn lemma_pos(s: FuncSignature, b: Bound, v: Value) requires well_formed(s), fine(s, b) ensures add_pos(s, b, v) matches Some(c) ==> fine(s, c) {
    if b.pos < s.positional_params@.len() {
        axiom_coerced(v, s.positional_params@[b.pos].type_);
        match coerced(v, s.positional_params@[b.pos].type_) { Some(w) => { assert(param(s, Slot::Pos(b.pos)) == s.positional_params@[b.pos]); lemma_put(s, b.map, Slot::Pos(b.pos), w, b.pos, false, false, b.pos + 1, false, false); } None => {} }
    } else if let Some(c) = add_pos(s, b, v) {
        assert(c.map == b.map);
        assert(sound(s, c.map, c.pos, false, false)) by { assert forall|t: Slot| valid(s, t) && #[trigger] c.map.dom().contains(param(s, t).name_id) implies may(t, c.pos, false, false) by { } }
    }
}
proof fn lemma_named_param(s: Seq<FuncParam>, n: NameID) ensures named_param(s, n) matches Some(p) ==> exists|i: int| 0 <= i < s.len() && #[trigger] s[i] == p && p.name_id == n {
    if named_param(s, n) is Some { let i = choose|i: int| 0 <= i < s.len() && s[i].name_id == n; assert(s[i] == named_param(s, n)->0); }
}
proof fn lemma_named(s: FuncSignature, b: Bound, n: NameID, v: Value) requires well_formed(s), fine(s, b) ensures add_named(s, b, n, v) matches Some(c) ==> fine(s, c) {
    lemma_named_param(s.named_params@, n);
    match named_param(s.named_params@, n) {
        Some(p) => { let i = choose|i: int| 0 <= i < s.named_params@.len() && #[trigger] s.named_params@[i] == p; axiom_coerced(v, p.type_);
            match coerced(v, p.type_) { Some(w) => { assert(param(s, Slot::Named(i)) == p); lemma_put(s, b.map, Slot::Named(i), w, b.pos, false, false, b.pos, false, false); } None => {} } }
        None => {}
    }
}
proof fn lemma_content(s: FuncSignature, b: Bound, v: Value) requires well_formed(s), fine(s, b) ensures add_content(s, b, v) matches Some(c) ==> fine(s, c) && (s.content_param.name_id == anonymous() || c.map.dom().contains(s.content_param.name_id)) {
    axiom_coerced(v, s.content_param.type_);
    assert(param(s, Slot::Content) == s.content_param);
    if !b.map.dom().contains(s.content_param.name_id) { match coerced(v, s.content_param.type_) { Some(w) => { if s.content_param.name_id != anonymous() { lemma_put(s, b.map, Slot::Content, w, b.pos, false, false, b.pos, false, false); } } None => {} } }
}
proof fn lemma_implicit(s: FuncSignature, b: Bound, k: int, w: World) requires well_formed(s), fine(s, b), k <= s.named_params@.len() ensures add_implicits(s, b, k, w) matches Some(c) ==> fine(s, c) decreases k {
    if k > 0 { lemma_implicit(s, b, k - 1, w); match add_implicits(s, b, k - 1, w) { None => {} Some(c) => {
        let p = s.named_params@[k - 1];
        assert(param(s, Slot::Named(k - 1)) == p);
        match (match implicit(w, p.name_id) { Some(v) => Some(v), None => default_of(p) }) { None => {} Some(v) => { axiom_coerced(v, p.type_); match coerced(v, p.type_) { Some(x) => { lemma_put(s, c.map, Slot::Named(k - 1), x, c.pos, false, false, c.pos, false, false); } None => {} } } }
    } } }
}
proof fn lemma_all_pos(s: FuncSignature, b: Bound, v: Seq<Value>) requires well_formed(s), fine(s, b) ensures add_all_pos(s, Some(b), v) matches Some(c) ==> fine(s, c) decreases v.len() { if v.len() > 0 { lemma_all_pos(s, b, v.drop_last()); if let Some(c) = add_all_pos(s, Some(b), v.drop_last()) { lemma_pos(s, c, v.last()); } } }
proof fn lemma_all_named(s: FuncSignature, b: Bound, v: Seq<(NameID, Value)>) requires well_formed(s), fine(s, b) ensures add_all_named(s, Some(b), v) matches Some(c) ==> fine(s, c) decreases v.len() { if v.len() > 0 { lemma_all_named(s, b, v.drop_last()); if let Some(c) = add_all_named(s, Some(b), v.drop_last()) { lemma_named(s, c, v.last().0, v.last().1); } } }
proof fn lemma_fill_pos(s: FuncSignature, m: Map<NameID, Value>, a: int, k: int) requires well_formed(s), sound(s, m, a, true, true), 0 <= a, k <= s.positional_params@.len() ensures fill_pos(s, m, a, k) matches Some(c) ==> sound(s, c, if a > k { a } else { k }, true, true) && m.dom().subset_of(c.dom()) decreases k - a {
    if k > a { lemma_fill_pos(s, m, a, k - 1); if let Some(x) = fill_pos(s, m, a, k - 1) { let p = s.positional_params@[k - 1]; assert(param(s, Slot::Pos(k - 1)) == p); if let Some(v) = default_of(p) { lemma_put(s, x, Slot::Pos(k - 1), v, k - 1, true, true, k, true, true); } } }
}
proof fn lemma_fill_named(s: FuncSignature, m: Map<NameID, Value>, k: int, pos: int) requires well_formed(s), sound(s, m, pos, true, true), k <= s.named_params@.len() ensures fill_named(s, m, k) matches Some(c) ==> sound(s, c, pos, true, true) && m.dom().subset_of(c.dom()) && forall|i: int| 0 <= i < k ==> c.dom().contains(#[trigger] s.named_params@[i].name_id) decreases k {
    if k > 0 { lemma_fill_named(s, m, k - 1, pos); if let Some(x) = fill_named(s, m, k - 1) { let p = s.named_params@[k - 1]; assert(param(s, Slot::Named(k - 1)) == p); if !x.dom().contains(p.name_id) { if let Some(v) = default_of(p) { lemma_put(s, x, Slot::Named(k - 1), v, pos, true, true, pos, true, true); } } } }
}
/// What is built from a sound binding has exactly one value for each parameter.
proof fn lemma_built(s: FuncSignature, b: Bound) requires well_formed(s), fine(s, b), s.content_param.name_id == anonymous() || b.map.dom().contains(s.content_param.name_id) ensures built(s, b) matches Some(m) ==> complete(s, m) && countable(s, b) {
    if built(s, b) is Some {
        let m0 = b.map;
        let m1 = collect_pos(s, b)->0;
        assert(sound(s, m1, b.pos, true, false)) by { match s.spread_param { Some(p) => { axiom_coerced(list_of(b.spread), p.type_); assert(param(s, Slot::Spread) == *p); lemma_put(s, m0, Slot::Spread, coerced(list_of(b.spread), p.type_)->0, b.pos, false, false, b.pos, true, false); } None => { assert(sound(s, m0, b.pos, true, false)); } } }
        let m2 = collect_named(s, b, m1)->0;
        assert(sound(s, m2, b.pos, true, true)) by { match s.spread_named_param { Some(p) => { axiom_coerced(dict_of(b.named), p.type_); assert(param(s, Slot::SpreadNamed) == *p); lemma_put(s, m1, Slot::SpreadNamed, coerced(dict_of(b.named), p.type_)->0, b.pos, true, false, b.pos, true, true); } None => { assert(sound(s, m1, b.pos, true, true)); } } }
        let n = s.positional_params@.len() as int;
        lemma_fill_pos(s, m2, b.pos, n);
        let m3 = fill_pos(s, m2, b.pos, n)->0;
        let top = if b.pos > n { b.pos } else { n };
        lemma_fill_named(s, m3, s.named_params@.len() as int, top);
        let m = built(s, b)->0;
        assert forall|t: Slot| #[trigger] valid(s, t) && param(s, t).name_id != anonymous() implies m.dom().contains(param(s, t).name_id) && accepted(param(s, t).type_, m[param(s, t).name_id]) by {
            match t {
                Slot::Pos(i) => { assert(m.dom().contains(s.positional_params@[i].name_id)); }
                Slot::Named(i) => { assert(m.dom().contains(s.named_params@[i].name_id)); }
                Slot::Spread => { assert(m1.dom().contains(param(s, t).name_id)); assert(m2.dom().contains(param(s, t).name_id)); assert(m3.dom().contains(param(s, t).name_id)); }
                Slot::SpreadNamed => { assert(m2.dom().contains(param(s, t).name_id)); assert(m3.dom().contains(param(s, t).name_id)); }
                Slot::Content => { assert(m0.dom().contains(param(s, t).name_id)); assert(m1.dom().contains(param(s, t).name_id)); assert(m2.dom().contains(param(s, t).name_id)); assert(m3.dom().contains(param(s, t).name_id)); }
            }
            assert(m.dom().contains(param(s, t).name_id));
        }
    }
}
proof fn lemma_args(s: FuncSignature, b: Bound, a: Seq<Arg>, k: int, w: World) requires well_formed(s), fine(s, b) ensures add_args(s, b, a, k, w).0 matches Some(c) ==> fine(s, c) decreases k {
    if k > 0 { lemma_args(s, b, a, k - 1, w); match add_args(s, b, a, k - 1, w) { (Some(c), x) => {
        let g = a[k - 1];
        if g.name_id == anonymous() && g.spread_kind != SpreadKind::Named {
            match eval(g.value, if g.spread_kind != SpreadKind::NoSpread { any_list() } else { pos_hint(s, c) }, x).0 { Some(v) => { lemma_all_pos(s, c, items(v)); lemma_pos(s, c, v); } None => {} }
        } else {
            match eval(g.value, if g.spread_kind != SpreadKind::NoSpread { any_dict() } else { named_hint(s, g.name_id) }, x).0 { Some(v) => { lemma_all_named(s, c, entries(v)); lemma_named(s, c, g.name_id, v); } None => {} }
        }
    } (None, _) => {} } }
}
/// A call which succeeds binds each parameter exactly once, to a value of its type.
proof fn lemma_call_complete(s: FuncSignature, b: Bound, call: FuncCall, w: World) requires well_formed(s), fine(s, b) ensures call_binds(s, b, call, w) matches Some(m) ==> complete(s, m) {
    lemma_args(s, b, call.args@, call.args@.len() as int, w);
    match add_args(s, b, call.args@, call.args@.len() as int, w) { (Some(c), x) => { lemma_implicit(s, c, s.named_params@.len() as int, x); match add_implicits(s, c, s.named_params@.len() as int, x) { Some(d) => { match eval(call.content, content_hint(s, d), x).0 { Some(v) => { lemma_content(s, d, v); if let Some(e) = add_content(s, d, v) { lemma_built(s, e); } } None => {} } } None => {} } } (None, _) => {} }
}
proof fn lemma_nothing(s: FuncSignature) ensures fine(s, nothing()) {}
/// Positional arguments are bound in order.
proof fn lemma_in_order(s: FuncSignature, v: Seq<Value>, i: int) requires well_formed(s), 0 <= i < v.len(), v.len() <= s.positional_params@.len(), add_all_pos(s, Some(nothing()), v) is Some ensures ({ let b = add_all_pos(s, Some(nothing()), v)->0; b.pos == v.len() && Some(b.map[s.positional_params@[i].name_id]) == coerced(v[i], s.positional_params@[i].type_) }) decreases v.len() {
    let d = v.drop_last();
    lemma_count(s, d);
    if i < d.len() { lemma_in_order(s, d, i); assert(d[i] == v[i]); assert(param(s, Slot::Pos(i)) == s.positional_params@[i]); assert(param(s, Slot::Pos(d.len() as int)) == s.positional_params@[d.len() as int]); }
}
proof fn lemma_count(s: FuncSignature, v: Seq<Value>) ensures add_all_pos(s, Some(nothing()), v) matches Some(b) ==> b.pos == v.len() decreases v.len() { if v.len() > 0 { lemma_count(s, v.drop_last()); } }
'''


PARTIAL = r'''
/// Binding some arguments of a function.
spec fn partially(s: FuncSignature, b: Bound, pos: Seq<Value>, named: Seq<(NameID, Value)>, content: Value) -> Option<Bound> {
    match add_all_named(s, add_all_pos(s, Some(b), pos), named) { None => None, Some(c) => if unit(content) { Some(c) } else { add_content(s, c, content) } }
}
spec fn closed(s: FuncSignature, b: Option<Bound>) -> Option<Bound> { match b { Some(c) => if countable(s, c) { Some(c) } else { None }, None => None } }
/// g is the function f with the arguments bound.
spec fn bound_to(g: Func, f: Func, b: Bound) -> bool { g matches Func::Bound(p) && p.0 == f && bound(p.1) == b }
/// A function with arguments bound has the signature and the name of the function.
proof fn lemma_bound_to(g: Func, f: Func, b: Bound) requires bound_to(g, f, b) ensures signature_of(g) == signature_of(f), name_of(g) == name_of(f), partials_of(g) == b {}
'''


def partial(u):
    """Binding some arguments of a function."""
    u.text(PARTIAL)
    u.text("impl<'a> ParamBinder<'a> {")
    u.default_subs = ERRORS
    f = u.fn(SIG, 'close_into_bound_function', impl=BINDER)
    f.sub('( mut self , f : Func )', '(self, f: Func)', 1).sub('self .', 'this .', 0).start('let mut this = self;')
    f.ensures('match closed(sig_of(self.sig), Some(bound(self.bound))) { Some(b) => r matches Ok(g) && bound_to(g, f, b), None => r is Err }')
    u.text('}')
    u.text('impl Func {')
    u.default_subs = ERRORS + [('arg . clone ( )', 'arg')]
    S = 'signature_of(self), '
    for name, call in [('bind_content', 'add_content(signature_of(self), partials_of(self), content_arg)'), ('bind_positional', 'add_pos(signature_of(self), partials_of(self), arg)'), ('bind_partial', 'partially(signature_of(self), partials_of(self), positional_args@, named_args.order(), content_arg)')]:
        f = u.fn(FN, name, impl='^impl Func$')
        f.ensures(f'match closed(signature_of(self), {call}) {{ Some(b) => r matches Ok(g) && bound_to(g, self, b), None => r is Err }}')
    f.sub('for $i:v in positional_args . iter ( ) . cloned ( ) {', 'let mut at: usize = 0; while at < positional_args.len() { let $v = clone_value(&positional_args[at]); at += 1;', 0)
    f.sub('for ( & $i:k , $i:v ) in named_args . iter ( ) {', 'let mut an: usize = 0; while an < named_args.len() { let ($k, borrowed) = named_args.entry(an); let $v = clone_value(borrowed); an += 1;', 0)
    f.attr('#[verifier::loop_isolation(false)]')
    f.start('let ghost sg = signature_of(self); let ghost b0 = partials_of(self); let ghost ps = positional_args@; let ghost ns = named_args.order();')
    f.loop(0, invariant=['at <= ps.len()', 'sig_of(binder.sig) == sg', 'add_all_pos(sg, Some(b0), ps.take(at as int)) == Some(bound(binder.bound))'], decreases='ps.len() - at')
    f.loop_start(0, 'proof { assert(ps.take(at + 1).drop_last() =~= ps.take(at as int)); lemma_all_pos_fail(sg, b0, ps, at + 1); lemma_named_none(sg, ns); }')
    f.before('let mut an : usize', 'let ghost b1 = bound(binder.bound); proof { assert(ps.take(at as int) =~= ps); }')
    f.loop(1, invariant=['an <= ns.len()', 'sig_of(binder.sig) == sg', 'add_all_named(sg, Some(b1), ns.take(an as int)) == Some(bound(binder.bound))'], decreases='ns.len() - an')
    f.loop_start(1, 'proof { assert(ns.take(an + 1).drop_last() =~= ns.take(an as int)); lemma_all_named_fail(sg, b1, ns, an + 1); }')
    f.before('if ! content_arg', 'proof { assert(ns.take(an as int) =~= ns); }')
    u.text('}')


SAME_CALL = r'''
proof fn lemma_named_none(s: FuncSignature, v: Seq<(NameID, Value)>) ensures add_all_named(s, None, v) is None decreases v.len() { if v.len() > 0 { lemma_named_none(s, v.drop_last()); } }
proof fn lemma_pos_none(s: FuncSignature, v: Seq<Value>) ensures add_all_pos(s, None, v) is None decreases v.len() { if v.len() > 0 { lemma_pos_none(s, v.drop_last()); } }
spec fn plus_pos(s: FuncSignature, b: Option<Bound>, v: Value) -> Option<Bound> { match b { Some(c) => add_pos(s, c, v), None => None } }
spec fn plus_named(s: FuncSignature, b: Option<Bound>, e: (NameID, Value)) -> Option<Bound> { match b { Some(c) => add_named(s, c, e.0, e.1), None => None } }
spec fn plus_content(s: FuncSignature, b: Option<Bound>, v: Value) -> Option<Bound> { match b { Some(c) => add_content(s, c, v), None => None } }
spec fn same(a: Option<Bound>, b: Option<Bound>) -> bool { match a { Some(x) => b matches Some(y) && x.pos == y.pos && x.spread == y.spread && x.named == y.named && x.named_map == y.named_map && x.map =~= y.map, None => b is None } }
/// A positional and a named argument can be given in either order.
proof fn lemma_swap(s: FuncSignature, b: Bound, v: Value, e: (NameID, Value)) requires well_formed(s), b.pos >= 0 ensures plus_named(s, add_pos(s, b, v), e) == plus_pos(s, add_named(s, b, e.0, e.1), v) {
    lemma_named_param(s.named_params@, e.0);
    if b.pos < s.positional_params@.len() && named_param(s.named_params@, e.0) is Some {
        let p = named_param(s.named_params@, e.0)->0;
        let i = choose|i: int| 0 <= i < s.named_params@.len() && #[trigger] s.named_params@[i] == p;
        assert(param(s, Slot::Named(i)) == p);
        assert(param(s, Slot::Pos(b.pos)) == s.positional_params@[b.pos]);
    }
    assert(same(plus_named(s, add_pos(s, b, v), e), plus_pos(s, add_named(s, b, e.0, e.1), v)));
}
/// So can the content argument and a positional or named one.
proof fn lemma_swap_content_pos(s: FuncSignature, b: Bound, v: Value, c: Value) requires well_formed(s), b.pos >= 0 ensures plus_content(s, add_pos(s, b, v), c) == plus_pos(s, add_content(s, b, c), v) {
    assert(param(s, Slot::Content) == s.content_param);
    if b.pos < s.positional_params@.len() { assert(param(s, Slot::Pos(b.pos)) == s.positional_params@[b.pos]); }
    assert(same(plus_content(s, add_pos(s, b, v), c), plus_pos(s, add_content(s, b, c), v)));
}
proof fn lemma_swap_content_named(s: FuncSignature, b: Bound, e: (NameID, Value), c: Value) requires well_formed(s) ensures plus_content(s, add_named(s, b, e.0, e.1), c) == plus_named(s, add_content(s, b, c), e) {
    lemma_named_param(s.named_params@, e.0);
    assert(param(s, Slot::Content) == s.content_param);
    if named_param(s.named_params@, e.0) is Some {
        let p = named_param(s.named_params@, e.0)->0;
        let i = choose|i: int| 0 <= i < s.named_params@.len() && #[trigger] s.named_params@[i] == p;
        assert(param(s, Slot::Named(i)) == p);
    }
    assert(same(plus_content(s, add_named(s, b, e.0, e.1), c), plus_named(s, add_content(s, b, c), e)));
}
spec fn forward(b: Option<Bound>) -> bool { b matches Some(c) ==> c.pos >= 0 }
proof fn lemma_forward_pos(s: FuncSignature, b: Option<Bound>, v: Seq<Value>) requires forward(b) ensures forward(add_all_pos(s, b, v)), b matches Some(c) ==> (add_all_pos(s, b, v) matches Some(d) ==> d.pos >= c.pos) decreases v.len() { if v.len() > 0 { lemma_forward_pos(s, b, v.drop_last()); } }
proof fn lemma_forward_named(s: FuncSignature, b: Option<Bound>, v: Seq<(NameID, Value)>) requires forward(b) ensures forward(add_all_named(s, b, v)), b matches Some(c) ==> (add_all_named(s, b, v) matches Some(d) ==> d.pos == c.pos) decreases v.len() { if v.len() > 0 { lemma_forward_named(s, b, v.drop_last()); } }
/// All the named arguments can be given before a positional one.
proof fn lemma_named_then_pos(s: FuncSignature, b: Option<Bound>, n: Seq<(NameID, Value)>, v: Value) requires well_formed(s), forward(b) ensures add_all_named(s, plus_pos(s, b, v), n) == plus_pos(s, add_all_named(s, b, n), v) decreases n.len() {
    if n.len() > 0 { lemma_named_then_pos(s, b, n.drop_last(), v); lemma_forward_named(s, b, n.drop_last()); match add_all_named(s, b, n.drop_last()) { Some(c) => { lemma_swap(s, c, v, n.last()); } None => {} } }
}
proof fn lemma_named_then_all_pos(s: FuncSignature, b: Option<Bound>, n: Seq<(NameID, Value)>, v: Seq<Value>) requires well_formed(s), forward(b) ensures add_all_named(s, add_all_pos(s, b, v), n) == add_all_pos(s, add_all_named(s, b, n), v) decreases v.len() {
    if v.len() > 0 { lemma_named_then_all_pos(s, b, n, v.drop_last()); lemma_forward_pos(s, b, v.drop_last()); lemma_named_then_pos(s, add_all_pos(s, b, v.drop_last()), n, v.last()); }
}
proof fn lemma_content_then_all_pos(s: FuncSignature, b: Option<Bound>, v: Seq<Value>, c: Value) requires well_formed(s), forward(b) ensures plus_content(s, add_all_pos(s, b, v), c) == add_all_pos(s, plus_content(s, b, c), v) decreases v.len() {
    if v.len() > 0 { lemma_content_then_all_pos(s, b, v.drop_last(), c); lemma_forward_pos(s, b, v.drop_last()); match add_all_pos(s, b, v.drop_last()) { Some(d) => { lemma_swap_content_pos(s, d, v.last(), c); } None => {} } }
}
proof fn lemma_content_then_all_named(s: FuncSignature, b: Option<Bound>, v: Seq<(NameID, Value)>, c: Value) requires well_formed(s) ensures plus_content(s, add_all_named(s, b, v), c) == add_all_named(s, plus_content(s, b, c), v) decreases v.len() {
    if v.len() > 0 { lemma_content_then_all_named(s, b, v.drop_last(), c); match add_all_named(s, b, v.drop_last()) { Some(d) => { lemma_swap_content_named(s, d, v.last(), c); } None => {} } }
}
proof fn lemma_pos_add(s: FuncSignature, b: Option<Bound>, v: Seq<Value>, w: Seq<Value>) ensures add_all_pos(s, add_all_pos(s, b, v), w) == add_all_pos(s, b, v + w) decreases w.len() {
    if w.len() > 0 { lemma_pos_add(s, b, v, w.drop_last()); assert((v + w).drop_last() =~= v + w.drop_last()); assert((v + w).last() == w.last()); } else { assert(v + w =~= v); }
}
proof fn lemma_named_add(s: FuncSignature, b: Option<Bound>, v: Seq<(NameID, Value)>, w: Seq<(NameID, Value)>) ensures add_all_named(s, add_all_named(s, b, v), w) == add_all_named(s, b, v + w) decreases w.len() {
    if w.len() > 0 { lemma_named_add(s, b, v, w.drop_last()); assert((v + w).drop_last() =~= v + w.drop_last()); assert((v + w).last() == w.last()); } else { assert(v + w =~= v); }
}
/// Binding some arguments and then more is binding all of them, in whichever
/// of the two the content argument is given.
proof fn lemma_stages(s: FuncSignature, b: Bound, p: Seq<Value>, n: Seq<(NameID, Value)>, c: Value, q: Seq<Value>, m: Seq<(NameID, Value)>, d: Value)
    requires well_formed(s), b.pos >= 0, unit(c) || unit(d)
    ensures (match partially(s, b, p, n, c) { Some(x) => partially(s, x, q, m, d), None => None }) == partially(s, b, p + q, n + m, if unit(c) { d } else { c })
{
    let b1 = add_all_pos(s, Some(b), p); let b2 = add_all_named(s, b1, n);
    lemma_forward_pos(s, Some(b), p); lemma_forward_named(s, b1, n);
    // b, p, n, (c), q, m  ~  b, p, n, q, m, (c)
    let b3 = add_all_pos(s, b2, q); let b4 = add_all_named(s, b3, m);
    lemma_named_then_all_pos(s, b1, n, q);
    lemma_pos_add(s, Some(b), p, q);
    lemma_named_add(s, add_all_pos(s, Some(b), p + q), n, m);
    assert(b4 == add_all_named(s, add_all_pos(s, Some(b), p + q), n + m));
    lemma_named_none(s, m); lemma_pos_none(s, q); lemma_named_none(s, n);
    if !unit(c) {
        lemma_content_then_all_pos(s, b2, q, c);
        lemma_content_then_all_named(s, b3, m, c);
    }
}
/// What a call binds when these are its arguments, by value.
spec fn calls_with(s: FuncSignature, b: Option<Bound>, w: World, content: Value) -> Option<Map<NameID, Value>> {
    match b { None => None, Some(c) => match add_implicits(s, c, s.named_params@.len() as int, w) { None => None, Some(d) => match add_content(s, d, content) { None => None, Some(e) => built(s, e) } } }
}
spec fn given(s: FuncSignature, b: Option<Bound>, p: Seq<Value>, n: Seq<(NameID, Value)>) -> Option<Bound> { add_all_named(s, add_all_pos(s, b, p), n) }
spec fn implied(s: FuncSignature, b: Option<Bound>, k: int, w: World) -> Option<Bound> { match b { Some(c) => add_implicits(s, c, k, w), None => None } }
proof fn lemma_swap_implicits(s: FuncSignature, b: Bound, k: int, w: World, c: Value) requires well_formed(s), k <= s.named_params@.len() ensures plus_content(s, add_implicits(s, b, k, w), c) == implied(s, add_content(s, b, c), k, w) decreases k {
    if k > 0 {
        lemma_swap_implicits(s, b, k - 1, w, c);
        let p = s.named_params@[k - 1];
        assert(param(s, Slot::Named(k - 1)) == p); assert(param(s, Slot::Content) == s.content_param);
        match add_implicits(s, b, k - 1, w) { None => { } Some(d) => { 
            match add_implicits(s, b, k, w) { None => {} Some(e) => { assert(d.map.dom().contains(p.name_id) || d.map.dom().contains(s.content_param.name_id) || true); } }
        } }
        assert(same(plus_content(s, add_implicits(s, b, k, w), c), implied(s, add_content(s, b, c), k, w)));
    }
}
proof fn lemma_implicit_pos(s: FuncSignature, b: Bound, k: int, w: World) ensures add_implicits(s, b, k, w) matches Some(c) ==> c.pos == b.pos decreases k { if k > 0 { lemma_implicit_pos(s, b, k - 1, w); } }
proof fn lemma_implicit_content(s: FuncSignature, b: Bound, k: int, w: World) requires well_formed(s), k <= s.named_params@.len() ensures add_implicits(s, b, k, w) matches Some(c) ==> c.map.dom().contains(s.content_param.name_id) == b.map.dom().contains(s.content_param.name_id) decreases k { if k > 0 { assert(param(s, Slot::Named(k - 1)) == s.named_params@[k - 1]); assert(param(s, Slot::Content) == s.content_param); lemma_implicit_content(s, b, k - 1, w); } }
/// Calling a function to which some arguments have been bound is one call with
/// all of the arguments: when the binding fails, so does the call.
proof fn lemma_partial_call(s: FuncSignature, b: Bound, p: Seq<Value>, n: Seq<(NameID, Value)>, c: Value, q: Seq<Value>, m: Seq<(NameID, Value)>, d: Value, w: World)
    requires well_formed(s), b.pos >= 0, unit(c) || (unit(d) && s.content_param.name_id != anonymous())
    ensures calls_with(s, given(s, closed(s, partially(s, b, p, n, c)), q, m), w, d) == calls_with(s, given(s, Some(b), p + q, n + m), w, if unit(c) { d } else { c })
{
    let u = closed(s, partially(s, b, p, n, c));
    let k = s.named_params@.len() as int;
    let b1 = add_all_pos(s, Some(b), p); let b2 = add_all_named(s, b1, n);
    lemma_forward_pos(s, Some(b), p); lemma_forward_named(s, b1, n);
    let b3 = add_all_pos(s, b2, q); let b4 = add_all_named(s, b3, m);
    lemma_forward_pos(s, b2, q); lemma_forward_named(s, b3, m);
    lemma_named_then_all_pos(s, b1, n, q);
    lemma_pos_add(s, Some(b), p, q);
    lemma_named_add(s, add_all_pos(s, Some(b), p + q), n, m);
    assert(b4 == given(s, Some(b), p + q, n + m));
    lemma_named_none(s, m); lemma_pos_none(s, q); lemma_named_none(s, n);
    // The whole call is
    let whole = calls_with(s, b4, w, if unit(c) { d } else { c });
    let v = partially(s, b, p, n, c);
    if let Some(x) = v {
        if !unit(c) { lemma_content_then_all_pos(s, b2, q, c); lemma_content_then_all_named(s, b3, m, c); }
        assert(given(s, v, q, m) == if unit(c) { b4 } else { plus_content(s, b4, c) });
        if !countable(s, x) {
            // then neither is the whole call
            if let Some(y) = b4 { if let Some(z) = add_implicits(s, y, k, w) { lemma_implicit_pos(s, y, k, w); assert(x.pos == b2->0.pos); assert(y.pos >= x.pos); if let Some(e) = add_content(s, z, if unit(c) { d } else { c }) { assert(e.pos == z.pos); assert(!countable(s, e)); } } }
            assert(whole is None);
        } else if !unit(c) {
            if let Some(y) = b4 {
                lemma_swap_implicits(s, y, k, w, c);
                if let Some(z) = add_content(s, y, c) { lemma_implicit_content(s, z, k, w); if let Some(g) = add_implicits(s, z, k, w) { assert(z.map.dom().contains(s.content_param.name_id)); assert(add_content(s, g, d) == Some(g)); } }
            }
        }
    } else {
        if let Some(y) = b2 {
            assert(!unit(c) && add_content(s, y, c) is None);
            lemma_content_then_all_pos(s, b2, q, c); lemma_content_then_all_named(s, b3, m, c);
            assert(plus_content(s, b4, c) is None);
            if let Some(y) = b4 { lemma_swap_implicits(s, y, k, w, c); }
        }
        assert(whole is None);
    }
}
'''

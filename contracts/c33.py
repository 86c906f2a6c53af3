"""C33: a module exports exactly what it declares."""
from vx import Unit

EX = 'src/compiler/exports.rs'
COMP = "^impl < 'a > Compiler < 'a >$"

PRE = r'''
use std::rc::Rc;
type NameID = u32;
#[derive(Clone, Copy)]
struct SourceRange { x: u32 }
#[verifier::external_body] struct Value { x: u64 }
#[verifier::external_body] struct Type { x: u64 }
#[verifier::external_body] struct Expr { x: u64 }
#[verifier::external_body] struct Func { x: u64 }
#[verifier::external_body] struct HTML { x: u64 }
#[verifier::external_body] struct ActiveFrame { x: u64 }
struct Name { id: NameID }
struct AlreadyReported;
type Reported<T = ()> = Result<T, AlreadyReported>;
struct Signature { range: SourceRange, other: u64 }
struct FuncDef { range: SourceRange, name_id: NameID, signature: Signature }
struct LetIn { range: SourceRange, is_implicit: bool, vars: Box<[(NameID, Expr)]>, child: Expr }
'''

SPEC = r'''
/// NameIDMap<Value>.
#[verifier::external_body] struct Dict { x: u64 }
impl View for Dict { type V = Map<NameID, Value>; uninterp spec fn view(&self) -> Map<NameID, Value>; }
impl Dict {
    #[verifier::external_body]
    fn insert(&mut self, k: NameID, v: Value) -> (r: Option<Value>)
        ensures (r is Some) == old(self)@.dom().contains(k), final(self)@ == old(self)@.insert(k, v),
    { unimplemented!() }
}
/// Everything a program can change: the exports, the names which were
/// exported again, and the rest.
struct World { exports: Map<NameID, Value>, again: Seq<(NameID, SourceRange)>, rest: int }
struct Compiler { exports: Dict, again: Ghost<Seq<(NameID, SourceRange)>>, rest: Ghost<int> }
impl Compiler { spec fn view(&self) -> World { World { exports: self.exports@, again: self.again@, rest: self.rest@ } } }

/// What evaluating, defining, declaring and entering a scope do; nothing is
/// assumed about these, except that only `evaluate` can export.
uninterp spec fn eval(e: Expr, hint: Type, w: World) -> (Option<Value>, World);
uninterp spec fn defined(d: FuncDef, rest: int) -> (Func, int);
uninterp spec fn declared(n: NameID, v: Value, implicit: bool, range: SourceRange, rest: int) -> int;
uninterp spec fn entered(rest: int) -> int;
uninterp spec fn left(rest: int) -> int;
uninterp spec fn range_of(e: Expr) -> SourceRange;
uninterp spec fn any() -> Type;
uninterp spec fn unit() -> Type;
uninterp spec fn func_value(f: Func) -> Value;
uninterp spec fn func_name(f: Func) -> NameID;
spec fn value_of<T>(r: Reported<T>) -> Option<T> { match r { Ok(v) => Some(v), Err(_) => None } }

/// One name: it has the new value from now on, and a warning if it had one before.
spec fn exported(n: NameID, v: Value, range: SourceRange, w: World) -> World {
    World { exports: w.exports.insert(n, v), again: if w.exports.dom().contains(n) { w.again.push((n, range)) } else { w.again }, rest: w.rest }
}
/// `@export(...)`: the names in the order they are written, up to an error.
spec fn names_from(vars: Seq<(NameID, Expr)>, i: int, w: World) -> (bool, World) decreases vars.len() - i {
    if i >= vars.len() { (true, w) } else { match eval(vars[i].1, any(), w) {
        (None, w1) => (false, w1),
        (Some(v), w1) => names_from(vars, i + 1, exported(vars[i].0, v, range_of(vars[i].1), w1)),
    } }
}
/// `@let(...)` in its own scope: each value is exported, if it is to be, and
/// declared; then the body is evaluated.
spec fn let_from(l: LetIn, i: int, hint: Type, export: bool, w: World) -> (Option<Value>, World) decreases l.vars@.len() - i {
    if i >= l.vars@.len() { eval(l.child, hint, w) } else { match eval(l.vars@[i].1, any(), w) {
        (None, w1) => (None, w1),
        (Some(v), w1) => {
            let (n, range) = (l.vars@[i].0, range_of(l.vars@[i].1));
            let w2 = if export { exported(n, v, range, w1) } else { w1 };
            let_from(l, i + 1, hint, export, World { rest: declared(n, v, l.is_implicit, range, w2.rest), ..w2 })
        },
    } }
}
spec fn in_let(l: LetIn, hint: Type, export: bool, w: World) -> (Option<Value>, World) {
    let (v, w1) = let_from(l, 0, hint, export, World { rest: entered(w.rest), ..w });
    (v, World { rest: left(w1.rest), ..w1 })
}
spec fn exporting(e: Export, w: World) -> (bool, World) {
    match e {
        Export::Names(_, vars) => names_from(vars@, 0, w),
        Export::LetIn(_, l) => { let (v, w1) = in_let(l, unit(), true, w); (v is Some, w1) },
        Export::FuncDef(_, d) => {
            let (f, rest) = defined(d, w.rest);
            let (n, v) = (func_name(f), func_value(f));
            let w1 = exported(n, v, d.signature.range, World { rest, ..w });
            (true, World { rest: declared(n, v, false, d.signature.range, w1.rest), ..w1 })
        },
    }
}
#[verifier::external_body]
fn clone_value(v: &Value) -> (r: Value) ensures r == *v { unimplemented!() }
#[verifier::external_body]
fn value_from(f: Func) -> (r: Value) ensures r == func_value(f) { unimplemented!() }
#[verifier::external_body]
fn any_type() -> (r: &'static Type) ensures *r == any() { unimplemented!() }
#[verifier::external_body]
fn unit_type() -> (r: &'static Type) ensures *r == unit() { unimplemented!() }
enum Warning { NameAlreadyExported(Name) }
impl Expr { #[verifier::external_body] fn range(&self) -> (r: SourceRange) ensures r == range_of(*self) { unimplemented!() } }
impl Func { #[verifier::external_body] fn name_id(&self) -> (r: NameID) ensures r == func_name(*self) { unimplemented!() } }
impl Compiler {
    #[verifier::external_body]
    fn get_name(&self, n: NameID) -> (r: Name) ensures r.id == n { unimplemented!() }
    #[verifier::external_body]
    fn report_static(&mut self, w: Warning, range: SourceRange)
        ensures final(self)@ == (World { again: old(self)@.again.push((w->NameAlreadyExported_0.id, range)), ..old(self)@ }),
    { unimplemented!() }
    #[verifier::external_body]
    fn evaluate_node(&mut self, e: &Expr, hint: &Type) -> (r: Reported<Value>)
        ensures (value_of(r), final(self)@) == eval(*e, *hint, old(self)@),
    { unimplemented!() }
    #[verifier::external_body]
    fn compile_func_def(&mut self, d: &FuncDef) -> (r: Func)
        ensures (r, final(self)@.rest) == defined(*d, old(self)@.rest), final(self)@ == (World { rest: final(self)@.rest, ..old(self)@ }),
    { unimplemented!() }
    #[verifier::external_body]
    fn set_var(&mut self, n: NameID, v: Value, implicit: bool, range: SourceRange)
        ensures final(self)@ == (World { rest: declared(n, v, implicit, range, old(self)@.rest), ..old(self)@ }),
    { unimplemented!() }
    #[verifier::external_body]
    fn new_scope(&self) -> ActiveFrame { unimplemented!() }
    /// C19 proves that this enters the scope and leaves it again.
    #[verifier::external_body]
    fn evaluate_in_frame<T, F: FnOnce(&mut Compiler) -> T>(&mut self, frame: ActiveFrame, f: F) -> (r: T)
        requires forall|c: &mut Compiler| (*c)@ == (World { rest: entered(old(self)@.rest), ..old(self)@ }) ==> #[trigger] f.requires((c,)),
        ensures exists|c: &mut Compiler| (*c)@ == (World { rest: entered(old(self)@.rest), ..old(self)@ }) && #[trigger] f.ensures((c,), r)
            && final(self)@ == (World { rest: left(final(c)@.rest), ..final(c)@ }),
    { unimplemented!() }
'''


def exports():
    u = Unit('exports')
    u.text(PRE)
    u.item('src/parser/ast.rs', 'enum', 'Export')
    u.text(SPEC)
    u.default_subs = [('& Type :: Any', 'any_type()'), ('& Type :: Unit', 'unit_type()'), ('errors :: ', ''), ('ast :: ', ''), ('Value :: from (', 'value_from('),
                      ('v . clone ( )', 'clone_value(&v)'), ('f . clone ( )', 'clone_value(&f)')]
    f = u.fn(EX, 'export', impl=COMP)
    f.ensures('final(self)@ == exported(name_id, value, range, old(self)@)')
    f = u.fn('src/compiler/value.rs', 'evaluate_let_in', impl=COMP)
    f.sub('let frame = self . frame ( ) . to_inactive ( ) . new_empty_child_frame ( ) ;', 'let frame = self.new_scope();', 1)
    f.sub('| _self | { $body }', '''|_self: &mut Compiler| -> (out: Reported<Value>)
            requires old(_self)@ == (World { rest: entered(w0.rest), ..w0 })
            ensures (value_of(out), final(_self)@) == let_from(*let_in, 0, *type_hint, do_export, World { rest: entered(w0.rest), ..w0 })
        { let ghost w1 = _self@; $body }''', 1)
    f.sub('for & ( $i:n , ref $i:v ) in let_in . vars . iter ( ) {', 'let mut at: usize = 0; while at < let_in.vars.len() { let $n = let_in.vars[at].0; let $v = &let_in.vars[at].1; at += 1;', 0)
    f.attr('#[verifier::loop_isolation(false)]')
    f.start('let ghost w0 = self@;')
    f.loop(0, invariant=['at <= let_in.vars@.len()', 'let_from(*let_in, at as int, *type_hint, do_export, _self@) == let_from(*let_in, 0, *type_hint, do_export, w1)'], decreases='let_in.vars@.len() - at')
    f.ensures('(value_of(r), final(self)@) == in_let(*let_in, *type_hint, do_export, old(self)@)')
    f = u.fn(EX, 'compile_export', impl=COMP)
    f.sub('for & ( $i:n , ref $i:v ) in vars . iter ( ) {', 'let mut at: usize = 0; while at < vars.len() { let $n = vars[at].0; let $v = &vars[at].1; at += 1;', 0)
    f.start('let ghost w0 = self@;')
    f.attr('#[verifier::loop_isolation(false)]')
    f.loop(0, invariant=['at <= vars@.len()', 'names_from(vars@, at as int, self@) == names_from(vars@, 0, w0)'], decreases='vars@.len() - at')
    f.ensures('(r is Ok, final(self)@) == exporting(*e, old(self)@)')
    u.text('}')
    return u


UNITS = [exports]

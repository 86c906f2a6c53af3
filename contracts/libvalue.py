"""Values: the extracted enum over lists and dicts seen as their items (what
C12 proves about list slices), and the specification of which values a type
accepts."""
from contracts.libtype import type_enum
from contracts.libhtml import types as html_types, block_spec

VAL = 'src/compiler/value.rs'
CONV = 'src/compiler/value_convert.rs'
CT = 'src/compiler/types.rs'

SPEC = r'''
type Int = i64;
/// A list, as its items.
struct List { items: Rc<[Value]> }
/// A dict, as its keys and their values, in order.
struct Dict { keys: Rc<[NameID]>, items: Rc<[Value]> }
type RcDict = Rc<Dict>;
#[verifier::external_body] struct Func { f: u64 }
#[verifier::external_body] struct RcRegex { r: u64 }
'''

MORE = r'''
spec fn texty(h: HTML) -> bool { h is Text || h is Whitespace || h is RawNewline }
/// HTML inside a value is in normal form, and is not text (text is a string).
spec fn wf_value(v: Value) -> bool decreases v {
    match v {
        Value::HTML(h) => no_empty(h) && !texty(h),
        Value::List(l) => forall|i: int| 0 <= i < l.items@.len() ==> wf_value(#[trigger] l.items@[i]),
        Value::Dict(d) => d.keys@.len() == d.items@.len() && forall|i: int| 0 <= i < d.items@.len() ==> wf_value(#[trigger] d.items@[i]),
        _ => true,
    }
}
spec fn is_none(v: Value) -> bool { v matches Value::HTML(h) && h is Empty }
/// Which values a type accepts.
spec fn accepts(t: Type, v: Value) -> bool decreases v, t {
    if is_none(v) { accepts_none(t) } else {
        match t {
            Type::Any => true,
            Type::Unit => false,
            Type::Bool => v is Bool,
            Type::Int => v is Int,
            Type::Str => v is Str,
            Type::Function => v is Func,
            Type::Regex => v is Regex,
            Type::Html => v is HTML || v is Str,
            Type::Block => v matches Value::HTML(h) && block(h),
            Type::Inline => v is Str || (v matches Value::HTML(h) && inline(h)),
            Type::List(u) => match v { Value::List(l) => forall|i: int| 0 <= i < l.items@.len() ==> accepts(*u, #[trigger] l.items@[i]), _ => false },
            Type::Dict(u) => match v { Value::Dict(d) => forall|i: int| 0 <= i < d.items@.len() ==> accepts(*u, #[trigger] d.items@[i]), _ => false },
            Type::Optional(u) => accepts(*u, v),
        }
    }
}
/// Equal values, lists and dicts item by item.
spec fn same(a: Value, b: Value) -> bool decreases a {
    match a {
        Value::List(l) => b matches Value::List(m) && l.items@.len() == m.items@.len() && forall|i: int| 0 <= i < l.items@.len() ==> same(#[trigger] l.items@[i], m.items@[i]),
        Value::Dict(l) => b matches Value::Dict(m) && l.keys@ == m.keys@ && l.items@.len() == m.items@.len() && forall|i: int| 0 <= i < l.items@.len() ==> same(#[trigger] l.items@[i], m.items@[i]),
        _ => a == b,
    }
}
spec fn all_wf(s: Seq<Value>) -> bool { forall|i: int| 0 <= i < s.len() ==> wf_value(#[trigger] s[i]) }
spec fn all_accepted(t: Type, s: Seq<Value>) -> bool { forall|i: int| 0 <= i < s.len() ==> accepts(t, #[trigger] s[i]) }
spec fn all_same(a: Seq<Value>, b: Seq<Value>) -> bool { a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> same(#[trigger] a[i], b[i]) }
impl List {
    /// SliceRef::as_ref: proved in C12.
    #[verifier::external_body]
    fn as_ref(&self) -> (r: &[Value]) ensures r@ == self.items@ { unimplemented!() }
}
impl Dict {
    #[verifier::external_body]
    fn values(&self) -> (r: &[Value]) ensures r@ == self.items@ { unimplemented!() }
}
/// Derived: a structural copy.
#[verifier::external_body]
fn clone_value(v: &Value) -> (r: Value) ensures r == *v { unimplemented!() }
'''

HTML_SHIMS = r'''
/// Proved in C07.
impl HTML {
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (*self is Empty) { unimplemented!() }
    #[verifier::external_body]
    fn is_block(&self) -> (r: bool) ensures r == block(*self), no_empty(*self) ==> (*self is Empty ==> !r) && (*self !is Empty ==> inline(*self) == !r) { unimplemented!() }
    #[verifier::external_body]
    fn is_inline(&self) -> (r: bool) ensures r == inline(*self), no_empty(*self) ==> r == (*self !is Empty && !block(*self)) { unimplemented!() }
}
'''


def world(u):
    html_types(u)
    type_enum(u)
    u.text(SPEC)
    u.item(VAL, 'enum', 'Value')
    u.text(block_spec() + MORE + HTML_SHIMS)

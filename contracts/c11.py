"""C11: coercion gives a value of the expected type, or an error."""
from vx import Unit
from contracts.libhtml import nid
from contracts.libtype import type_fns, T
from contracts.libstr import DECIMAL
from contracts.libvalue import world, VAL, CT, CONV

SPEC = DECIMAL + r'''
/// HTML which is only text is a string.
spec fn from_html(h: HTML, v: Value) -> bool {
    match h {
        HTML::Text(t) => v == Value::Str(t),
        HTML::Whitespace => v matches Value::Str(s) && s@ == seq![' '],
        HTML::RawNewline => v matches Value::Str(s) && s@ == seq!['\n'],
        _ => v == Value::HTML(h),
    }
}
/// Why a value is rejected.
#[verifier::external_body]
struct PapyriError { e: u64 }
type PapyriResult<T> = Result<T, PapyriError>;
#[verifier::external_body]
fn expected_was(expected: Type, was: Type) -> PapyriError { unimplemented!() }
/// Token::bool_to_string: "True" or "False".
#[verifier::external_body]
fn bool_to_string(b: bool) -> (r: Value) ensures r is Str { unimplemented!() }
/// ToString of an integer.
#[verifier::external_body]
fn int_to_value(i: Int) -> (r: Value) ensures r matches Value::Str(t) && t@ == int_text(i as int) { unimplemented!() }
/// From<&str> for Value.
#[verifier::external_body]
fn str_value(s: &str) -> (r: Value) ensures r matches Value::Str(t) && t@ == s@ { unimplemented!() }
#[verifier::external_body]
fn list_to_vec(l: &List) -> (r: Vec<Value>) ensures r@ == l.items@ { unimplemented!() }
#[verifier::external_body]
fn list_value(v: Vec<Value>) -> (r: Value) ensures r matches Value::List(l) && l.items@ == v@ { unimplemented!() }
/// A dict to be changed.
struct DictMut { keys: Rc<[NameID]>, items: Vec<Value> }
#[verifier::external_body]
fn dict_to_mut(d: &RcDict) -> (r: DictMut) ensures r.keys@ == d.keys@, r.items@ == d.items@ { unimplemented!() }
#[verifier::external_body]
fn dict_value(d: DictMut) -> (r: Value) ensures r matches Value::Dict(l) && l.keys@ == d.keys@ && l.items@ == d.items@ { unimplemented!() }
/// Takes a value and leaves none.
#[verifier::external_body]
fn vec_take(v: &mut Vec<Value>, i: usize) -> (r: Value)
    requires i < old(v)@.len(),
    ensures r == old(v)@[i as int], final(v)@.len() == old(v)@.len(), forall|k: int| 0 <= k < old(v)@.len() && k != i ==> final(v)@[k] == old(v)@[k],
{ unimplemented!() }
/// What the conversion to HTML is assumed to do: it gives HTML in normal form,
/// and leaves HTML as it is.
spec fn to_html<F: Fn(Value) -> HTML>(f: F) -> bool {
    (forall|v: Value| wf_value(v) ==> #[trigger] f.requires((v,)))
    && (forall|v: Value, h: HTML| wf_value(v) && #[trigger] f.ensures((v,), h) ==> no_empty(h) && (v matches Value::HTML(x) ==> h == x))
}
impl HTML {
    /// HTML::tag: a tag without attributes, C08.
    #[verifier::external_body]
    fn in_tag(self, name_id: NameID) -> (r: HTML) ensures r matches HTML::Tag(t) && t.name_id == name_id && t.content == self { unimplemented!() }
    #[verifier::external_body]
    fn clone_html(&self) -> (r: HTML) ensures r == *self { unimplemented!() }
}
impl Value {
    /// Proved in C10.
    #[verifier::external_body]
    fn is_unit(&self) -> (r: bool) ensures r == is_none(*self) { unimplemented!() }
    #[verifier::external_body]
    fn get_type(&self) -> (r: Type) requires wf_value(*self) { unimplemented!() }
}
proof fn lemma_same_refl(v: Value)
    ensures same(v, v),
    decreases v,
{
    match v {
        Value::List(l) => { assert forall|i: int| 0 <= i < l.items@.len() implies same(#[trigger] l.items@[i], l.items@[i]) by { lemma_same_refl(l.items@[i]); } },
        Value::Dict(l) => { assert forall|i: int| 0 <= i < l.items@.len() implies same(#[trigger] l.items@[i], l.items@[i]) by { lemma_same_refl(l.items@[i]); } },
        _ => {},
    }
}
'''

COERCED = ['r matches Ok(x) ==> wf_value(x) && accepts(*self, x)', 'accepts(*self, value) ==> (r matches Ok(x) && same(value, x))']


def coercion():
    u = Unit('coercion')
    world(u)
    u.text(SPEC + 'impl Type {')
    I = '^impl Type$'
    f = u.fn(CT, 'component_type', impl=I)
    f.ensures('*self matches Type::Dict(t) ==> *r == *t', '*self matches Type::List(t) ==> *r == *t', '*self is Block || *self is Html ==> *r is Html').decreases('*self')
    f = u.fn(CT, 'coerce_value', impl=I)
    f.sub("( & self , value : Value , value_to_html : & impl Fn ( Value ) -> HTML ) -> errors :: PapyriResult < Value >", '<F: Fn(Value) -> HTML>(&self, value: Value, value_to_html: &F) -> PapyriResult<Value>', 1)
    f.sub('& Value :: Bool ( b ) ) => return Ok ( token :: Token :: bool_to_string ( b ) . into ( ) )', 'Value::Bool(b)) => return Ok(bool_to_string(*b))', 0)
    f.sub('& Value :: Int ( i ) ) => return Ok ( i . to_string ( ) . into ( ) )', 'Value::Int(i)) => return Ok(int_to_value(*i))', 0)
    f.sub('token :: Token :: bool_to_string ( b ) . into ( )', 'bool_to_string(b)', 0)
    f.sub('i . to_string ( ) . into ( )', 'int_to_value(i)', 0)
    f.sub('vs . as_ref ( ) . clone ( )', 'dict_to_mut(vs)', 0)
    f.sub('vs . as_ref ( ) . to_vec ( )', 'list_to_vec(vs)', 0)
    f.sub('t . coerce_all ( $i:c . values_mut ( ) , value_to_html ) ? ; return Ok ( $i:d . into ( ) ) ;', 't.coerce_all(&mut $c.items, value_to_html)?; return Ok(dict_value($d));', 0)
    f.sub('t . coerce_all ( $i:c . iter_mut ( ) , value_to_html ) ? ; return Ok ( $i:d . into ( ) ) ;', 't.coerce_all(&mut $c, value_to_html)?; return Ok(list_value($d));', 0)
    f.sub('errors :: TypeError :: ExpectedWas ( $a , $b ) . into ( )', 'expected_was($a, $b)', 0)
    f.sub('expected . clone ( )', 'clone_type(expected)', 0)
    f.sub('value . clone ( )', 'clone_value(&value)', 0)
    f.sub('Value :: UNIT', 'Value::HTML(HTML::Empty)', 0)
    f.sub('value_to_html ( $x ) . into ( )', 'value_from_html(value_to_html($x))', 0)
    f.sub('Ok ( $i:x . into ( ) )', 'Ok(value_from_html($x))', 0)
    f.requires('normal_type(*self)', 'wf_value(value)', 'to_html(*value_to_html)').ensures(*COERCED, 'value is Int && (self is Str || (*self matches Type::Optional(t) && *t is Str)) ==> (r matches Ok(Value::Str(t)) && t@ == int_text(value->Int_0 as int))').decreases('value, *self')
    f.start('proof { lemma_same_refl(value); reveal_with_fuel(accepts, 3); reveal_with_fuel(wf_value, 2); reveal_with_fuel(same, 2); reveal_with_fuel(no_empty, 2); reveal_with_fuel(normal_type, 2); if value is HTML { lemma_exactly_one(value->HTML_0); } }')
    f = u.fn(CT, 'coerce_all', impl=I)
    f.sub("< 'a , T : Iterator < Item = & 'a mut Value > > ( & self , vs : T , value_to_html : & impl Fn ( Value ) -> HTML ) -> errors :: PapyriResult", '<F: Fn(Value) -> HTML>(&self, vs: &mut Vec<Value>, value_to_html: &F) -> PapyriResult<()>', 1)
    f.sub('for v in vs { let old_v = std :: mem :: take ( v ) ; * v = $e ; }', 'let mut i: usize = 0; while i < vs.len() { let old_v = vec_take(vs, i); let new_v = $e; vs.set(i, new_v); i += 1; }', 1)
    f.requires('normal_type(*self)', 'all_wf(old(vs)@)', 'to_html(*value_to_html)').ensures('r is Ok ==> all_wf(final(vs)@) && all_accepted(*self, final(vs)@) && final(vs)@.len() == old(vs)@.len()', 'all_accepted(*self, old(vs)@) ==> r is Ok && all_same(old(vs)@, final(vs)@)').decreases('old(vs)@, *self')
    f.loop(0, invariant=['normal_type(*self)', '0 <= i <= vs@.len()', 'vs@.len() == old(vs)@.len()', 'all_wf(old(vs)@)', 'to_html(*value_to_html)',
        'forall|k: int| 0 <= k < i ==> wf_value(#[trigger] vs@[k]) && accepts(*self, vs@[k])', 'forall|k: int| i <= k < vs@.len() ==> #[trigger] vs@[k] == old(vs)@[k]',
        'all_accepted(*self, old(vs)@) ==> forall|k: int| 0 <= k < i ==> same(#[trigger] old(vs)@[k], vs@[k])'], decreases='vs@.len() - i')
    f.loop_start(0, 'proof { assert(vs@[i as int] == old(vs)@[i as int]); assert(wf_value(old(vs)@[i as int])); if all_accepted(*self, old(vs)@) { assert(accepts(*self, old(vs)@[i as int])); } }')
    u.text('}')
    f = u.fn(CONV, 'from', impl='^impl From < HTML > for Value$')
    f.emit_name = 'value_from_html'
    f.sub('" " . into ( )', 'str_value(" ")', 0)
    f.sub('"\\n" . into ( )', 'str_value("\\n")', 0)
    f.start('proof { reveal_strlit(" "); reveal_strlit("\\n"); assert(" "@ =~= seq![\' \']); assert("\\n"@ =~= seq![\'\\n\']); }')
    f.requires('no_empty(html)').ensures('from_html(html, r)', 'wf_value(r)')
    return u

UNITS = [coercion]

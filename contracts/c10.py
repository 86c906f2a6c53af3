"""C10: a value is accepted by its type, and the common type accepts both."""
from vx import Unit
from contracts.libtype import type_fns
from contracts.libvalue import world, VAL, CT

LUB = r'''
spec fn tsize(t: Type) -> nat decreases t { match t { Type::Dict(u) | Type::List(u) | Type::Optional(u) => tsize(*u) + 1, _ => 1 } }
spec fn htmlish(t: Type) -> bool { t is Html || t is Block || t is Inline }
/// The strongest type which accepts the values of both.
spec fn lub(a: Type, b: Type) -> Type decreases tsize(a) + tsize(b) {
    if a == b { a }
    else if a is Any || b is Any { Type::Any }
    else if b is Unit { optional(a) }
    else if a is Unit { optional(b) }
    else if htmlish(a) && htmlish(b) { Type::Html }
    else {
        match (a, b) {
            (Type::List(x), Type::List(y)) => Type::List(Box::new(lub(*x, *y))),
            (Type::Dict(x), Type::Dict(y)) => Type::Dict(Box::new(lub(*x, *y))),
            (Type::Optional(x), Type::Optional(y)) => optional(lub(*x, *y)),
            (Type::Optional(x), _) => optional(lub(*x, b)),
            (_, Type::Optional(y)) => optional(lub(*y, a)),
            _ => Type::Any,
        }
    }
}
proof fn lemma_same(a: Type) ensures lub(a, a) == a {}
/// It does not matter which comes first.
proof fn lemma_sym(a: Type, b: Type) ensures lub(a, b) == lub(b, a) decreases tsize(a) + tsize(b) {
    match (a, b) {
        (Type::List(x), Type::List(y)) | (Type::Dict(x), Type::Dict(y)) | (Type::Optional(x), Type::Optional(y)) => { lemma_sym(*x, *y); },
        (Type::Optional(x), _) => { lemma_sym(*x, b); },
        (_, Type::Optional(y)) => { lemma_sym(a, *y); },
        _ => {},
    }
}
proof fn lemma_normal(a: Type, b: Type)
    requires normal_type(a), normal_type(b),
    ensures normal_type(lub(a, b)),
    decreases tsize(a) + tsize(b),
{
    match (a, b) {
        (Type::List(x), Type::List(y)) | (Type::Dict(x), Type::Dict(y)) | (Type::Optional(x), Type::Optional(y)) => { lemma_normal(*x, *y); },
        (Type::Optional(x), _) => { lemma_normal(*x, b); },
        (_, Type::Optional(y)) => { lemma_normal(*y, a); },
        _ => {},
    }
}
/// What either accepts, the common type accepts.
proof fn lemma_upper(a: Type, b: Type, v: Value)
    requires accepts(a, v) || accepts(b, v), wf_value(v),
    ensures accepts(lub(a, b), v),
    decreases v, tsize(a) + tsize(b),
{
    if a != b && !(a is Any || b is Any || a is Unit || b is Unit) && !(htmlish(a) && htmlish(b)) {
        match (a, b) {
            (Type::List(x), Type::List(y)) => {
                if let Value::List(l) = v { assert forall|i: int| 0 <= i < l.items@.len() implies accepts(lub(*x, *y), #[trigger] l.items@[i]) by { assert(accepts(*x, l.items@[i]) || accepts(*y, l.items@[i])); lemma_upper(*x, *y, l.items@[i]); } }
            },
            (Type::Dict(x), Type::Dict(y)) => {
                if let Value::Dict(l) = v { assert forall|i: int| 0 <= i < l.items@.len() implies accepts(lub(*x, *y), #[trigger] l.items@[i]) by { assert(accepts(*x, l.items@[i]) || accepts(*y, l.items@[i])); lemma_upper(*x, *y, l.items@[i]); } }
            },
            (Type::Optional(x), Type::Optional(y)) => { if !is_none(v) { lemma_upper(*x, *y, v); } },
            (Type::Optional(x), _) => { if !is_none(v) { lemma_upper(*x, b, v); } else if accepts(b, v) { lemma_upper(*x, b, v); } },
            (_, Type::Optional(y)) => { if !is_none(v) { lemma_upper(*y, a, v); } else if accepts(a, v) { lemma_upper(*y, a, v); } },
            _ => {},
        }
    }
    if htmlish(a) && htmlish(b) && a != b { if let Value::HTML(h) = v { lemma_exactly_one(h); } }
}
/// All items of a list are accepted by the common type of the items.
spec fn lub_all(s: Seq<Value>) -> Type;
'''


def types_of_values():
    u = Unit('types_of_values')
    world(u)
    u.text(LUB.replace("/// All items of a list are accepted by the common type of the items.\nspec fn lub_all(s: Seq<Value>) -> Type;\n", '') + 'impl Type {')
    type_fns(u, ['dict', 'list', 'option', 'is_html', 'unit_is_assignable'])
    I = '^impl Type$'
    f = u.fn(CT, 'least_upper_bound', impl=I)
    f.sub('if t1 == t2', 'if type_eq(&t1, &t2)', 1)
    f.ensures('r == lub(self, other)', 'normal_type(self) && normal_type(other) ==> normal_type(r)',
              'forall|v: Value| wf_value(v) && (accepts(self, v) || accepts(other, v)) ==> #[trigger] accepts(r, v)').decreases('tsize(self) + tsize(other)')
    f.start('proof { if normal_type(self) && normal_type(other) { lemma_normal(self, other); } lemma_sym(self, other); assert forall|v: Value| wf_value(v) && (accepts(self, v) || accepts(other, v)) implies #[trigger] accepts(lub(self, other), v) by { lemma_upper(self, other, v); } }')
    f = u.fn(CT, 'check_value', impl=I)
    f.requires('wf_value(value)').ensures('r == accepts(*self, value)').decreases('value, *self')
    f.sub('vs . as_ref ( ) . iter ( )', 'vs.as_ref()', 0)
    f = u.fn(CT, 'check_all', impl=I)
    f.sub("< 'a , T : Iterator < Item = & 'a Value > > ( & self , vs : T )", '(&self, vs: &[Value])', 1)
    f.sub('* self == Type :: $i:v', 'type_eq(self, &Type::$v)', 0)
    f.sub('vs . cloned ( ) . all ( | v | $b )', '{ let mut all = true; for v_ref in vs.iter() { let v = clone_value(v_ref); if !($b) { all = false; break; } } all }', 1)
    f.requires('all_wf(vs@)').ensures('r == all_accepted(*self, vs@)').decreases('vs@, *self')
    f.loop(0, it='it', invariant=['all_wf(vs@)', 'it.seq() =~= vs@.map_values(|v: Value| &v)', 'all ==> forall|i: int| 0 <= i < it.index@ ==> accepts(*self, #[trigger] vs@[i])', '!all ==> !all_accepted(*self, vs@)'], ensures=['all == all_accepted(*self, vs@)'])
    f.loop_start(0, 'proof { assert(wf_value(vs@[it.index@ as int])); }')
    u.text('} impl Value {')
    I = '^impl Value$'
    f = u.fn(VAL, 'is_unit', impl=I)
    f.ensures('r == is_none(*self)')
    f = u.fn(VAL, 'get_type', impl=I)
    f.sub('vs . as_ref ( ) . iter ( )', 'vs.as_ref()', 0)
    f.requires('wf_value(*self)').ensures('accepts(r, *self)', 'normal_type(r)',
        '*self matches Value::List(l) ==> (r matches Type::List(t) && all_accepted(*t, l.items@))',
        '*self matches Value::Dict(l) ==> (r matches Type::Dict(t) && all_accepted(*t, l.items@))',
        '*self is Bool ==> r is Bool', '*self is Int ==> r is Int', '*self is Str ==> r is Str', '*self is Func ==> r is Function', '*self is Regex ==> r is Regex',
        '*self matches Value::HTML(h) ==> (if h is Empty { r is Unit } else if block(h) { r is Block } else { r is Inline && inline(h) })').decreases('*self')
    f.start('proof { if let Value::HTML(h) = self { lemma_exactly_one(*h); } }')
    f = u.fn(VAL, 'common_type_of', impl=I)
    f.sub("< 'a , T : Iterator < Item = & 'a Value > > ( vs : T )", '(vs: &[Value])', 1)
    f.sub('vs . map ( $f ) . reduce ( $g ) . unwrap_or ( $d )', '{ let mut acc: Option<Type> = None; for v in vs.iter() { let t = $f(v); acc = Some(match acc { None => t, Some(a) => $g(a, t) }); } match acc { Some(t) => t, None => $d } }', 1)
    f.requires('all_wf(vs@)').ensures('all_accepted(r, vs@)', 'normal_type(r)').decreases('vs@')
    f.loop(0, it='it', invariant=['all_wf(vs@)', 'it.seq() =~= vs@.map_values(|v: Value| &v)', 'acc is None ==> it.index@ == 0', 'acc matches Some(t) ==> normal_type(t) && forall|i: int| 0 <= i < it.index@ ==> accepts(t, #[trigger] vs@[i])'])
    f.loop_start(0, 'proof { assert(wf_value(vs@[it.index@ as int])); } let ghost before = acc;')
    u.text('}')
    return u

UNITS = [types_of_values]

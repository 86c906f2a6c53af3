"""C22: patterns match and bind as they are written."""
from vx import Unit
from contracts.libvalue import world
from contracts.c19 import frames

M = 'src/compiler/matcher.rs'
AST = 'src/parser/ast.rs'
PM = 'src/parser/matcher.rs'

TYPES = r'''
#[derive(Clone, Copy)]
struct SourceRange { x: u32 }
#[verifier::external_body] struct Expr { x: u64 }
#[verifier::external_body] struct Regex { x: u64 }
/// The patterns of a dict by name, in order.
struct PatternMap { keys: Rc<[NameID]>, pats: Box<[MatchPattern]> }
'''

SPEC = r'''
#[verifier::external_body] struct Scope { s: u64 }
#[verifier::external_body] struct State { s: u64 }
type Vars = Map<NameID, Value>;
/// The variables of the frame of a match branch, where that frame is, and what
/// evaluating an expression may depend on besides.
ghost struct Env { vars: Vars, outer: Seq<Vars>, st: State }
uninterp spec fn name_text(n: NameID) -> Seq<char>;
/// The value of an expression, if it has one.
uninterp spec fn eval(x: Expr, hint: Type, e: Env) -> (Option<Value>, State);
/// Whether a value is accepted by a type, C10.
uninterp spec fn typed(t: Type, v: Value) -> bool;
/// PartialEq of values.
uninterp spec fn equal(a: Value, b: Value) -> bool;
uninterp spec fn type_text(v: Value) -> Value;
uninterp spec fn html_of(v: Value) -> Option<HTML>;
uninterp spec fn html_value(h: HTML) -> Value;
uninterp spec fn html_seq(s: Seq<HTML>) -> HTML;
uninterp spec fn list_of(s: Seq<Value>) -> Value;
uninterp spec fn dict_of(s: Seq<(NameID, Value)>) -> Value;
uninterp spec fn text_value(s: Seq<char>) -> Value;
uninterp spec fn tag_attrs(a: AttrMap) -> Seq<(NameID, Option<Rc<str>>)>;
/// The text of each capturing group, if the regular expression matches.
uninterp spec fn captured(r: Regex, s: Seq<char>) -> Option<Seq<Option<Seq<char>>>>;
spec fn none() -> Value { Value::HTML(HTML::Empty) }
spec fn with_vars(e: Env, v: Vars) -> Env { Env { vars: v, ..e } }
spec fn html_items(h: HTML) -> Seq<HTML> { match h { HTML::Empty => Seq::empty(), HTML::Sequence(s) => s@, _ => seq![h] } }
spec fn entries(d: RcDict) -> Seq<(NameID, Value)> { Seq::new(d.keys@.len(), |i: int| (d.keys@[i], d.items@[i])) }
spec fn attr_entries(a: AttrMap) -> Seq<(NameID, Value)> { tag_attrs(a).map_values(|e: (NameID, Option<Rc<str>>)| (e.0, match e.1 { Some(t) => text_value(t@), None => none() })) }
spec fn tag_name(t: Rc<Tag>) -> Value { text_value(name_text((*t).name_id)) }
spec fn tag_dict(t: Rc<Tag>) -> Value { dict_of(attr_entries((*t).attributes)) }
spec fn tag_content(t: Rc<Tag>) -> Value { html_value((*t).content) }
/// Entries whose name is not among the given ones, in order.
spec fn others(s: Seq<(NameID, Value)>, ks: Seq<NameID>) -> Seq<(NameID, Value)> decreases s.len() {
    if s.len() == 0 { s } else { let r = others(s.drop_last(), ks); if ks.contains(s.last().0) { r } else { r.push(s.last()) } }
}
spec fn get(d: RcDict, k: NameID) -> Option<Value> { if exists|i: int| 0 <= i < d.keys@.len() && d.keys@[i] == k { Some(d.items@[choose|i: int| 0 <= i < d.keys@.len() && d.keys@[i] == k]) } else { None } }
/// What a spread takes: the items which the other patterns leave.
spec fn spread_html(s: Seq<HTML>, i: int, n: int) -> Seq<Value> { s.take(i).map_values(|h: HTML| html_value(h)).push(html_value(html_seq(s.subrange(i, s.len() - n + i + 1)))) + s.skip(s.len() - n + i + 1).map_values(|h: HTML| html_value(h)) }
spec fn spread_list(s: Seq<Value>, i: int, n: int) -> Seq<Value> { s.take(i).push(list_of(s.subrange(i, s.len() - n + i + 1))) + s.skip(s.len() - n + i + 1) }
/// Names bound to none unless they are bound already.
spec fn fill(v: Vars, ns: Seq<NameID>) -> Vars decreases ns.len() {
    if ns.len() == 0 { v } else { let w = fill(v, ns.drop_last()); if w.dom().contains(ns.last()) { w } else { w.insert(ns.last(), none()) } }
}
spec fn without(v: Vars, ns: Seq<NameID>) -> Vars decreases ns.len() { if ns.len() == 0 { v } else { without(v, ns.drop_last()).remove(ns.last()) } }
spec fn bind(e: Env, n: NameID, v: Value) -> Env { with_vars(e, e.vars.insert(n, v)) }
spec fn bind_groups(e: Env, ns: Seq<SimpleName>, c: Seq<Option<Seq<char>>>, k: int) -> Env decreases k {
    if k <= 0 { e } else { bind(bind_groups(e, ns, c, k - 1), ns[k - 1].name_id, match c[k] { Some(t) => text_value(t), None => none() }) }
}
spec fn children(p: MatchPattern) -> Seq<MatchPattern> {
    match p {
        MatchPattern::ExactList(_, ps) | MatchPattern::ExactHTMLSeq(_, ps) => ps@,
        MatchPattern::SpreadList(_, ps, _) | MatchPattern::SpreadHTMLSeq(_, ps, _) => ps@,
        MatchPattern::Dict(_, d) => d.attrs.pats@,
        _ => Seq::empty(),
    }
}
/// Whether a pattern matches a value, and the variables after it was tried.
spec fn matching(p: MatchPattern, v: Value, e: Env) -> (bool, Env) decreases p, children(p).len() + 10 {
    match p {
        MatchPattern::Ignore(_) => (true, e),
        MatchPattern::LiteralNone(_) => (is_none(v), e),
        MatchPattern::LiteralName(_, n) => (v matches Value::Str(t) && t@ == name_text(n), e),
        MatchPattern::VarName(x) => (true, bind(e, x.name_id, v)),
        MatchPattern::TypeOf(x) => (true, bind(e, x.name_id, type_text(v))),
        MatchPattern::EqualsValue(x) => { let r = eval(x, Type::Any, e); (r.0 matches Some(o) && equal(v, o), Env { st: r.1, ..e }) },
        MatchPattern::Typed(_, t) => (typed(t, v), e),
        MatchPattern::And(q) => { let r = matching(q.0, v, e); if r.0 { matching(q.1, v, r.1) } else { r } },
        MatchPattern::Or(q, ns) => {
            let l = matching(q.0, v, e);
            if l.0 { (true, with_vars(l.1, fill(l.1.vars, ns@))) }
            else { let r = matching(q.1, v, with_vars(l.1, without(l.1.vars, ns@))); if r.0 { (true, with_vars(r.1, fill(r.1.vars, ns@))) } else { r } }
        },
        MatchPattern::ExactList(_, ps) => match v { Value::List(l) => if l.items@.len() == ps@.len() { matching_all(p, l.items@, 0, ps@.len() as int, e) } else { (false, e) }, _ => (false, e) },
        MatchPattern::ExactHTMLSeq(_, ps) => match html_of(v) { Some(h) => if html_items(h).len() == ps@.len() { matching_all(p, html_items(h).map_values(|h: HTML| html_value(h)), 0, ps@.len() as int, e) } else { (false, e) }, None => (false, e) },
        MatchPattern::SpreadList(_, ps, i) => match v { Value::List(l) => if l.items@.len() + 1 >= ps@.len() { matching_all(p, spread_list(l.items@, i as int, ps@.len() as int), 0, ps@.len() as int, e) } else { (false, e) }, _ => (false, e) },
        MatchPattern::SpreadHTMLSeq(_, ps, i) => match html_of(v) { Some(h) => if html_items(h).len() + 1 >= ps@.len() { matching_all(p, spread_html(html_items(h), i as int, ps@.len() as int), 0, ps@.len() as int, e) } else { (false, e) }, None => (false, e) },
        MatchPattern::Dict(_, q) => match v {
            Value::Dict(d) => if q.spread is None && d.keys@.len() != q.attrs.keys@.len() { (false, e) } else {
                let r = matching_names(p, d, q.attrs.keys@, q.attrs.pats@.len() as int, e);
                if !r.0 { r } else { match q.spread { Some(s) => matching(s, dict_of(others(entries(d), q.attrs.keys@)), r.1), None => r } }
            },
            _ => (false, e),
        },
        MatchPattern::Tag(_, q) => match v {
            Value::HTML(HTML::Tag(t)) => {
                let r = matching(q.name, tag_name(t), e);
                if !r.0 { r } else {
                    let s = matching(q.attrs, tag_dict(t), r.1);
                    if !s.0 { s } else { matching(q.content, tag_content(t), s.1) }
                }
            },
            _ => (false, e),
        },
        MatchPattern::Regex(_, q) => match v { Value::Str(t) => match captured(q.regex, t@) { Some(c) => (true, bind_groups(e, q.names@, c, q.names@.len() as int)), None => (false, e) }, _ => (false, e) },
    }
}
/// The patterns lo, lo + 1, ... below hi match the values at their positions.
spec fn matching_all(p: MatchPattern, vs: Seq<Value>, lo: int, hi: int, e: Env) -> (bool, Env) decreases p, hi - lo + 1 {
    if lo >= hi || lo < 0 || lo >= children(p).len() { (true, e) } else {
        let r = matching(children(p)[lo], vs[lo], e);
        if r.0 { matching_all(p, vs, lo + 1, hi, r.1) } else { r }
    }
}
/// The first n patterns match the values with their names.
spec fn matching_names(p: MatchPattern, d: RcDict, ks: Seq<NameID>, n: int, e: Env) -> (bool, Env) decreases p, n + 1 {
    if n <= 0 || n > children(p).len() { (true, e) } else {
        let r = matching_names(p, d, ks, n - 1, e);
        if !r.0 { r } else { match get(d, ks[n - 1]) { None => (false, r.1), Some(v) => matching(children(p)[n - 1], v, r.1) } }
    }
}
/// What the parser makes.
spec fn wf_pattern(p: MatchPattern) -> bool decreases p {
    match p {
        MatchPattern::And(q) | MatchPattern::Or(q, _) => wf_pattern(q.0) && wf_pattern(q.1),
        MatchPattern::ExactList(..) | MatchPattern::ExactHTMLSeq(..) => forall|i: int| 0 <= i < children(p).len() ==> wf_pattern(#[trigger] children(p)[i]),
        MatchPattern::SpreadList(_, _, k) | MatchPattern::SpreadHTMLSeq(_, _, k) => k < children(p).len() && forall|i: int| 0 <= i < children(p).len() ==> wf_pattern(#[trigger] children(p)[i]),
        MatchPattern::Dict(_, d) => d.attrs.keys@.len() == d.attrs.pats@.len() && (forall|i: int| 0 <= i < children(p).len() ==> wf_pattern(#[trigger] children(p)[i])) && (d.spread matches Some(s) ==> wf_pattern(s)),
        MatchPattern::Tag(_, t) => wf_pattern(t.name) && wf_pattern(t.attrs) && wf_pattern(t.content),
        MatchPattern::Regex(_, r) => forall|s: Seq<char>| (#[trigger] captured(r.regex, s)) matches Some(c) ==> c.len() == r.names@.len() + 1,
        _ => true,
    }
}
'''

SHIMS = r'''
impl List {
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.items@.len(), r < usize::MAX { unimplemented!() }
    /// Clones of the items.
    #[verifier::external_body]
    fn to_values(&self) -> (r: Vec<Value>) ensures r@ == self.items@ { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, i: usize) -> (r: &Value) requires i < self.items@.len() ensures *r == self.items@[i as int] { unimplemented!() }
    /// SliceRef::slice, C12.
    #[verifier::external_body]
    fn slice_value(&self, a: usize, b: usize) -> (r: Value) requires a <= b <= self.items@.len() ensures r == list_of(self.items@.subrange(a as int, b as int)) { unimplemented!() }
}
/// A dict has a value for each key.
#[verifier::external_body]
proof fn axiom_dict(d: RcDict) ensures d.keys@.len() == d.items@.len() {}
#[verifier::external_body]
fn dict_len(d: &RcDict) -> (r: usize) ensures r == d.keys@.len() { unimplemented!() }
#[verifier::external_body]
fn dict_get<'a>(d: &'a RcDict, k: &NameID) -> (r: Option<&'a Value>) ensures match get(*d, *k) { Some(v) => r matches Some(w) && *w == v, None => r is None } { unimplemented!() }
#[verifier::external_body]
fn dict_entry<'a>(d: &'a RcDict, i: usize) -> (r: (NameID, &'a Value)) requires i < d.keys@.len() ensures r.0 == d.keys@[i as int], *r.1 == d.items@[i as int] { unimplemented!() }
#[verifier::external_body]
fn dict_from(v: Vec<(NameID, Value)>) -> (r: Value) ensures r == dict_of(v@) { unimplemented!() }
impl PatternMap {
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.keys@.len() { unimplemented!() }
    #[verifier::external_body]
    fn key(&self, i: usize) -> (r: NameID) requires i < self.keys@.len() ensures r == self.keys@[i as int] { unimplemented!() }
    #[verifier::external_body]
    fn pat(&self, i: usize) -> (r: &MatchPattern) requires i < self.pats@.len() ensures *r == self.pats@[i as int] { unimplemented!() }
    #[verifier::external_body]
    fn contains_key(&self, k: &NameID) -> (r: bool) ensures r == self.keys@.contains(*k) { unimplemented!() }
}
impl AttrMap {
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == tag_attrs(*self).len() { unimplemented!() }
    #[verifier::external_body]
    fn entry(&self, i: usize) -> (r: (NameID, Option<Rc<str>>)) requires i < tag_attrs(*self).len() ensures r == tag_attrs(*self)[i as int] { unimplemented!() }
}
impl Type {
    #[verifier::external_body]
    fn check_value(&self, v: Value) -> (r: bool) ensures r == typed(*self, v) { unimplemented!() }
}
impl Value {
    /// Proved in C10.
    #[verifier::external_body]
    fn is_unit(&self) -> (r: bool) ensures r == is_none(*self) { unimplemented!() }
}
#[verifier::external_body]
fn type_name(v: &Value) -> (r: Value) ensures r == type_text(*v) { unimplemented!() }
#[verifier::external_body]
fn value_equal(a: &Value, b: &Value) -> (r: bool) ensures r == equal(*a, *b) { unimplemented!() }
#[verifier::external_body]
fn same_text(a: &Rc<str>, b: &Rc<str>) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
fn try_html(v: Value) -> (r: Result<HTML, u64>) ensures match html_of(v) { Some(h) => r matches Ok(x) && x == h, None => r is Err } { unimplemented!() }
#[verifier::external_body]
fn nodes_to_values(v: &[HTML]) -> (r: Vec<Value>) ensures r@ == v@.map_values(|h: HTML| html_value(h)) { unimplemented!() }
#[verifier::external_body]
fn html_to_value(h: &HTML) -> (r: Value) ensures r == html_value(*h) { unimplemented!() }
/// HTML::from_iter of clones of the items, C06.
#[verifier::external_body]
fn html_from(v: &[HTML], a: usize, b: usize) -> (r: Value) requires a <= b <= v@.len() ensures r == html_value(html_seq(v@.subrange(a as int, b as int))) { unimplemented!() }
#[verifier::external_body]
fn text_to_value(t: Rc<str>) -> (r: Value) ensures r == text_value(t@) { unimplemented!() }
#[verifier::external_body]
fn attr_value(t: Option<Rc<str>>) -> (r: Value) ensures r == (match t { Some(t) => text_value(t@), None => none() }) { unimplemented!() }
#[verifier::external_body]
fn group_value(t: &Option<Rc<str>>) -> (r: Value) ensures r == (match *t { Some(t) => text_value(t@), None => none() }) { unimplemented!() }
spec fn group_texts(v: Seq<Option<Rc<str>>>) -> Seq<Option<Seq<char>>> { v.map_values(|t: Option<Rc<str>>| match t { Some(t) => Some(t@), None => None }) }
impl Regex {
    #[verifier::external_body]
    fn captures(&self, s: &Rc<str>) -> (r: Option<Vec<Option<Rc<str>>>>) ensures match captured(*self, s@) { Some(c) => r matches Some(v) && group_texts(v@) == c, None => r is None } { unimplemented!() }
}
#[verifier::external_body] fn no_nodes() -> (r: &'static [HTML]) ensures r@.len() == 0 { unimplemented!() }
#[verifier::external_body] fn one_node(h: &HTML) -> (r: &[HTML]) ensures r@ == seq![*h] { unimplemented!() }
#[verifier::external_body] fn rc_nodes(h: &Rc<[HTML]>) -> (r: &[HTML]) ensures r@ == h@, r@.len() < usize::MAX { unimplemented!() }
#[verifier::external_body] fn pats_to(v: &[MatchPattern], n: usize) -> (r: &[MatchPattern]) requires n <= v@.len() ensures r@ == v@.take(n as int) { &v[..n] }
#[verifier::external_body] fn pats_from(v: &[MatchPattern], n: usize) -> (r: &[MatchPattern]) requires n <= v@.len() ensures r@ == v@.skip(n as int) { &v[n..] }
/// (a..b).map(f), collected.
fn map_range<F: Fn(usize) -> Value>(a: usize, b: usize, f: &F) -> (r: Vec<Value>)
    requires a <= b, forall|i: usize| a <= i < b ==> #[trigger] f.requires((i,)),
    ensures r@.len() == b - a, forall|k: int| 0 <= k < b - a ==> f.ensures(((a + k) as usize,), #[trigger] r@[k]),
{
    let mut out: Vec<Value> = Vec::new();
    let mut i = a;
    while i < b
        invariant a <= i <= b, out@.len() == i - a, forall|j: usize| a <= j < b ==> #[trigger] f.requires((j,)), forall|k: int| 0 <= k < i - a ==> f.ensures(((a + k) as usize,), #[trigger] out@[k]),
        decreases b - i,
    {
        let v = f(i);
        out.push(v);
        i += 1;
    }
    out
}
#[verifier::external_body]
struct Error { e: u64 }
type Reported<T> = Result<T, Error>;
struct Compiler { env: Ghost<Env> }
struct ActiveFrame { env: Ghost<Env> }
impl Compiler {
    #[verifier::external_body]
    fn evaluate_node(&mut self, x: &Expr, hint: &Type) -> (r: Reported<Value>)
        ensures match eval(*x, *hint, old(self).env@).0 { Some(v) => r matches Ok(w) && w == v, None => r is Err }, final(self).env@ == (Env { st: eval(*x, *hint, old(self).env@).1, ..old(self).env@ }) { unimplemented!() }
    #[verifier::external_body]
    fn get_name(&self, n: NameID) -> (r: Rc<str>) ensures r@ == name_text(n) { unimplemented!() }
    /// The methods of the innermost frame, C19.
    #[verifier::external_body]
    fn frame_set(&mut self, n: NameID, v: Value, implicit: bool) -> (r: bool) ensures final(self).env@ == bind(old(self).env@, n, v) { unimplemented!() }
    #[verifier::external_body]
    fn frame_unset_all(&mut self, ns: &[NameID]) ensures final(self).env@ == with_vars(old(self).env@, without(old(self).env@.vars, ns@)) { unimplemented!() }
    #[verifier::external_body]
    fn frame_set_all_if_not_present(&mut self, ns: &[NameID], v: Value) requires v == none() ensures final(self).env@ == with_vars(old(self).env@, fill(old(self).env@.vars, ns@)) { unimplemented!() }
    #[verifier::external_body]
    fn new_empty_child_frame(&self) -> (r: ActiveFrame) ensures r.env@ == (Env { vars: Map::empty(), outer: self.env@.outer.push(self.env@.vars), st: self.env@.st }) { unimplemented!() }
    #[verifier::external_body]
    fn push_frame(&mut self, f: ActiveFrame) requires f.env@.outer == old(self).env@.outer.push(old(self).env@.vars) ensures final(self).env@ == (Env { st: old(self).env@.st, ..f.env@ }) { unimplemented!() }
    #[verifier::external_body]
    fn pop_frame(&mut self) requires old(self).env@.outer.len() > 0 ensures final(self).env@ == (Env { vars: old(self).env@.outer.last(), outer: old(self).env@.outer.drop_last(), st: old(self).env@.st }) { unimplemented!() }
    /// A warning.
    #[verifier::external_body]
    fn report_already_bound(&mut self, n: NameID, r: SourceRange) ensures final(self).env@ == old(self).env@ { unimplemented!() }
    #[verifier::external_body]
    fn report_no_branch(&mut self, r: SourceRange) -> (e: Error) ensures final(self).env@ == old(self).env@ { unimplemented!() }
    #[verifier::external_body]
    fn ice_at(&self, s: &str, r: SourceRange) requires false { unimplemented!() }
}
proof fn lemma_child(p: MatchPattern, i: int)
    requires wf_pattern(p), 0 <= i < children(p).len(),
    ensures wf_pattern(children(p)[i]),
{
    let c = children(p)[i];
}
proof fn lemma_outer(p: MatchPattern, v: Value, e: Env)
    ensures matching(p, v, e).1.outer == e.outer,
    decreases p, children(p).len() + 10,
{
    match p {
        MatchPattern::And(q) => { lemma_outer(q.0, v, e); lemma_outer(q.1, v, matching(q.0, v, e).1); },
        MatchPattern::Or(q, ns) => { lemma_outer(q.0, v, e); let l = matching(q.0, v, e).1; lemma_outer(q.1, v, with_vars(l, without(l.vars, ns@))); },
        MatchPattern::ExactList(_, ps) => { if let Value::List(l) = v { lemma_outer_all(p, l.items@, 0, ps@.len() as int, e); } },
        MatchPattern::ExactHTMLSeq(_, ps) => { if let Some(h) = html_of(v) { lemma_outer_all(p, html_items(h).map_values(|h: HTML| html_value(h)), 0, ps@.len() as int, e); } },
        MatchPattern::SpreadList(_, ps, i) => { if let Value::List(l) = v { lemma_outer_all(p, spread_list(l.items@, i as int, ps@.len() as int), 0, ps@.len() as int, e); } },
        MatchPattern::SpreadHTMLSeq(_, ps, i) => { if let Some(h) = html_of(v) { lemma_outer_all(p, spread_html(html_items(h), i as int, ps@.len() as int), 0, ps@.len() as int, e); } },
        MatchPattern::Dict(_, q) => { if let Value::Dict(d) = v { lemma_outer_names(p, d, q.attrs.keys@, q.attrs.pats@.len() as int, e); let r = matching_names(p, d, q.attrs.keys@, q.attrs.pats@.len() as int, e); if let Some(s) = q.spread { lemma_outer(s, dict_of(others(entries(d), q.attrs.keys@)), r.1); } } },
        MatchPattern::Tag(_, q) => { if let Value::HTML(HTML::Tag(t)) = v { lemma_outer(q.name, tag_name(t), e); let r = matching(q.name, tag_name(t), e); lemma_outer(q.attrs, tag_dict(t), r.1); let s = matching(q.attrs, tag_dict(t), r.1); lemma_outer(q.content, tag_content(t), s.1); } },
        MatchPattern::Regex(_, q) => { if let Value::Str(t) = v { if let Some(c) = captured(q.regex, t@) { lemma_outer_groups(e, q.names@, c, q.names@.len() as int); } } },
        _ => {},
    }
}
proof fn lemma_outer_groups(e: Env, ns: Seq<SimpleName>, c: Seq<Option<Seq<char>>>, k: int) ensures bind_groups(e, ns, c, k).outer == e.outer decreases k { if k > 0 { lemma_outer_groups(e, ns, c, k - 1); } }
proof fn lemma_outer_all(p: MatchPattern, vs: Seq<Value>, lo: int, hi: int, e: Env)
    ensures matching_all(p, vs, lo, hi, e).1.outer == e.outer,
    decreases p, hi - lo + 1,
{
    if lo >= hi || lo < 0 || lo >= children(p).len() {} else { lemma_outer(children(p)[lo], vs[lo], e); lemma_outer_all(p, vs, lo + 1, hi, matching(children(p)[lo], vs[lo], e).1); }
}
proof fn lemma_outer_names(p: MatchPattern, d: RcDict, ks: Seq<NameID>, n: int, e: Env)
    ensures matching_names(p, d, ks, n, e).1.outer == e.outer,
    decreases p, n + 1,
{
    if n <= 0 || n > children(p).len() {} else { lemma_outer_names(p, d, ks, n - 1, e); if let Some(v) = get(d, ks[n - 1]) { lemma_outer(children(p)[n - 1], v, matching_names(p, d, ks, n - 1, e).1); } }
}
/// Matching from lo to hi is matching from lo to m, and then from m to hi.
proof fn lemma_split(p: MatchPattern, vs: Seq<Value>, lo: int, m: int, hi: int, e: Env)
    requires 0 <= lo <= m <= hi <= children(p).len(),
    ensures matching_all(p, vs, lo, hi, e) == (if matching_all(p, vs, lo, m, e).0 { matching_all(p, vs, m, hi, matching_all(p, vs, lo, m, e).1) } else { matching_all(p, vs, lo, m, e) }),
    decreases m - lo,
{
    if lo < m { lemma_split(p, vs, lo + 1, m, hi, matching(children(p)[lo], vs[lo], e).1); }
}
/// If the names below m do not match, those below n do not.
proof fn lemma_stop(p: MatchPattern, d: RcDict, ks: Seq<NameID>, m: int, n: int, e: Env)
    requires 0 <= m <= n <= children(p).len(),
    ensures !matching_names(p, d, ks, m, e).0 ==> matching_names(p, d, ks, n, e) == matching_names(p, d, ks, m, e),
    decreases n - m,
{ if m < n { lemma_stop(p, d, ks, m, n - 1, e); } }
/// The value of a @match: that of the first branch which matches.
spec fn branches(bs: Seq<(MatchPattern, Expr)>, k: int, v: Value, hint: Type, e: Env) -> (Option<Value>, Env) decreases bs.len() - k {
    if k < 0 || k >= bs.len() { (None, e) } else {
        let r = matching(bs[k].0, v, Env { vars: Map::empty(), outer: e.outer.push(e.vars), st: e.st });
        if r.0 { let x = eval(bs[k].1, hint, r.1); (x.0, Env { st: x.1, ..e }) } else { branches(bs, k + 1, v, hint, Env { st: r.1.st, ..e }) }
    }
}
'''
LIST_SPREAD = '''|$i: usize| -> (r: Value) requires $i < child_values.items@.len() ensures r == child_values.items@[$i as int] { clone_value(child_values.get($x)) },
        |$a: usize, $b: usize| -> (r: Value) requires $a <= $b <= child_values.items@.len() ensures r == list_of(child_values.items@.subrange($a as int, $b as int)) { child_values.slice_value($y) },
        Ghost(*pattern), Ghost(child_values.items@), Ghost(list_of(child_values.items@.subrange(*spread_index as int, child_values.items@.len() - child_patterns@.len() + *spread_index + 1))), Ghost(spread_list(child_values.items@, *spread_index as int, child_patterns@.len() as int)),'''
HTML_SPREAD = '''|$i: usize| -> (r: Value) requires $i < html_slice@.len() ensures r == html_value(html_slice@[$i as int]) { html_to_value(&html_slice[$x]) },
        |$a: usize, $b: usize| -> (r: Value) requires $a <= $b <= html_slice@.len() ensures r == html_value(html_seq(html_slice@.subrange($a as int, $b as int))) { html_from(html_slice, $c, $d) },
        Ghost(*pattern), Ghost(html_slice@.map_values(|h: HTML| html_value(h))), Ghost(html_value(html_seq(html_slice@.subrange(*spread_index as int, html_slice@.len() - child_patterns@.len() + *spread_index + 1)))), Ghost(spread_html(html_slice@, *spread_index as int, child_patterns@.len() as int)),'''


def base(u):
    world(u)
    u.text(TYPES)
    u.item(AST, 'struct', 'SimpleName')
    u.item(AST, 'enum', 'MatchPattern')
    u.item(AST, 'struct', 'RegexMatchPattern', subs=[('regex :: Regex', 'Regex')])
    u.item(AST, 'struct', 'DictMatchPattern', subs=[('NameIDMap < MatchPattern >', 'PatternMap')])
    u.item(AST, 'struct', 'TagMatchPattern')
    u.item(AST, 'struct', 'Match')
    u.text(SPEC)


def patterns():
    u = Unit('patterns')
    base(u)
    u.text(SHIMS + 'impl HTML {')
    f = u.fn('src/compiler/html.rs', 'nodes', impl='^impl HTML$')
    f.sub('& [ ]', 'no_nodes()', 0).sub('seq . as_ref ( )', 'rc_nodes(seq)', 0).sub('std :: slice :: from_ref ( self )', 'one_node(self)', 0)
    f.ensures('r@ =~= html_items(*self)', 'r@.len() < usize::MAX')
    u.text('} impl Compiler {')
    I = "^impl < 'a > Compiler < 'a >$"
    u.default_subs = [('ast :: ', ''), ('self . frame ( ) . set (', 'self.frame_set('), ('self . frame ( ) . unset_all (', 'self.frame_unset_all('), ('self . frame ( ) . set_all_if_not_present (', 'self.frame_set_all_if_not_present('), ('value . clone ( )', 'clone_value(&value)'), ('Value :: UNIT', 'Value::HTML(HTML::Empty)')]
    f = u.fn(M, 'bind_one', impl=I)
    f.sub('let name = self . get_name ( $x ) ; self . report_static ( errors :: Warning :: PatternNameAlreadyBound ( name ) , $r ) ;', 'self.report_already_bound($x, $r);', 0)
    f.ensures('final(self).env@ == bind(old(self).env@, var.name_id, value)')
    f = u.fn(M, 'bind_all', impl=I)
    f.sub('bind_all < T : Iterator < Item = Value > > ( & mut self , patterns : & [ MatchPattern ] , values : T )', 'bind_all(&mut self, patterns: &[MatchPattern], values: Vec<Value>, Ghost(parent): Ghost<MatchPattern>, Ghost(vs): Ghost<Seq<Value>>, Ghost(lo): Ghost<int>)', 1)
    f.sub('patterns . iter ( ) . zip ( values ) . all ( | ( $i:p , $i:v ) | $b )', '{ let mut all = true; let mut n: usize = 0; while n < patterns.len() && n < values.len() { let $p = &patterns[n]; let $v = clone_value(&values[n]); n += 1; if !($b) { all = false; break; } } all }', 1)
    f.requires('0 <= lo', 'lo + patterns@.len() <= children(parent).len()', 'patterns@ =~= children(parent).subrange(lo, lo + patterns@.len())', 'values@.len() == patterns@.len()', 'lo + values@.len() <= vs.len()', 'values@ =~= vs.subrange(lo, lo + values@.len())', 'wf_pattern(parent)')
    f.ensures('(r, final(self).env@) == matching_all(parent, vs, lo, lo + patterns@.len(), old(self).env@)').decreases('parent, 1int')
    f.start('let ghost e0 = self.env@; proof { lemma_split(parent, vs, lo, lo, lo + patterns@.len() as int, e0); }')
    f.loop(0, invariant=['n <= patterns@.len()', 'values@.len() == patterns@.len()', '0 <= lo', 'lo + patterns@.len() <= children(parent).len()', 'patterns@ =~= children(parent).subrange(lo, lo + patterns@.len())', 'lo + values@.len() <= vs.len()', 'values@ =~= vs.subrange(lo, lo + values@.len())', 'wf_pattern(parent)',
        ], except_break=['all', 'matching_all(parent, vs, lo, lo + n, e0) == (true, self.env@)'], ensures=['(all, self.env@) == matching_all(parent, vs, lo, lo + patterns@.len(), e0)'], decreases='patterns@.len() - n')
    f.loop_start(0, 'proof { lemma_split(parent, vs, lo, lo + n, lo + n + 1, e0); lemma_split(parent, vs, lo, lo + n + 1, lo + patterns@.len() as int, e0); lemma_split(parent, vs, lo + n, lo + n + 1, lo + patterns@.len() as int, self.env@); assert(patterns@[n as int] == children(parent)[lo + n]); assert(values@[n as int] == vs[lo + n]); lemma_child(parent, lo + n); reveal_with_fuel(matching_all, 3); }')
    f = u.fn(M, 'bind_all_with_spread', impl=I)
    f.sub('bind_all_with_spread ( & mut self ,', 'bind_all_with_spread<F: Fn(usize) -> Value, G: Fn(usize, usize) -> Value>(&mut self,', 1)
    f.sub('f_one : impl Fn ( usize ) -> Value , f_slice : impl Fn ( usize , usize ) -> Value ,', 'f_one: F, f_slice: G, Ghost(p): Ghost<MatchPattern>, Ghost(vals): Ghost<Seq<Value>>, Ghost(mid): Ghost<Value>, Ghost(vs): Ghost<Seq<Value>>', 1)
    f.sub('& patterns [ .. $x ]', 'pats_to(patterns, $x)', 0).sub('& patterns [ $x .. ]', 'pats_from(patterns, $x)', 0)
    f.sub('self . bind_all ( $i:q , ( $a .. $b ) . map ( & f_one ) )', 'self.bind_all($q, map_range($a, $b, &f_one), Ghost(p), Ghost(vs), Ghost(0int))', 1)
    f.sub('self . bind_all ( $i:q , ( $a .. $b ) . map ( f_one ) )', 'self.bind_all($q, map_range($a, $b, &f_one), Ghost(p), Ghost(vs), Ghost(spread_index as int + 1))', 1)
    f.requires('wf_pattern(p)', 'patterns@ == children(p)', 'spread_index < patterns@.len()', 'vals.len() == values_len', 'values_len < usize::MAX', 'values_len + 1 >= patterns@.len() ==> vs.len() == patterns@.len() && vs =~= vals.take(spread_index as int).push(mid) + vals.skip(values_len - patterns@.len() + spread_index + 1)',
        'forall|i: usize| i < values_len ==> #[trigger] f_one.requires((i,))', 'forall|i: usize, v: Value| i < values_len && #[trigger] f_one.ensures((i,), v) ==> v == vals[i as int]',
        'forall|a: usize, b: usize| a <= b <= values_len ==> #[trigger] f_slice.requires((a, b))', 'forall|a: usize, b: usize, v: Value| a == spread_index && b == values_len - patterns@.len() + spread_index + 1 && #[trigger] f_slice.ensures((a, b), v) ==> v == mid')
    f.ensures('(r, final(self).env@) == (if values_len + 1 >= patterns@.len() { matching_all(p, vs, 0, patterns@.len() as int, old(self).env@) } else { (false, old(self).env@) })').decreases('p, 2int')
    f.before('self . bind_all ( pre_patterns', 'proof { let e0 = self.env@; let n = patterns@.len() as int; let k = spread_index as int; lemma_child(p, k); lemma_split(p, vs, 0, k, n, e0); let e1 = matching_all(p, vs, 0, k, e0).1; lemma_split(p, vs, k, k + 1, n, e1); reveal_with_fuel(matching_all, 3); assert(vs[k] == mid); assert(vs.subrange(0, k) =~= vals.take(k)); assert(vs.subrange(k + 1, n) =~= vals.skip(j as int)); }')
    f = u.fn(M, 'bind_pattern', impl=I)
    f.sub('matches ! ( value , Value :: Str ( $i:s ) if $c )', '(match &value { Value::Str($s) => $c, _ => false })', 0)
    f.sub('$i:s == self . get_name ( $x )', 'same_text($s, &self.get_name($x))', 0)
    f.sub('let ( $i:l , $i:r ) = pair . as_ref ( ) ;', 'let $l = &pair.0; let $r = &pair.1;', 0)
    f.sub('self . evaluate_node ( $a ) . map_or ( $d , | $i:o | $i:v == $i:w )', '(match self.evaluate_node($a) { Ok($o) => value_equal(&$v, &$w), Err(_) => $d })', 0)
    f.sub('value . get_type ( ) . to_string ( ) . into ( )', 'type_name(&value)', 0)
    f.sub('self . bind_all ( $i:q , child_values . as_ref ( ) . iter ( ) . cloned ( ) )', '{ let ghost items = child_values.items@; self.bind_all($q, child_values.to_values(), Ghost(*pattern), Ghost(items), Ghost(0int)) }', 0)
    f.sub('self . bind_all ( $i:q , $i:h . iter ( ) . map ( Value :: from ) )', '{ let ghost items = $h@.map_values(|h: HTML| html_value(h)); self.bind_all($q, nodes_to_values($h), Ghost(*pattern), Ghost(items), Ghost(0int)) }', 0)
    f.sub('HTML :: try_convert ( value )', 'try_html(value)', 0)
    f.sub('| $i:i | child_values . get ( $x ) . clone ( ) , | $i:a , $i:b | child_values . slice ( $y ) . into ( ) ,', LIST_SPREAD, 0)
    f.sub('| $i:i | html_slice [ $x ] . clone ( ) . into ( ) , | $i:a , $i:b | HTML :: from_iter ( html_slice [ $c .. $d ] . iter ( ) . cloned ( ) ) . into ( ) ,', HTML_SPREAD, 0)
    f.sub('for ( $i:a , $i:b ) in dict_pattern . attrs . iter ( ) {', 'let mut at: usize = 0; while at < dict_pattern.attrs.len() { let $a = &dict_pattern.attrs.key(at); let $b = dict_pattern.attrs.pat(at); at += 1;', 0)
    f.sub('dict_value . get ( name_id )', 'dict_get(&dict_value, name_id)', 0).sub('child_value . clone ( )', 'clone_value(child_value)', 0)
    f.sub('let $i:r : Dict = dict_value . iter ( ) . filter ( | ( & $i:k , _ ) | $c ) . map ( | ( & $i:k2 , $i:v ) | ( $x , $i:y . clone ( ) ) ) . collect ( ) ;', 'let mut made: Vec<(NameID, Value)> = Vec::new(); let mut n: usize = 0; while n < dict_len(&dict_value) { let ($k, $v) = dict_entry(&dict_value, n); n += 1; if $c { made.push(($x, clone_value($y))); } } let $r = dict_from(made);', 0)
    f.sub('dict_value . len ( )', 'dict_len(&dict_value)', 0)
    f.sub('remaining . into ( )', 'remaining', 0).sub('vs . into ( )', 'vs', 0)
    f.sub('let $i:r : Dict = tag_value . attributes . iter ( ) . map ( | ( & $i:k , $i:v ) | ( $x , $i:y . clone ( ) . map_or ( Value :: HTML ( HTML :: Empty ) , Value :: from ) , ) ) . collect ( ) ;', 'let mut made: Vec<(NameID, Value)> = Vec::new(); let mut n: usize = 0; while n < tag_value.attributes.len() { let ($k, $v) = tag_value.attributes.entry(n); n += 1; made.push(($x, attr_value($y))); } let $r = dict_from(made);', 0)
    f.sub('tag_name . into ( )', 'text_to_value(tag_name)', 0).sub('tag_value . content . clone ( ) . into ( )', 'html_to_value(&tag_value.content)', 0)
    f.sub('value_str . as_ref ( )', '&value_str', 0)
    f.sub('let match_ = match_ . iter ( ) . skip ( 1 ) . zip ( regex_pattern . names . iter ( ) ) ; for ( $i:s , $i:w ) in match_ {', 'let mut n: usize = 0; while n < regex_pattern.names.len() { let $s = &match_[n + 1]; let $w = &regex_pattern.names[n]; n += 1;', 0)
    f.sub('s . map_or ( Value :: HTML ( HTML :: Empty ) , | m | m . as_str ( ) . into ( ) )', 'group_value(s)', 0)
    f.requires('wf_pattern(*pattern)').ensures('(r, final(self).env@) == matching(*pattern, value, old(self).env@)').decreases('*pattern, 3int')
    f.start('let ghost e0 = self.env@; let ghost v0 = value; proof { reveal_with_fuel(wf_pattern, 2); }')
    f.attr('#[verifier::loop_isolation(false)]')
    DP = ['*pattern matches MatchPattern::Dict(_, q) && q == *dict_pattern', 'v0 == Value::Dict(dict_value)', 'wf_pattern(*pattern)', 'dict_pattern.attrs.keys@.len() == dict_pattern.attrs.pats@.len()', 'dict_value.keys@.len() == dict_value.items@.len()']
    f.loop(0, invariant=DP + ['at <= dict_pattern.attrs.keys@.len()', '!(dict_pattern.spread is None && dict_value.keys@.len() != dict_pattern.attrs.keys@.len())', 'matching_names(*pattern, dict_value, dict_pattern.attrs.keys@, at as int, e0) == (true, self.env@)'], decreases='dict_pattern.attrs.keys@.len() - at')
    f.loop_start(0, 'proof { lemma_child(*pattern, at as int); assert(children(*pattern) == dict_pattern.attrs.pats@); lemma_stop(*pattern, dict_value, dict_pattern.attrs.keys@, at + 1, dict_pattern.attrs.pats@.len() as int, e0); }')
    f.loop(1, invariant=DP + ['n <= dict_value.keys@.len()', 'made@ =~= others(entries(dict_value).take(n as int), dict_pattern.attrs.keys@)'], decreases='dict_value.keys@.len() - n')
    f.loop_start(1, 'proof { assert(entries(dict_value).take(n + 1).drop_last() =~= entries(dict_value).take(n as int)); assert(entries(dict_value).take(n + 1).last() == entries(dict_value)[n as int]); }')
    f.loop(2, invariant=['n <= tag_attrs(tag_value.attributes).len()', 'made@ =~= attr_entries(tag_value.attributes).take(n as int)'], decreases='tag_attrs(tag_value.attributes).len() - n')
    f.loop(3, invariant=['n <= regex_pattern.names@.len()', 'match_@.len() == regex_pattern.names@.len() + 1', 'c0 == group_texts(match_@)', 'self.env@ == bind_groups(e0, regex_pattern.names@, c0, n as int)'], decreases='regex_pattern.names@.len() - n')
    f.before('let mut at : usize', 'proof { axiom_dict(dict_value); }')
    f.before('if let Some ( spread_pattern )', 'proof { if let Some(s) = &dict_pattern.spread { assert(*s is Ignore ==> matching(*s, dict_of(others(entries(dict_value), dict_pattern.attrs.keys@)), self.env@) == (true, self.env@)); } }')
    f.before('let mut n : usize = 0 ; while n < regex_pattern', 'let ghost c0 = captured(regex_pattern.regex, value_str@).unwrap();')
    f.before('let remaining = dict_from', 'proof { assert(entries(dict_value).take(dict_value.keys@.len() as int) =~= entries(dict_value)); }')
    f.before('let vs = dict_from', 'proof { assert(attr_entries(tag_value.attributes).take(tag_attrs(tag_value.attributes).len() as int) =~= attr_entries(tag_value.attributes)); }')
    f = u.fn(M, 'evaluate_match', impl=I)
    f.sub('errors :: Reported', 'Reported', 0)
    f.sub('for ( $i:p , $i:h ) in match_ . branches . iter ( ) {', 'let mut at: usize = 0; while at < match_.branches.len() { let $p = &match_.branches[at].0; let $h = &match_.branches[at].1; at += 1;', 1)
    f.sub('self . frame ( ) . to_inactive ( ) . new_empty_child_frame ( )', 'self.new_empty_child_frame()', 0)
    f.sub('self . evaluate_in_frame ( frame , | $i:s | { $b } )', '{ self.push_frame(frame); let out = $b; self.pop_frame(); out }', 1).sub('_self .', 'self.', 0)
    f.sub('self . bind_pattern ( $a ) . then ( || $b )', 'if self.bind_pattern($a) { Some($b) } else { None }', 0)
    f.sub('Err ( self . report ( errors :: RuntimeError :: NoMatchingBranch , $r ) )', 'Err(self.report_no_branch($r))', 0)
    E1 = 'Env { st: eval(match_.value, Type::Any, old(self).env@).1, ..old(self).env@ }'
    f.requires('forall|i: int| 0 <= i < match_.branches@.len() ==> wf_pattern(#[trigger] match_.branches@[i].0)')
    f.ensures(f'match eval(match_.value, Type::Any, old(self).env@).0 {{ None => r is Err, Some(v) => ({{ let b = branches(match_.branches@, 0, v, *type_hint, {E1}); final(self).env@ == b.1 && match b.0 {{ Some(x) => r matches Ok(y) && x == y, None => r is Err }} }}) }}')
    f.after('let value = $x ;', 'let ghost e1 = self.env@;')
    f.loop(0, invariant=['eval(match_.value, Type::Any, old(self).env@).0 == Some(value)', f'e1 == ({E1})', 'forall|i: int| 0 <= i < match_.branches@.len() ==> wf_pattern(#[trigger] match_.branches@[i].0)', 'at <= match_.branches@.len()', 'branches(match_.branches@, 0, value, *type_hint, e1) == branches(match_.branches@, at as int, value, *type_hint, self.env@)'], decreases='match_.branches@.len() - at')
    f.loop_start(0, 'let ghost e2 = self.env@; proof { assert(wf_pattern(match_.branches@[at as int].0)); lemma_outer(match_.branches@[at as int].0, value, Env { vars: Map::empty(), outer: e2.outer.push(e2.vars), st: e2.st }); assert(e2.outer.push(e2.vars).drop_last() =~= e2.outer); }')
    u.text('}')
    return u

NAMES = r'''
/// The variables of a pattern.
spec fn names(p: MatchPattern) -> Set<NameID> decreases p, children(p).len() + 10 {
    match p {
        MatchPattern::VarName(x) | MatchPattern::TypeOf(x) => set![x.name_id],
        MatchPattern::And(q) => names(q.0).union(names(q.1)),
        MatchPattern::Or(_, ns) => ns@.to_set(),
        MatchPattern::Regex(_, r) => r.names@.map_values(|n: SimpleName| n.name_id).to_set(),
        MatchPattern::Tag(_, t) => names(t.name).union(names(t.attrs)).union(names(t.content)),
        MatchPattern::Dict(_, d) => match d.spread { Some(s) => names_to(p, children(p).len() as int).union(names(s)), None => names_to(p, children(p).len() as int) },
        MatchPattern::ExactList(..) | MatchPattern::ExactHTMLSeq(..) | MatchPattern::SpreadList(..) | MatchPattern::SpreadHTMLSeq(..) => names_to(p, children(p).len() as int),
        _ => Set::empty(),
    }
}
spec fn names_to(p: MatchPattern, n: int) -> Set<NameID> decreases p, n + 1 { if n <= 0 || n > children(p).len() { Set::empty() } else { names_to(p, n - 1).union(names(children(p)[n - 1])) } }
/// An `or` knows the names of both sides.
spec fn known(p: MatchPattern) -> bool decreases p {
    match p {
        MatchPattern::And(q) => known(q.0) && known(q.1),
        MatchPattern::Or(q, ns) => known(q.0) && known(q.1) && names(q.0).subset_of(ns@.to_set()) && names(q.1).subset_of(ns@.to_set()),
        MatchPattern::ExactList(..) | MatchPattern::ExactHTMLSeq(..) | MatchPattern::SpreadList(..) | MatchPattern::SpreadHTMLSeq(..) => forall|i: int| 0 <= i < children(p).len() ==> known(#[trigger] children(p)[i]),
        MatchPattern::Dict(_, d) => d.attrs.keys@.len() == d.attrs.pats@.len() && (forall|i: int| 0 <= i < children(p).len() ==> known(#[trigger] children(p)[i])) && (d.spread matches Some(s) ==> known(s)),
        MatchPattern::Tag(_, t) => known(t.name) && known(t.attrs) && known(t.content),
        _ => true,
    }
}
proof fn lemma_known_child(p: MatchPattern, i: int) requires known(p), 0 <= i < children(p).len() ensures known(children(p)[i]) { let c = children(p)[i]; }
/// Matching binds each variable of the pattern, keeps the other variables, and binds none besides.
spec fn binds(p: Set<NameID>, ok: bool, a: Vars, b: Vars) -> bool {
    (forall|n: NameID| #[trigger] b.dom().contains(n) ==> a.dom().contains(n) || p.contains(n))
    && (forall|n: NameID| a.dom().contains(n) && !p.contains(n) ==> #[trigger] b.dom().contains(n) && b[n] == a[n])
    && (ok ==> forall|n: NameID| p.contains(n) ==> #[trigger] b.dom().contains(n))
}
proof fn lemma_without(v: Vars, ns: Seq<NameID>)
    ensures forall|n: NameID| #[trigger] without(v, ns).dom().contains(n) <==> v.dom().contains(n) && !ns.contains(n), forall|n: NameID| v.dom().contains(n) && !ns.contains(n) ==> (#[trigger] without(v, ns)[n]) == v[n],
    decreases ns.len(),
{
    if ns.len() > 0 {
        lemma_without(v, ns.drop_last());
        let w = without(v, ns.drop_last());
        assert(without(v, ns) == w.remove(ns.last()));
        assert forall|n: NameID| #[trigger] without(v, ns).dom().contains(n) <==> v.dom().contains(n) && !ns.contains(n) by { lemma_contains(ns, n); assert(w.dom().contains(n) <==> v.dom().contains(n) && !ns.drop_last().contains(n)); }
        assert forall|n: NameID| v.dom().contains(n) && !ns.contains(n) implies (#[trigger] without(v, ns)[n]) == v[n] by { lemma_contains(ns, n); assert(w[n] == v[n]); }
    }
}
proof fn lemma_fill(v: Vars, ns: Seq<NameID>)
    ensures forall|n: NameID| #[trigger] fill(v, ns).dom().contains(n) <==> v.dom().contains(n) || ns.contains(n), forall|n: NameID| v.dom().contains(n) ==> fill(v, ns)[n] == v[n], forall|n: NameID| !v.dom().contains(n) && ns.contains(n) ==> fill(v, ns)[n] == none(),
    decreases ns.len(),
{ if ns.len() > 0 { lemma_fill(v, ns.drop_last()); assert forall|n: NameID| ns.contains(n) <==> ns.drop_last().contains(n) || n == ns.last() by { lemma_contains(ns, n); } } }
proof fn lemma_contains(ns: Seq<NameID>, n: NameID) requires ns.len() > 0 ensures ns.contains(n) <==> ns.drop_last().contains(n) || n == ns.last() {
    if ns.contains(n) { let i = choose|i: int| 0 <= i < ns.len() && ns[i] == n; if i < ns.len() - 1 { assert(ns.drop_last()[i] == n); } }
    if ns.drop_last().contains(n) { let i = choose|i: int| 0 <= i < ns.len() - 1 && ns.drop_last()[i] == n; assert(ns[i] == n); }
    if n == ns.last() { assert(ns[ns.len() - 1] == n); }
}
proof fn lemma_binds(p: MatchPattern, v: Value, e: Env)
    requires known(p), wf_pattern(p),
    ensures binds(names(p), matching(p, v, e).0, e.vars, matching(p, v, e).1.vars),
    decreases p, children(p).len() + 10,
{
    let n = children(p).len() as int;
    reveal_with_fuel(known, 2);
    match p {
        MatchPattern::VarName(x) | MatchPattern::TypeOf(x) => {},
        MatchPattern::And(q) => { lemma_binds(q.0, v, e); lemma_binds(q.1, v, matching(q.0, v, e).1); },
        MatchPattern::Or(q, ns) => {
            lemma_binds(q.0, v, e); let l = matching(q.0, v, e).1; lemma_fill(l.vars, ns@);
            let w = with_vars(l, without(l.vars, ns@)); lemma_without(l.vars, ns@); lemma_binds(q.1, v, w); lemma_fill(matching(q.1, v, w).1.vars, ns@);
            assert forall|n: NameID| ns@.to_set().contains(n) <==> ns@.contains(n) by { }
            assert(forall|n: NameID| #[trigger] names(q.0).contains(n) ==> ns@.to_set().contains(n));
            assert(forall|n: NameID| #[trigger] names(q.1).contains(n) ==> ns@.to_set().contains(n));
        },
        MatchPattern::ExactList(_, ps) => { if let Value::List(l) = v { lemma_binds_all(p, l.items@, n, e); } else {} },
        MatchPattern::ExactHTMLSeq(_, ps) => { if let Some(h) = html_of(v) { lemma_binds_all(p, html_items(h).map_values(|h: HTML| html_value(h)), n, e); } },
        MatchPattern::SpreadList(_, ps, i) => { if let Value::List(l) = v { lemma_binds_all(p, spread_list(l.items@, i as int, ps@.len() as int), n, e); } },
        MatchPattern::SpreadHTMLSeq(_, ps, i) => { if let Some(h) = html_of(v) { lemma_binds_all(p, spread_html(html_items(h), i as int, ps@.len() as int), n, e); } },
        MatchPattern::Dict(_, q) => { if let Value::Dict(d) = v { lemma_binds_names(p, d, q.attrs.keys@, n, e); let r = matching_names(p, d, q.attrs.keys@, n, e); if let Some(s) = q.spread { lemma_binds(s, dict_of(others(entries(d), q.attrs.keys@)), r.1); } } },
        MatchPattern::Tag(_, q) => { if let Value::HTML(HTML::Tag(t)) = v { lemma_binds(q.name, tag_name(t), e); let r = matching(q.name, tag_name(t), e); lemma_binds(q.attrs, tag_dict(t), r.1); let s = matching(q.attrs, tag_dict(t), r.1); lemma_binds(q.content, tag_content(t), s.1); } },
        MatchPattern::Regex(_, q) => { if let Value::Str(t) = v { if let Some(c) = captured(q.regex, t@) {
            lemma_binds_groups(e, q.names@, c, q.names@.len() as int);
            let ns = q.names@.map_values(|n: SimpleName| n.name_id);
            assert(q.names@.take(q.names@.len() as int) =~= q.names@);
        } } },
        _ => {},
    }
}
proof fn lemma_binds_groups(e: Env, ns: Seq<SimpleName>, c: Seq<Option<Seq<char>>>, k: int)
    requires 0 <= k <= ns.len(),
    ensures binds(ns.take(k).map_values(|n: SimpleName| n.name_id).to_set(), true, e.vars, bind_groups(e, ns, c, k).vars)
    decreases k
{
    let f = |n: SimpleName| n.name_id;
    let s = ns.take(k).map_values(f);
    if k > 0 {
        lemma_binds_groups(e, ns, c, k - 1);
        assert(s.drop_last() =~= ns.take(k - 1).map_values(f));
        assert(s.last() == ns[k - 1].name_id);
        assert forall|n: NameID| s.to_set().contains(n) <==> s.drop_last().to_set().contains(n) || n == s.last() by { lemma_contains(s, n); }
    } else { assert(s =~= Seq::empty()); }
}
proof fn lemma_binds_all(p: MatchPattern, vs: Seq<Value>, n: int, e: Env)
    requires known(p), wf_pattern(p), 0 <= n <= children(p).len(), !(p is Tag), !(p is And), !(p is Or),
    ensures binds(names_to(p, n), matching_all(p, vs, 0, n, e).0, e.vars, matching_all(p, vs, 0, n, e).1.vars),
    decreases p, n + 1,
{
    if n > 0 {
        lemma_binds_all(p, vs, n - 1, e);
        lemma_split(p, vs, 0, n - 1, n, e);
        reveal_with_fuel(matching_all, 3);
        lemma_known_child(p, n - 1); lemma_child(p, n - 1);
        lemma_binds(children(p)[n - 1], vs[n - 1], matching_all(p, vs, 0, n - 1, e).1);
    }
}
proof fn lemma_binds_names(p: MatchPattern, d: RcDict, ks: Seq<NameID>, n: int, e: Env)
    requires known(p), wf_pattern(p), 0 <= n <= children(p).len(), !(p is Tag), !(p is And), !(p is Or),
    ensures binds(names_to(p, n), matching_names(p, d, ks, n, e).0, e.vars, matching_names(p, d, ks, n, e).1.vars),
    decreases p, n + 1,
{
    if n > 0 {
        lemma_binds_names(p, d, ks, n - 1, e);
        lemma_known_child(p, n - 1); lemma_child(p, n - 1);
        if let Some(v) = get(d, ks[n - 1]) { lemma_binds(children(p)[n - 1], v, matching_names(p, d, ks, n - 1, e).1); }
    }
}
/// A matched branch sees its variables and no others in its own frame.
proof fn lemma_branch(p: MatchPattern, v: Value, e: Env)
    requires known(p), wf_pattern(p), e.vars == Map::<NameID, Value>::empty(), matching(p, v, e).0,
    ensures matching(p, v, e).1.vars.dom() =~= names(p),
{ lemma_binds(p, v, e); }
'''
LEMMAS = SHIMS[SHIMS.index('proof fn lemma_child('):SHIMS.index('/// The value of a @match')]
SETS = r'''
#[verifier::external_body] struct NameIDSet { s: u64 }
impl View for NameIDSet { type V = Set<NameID>; uninterp spec fn view(&self) -> Set<NameID>; }
impl NameIDSet {
    #[verifier::external_body]
    fn default() -> (r: NameIDSet) ensures r@ == Set::<NameID>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, n: NameID) -> (r: bool) ensures final(self)@ == old(self)@.insert(n) { unimplemented!() }
    #[verifier::external_body]
    fn extend_ids(&mut self, ns: &Box<[NameID]>) ensures final(self)@ == old(self)@.union(ns@.to_set()) { unimplemented!() }
    #[verifier::external_body]
    fn extend_names(&mut self, ns: &Box<[SimpleName]>) ensures final(self)@ == old(self)@.union(ns@.map_values(|n: SimpleName| n.name_id).to_set()) { unimplemented!() }
    #[verifier::external_body]
    fn to_names(self) -> (r: Box<[NameID]>) ensures r@.to_set() == self@ { unimplemented!() }
}
impl PatternMap {
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.pats@.len() { unimplemented!() }
    #[verifier::external_body]
    fn pat(&self, i: usize) -> (r: &MatchPattern) requires i < self.pats@.len() ensures *r == self.pats@[i as int] { unimplemented!() }
}
#[verifier::external_body] struct Error { e: u64 }
type Reported<T> = Result<T, Error>;
#[verifier::external_body] struct Token { t: u64 }
enum TokenKind { Bar }
struct Parser { x: u64 }
impl Parser {
    /// What makes patterns; they know the names of their parts.
    #[verifier::external_body]
    fn parse_and_match_pattern(&mut self) -> (r: Reported<MatchPattern>) ensures r matches Ok(p) ==> known(p) { unimplemented!() }
    #[verifier::external_body]
    fn skip_whitespace(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn poll_if_kind(&mut self, k: TokenKind) -> Option<Token> { unimplemented!() }
}
'''


def names():
    u = Unit('names')
    base(u)
    u.text(LEMMAS + NAMES + SETS + 'impl MatchPattern {')
    f = u.fn(AST, 'get_name_ids', impl='^impl MatchPattern$')
    f.sub('out . extend ( name_ids . iter ( ) )', 'out.extend_ids(name_ids)', 0)
    f.sub('out . extend ( r . names . iter ( ) . map ( | $i:n | $i:n2 . name_id ) )', 'out.extend_names(&r.names)', 0)
    f.sub('for $i:c in children . iter ( ) {', 'let mut at: usize = 0; while at < children.len() { let $c = &children[at]; at += 1;', 0)
    f.sub('for ( _ , $i:c ) in dict_pattern . attrs . iter ( ) {', 'let mut at: usize = 0; while at < dict_pattern.attrs.len() { let $c = dict_pattern.attrs.pat(at); at += 1;', 0)
    f.ensures('final(out)@ =~= old(out)@.union(names(*self))').decreases('*self')
    f.attr('#[verifier::loop_isolation(false)]')
    for i, s in enumerate(['children', 'dict_pattern.attrs.pats']):
        f.loop(i, invariant=[f'at <= {s}@.len()', f'{s}@ == crate::children(*self)' if i else f'{s}@ == crate::children(*self)', 'out@ =~= old(out)@.union(names_to(*self, at as int))'], decreases=f'{s}@.len() - at')
        f.loop_start(i, 'proof { assert(names_to(*self, at + 1) == names_to(*self, at as int).union(names(crate::children(*self)[at as int]))); }')
    u.text('} impl Parser {')
    f = u.fn(PM, 'parse_match_pattern', impl="^impl < 'a > Parser < 'a >$")
    f.sub('name_ids . into_iter ( ) . collect ( )', 'name_ids.to_names()', 0)
    f.ensures('r matches Ok(p) ==> known(p)')
    f.attr('#[verifier::exec_allows_no_decreases_clause]')
    f.loop(0, invariant=['known(p)'])
    u.text('}')
    return u


PARSE = r'''
#[verifier::external_body] struct Error { e: u64 }
type Reported<T> = Result<T, Error>;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
enum TokenKind { LSqb, LBrace, Whitespace, Comma, RSqb, RBrace }
#[derive(Clone, Copy)]
struct Token { kind: TokenKind, range: SourceRange }
impl SourceRange {
    uninterp spec fn upto(self, e: u32) -> SourceRange;
    #[verifier::external_body]
    fn to_end(self, e: u32) -> (r: SourceRange) ensures r == self.upto(e) { unimplemented!() }
    uninterp spec fn last(self) -> u32;
    #[verifier::external_body]
    fn end(&self) -> (r: u32) ensures r == self.last() { unimplemented!() }
}
/// What was parsed last, and the number of errors.
struct Parser { parts: Ghost<Seq<PositionalMatchPattern>>, named: Ghost<Seq<NamedMatchPattern>>, close: Ghost<Token>, errors: Ghost<nat> }
spec fn pattern_of(c: PositionalMatchPattern) -> MatchPattern { match c { PositionalMatchPattern::One(p) => p, PositionalMatchPattern::Spread(p) => p } }
/// The position of the last spread, if there is one, and whether there are several.
spec fn spread_at(s: Seq<PositionalMatchPattern>) -> Option<u32> decreases s.len() { if s.len() == 0 { None } else if s.last() is Spread { Some((s.len() - 1) as u32) } else { spread_at(s.drop_last()) } }
spec fn spreads(s: Seq<PositionalMatchPattern>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { spreads(s.drop_last()) + if s.last() is Spread { 1nat } else { 0 } } }
proof fn lemma_spread(s: Seq<PositionalMatchPattern>)
    ensures match spread_at(s) { Some(i) => s.len() <= u32::MAX ==> (i as int) < s.len(), None => true }, (spread_at(s) is None) == (spreads(s) == 0),
    decreases s.len(),
{ if s.len() > 0 { lemma_spread(s.drop_last()); } }
spec fn is_html(p: MatchPattern) -> bool;
impl MatchPattern {
    #[verifier::external_body]
    fn can_match_html(&self) -> (r: bool) ensures r == is_html(*self) { unimplemented!() }
    #[verifier::external_body]
    fn range(&self) -> SourceRange { unimplemented!() }
}
impl PatternMap {
    #[verifier::external_body]
    fn default() -> (r: PatternMap) ensures r.keys@.len() == 0, r.pats@.len() == 0 { unimplemented!() }
    /// IndexMap::insert.
    #[verifier::external_body]
    fn insert(&mut self, k: NameID, p: MatchPattern) -> (r: Option<MatchPattern>)
        ensures (r is Some) == old(self).keys@.contains(k),
            !old(self).keys@.contains(k) ==> final(self).keys@ == old(self).keys@.push(k) && final(self).pats@ == old(self).pats@.push(p),
            old(self).keys@.contains(k) ==> final(self).keys@ == old(self).keys@ && final(self).pats@.len() == old(self).pats@.len() { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self.keys@.len() == 0) { unimplemented!() }
}
impl NamedMatchPattern {
    #[verifier::external_body]
    fn range(&self) -> SourceRange { unimplemented!() }
}
#[verifier::external_body]
fn take_part(v: &Vec<PositionalMatchPattern>, i: usize) -> (r: PositionalMatchPattern) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body]
fn take_named(v: &Vec<NamedMatchPattern>, i: usize) -> (r: NamedMatchPattern) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body]
fn boxed(v: Vec<MatchPattern>) -> (r: Box<[MatchPattern]>) ensures r@ == v@ { unimplemented!() }
impl Parser {
    /// Items up to the closing token.
    #[verifier::external_body]
    fn parse_positional_until(&mut self, open: Token, sep: TokenKind, close: TokenKind) -> (r: Reported<(Vec<PositionalMatchPattern>, Token)>)
        ensures r matches Ok(x) ==> final(self).parts@ == x.0@ && final(self).close@ == x.1 && x.0@.len() <= u32::MAX, final(self).errors@ >= old(self).errors@ { unimplemented!() }
    #[verifier::external_body]
    fn report_error(&mut self, r: SourceRange) ensures final(self).errors@ == old(self).errors@ + 1, final(self).parts@ == old(self).parts@, final(self).close@ == old(self).close@ { unimplemented!() }
}
spec fn sequence(list: bool, r: SourceRange, s: Seq<PositionalMatchPattern>, p: MatchPattern) -> bool {
    let ps = s.map_values(|c: PositionalMatchPattern| pattern_of(c));
    match spread_at(s) {
        Some(i) => if list { p matches MatchPattern::SpreadList(r2, b, j) && r2 == r && b@ == ps && i == j } else { p matches MatchPattern::SpreadHTMLSeq(r2, b, j) && r2 == r && b@ == ps && i == j },
        None => if list { p matches MatchPattern::ExactList(r2, b) && r2 == r && b@ == ps } else if s.len() == 0 { p == MatchPattern::LiteralNone(r) } else { p matches MatchPattern::ExactHTMLSeq(r2, b) && r2 == r && b@ == ps },
    }
}
/// The names before the first spread are the entries, the last spread takes the others.
spec fn named_spreads(s: Seq<NamedMatchPattern>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { named_spreads(s.drop_last()) + if s.last() is Spread { 1nat } else { 0 } } }
spec fn entries_of(s: Seq<NamedMatchPattern>) -> Seq<(NameID, MatchPattern)> decreases s.len() { if s.len() == 0 { Seq::empty() } else { match s.last() { NamedMatchPattern::One(n, p) => entries_of(s.drop_last()).push((n, p)), NamedMatchPattern::Spread(p) => entries_of(s.drop_last()) } } }
spec fn rest_of(s: Seq<NamedMatchPattern>) -> Option<MatchPattern> decreases s.len() { if s.len() == 0 { None } else { match s.last() { NamedMatchPattern::One(n, p) => rest_of(s.drop_last()), NamedMatchPattern::Spread(p) => Some(p) } } }
'''


def parsing():
    u = Unit('parsing')
    base(u)
    u.item(PM, 'enum', 'PositionalMatchPattern')
    u.item(PM, 'enum', 'NamedMatchPattern')
    u.text(PARSE.replace('spec fn is_html(p: MatchPattern) -> bool;', 'uninterp spec fn is_html(p: MatchPattern) -> bool;') + 'impl Parser {')
    I = "^impl < 'a > Parser < 'a >$"
    f = u.fn(PM, 'parse_seq_pattern', impl=I)
    f.sub('self . parse_separated_until ( $a , Parser :: parse_positional_match_pattern , $b )', 'self.parse_positional_until($a, $b)', 1)
    f.sub('self . report ( SyntaxError :: $i:k , $r )', 'self.report_error($r)', 0)
    f.sub('let child_patterns : Box < [ MatchPattern ] > = children . into_iter ( ) . enumerate ( ) . map ( | ( $i:n , $i:c ) | match $i:m { $b } ) . collect ( ) ;', 'let mut made: Vec<MatchPattern> = Vec::new(); let mut $n: usize = 0; while $n < children.len() { let $c = take_part(&children, $n); let p = match $m { $b }; $n += 1; made.push(p); } let child_patterns = boxed(made);', 0)
    f.sub('for $i:c in child_patterns . iter ( ) . filter ( | $i:p | $b ) {', 'let mut at: usize = 0; while at < child_patterns.len() { let $c = &child_patterns[at]; let $p = $c; at += 1; if !($b) { continue; }', 0)
    f.sub('range . end', 'range.end()', 0)
    f.attr('#[verifier::loop_isolation(false)]')
    f.loop(0, invariant=['i <= children@.len()', 'children@ == self.parts@', 'self.close@ == close', 'children@.len() <= u32::MAX', 'made@ =~= children@.take(i as int).map_values(|c: PositionalMatchPattern| pattern_of(c))', 'spread_index == spread_at(children@.take(i as int))', 'self.errors@ >= old(self).errors@', 'spreads(children@.take(i as int)) > 1 ==> self.errors@ > old(self).errors@', 'spreads(children@.take(i as int)) == 0 ==> spread_index is None'], decreases='children@.len() - i')
    f.loop_start(0, 'proof { assert(children@.take(i + 1).drop_last() =~= children@.take(i as int)); lemma_spread(children@.take(i as int)); assert(children@.take(i + 1).last() == children@[i as int]); }')
    f.loop(1, invariant=['at <= child_patterns@.len()', 'children@ == self.parts@', 'self.close@ == close', 'self.errors@ >= e1', 'forall|i: int| 0 <= i < at && !is_html(#[trigger] child_patterns@[i]) ==> self.errors@ > old(self).errors@'], decreases='child_patterns@.len() - at')
    f.after('let child_patterns = $x ;', 'proof { assert(children@.take(children@.len() as int) =~= children@); assert(child_patterns@ =~= children@.map_values(|c: PositionalMatchPattern| pattern_of(c))); assert(forall|i: int| 0 <= i < children@.len() ==> pattern_of(#[trigger] children@[i]) == child_patterns@[i]); } let ghost e1 = self.errors@;')
    f.ensures('r matches Ok(p) ==> sequence(open.kind is LSqb, open.range.upto(final(self).close@.range.last()), final(self).parts@, p) && (spreads(final(self).parts@) > 1 ==> final(self).errors@ > old(self).errors@)',
              'final(self).errors@ == old(self).errors@ && !(open.kind is LSqb) && r is Ok ==> forall|i: int| 0 <= i < final(self).parts@.len() ==> is_html(pattern_of(#[trigger] final(self).parts@[i]))')
    f = u.fn(PM, 'make_dict_pattern', impl=I)
    f.sub('self . report ( SyntaxError :: $i:k , $r )', 'self.report_error($r)', 0)
    f.sub('let name = self . string_pool . get ( $x ) ; self . report ( SyntaxError :: $i:k ( $n ) , $r )', 'self.report_error($r)', 0)
    f.sub('NameIDMap :: default ( )', 'PatternMap::default()', 0)
    f.sub('for $i:p in parts . into_iter ( ) {', 'let mut at: usize = 0; while at < parts.len() { let $p = take_named(&parts, at); at += 1;', 0)
    f.attr('#[verifier::loop_isolation(false)]')
    OK = ['self.errors@ >= old(self).errors@', 'attrs.keys@.len() == attrs.pats@.len()', 'attrs.keys@.no_duplicates()',
          '(spread is Some) == (named_spreads(parts@.take(at as int)) > 0)', 'spread == rest_of(parts@.take(at as int))', 'named_spreads(parts@.take(at as int)) > 1 ==> self.errors@ > old(self).errors@',
          'self.errors@ == old(self).errors@ ==> entries_of(parts@.take(at as int)) =~= Seq::new(attrs.keys@.len(), |i: int| (attrs.keys@[i], attrs.pats@[i]))']
    f.loop(0, invariant=['at <= parts@.len()'] + OK, decreases='parts@.len() - at')
    f.loop_start(0, 'proof { assert(parts@.take(at + 1).drop_last() =~= parts@.take(at as int)); assert(parts@.take(at + 1).last() == parts@[at as int]); }')
    f.before('if simplify &&', 'proof { assert(parts@.take(parts@.len() as int) =~= parts@); }')
    f.ensures('final(self).errors@ >= old(self).errors@', 'named_spreads(parts@) > 1 ==> final(self).errors@ > old(self).errors@', 'r is Ok',
              '''final(self).errors@ == old(self).errors@ ==> match r { Ok(MatchPattern::Dict(_, d)) => (simplify && entries_of(parts@).len() == 0 && rest_of(parts@) == Some(r->Ok_0)) || d.attrs.keys@.len() == d.attrs.pats@.len() && d.attrs.keys@.no_duplicates() && d.spread == rest_of(parts@) && entries_of(parts@) =~= Seq::new(d.attrs.keys@.len(), |i: int| (d.attrs.keys@[i], d.attrs.pats@[i])),
              Ok(p) => simplify && entries_of(parts@).len() == 0 && rest_of(parts@) == Some(p), _ => false }''')
    u.text('}')
    return u


def variables():
    """The variables of the frame in which a match binds its names: what the first unit assumes of `frame()`."""
    u = frames('variables')
    u.text('}')
    return u


UNITS = [patterns, names, parsing, variables]

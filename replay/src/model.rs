//! Reference model of types and values.
use crate::util::*;

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T { Any, None, Html, Block, Inline, Bool, Int, Str, Function, Regex, Dict(Box<T>), List(Box<T>), Opt(Box<T>) }
pub const PRIMS: &[T] = &[T::Any, T::None, T::Html, T::Block, T::Inline, T::Bool, T::Int, T::Str, T::Function, T::Regex];
impl T {
    pub fn takes_none(&self) -> bool { matches!(self, T::Any | T::None | T::Html | T::Block | T::Inline | T::Opt(_)) }
    pub fn opt(self) -> T { if self.takes_none() { self } else { T::Opt(Box::new(self)) } }
    pub fn list(self) -> T { T::List(Box::new(self)) }
    pub fn dict(self) -> T { T::Dict(Box::new(self)) }
    pub fn print(&self) -> String {
        match self {
            T::Any => "any".into(), T::None => "none".into(), T::Html => "html".into(), T::Block => "block".into(), T::Inline => "inline".into(),
            T::Bool => "bool".into(), T::Int => "int".into(), T::Str => "str".into(), T::Function => "function".into(), T::Regex => "regex".into(),
            T::Dict(t) => format!("{} dict", t.print()), T::List(t) => format!("{} list", t.print()), T::Opt(t) => format!("{}?", t.print()),
        }
    }
    pub fn parse(s: &str) -> Option<T> {
        if let Some(r) = s.strip_suffix('?') { let t = T::parse(r)?; return if t.takes_none() { None } else { Some(T::Opt(Box::new(t))) }; }
        if let Some(r) = s.strip_suffix(" list") { return Some(T::parse(r)?.list()); }
        if let Some(r) = s.strip_suffix(" dict") { return Some(T::parse(r)?.dict()); }
        PRIMS.iter().find(|t| t.print() == s).cloned()
    }
    /// Whether a value is assignable to the type.
    pub fn accepts(&self, v: &V) -> bool {
        match (self, v) {
            (T::Any, _) => true,
            (t, V::None) => t.takes_none(),
            (T::Bool, V::Bool(_)) | (T::Int, V::Int(_)) | (T::Str, V::Str(_)) | (T::Function, V::Func) | (T::Regex, V::Regex) => true,
            (T::Html, V::Block(_) | V::Inline(_) | V::Str(_)) => true,
            (T::Block, V::Block(_)) | (T::Inline, V::Inline(_) | V::Str(_)) => true,
            (T::Dict(t), V::Dict(vs)) => vs.iter().all(|(_, v)| t.accepts(v)),
            (T::List(t), V::List(vs)) => vs.iter().all(|v| t.accepts(v)),
            (T::Opt(t), v) => t.accepts(v),
            _ => false,
        }
    }
    pub fn has_block(&self) -> bool { match self { T::Block => true, T::Dict(t) | T::List(t) | T::Opt(t) => t.has_block(), _ => false } }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum V { None, Bool(bool), Int(i64), Str(String), Block(&'static str), Inline(&'static str), Func, Regex, List(Vec<V>), Dict(Vec<(String, V)>) }
impl V {
    /// An expression which denotes the value.
    pub fn expr(&self) -> String {
        match self {
            V::None => ".".into(),
            V::Bool(b) => if *b { "True".into() } else { "False".into() },
            V::Int(i) => i.to_string(),
            V::Str(s) => template_lit(s).unwrap(),
            V::Block(s) | V::Inline(s) => s.to_string(),
            V::Func => "$list::map".into(),
            V::Regex => "@regex::compile `a+`".into(),
            V::List(vs) => format!("[{}]", vs.iter().map(V::expr).collect::<Vec<_>>().join(", ")),
            V::Dict(vs) => format!("@dict::new({}).", vs.iter().map(|(k, v)| format!("{k}={}", v.expr())).collect::<Vec<_>>().join(", ")),
        }
    }
    /// As `util::show` shows it.
    pub fn show(&self) -> String {
        match self {
            V::None => ".".into(),
            V::Bool(b) => if *b { "True".into() } else { "False".into() },
            V::Int(i) => i.to_string(),
            V::Str(s) => format!("{s:?}"),
            V::Block(s) | V::Inline(s) => s.to_string(),
            V::Func => "<func>".into(),
            V::Regex => "<regex>".into(),
            V::List(vs) => format!("[{}]", vs.iter().map(V::show).collect::<Vec<_>>().join(", ")),
            V::Dict(vs) => format!("{{{}}}", vs.iter().map(|(_, v)| v.show()).collect::<Vec<_>>().join(", ")),
        }
    }
    pub fn int_list(vs: &[i64]) -> V { V::List(vs.iter().map(|i| V::Int(*i)).collect()) }
}

/// All types of the given nesting depth, in normal form.
pub fn types(depth: usize) -> Vec<T> {
    let mut out: Vec<T> = PRIMS.to_vec();
    let mut last = out.clone();
    for _ in 0..depth {
        let mut next = vec![];
        for t in &last {
            for u in [t.clone().list(), t.clone().dict(), t.clone().opt()] {
                if !out.contains(&u) && !next.contains(&u) { next.push(u); }
            }
        }
        out.extend(next.iter().cloned());
        last = next;
    }
    out
}
pub fn simple_values() -> Vec<V> {
    vec![V::None, V::Bool(true), V::Int(5), V::Int(-1), V::Str("a".into()), V::Str("".into()), V::Block("<p>a</p>"), V::Block("<div><b>x</b></div>"), V::Inline("<b>a</b>"), V::Inline("{a <i>b</i>}"), V::Func, V::Regex]
}
pub fn values() -> Vec<V> {
    let simple = simple_values();
    let mut out = simple.clone();
    out.push(V::List(vec![]));
    out.push(V::Dict(vec![]));
    let few = [V::None, V::Int(5), V::Str("a".into()), V::Block("<p>a</p>"), V::Inline("<b>a</b>"), V::Func, V::Bool(false)];
    for v in &simple { out.push(V::List(vec![v.clone()])); out.push(V::Dict(vec![("x".into(), v.clone())])); }
    for v in &few { for w in &few {
        out.push(V::List(vec![v.clone(), w.clone()]));
        out.push(V::Dict(vec![("x".into(), v.clone()), ("y".into(), w.clone())]));
    } }
    let mut nested = vec![];
    for v in [V::List(vec![]), V::Dict(vec![]), V::List(vec![V::Int(1)]), V::List(vec![V::Str("s".into())]), V::List(vec![V::None]), V::Dict(vec![("x".into(), V::Int(1))]), V::Dict(vec![("x".into(), V::None)]), V::Dict(vec![("x".into(), V::Block("<p>a</p>"))])] {
        for w in [V::None, V::Int(3), V::List(vec![V::Int(2)]), V::List(vec![V::Bool(true), V::None]), V::List(vec![V::Inline("<i>a</i>")]), V::Dict(vec![("z".into(), V::Str("t".into()))])] {
            nested.push(V::List(vec![v.clone(), w.clone()]));
            nested.push(V::List(vec![w.clone(), v.clone()]));
            nested.push(V::Dict(vec![("p".into(), v.clone()), ("q".into(), w.clone())]));
        }
    }
    out.extend(nested);
    // mixtures of three
    for a in &few { for b in &few { for c in [V::None, V::Int(2), V::Block("<p>a</p>")] {
        if a != b && b != &c { out.push(V::List(vec![a.clone(), b.clone(), c.clone()])); }
    } } }
    out
}
pub fn random_value(rng: &mut Rng, depth: usize) -> V {
    if depth == 0 || rng.chance(1, 3) { return rng.pick(&simple_values()).clone(); }
    let n = rng.below(4);
    if rng.chance(1, 2) { V::List((0..n).map(|_| random_value(rng, depth - 1)).collect()) }
    else { V::Dict((0..n).map(|i| (format!("k{i}"), random_value(rng, depth - 1))).collect()) }
}

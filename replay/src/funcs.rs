//! C17, C18, C19, C22: calls, partial application, scopes and patterns.
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;

use papyri_lang::compiler::{Context, Value, HTML};
use crate::util::*;

// ------------------------------------------------------------------ values

#[derive(Clone, PartialEq, Debug)]
pub enum V { None, Bool(bool), Int(i64), Str(String), List(Vec<V>), Dict(Vec<(String, V)>), Tag(String, Vec<(String, Option<String>)>, Box<V>), Seq(Vec<V>) }
use V::*;

impl V {
    fn src(&self) -> String {
        match self {
            None => ".".into(),
            Bool(b) => if *b { "True".into() } else { "False".into() },
            Int(i) => i.to_string(),
            Str(s) => format!("`{s}`"),
            List(vs) => format!("[{}]", vs.iter().map(V::src).collect::<Vec<_>>().join(", ")),
            Dict(vs) => format!("@dict::new({}).", vs.iter().map(|(k, v)| format!("{k}={}", v.src())).collect::<Vec<_>>().join(", ")),
            Tag(n, a, c) => {
                let a: String = a.iter().map(|(k, v)| match v { Some(v) => format!(" {k}=`{v}`"), Option::None => format!(" {k}") }).collect();
                if **c == None { format!("<{n}{a}></>") } else { format!("<{n}{a}>{}</>", c.inline()) }
            },
            Seq(_) => format!("{{{}}}", self.inline()),
        }
    }
    fn inline(&self) -> String {
        match self { Str(s) => s.clone(), Seq(vs) => vs.iter().map(V::inline).collect(), v => v.src() }
    }
    /// The same form as `show2`.
    fn show(&self) -> String {
        match self {
            List(vs) => format!("[{}]", vs.iter().map(V::show).collect::<Vec<_>>().join(", ")),
            Dict(vs) => format!("{{{}}}", vs.iter().map(|(_, v)| v.show()).collect::<Vec<_>>().join(", ")),
            Str(s) => format!("{s:?}"),
            Tag(..) | Seq(_) => format!("h{:?}", self.html()),
            v => v.src(),
        }
    }
    fn html(&self) -> String {
        match self {
            None => String::new(),
            Str(s) => s.clone(),
            Seq(vs) => vs.iter().map(V::html).collect(),
            Tag(n, a, c) => {
                let a: String = a.iter().map(|(k, v)| match v { Some(v) => format!(" {k}=\"{v}\""), Option::None => format!(" {k}") }).collect();
                if n == "br" { format!("<{n}{a}>") } else { format!("<{n}{a}>{}</{n}>", c.html()) }
            },
            _ => unreachable!(),
        }
    }
    /// Rebuilds HTML from its items.
    fn from_items(vs: &[V]) -> V {
        match vs.len() { 0 => None, 1 => vs[0].clone(), _ => Seq(vs.to_vec()) }
    }
    fn items(&self) -> Option<Vec<V>> {
        Some(match self { None => vec![], Seq(vs) => vs.clone(), Str(s) if s.is_empty() => vec![], Str(_) | Tag(..) => vec![self.clone()], _ => return Option::None })
    }
}
fn show2(ctx: &Context, v: &Value) -> String {
    match v {
        Value::HTML(HTML::Empty) => ".".into(),
        Value::HTML(h) => {
            let mut b = vec![];
            ctx.render(h, true, &mut b).unwrap();
            format!("h{:?}", String::from_utf8(b).unwrap())
        },
        Value::List(vs) => format!("[{}]", vs.as_ref().iter().map(|v| show2(ctx, v)).collect::<Vec<_>>().join(", ")),
        Value::Dict(vs) => format!("{{{}}}", vs.values().map(|v| show2(ctx, v)).collect::<Vec<_>>().join(", ")),
        v => show(v),
    }
}
/// Compares the value of an expression with the expected one; an error on
/// both sides is agreement.
fn agree(src: &str, want: Result<V, String>) -> Result<(), (String, String)> {
    with_ctx(|ctx| {
        ctx.reset();
        let got = eval_in(ctx, src);
        match (want, got) {
            (Ok(w), Ok(g)) => { let (w, g) = (w.show(), show2(ctx, &g)); ensure(w == g, w, g) },
            (Err(_), Err(_)) => Ok(()),
            (Ok(w), Err(d)) => Err((w.show(), format!("error: {d}"))),
            (Err(why), Ok(g)) => Err((format!("an error: {why}"), show2(ctx, &g))),
        }
    })
}

// ------------------------------------------------------------------ C17, C18

#[derive(Clone, Copy, PartialEq, Debug)]
enum Ty { Any, Int, Str, OptInt, IntList }
impl Ty {
    fn src(self) -> &'static str { match self { Ty::Any => "", Ty::Int => "int", Ty::Str => "str", Ty::OptInt => "int?", Ty::IntList => "int list" } }
    fn accepts(self, v: &V) -> bool { self.conv(v).is_some() }
    /// The value as it is bound to something of this type.
    fn conv(self, v: &V) -> Option<V> {
        match (self, v) {
            (Ty::Any, v) | (Ty::Int | Ty::OptInt, v @ Int(_)) | (Ty::Str, v @ Str(_)) | (Ty::OptInt, v @ None) => Some(v.clone()),
            (Ty::Str, Int(i)) => Some(Str(i.to_string())),
            (Ty::Str, Bool(b)) => Some(Str(if *b { "True" } else { "False" }.into())),
            (Ty::IntList, List(vs)) => vs.iter().map(|v| Ty::Int.conv(v)).collect::<Option<Vec<_>>>().map(List),
            _ => Option::None,
        }
    }
    fn gen(self, r: &mut Rng) -> V {
        match self {
            Ty::Any => [Int(r.below(9) as i64), Str("s".into()), None, List(vec![Int(1)]), Bool(true)][r.below(5)].clone(),
            Ty::Int => Int(r.below(99) as i64),
            Ty::Str => Str(["u", "v", "w"][r.below(3)].into()),
            Ty::OptInt => if r.chance(1, 3) { None } else { Int(r.below(9) as i64) },
            Ty::IntList => List((0..r.below(3)).map(|i| Int(i as i64)).collect()),
        }
    }
}
#[derive(Clone, Debug)]
struct Param { name: &'static str, ty: Ty, question: bool, default: Option<V>, implicit: bool }
impl Param {
    fn src(&self) -> String {
        let mut s = format!("${}", self.name);
        if self.question { s += "?"; }
        if self.ty != Ty::Any || self.implicit { s += &format!(": {}{}", if self.implicit { "@implicit " } else { "" }, if self.ty == Ty::Any { "any" } else { self.ty.src() }); }
        if let Some(v) = &self.default { s += &format!(" = {}", v.src()); }
        s
    }
    fn accepts(&self, v: &V) -> bool { self.conv(v).is_some() }
    fn conv(&self, v: &V) -> Option<V> { if self.question && *v == None { Some(None) } else { self.ty.conv(v) } }
    fn fallback(&self) -> Option<V> { self.default.clone().or(self.question.then_some(None)) }
}
#[derive(Clone, Debug)]
struct Sig { pos: Vec<Param>, spread: Option<Ty>, named: Vec<Param>, named_spread: Option<Ty>, content: Option<Param> }
impl Sig {
    fn gen(r: &mut Rng) -> Sig {
        let tys = [Ty::Any, Ty::Int, Ty::Str, Ty::OptInt, Ty::IntList, Ty::Any];
        let param = |r: &mut Rng, name, opt: bool, implicit: bool| {
            let ty = *r.pick(&tys);
            let how = if !opt { 0 } else if implicit { 1 } else { 1 + r.below(3) };
            // "int?" together with the question mark on the name is only a warning
            let ty = if how != 0 && ty == Ty::OptInt || how == 1 && implicit && ty == Ty::Any { Ty::Int } else { ty };
            let question = how == 1 && ty != Ty::Any || how == 1 && implicit && ty != Ty::Any;
            let default = (how >= 2 || how == 1 && !question && !implicit).then(|| ty.gen(r));
            Param { name, ty, question, default, implicit }
        };
        let np = r.below(4);
        let req = r.below(np + 1);
        let pos = (0..np).map(|i| param(r, ["_a", "_b", "_c"][i], i >= req, false)).collect();
        let spread = r.chance(1, 3).then(|| if r.chance(1, 2) { Ty::Any } else { Ty::Int });
        let nn = r.below(4);
        let req = r.below(nn + 1);
        let named = (0..nn).map(|i| { let im = r.chance(1, 4); param(r, ["k", "l", "m"][i], i >= req, im) }).collect();
        let named_spread = r.chance(1, 4).then(|| if r.chance(1, 2) { Ty::Any } else { Ty::Int });
        let content = r.chance(1, 2).then(|| { let q = r.chance(1, 3); let ty = *r.pick(&tys); Param { name: "c", ty: if q && ty == Ty::OptInt { Ty::Int } else { ty }, question: q && ty != Ty::Any, default: Option::None, implicit: false } });
        Sig { pos, spread, named, named_spread, content }
    }
    fn def(&self) -> String {
        let mut ps: Vec<String> = self.pos.iter().map(Param::src).collect();
        let coll = |t: Ty, k: &str| if t == Ty::Any { String::new() } else { format!(": {} {k}", t.src()) };
        if let Some(t) = self.spread { ps.push(format!("*$_r{}", coll(t, "list"))); }
        ps.extend(self.named.iter().map(Param::src));
        if let Some(t) = self.named_spread { ps.push(format!("**$kw{}", coll(t, "dict"))); }
        let mut vars: Vec<String> = self.pos.iter().chain(self.named.iter()).map(|p| format!("${}", p.name)).collect();
        if self.spread.is_some() { vars.push("$_r".into()); }
        if self.named_spread.is_some() { vars.push("@dict::items $kw".into()); }
        if self.content.is_some() { vars.push("$c".into()); }
        let c = self.content.as_ref().map_or(".".to_string(), Param::src);
        format!("@fn fun({}) {c} -> [{}]", ps.join(", "), vars.join(", "))
    }
}
#[derive(Clone, Debug, Default)]
struct Args { pos: Vec<V>, named: Vec<(String, V)>, content: Option<V> }
impl Args {
    fn gen(r: &mut Rng, sig: &Sig) -> Args {
        let mut a = Args::default();
        let sloppy = r.chance(1, 3);
        let req = sig.pos.iter().filter(|p| p.fallback().is_none()).count();
        let mut n = req + r.below(sig.pos.len() - req + 1);
        if sig.spread.is_some() && n == sig.pos.len() { n += r.below(3); }
        if sloppy && r.chance(1, 3) { n = r.below(sig.pos.len() + 2); }
        for i in 0..n {
            let ty = sig.pos.get(i).map(|p| p.ty).or(sig.spread).unwrap_or(Ty::Any);
            let ty = if sloppy && r.chance(1, 6) { if r.chance(1, 2) { Ty::Str } else { Ty::Any } } else { ty };
            a.pos.push(ty.gen(r));
        }
        for p in &sig.named {
            if r.chance(if p.fallback().is_some() || p.implicit { 1 } else { 9 }, if p.fallback().is_some() || p.implicit { 2 } else { 10 }) {
                let ty = if sloppy && r.chance(1, 6) { if r.chance(1, 2) { Ty::Str } else { Ty::Any } } else { p.ty };
                a.named.push((p.name.into(), ty.gen(r)));
            }
        }
        if let Some(t) = sig.named_spread { for k in ["y", "z"] { if r.chance(1, 3) { a.named.push((k.into(), t.gen(r))); } } }
        if sloppy && r.chance(1, 4) { a.named.push(((*r.pick(&["zz", "_a", "k", "c"])).into(), Int(1))); }
        // a name given again, with the same or another value
        if sloppy && r.chance(1, 3) && !a.named.is_empty() {
            let mut n = a.named[r.below(a.named.len())].clone();
            if let (true, Some(t)) = (r.chance(1, 2), sig.named_spread) { n.1 = t.gen(r); }
            a.named.push(n);
        }
        for i in (1..a.named.len()).rev() { let j = r.below(i + 1); a.named.swap(i, j); }
        let want = match &sig.content { Some(p) => if r.chance(1, 6) && p.accepts(&None) { Option::None } else { Some(p.ty.gen(r)) }, Option::None => (sloppy && r.chance(1, 6)).then_some(Int(3)) };
        a.content = want.filter(|v| *v != None);
        a
    }
    /// Writes the arguments, some of them by spreading lists and dicts.
    fn src(&self, r: &mut Rng) -> String {
        let mut parts = vec![];
        let mut i = 0;
        while i < self.pos.len() {
            let n = 1 + r.below(3);
            if r.chance(1, 5) && i + n <= self.pos.len() { parts.push(format!("*{}", List(self.pos[i..i + n].to_vec()).src())); i += n; }
            else { parts.push(self.pos[i].src()); i += 1; }
        }
        if r.chance(1, 9) { parts.push("*[]".into()); }
        let mut i = 0;
        while i < self.named.len() {
            let n = 1 + r.below(2);
            // a dict cannot have a name which begins with an underscore
            if r.chance(1, 4) && i + n <= self.named.len() && self.named[i..i + n].iter().all(|p| !p.0.starts_with('_')) && (n == 1 || self.named[i].0 != self.named[i + 1].0) {
                parts.push(format!("**{}", Dict(self.named[i..i + n].to_vec()).src()));
                i += n;
            } else { parts.push(format!("{}={}", self.named[i].0, self.named[i].1.src())); i += 1; }
        }
        format!("({}) {}", parts.join(", "), self.content.as_ref().unwrap_or(&None).src())
    }
}
/// What one call with all the arguments gives.
fn bind(sig: &Sig, a: &Args, implicits: &[(String, V, bool)]) -> Result<V, String> {
    let mut out = vec![];
    for (i, p) in sig.pos.iter().enumerate() {
        match a.pos.get(i) {
            Some(v) => out.push(p.conv(v).ok_or(format!("{v:?} for {}", p.name))?),
            Option::None => out.push(p.fallback().ok_or(format!("{} missing", p.name))?),
        }
    }
    let mut extra = vec![];
    for v in a.pos.iter().skip(sig.pos.len()) {
        extra.push(sig.spread.ok_or("too many positional arguments")?.conv(v).ok_or(format!("{v:?} in the spread"))?);
    }
    let mut names = BTreeSet::new();
    let mut kw = vec![];
    for (k, v) in &a.named {
        if !names.insert(k) { return Err(format!("{k} twice")) }
        match (sig.named.iter().find(|p| p.name == k), sig.named_spread) {
            (Some(p), _) => if !p.accepts(v) { return Err(format!("{v:?} for {k}")) },
            (Option::None, Some(t)) => kw.push(List(vec![Str(k.clone()), t.conv(v).ok_or(format!("{v:?} for {k}"))?])),
            _ => return Err(format!("no parameter {k}")),
        }
    }
    for p in &sig.named {
        let given = a.named.iter().find(|n| n.0 == p.name).and_then(|n| p.conv(&n.1));
        out.push(match given {
            Some(v) => v,
            Option::None if p.implicit => {
                let v = implicits.iter().find(|i| i.0 == p.name && i.2).map(|i| i.1.clone()).or(p.fallback()).ok_or(format!("no implicit {}", p.name))?;
                p.conv(&v).ok_or(format!("{v:?} for implicit {}", p.name))?
            },
            Option::None => p.fallback().ok_or(format!("{} missing", p.name))?,
        });
    }
    if sig.spread.is_some() { out.push(List(extra)); }
    if sig.named_spread.is_some() { out.push(List(kw)); }
    let c = a.content.clone().unwrap_or(None);
    match &sig.content {
        Some(p) => out.push(p.conv(&c).ok_or(format!("{c:?} as content"))?),
        Option::None => if c != None { return Err("unexpected content".into()) },
    }
    Ok(List(out))
}
/// Declarations around the call, the innermost first.
fn gen_scopes(r: &mut Rng) -> Vec<(String, V, bool)> {
    (0..r.below(4)).map(|_| ((*r.pick(&["k", "l", "m"])).to_string(), [Int(70 + r.below(9) as i64), Str("imp".into()), None, List(vec![Int(4)])][r.below(4)].clone(), r.chance(2, 3))).collect()
}
fn in_scopes(scopes: &[(String, V, bool)], body: String) -> String {
    scopes.iter().fold(body, |b, (k, v, im)| format!("@{}({k}={}) {b}", if *im { "implicit" } else { "let" }, v.src()))
}

pub fn c17(run: &mut Run) {
    run.rule("random signatures (positional, spread, named, implicit, named spread, content; types, defaults) and calls (also with spread arguments, too few, too many, unknown, repeated or ill-typed ones) against a reference binder");
    for _ in 0..run.scale(6000, 150000) {
        if run.done() { return; }
        let mut r = Rng::new(run.rng.next());
        let sig = Sig::gen(&mut r);
        let args = Args::gen(&mut r, &sig);
        let scopes = gen_scopes(&mut r);
        let src = format!("@let(f={}) {}", sig.def(), in_scopes(&scopes, format!("@f{}", args.src(&mut r))));
        let want = bind(&sig, &args, &scopes);
        run.case("call", &src, true, || agree(&src, want));
    }
    run.rule("errors in the arguments are errors of the call, and arguments which are not needed are still evaluated");
    for (src, want) in [
        ("@let(f=@fn f($_a, $k = 2) . -> 1) @f($nope).", Option::None), ("@let(f=@fn f($_a, $k = 2) . -> 1) @f(1, k=$nope).", Option::None),
        ("@let(f=@fn f($_a) $c -> 1) @f(1) $nope", Option::None), ("@let(f=@fn f($_a) $c -> 1) @f(*[1, $nope]) 1", Option::None),
        ("@let(f=@fn f($_a = 1, $_b = 2) . -> [$_a, $_b]) @f.", Some("[1, 2]")), ("@let(f=@fn f($_a = 1, $_b = 2) . -> [$_a, $_b]) @f(5).", Some("[5, 2]")),
        ("@let(f=@fn f($a = [1, 2]) . -> $a) [@f., @f(a=3)., @f.]", Some("[[1, 2], 3, [1, 2]]")),
        ("@let(f=@fn f(*$_r) $c -> [*$_r, $c]) @f(1, 2) 3", Some("[1, 2, 3]")), ("@let(f=@fn f(*$_r, **$kw) . -> [$_r, $kw]) @f(1, a=2, b=3).", Some("[[1], {2, 3}]")),
        ("@let(f=@fn f($k: @implicit int) . -> $k) @implicit(k=1) @let(k=2) @f.", Some("1")), ("@let(f=@fn f($k: @implicit int) . -> $k) @let(k=2) @f.", Option::None),
        ("@let(f=@fn f($k: @implicit int) . -> $k) @implicit(k=1) @implicit(k=2) @f.", Some("2")),
    ] {
        run.case("fixed", src, true, || { let got = eval_show(src); ensure(got == want.unwrap_or("error"), want.unwrap_or("error"), got) });
    }
}

pub fn c18(run: &mut Run) {
    run.rule("random signatures and arguments split over up to four steps of binding, with several later calls of each bound function, against one complete call by a reference binder; and the original function again afterwards");
    for _ in 0..run.scale(5000, 100000) {
        if run.done() { return; }
        let mut r = Rng::new(run.rng.next());
        let sig = Sig::gen(&mut r);
        let args = Args::gen(&mut r, &sig);
        let scopes = gen_scopes(&mut r);
        let steps = 1 + r.below(4);
        // the positional arguments stay in order; the named ones go anywhere
        let mut cuts: Vec<usize> = (0..steps).map(|_| r.below(args.pos.len() + 1)).collect();
        cuts.sort();
        let mut parts = vec![Args::default(); steps + 1];
        for (i, v) in args.pos.iter().enumerate() { let s = cuts.iter().filter(|c| **c <= i).count(); parts[s].pos.push(v.clone()); }
        for n in &args.named { let s = r.below(steps + 1); parts[s].named.push(n.clone()); }
        let s = r.below(steps + 1);
        parts[s].content = args.content.clone();
        // named arguments are collected in the order in which they are given
        let ordered = Args { pos: args.pos.clone(), named: parts.iter().flat_map(|p| p.named.clone()).collect(), content: args.content.clone() };
        let mut src = format!("@let(f0={}) ", sig.def());
        let mut last = "f0".to_string();
        for (i, p) in parts[..steps].iter().enumerate() {
            src += &format!("@let(f{}=@{last}::bind{}) ", i + 1, p.src(&mut r));
            last = format!("f{}", i + 1);
        }
        let mut calls = vec![];
        let mut wants = vec![];
        calls.push(format!("@{last}{}", parts[steps].src(&mut r)));
        wants.push(bind(&sig, &ordered, &scopes));
        for _ in 0..r.below(3) {
            // another call of some earlier function
            let k = r.below(steps + 1);
            let mut extra = parts[k].clone();
            for p in &parts[k + 1..] {
                extra.pos.extend(p.pos.clone());
                extra.named.extend(p.named.clone());
                if p.content.is_some() { extra.content = p.content.clone(); }
            }
            if k == steps && r.chance(1, 2) { if let Some(v) = extra.pos.first_mut() { *v = Int(55); } }
            let mut whole = Args::default();
            for p in parts[..k].iter().chain([&extra]) {
                whole.pos.extend(p.pos.clone());
                whole.named.extend(p.named.clone());
                if p.content.is_some() { whole.content = p.content.clone(); }
            }
            calls.push(format!("@f{k}{}", extra.src(&mut r)));
            wants.push(bind(&sig, &whole, &scopes));
        }
        src += &in_scopes(&scopes, format!("[{}]", calls.join(", ")));
        let want: Result<Vec<V>, String> = wants.into_iter().collect();
        // the value of a list in an element position may be none
        run.case("bind", &src, true, || agree(&src, want.map(List)));
    }
    run.rule("attribute methods against the plain functions");
    let lists = ["[]", "[1]", "[3, 1, 2]", "[`b`, `a`]", "[[1], 2]", "[1, ., 2]"];
    let on_list = [("len", "", ""), ("is_empty", "", ""), ("flat", "", ""), ("sorted", "", ""), ("sorted", "(reversed=True)", ""), ("slice", "(1)", ""), ("slice", "(0, 2)", ""), ("get", "(0)", ""),
        ("contains", "(1)", ""), ("map", "($f)", ""), ("filter", "", ""), ("enumerate", "", ""), ("enumerate", "(from=5)", ""), ("any", "($g)", ""), ("all", "($g)", ""), ("find", "($g)", ""), ("filter", "($g)", ""), ("join", "(`-`)", "")];
    for xs in lists {
        for (m, a, _) in on_list {
            let pre = "@let(f=@fn f $c -> [$c], g=@fn g $c -> @match $c { 1 -> True, _ -> False })";
            let plain = format!("{pre} @list::{m}{a} {xs}");
            for s in [format!("{pre} @let(xs={xs}) @xs::{m}{a}."), format!("{pre} @let(h={xs}) @let(h=$h::{m}) @h{a}."), format!("{pre} @let(h=@list::{m}) @h{a} {xs}").replace("h=@list", "h=$list")] {
                run.case("method", &format!("{s} == {plain}"), true, || { let (w, g) = (eval_show(&plain), eval_show(&s)); ensure(w == g, w, g) });
            }
        }
    }
    for (x, t, m, a) in [("`aB`", "str", "upper", ""), ("`aB`", "str", "lower", ""), ("` x `", "str", "trim", ""), ("`a,b`", "str", "split", "(`,`)"), ("`ab`", "str", "is_empty", ""), ("@dict::new(k=1, l=2).", "dict", "keys", ""), ("@dict::new(k=1, l=2).", "dict", "values", ""),
        ("@dict::new(k=1, l=2).", "dict", "items", ""), ("@dict::new(k=1).", "dict", "get", "(`k`)"), ("@dict::new(k=1).", "dict", "len", "")] {
        let plain = format!("@{t}::{m}{a} {x}");
        let s = format!("@let(x={x}) @x::{m}{a}.");
        run.case("method", &format!("{s} == {plain}"), true, || { let (w, g) = (eval_show(&plain), eval_show(&s)); ensure(w == g || g == "error", w, g) });
    }
    run.rule("one bound function called many times");
    for n in [1, 2, 30] {
        for (def, b, call, want) in [
            ("@fn f($_a, *$_r) . -> [$_a, $_r]", "(1, 2)", "(3).", "[1, [2, 3]]"), ("@fn f($_a, **$kw) . -> [$_a, $kw]", "(1, x=2)", "(y=3).", "[1, {2, 3}]"),
            ("@fn f($k, $l) $c -> [$k, $l, $c]", "(k=1) 5", "(l=3).", "[1, 3, 5]"), ("@fn f($_a) . -> $_a", "(7)", ".", "7"), ("@fn f(*$_r) $c -> [$_r, $c]", ".", "(1) 2", "[[1], 2]"),
        ] {
            let b = if b.ends_with(['.', '5']) { b.to_string() } else { format!("{b}.") };
            let src = format!("@let(f={def}) @let(g=@f::bind{b}) [{}]", vec![format!("@g{call}"); n].join(", "));
            let want = format!("[{}]", vec![want; n].join(", "));
            run.case("again", &src, true, || { let g = eval_show(&src); ensure(g == want, want.clone(), g) });
        }
    }
}

// ------------------------------------------------------------------ patterns

#[derive(Clone, Debug)]
enum P {
    Ignore, Var(String), Lit(V), Equals(Box<E>), NoneP, Typed(Box<P>, &'static str), TypeVar(Box<P>, String),
    And(Box<P>, Box<P>), Or(Box<P>, Box<P>), List(Vec<P>, Option<usize>), Seq(Vec<P>, Option<usize>),
    Dict(Vec<(String, P)>, Option<Box<P>>), Tag(TagName, Vec<(String, P)>, Option<Box<P>>, Box<P>), Template(Vec<T>),
}
#[derive(Clone, Debug)]
enum TagName { Any, Lit(String), Var(String) }
#[derive(Clone, Debug)]
enum T { Text(String), Var(String) }

impl P {
    fn names(&self, out: &mut Vec<String>) {
        let mut add = |s: &String| if !out.contains(s) { out.push(s.clone()) };
        match self {
            P::Var(v) => add(v),
            P::Typed(p, _) => p.names(out),
            P::TypeVar(p, v) => { add(v); p.names(out) },
            P::And(a, b) | P::Or(a, b) => { a.names(out); b.names(out) },
            P::List(ps, _) | P::Seq(ps, _) => ps.iter().for_each(|p| p.names(out)),
            P::Dict(ps, s) => { ps.iter().for_each(|p| p.1.names(out)); if let Some(p) = s { p.names(out) } },
            P::Tag(n, ps, s, c) => { if let TagName::Var(v) = n { add(v) } ps.iter().for_each(|p| p.1.names(out)); if let Some(p) = s { p.names(out) } c.names(out) },
            P::Template(ts) => for t in ts { if let T::Var(v) = t { if !out.contains(v) { out.push(v.clone()) } } },
            _ => {},
        }
    }
    /// Without bars or ampersands at the outside.
    fn atom(&self) -> bool { !matches!(self, P::And(..) | P::Or(..)) }
    fn src(&self) -> String {
        let seq = |ps: &[P], s: Option<usize>, sep: &str| ps.iter().enumerate().map(|(i, p)| if s == Some(i) { if matches!(p, P::Ignore) { "...".into() } else { format!("*{}", p.src()) } } else { p.src() }).collect::<Vec<_>>().join(sep);
        let attrs = |ps: &[(String, P)], s: &Option<Box<P>>| -> Vec<String> {
            let mut out: Vec<String> = ps.iter().map(|(k, p)| format!("{k}={}", p.src())).collect();
            if let Some(p) = s { out.push(if matches!(**p, P::Ignore) { "...".into() } else { format!("**{}", p.src()) }); }
            out
        };
        match self {
            P::Ignore => "_".into(),
            P::Var(v) => format!("${v}"),
            P::Lit(v) => v.src(),
            P::Equals(e) => format!("={}", e.src()),
            P::NoneP => ".".into(),
            P::Typed(p, t) => format!("{}: {t}", p.src()),
            P::TypeVar(p, v) => format!("{}: ${v}", p.src()),
            P::And(a, b) => format!("{} & {}", a.src(), b.src()),
            P::Or(a, b) => format!("{} | {}", a.src(), b.src()),
            P::List(ps, s) => format!("[{}]", seq(ps, *s, ", ")),
            P::Seq(ps, s) => format!("{{{}}}", seq(ps, *s, " ")),
            P::Dict(ps, s) => format!("({})", attrs(ps, s).join(", ")),
            P::Tag(n, ps, s, c) => {
                let n = match n { TagName::Any => "_".into(), TagName::Lit(s) => s.clone(), TagName::Var(v) => format!("${v}") };
                let a: String = attrs(ps, s).iter().map(|a| format!(" {a}")).collect();
                if matches!(**c, P::NoneP) { format!("<{n}{a}></>") } else { format!("<{n}{a}>{}</>", c.src()) }
            },
            P::Template(ts) => format!("\"{}\"", ts.iter().map(|t| match t { T::Text(s) => s.clone(), T::Var(v) => format!("${v}") }).collect::<String>()),
        }
    }
}
fn type_name(v: &V) -> String {
    match v {
        None => "none".into(), Bool(_) => "bool".into(), Int(_) => "int".into(), Str(_) => "str".into(),
        Tag(..) | Seq(_) => "inline".into(),
        List(vs) => format!("{} list", common(vs.iter())), Dict(vs) => format!("{} dict", common(vs.iter().map(|p| &p.1))),
    }
}
fn common<'a>(vs: impl Iterator<Item = &'a V>) -> String {
    let ts: BTreeSet<String> = vs.map(type_name).collect();
    let ts: Vec<String> = ts.into_iter().collect();
    match &ts[..] { [] => "none".into(), [t] => t.clone(), _ => "?".into() }
}
fn has_type(v: &V, t: &str) -> bool {
    match t {
        "any" => true, "int" => matches!(v, Int(_)), "str" => matches!(v, Str(_)), "bool" => matches!(v, Bool(_)), "none" => *v == None,
        "int?" => matches!(v, Int(_) | None), "any list" => matches!(v, List(_)), "int list" => matches!(v, List(vs) if vs.iter().all(|v| matches!(v, Int(_)))),
        "any dict" => matches!(v, Dict(_)), "str dict" => matches!(v, Dict(vs) if vs.iter().all(|v| matches!(v.1, Str(_)))),
        "inline" => matches!(v, Tag(..) | Seq(_) | Str(_) | None), _ => panic!("{t}"),
    }
}
/// Values with lists, dicts and HTML are equal by content; dicts in any order.
fn equal(a: &V, b: &V) -> bool {
    match (a, b) {
        (List(a), List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| equal(a, b)),
        (Dict(a), Dict(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.iter().any(|(l, w)| k == l && equal(v, w))),
        (a, b) => a == b,
    }
}
type B = Vec<(String, V)>;
fn bind_one(b: &mut B, k: &str, v: V) { b.retain(|p| p.0 != k); b.push((k.to_string(), v)); }
impl P {
    /// The reference semantics. Bindings are undone when the match fails.
    fn matches(&self, v: &V, b: &B, env: &Env) -> Result<Option<B>, String> {
        let all = |ps: &[&P], vs: &[V], b: &B| -> Result<Option<B>, String> {
            let mut b = b.clone();
            for (p, v) in ps.iter().zip(vs) { match p.matches(v, &b, env)? { Some(c) => b = c, Option::None => return Ok(Option::None) } }
            Ok(Some(b))
        };
        let seq = |ps: &[P], s: Option<usize>, vs: &[V], join: &dyn Fn(&[V]) -> V, b: &B| -> Result<Option<B>, String> {
            let refs: Vec<&P> = ps.iter().collect();
            match s {
                Option::None => if ps.len() != vs.len() { Ok(Option::None) } else { all(&refs, vs, b) },
                Some(i) => {
                    if vs.len() + 1 < ps.len() { return Ok(Option::None) }
                    let after = ps.len() - 1 - i;
                    let mut items: Vec<V> = vs[..i].to_vec();
                    items.push(join(&vs[i..vs.len() - after]));
                    items.extend_from_slice(&vs[vs.len() - after..]);
                    all(&refs, &items, b)
                },
            }
        };
        let dict = |ps: &[(String, P)], s: &Option<Box<P>>, vs: &[(String, V)], b: &B| -> Result<Option<B>, String> {
            if s.is_none() && vs.len() != ps.len() { return Ok(Option::None) }
            let mut b = b.clone();
            for (k, p) in ps {
                let Some((_, v)) = vs.iter().find(|e| e.0 == *k) else { return Ok(Option::None) };
                match p.matches(v, &b, env)? { Some(c) => b = c, Option::None => return Ok(Option::None) }
            }
            match s {
                Some(p) => p.matches(&Dict(vs.iter().filter(|e| !ps.iter().any(|q| q.0 == e.0)).cloned().collect()), &b, env),
                Option::None => Ok(Some(b)),
            }
        };
        let yes = |c: bool| Ok(c.then(|| b.clone()));
        match self {
            P::Ignore => yes(true),
            P::Var(k) => { let mut b = b.clone(); bind_one(&mut b, k, v.clone()); Ok(Some(b)) },
            P::NoneP => yes(*v == None),
            P::Lit(w) => yes(equal(v, w)),
            P::Equals(e) => { let w = e.eval(&env.with_bindings(b))?; yes(equal(v, &w.value()?)) },
            P::Typed(p, t) => if has_type(v, t) { p.matches(v, b, env) } else { Ok(Option::None) },
            P::TypeVar(p, k) => { let mut b = b.clone(); bind_one(&mut b, k, Str(type_name(v))); p.matches(v, &b, env) },
            P::And(p, q) => match p.matches(v, b, env)? { Some(b) => q.matches(v, &b, env), r => Ok(r) },
            P::Or(p, q) => {
                let mut names = vec![];
                self.names(&mut names);
                let r = match p.matches(v, b, env)? { Some(b) => Some(b), Option::None => q.matches(v, b, env)? };
                Ok(r.map(|mut b| { for k in names { if !b.iter().any(|e| e.0 == k) { b.push((k, None)); } } b }))
            },
            P::List(ps, s) => match v { List(vs) => seq(ps, *s, vs, &|vs| List(vs.to_vec()), b), _ => Ok(Option::None) },
            P::Seq(ps, s) => match v.items() { Some(vs) => seq(ps, *s, &vs, &|vs| V::from_items(vs), b), Option::None => Ok(Option::None) },
            P::Dict(ps, s) => match v { Dict(vs) => dict(ps, s, vs, b), _ => Ok(Option::None) },
            P::Tag(n, ps, s, c) => {
                let Tag(name, at, content) = v else { return Ok(Option::None) };
                let mut b = b.clone();
                match n { TagName::Any => {}, TagName::Lit(s) => if s != name { return Ok(Option::None) }, TagName::Var(k) => bind_one(&mut b, k, Str(name.clone())) }
                let at: Vec<(String, V)> = at.iter().map(|(k, v)| (k.clone(), v.clone().map_or(None, Str))).collect();
                match dict(ps, s, &at, &b)? { Some(b) => c.matches(content, &b, env), r => Ok(r) }
            },
            P::Template(ts) => { let Str(s) = v else { return Ok(Option::None) }; Ok(template(ts, s, b)) },
        }
    }
}
/// Each variable takes the shortest non-empty text with which the rest matches.
fn template(ts: &[T], s: &str, b: &B) -> Option<B> {
    match ts.first() {
        Option::None => s.is_empty().then(|| b.clone()),
        Some(T::Text(t)) => s.strip_prefix(&t[..]).and_then(|s| template(&ts[1..], s, b)),
        Some(T::Var(k)) => s.char_indices().map(|(i, c)| i + c.len_utf8()).find_map(|i| { let mut b = b.clone(); bind_one(&mut b, k, Str(s[..i].into())); template(&ts[1..], &s[i..], &b) }),
    }
}

// ------------------------------------------------------------------ expressions

#[derive(Clone, Debug)]
enum E {
    Lit(V), Var(String), List(Vec<E>), Let(Vec<(String, E)>, bool, Box<E>), Match(Box<E>, Vec<(P, E)>),
    Fn(Rc<FnE>), Call(String, Vec<E>, Vec<(String, E)>),
}
#[derive(Debug)]
struct FnE { pos: Vec<&'static str>, named: Vec<&'static str>, implicit: Option<(&'static str, bool)>, body: E }
#[derive(Clone)]
enum X { V(V), F(Rc<FnE>, Env) }
impl X {
    fn value(self) -> Result<V, String> { match self { X::V(v) => Ok(v), X::F(..) => Err("a function".into()) } }
}
struct Scope { vars: RefCell<Vec<(String, X)>>, implicit: bool, parent: Option<Env> }
#[derive(Clone)]
struct Env(Rc<Scope>);
impl Env {
    fn empty() -> Env { Env(Rc::new(Scope { vars: RefCell::new(vec![]), implicit: false, parent: Option::None })) }
    fn child(&self, implicit: bool) -> Env { Env(Rc::new(Scope { vars: RefCell::new(vec![]), implicit, parent: Some(self.clone()) })) }
    fn set(&self, k: &str, x: X) { self.0.vars.borrow_mut().push((k.to_string(), x)); }
    fn with_bindings(&self, b: &B) -> Env {
        let e = self.child(false);
        for (k, v) in b { e.set(k, X::V(v.clone())); }
        e
    }
    fn get(&self, k: &str, implicit: bool) -> Option<X> {
        let found = self.0.vars.borrow().iter().rev().find(|p| p.0 == k).map(|p| p.1.clone());
        match found { Some(x) if !implicit || self.0.implicit => Some(x), _ => self.0.parent.as_ref()?.get(k, implicit) }
    }
}
impl E {
    fn src(&self) -> String {
        match self {
            E::Lit(v) => v.src(),
            E::Var(k) => format!("${k}"),
            E::List(es) => format!("[{}]", es.iter().map(E::src).collect::<Vec<_>>().join(", ")),
            E::Let(vs, im, b) => format!("@{}({}) {}", if *im { "implicit" } else { "let" }, vs.iter().map(|(k, e)| format!("{k}={}", e.src())).collect::<Vec<_>>().join(", "), b.src()),
            E::Match(v, bs) => format!("@match {} {{ {} }}", v.src(), bs.iter().map(|(p, e)| format!("{} -> {}", p.src(), e.src())).collect::<Vec<_>>().join(", ")),
            E::Fn(f) => {
                let mut ps: Vec<String> = f.pos.iter().chain(&f.named).map(|p| format!("${p}")).collect();
                if let Some((k, opt)) = f.implicit { ps.push(format!("${k}{}: @implicit any", if opt { "?" } else { "" }).replace("?: @implicit any", "?: @implicit int")); }
                format!("@fn anon({}) . -> {}", ps.join(", "), f.body.src())
            },
            E::Call(f, p, n) => {
                let a: Vec<String> = p.iter().map(E::src).chain(n.iter().map(|(k, e)| format!("{k}={}", e.src()))).collect();
                format!("@{f}({}).", a.join(", "))
            },
        }
    }
    fn eval(&self, env: &Env) -> Result<X, String> {
        Ok(match self {
            E::Lit(v) => X::V(v.clone()),
            E::Var(k) => env.get(k, false).ok_or(format!("no variable {k}"))?,
            E::List(es) => X::V(List(es.iter().map(|e| e.eval(env)?.value()).collect::<Result<_, _>>()?)),
            E::Let(vs, im, b) => {
                let env = env.child(*im);
                for (k, e) in vs { let x = e.eval(&env)?; env.set(k, x); }
                b.eval(&env)?
            },
            E::Match(v, bs) => {
                let v = v.eval(env)?.value()?;
                for (p, e) in bs { if let Some(b) = p.matches(&v, &vec![], env)? { return e.eval(&env.with_bindings(&b)); } }
                return Err("no branch".into());
            },
            E::Fn(f) => X::F(f.clone(), env.clone()),
            E::Call(f, p, n) => {
                let X::F(f, closure) = env.get(f, false).ok_or("no function")? else { return Err("not a function".into()) };
                let frame = closure.child(false);
                if p.len() != f.pos.len() { return Err("count".into()) }
                for (k, e) in f.pos.iter().zip(p) { let x = e.eval(env)?; frame.set(k, x); }
                for (k, e) in n {
                    if !f.named.contains(&&k[..]) && f.implicit.map(|i| i.0) != Some(&k[..]) { return Err("unknown".into()) }
                    let x = e.eval(env)?;
                    frame.set(k, x);
                }
                if let Some((k, opt)) = f.implicit {
                    if !n.iter().any(|a| a.0 == k) {
                        let x = env.get(k, true).or(opt.then_some(X::V(None))).ok_or("no implicit")?;
                        if opt && !matches!(x, X::V(Int(_) | None)) { return Err("type".into()) }
                        frame.set(k, x);
                    } else if opt && !matches!(frame.get(k, false), Some(X::V(Int(_) | None))) { return Err("type".into()) }
                }
                for k in &f.named { if !n.iter().any(|a| a.0 == *k) { return Err("missing".into()) } }
                f.body.eval(&frame)?
            },
        })
    }
}

// ------------------------------------------------------------------ C19

struct G<'a> { r: &'a mut Rng, fresh: usize, fns: Vec<(String, usize, Vec<&'static str>, Option<&'static str>)> }
const NAMES: [&str; 3] = ["a", "b", "c"];
impl<'a> G<'a> {
    fn var(&mut self) -> E { E::Var((*self.r.pick(&["a", "b", "c", "a", "b", "_p"])).into()) }
    fn expr(&mut self, d: usize) -> E {
        if d == 0 { return if self.r.chance(1, 4) { E::Lit(Int(self.r.below(9) as i64)) } else { self.var() } }
        match self.r.below(12) {
            0 | 1 => { let n = 1 + self.r.below(3); E::List((0..n).map(|_| self.expr(d - 1)).collect()) },
            2..=4 => {
                let mut names: Vec<&str> = NAMES.to_vec();
                let n = 1 + self.r.below(2);
                let mut vs = vec![];
                for _ in 0..n { let k = names.remove(self.r.below(names.len())); let dd = self.r.below(d); vs.push((k.to_string(), self.expr(dd))); }
                let im = self.r.chance(1, 3);
                E::Let(vs, im, Box::new(self.body(d - 1)))
            },
            5..=7 => {
                self.fresh += 1;
                let name = format!("f{}", self.fresh);
                let pos = if self.r.chance(1, 3) { vec!["_p"] } else { vec![] };
                let named: Vec<&'static str> = if self.r.chance(1, 3) { vec![*self.r.pick(&NAMES)] } else { vec![] };
                let implicit = if self.r.chance(1, 3) { Some((*self.r.pick(&NAMES), self.r.chance(1, 2))).filter(|i| !named.contains(&i.0)) } else { Option::None };
                let body = self.body(d - 1);
                let f = E::Fn(Rc::new(FnE { pos: pos.clone(), named: named.clone(), implicit, body }));
                self.fns.push((name.clone(), pos.len(), named, implicit.map(|i| i.0)));
                let e = E::Let(vec![(name, f)], false, Box::new(self.body(d - 1)));
                self.fns.pop();
                e
            },
            8 | 9 => {
                let v = self.expr(d - 1);
                let mut bs = vec![];
                for _ in 0..self.r.below(3) { let p = self.small_pattern(2); bs.push((p, self.body(d - 1))); }
                bs.push((P::Ignore, self.body(d - 1)));
                E::Match(Box::new(v), bs)
            },
            _ => self.call(d),
        }
    }
    fn body(&mut self, d: usize) -> E {
        let e = if self.r.chance(2, 3) && !self.fns.is_empty() { let c = self.call(d); E::List(vec![c, self.var()]) } else { self.expr(d) };
        // the body of a let must not be a literal
        if matches!(e, E::Lit(_)) { E::List(vec![e]) } else { e }
    }
    fn call(&mut self, d: usize) -> E {
        if self.fns.is_empty() { return self.var() }
        let (f, np, named, im) = self.r.pick(&self.fns).clone();
        let dd = d.saturating_sub(1).min(1);
        let p = (0..np).map(|_| self.expr(dd)).collect();
        let mut n: Vec<(String, E)> = vec![];
        for k in named { n.push((k.to_string(), self.expr(dd))); }
        if let Some(k) = im { if self.r.chance(1, 4) { n.push((k.to_string(), self.expr(dd))); } }
        E::Call(f, p, n)
    }
    /// Patterns which often fail after they have bound something.
    fn small_pattern(&mut self, d: usize) -> P {
        let mut names: Vec<&'static str> = NAMES.to_vec();
        self.sp(d, &mut names)
    }
    fn sp(&mut self, d: usize, names: &mut Vec<&'static str>) -> P {
        let var = |g: &mut Self, names: &mut Vec<&'static str>| if names.is_empty() { P::Ignore } else { P::Var(names.remove(g.r.below(names.len())).to_string()) };
        if d == 0 { return match self.r.below(5) { 0 => P::Lit(Int(self.r.below(9) as i64)), 1 => P::Ignore, 2 => P::Equals(Box::new(E::Lit(Int(self.r.below(9) as i64)))), _ => var(self, names) } }
        match self.r.below(6) {
            0 => { let a = var(self, names); let b = self.sp(d - 1, names); P::And(Box::new(a), Box::new(b)) },
            1 => { let mut other = names.clone(); let a = self.sp(d - 1, names); let b = self.sp(d - 1, &mut other); names.retain(|n| other.contains(n)); P::Or(Box::new(a), Box::new(b)) }.fix(),
            2 | 3 => { let n = 1 + self.r.below(3); let ps = (0..n).map(|_| self.sp(d - 1, names).fix_in_list()).collect(); P::List(ps, Option::None) },
            4 => { let n = 1 + self.r.below(2); let ps: Vec<P> = (0..n).map(|_| self.sp(d - 1, names).fix_in_list()).collect(); let i = self.r.below(n); let mut ps = ps; ps[i] = if let p @ P::Var(_) = ps[i].clone() { p } else { P::Ignore }; P::List(ps, Some(i)) },
            _ => { let p = var(self, names); P::Typed(Box::new(p), ["int", "any list", "int list"][self.r.below(3)]) },
        }
    }
}
impl P {
    /// An `or` inside an `and` cannot be written.
    fn fix(self) -> P {
        match self {
            P::And(a, b) => { let (a, b) = (a.fix(), b.fix()); if !a.atom() && matches!(a, P::Or(..)) || matches!(b, P::Or(..) | P::And(..)) { P::Ignore } else { P::And(Box::new(a), Box::new(b)) } },
            P::Or(a, b) => { let (a, b) = (a.fix(), b.fix()); if matches!(b, P::Or(..)) { a } else { P::Or(Box::new(a), Box::new(b)) } },
            P::List(ps, s) => P::List(ps.into_iter().map(P::fix).collect(), s),
            P::Seq(ps, s) => P::Seq(ps.into_iter().map(|p| { let p = p.fix(); if p.html_ok() { p } else { P::Ignore } }).collect(), s),
            P::Dict(ps, s) => P::Dict(ps.into_iter().map(|(k, p)| (k, p.fix())).collect(), s),
            P::Tag(n, ps, s, c) => P::Tag(n, ps.into_iter().map(|(k, p)| (k, { let p = p.fix(); if p.atom() { p } else { P::Ignore } })).collect(), s, Box::new(c.fix())),
            p => p,
        }
    }
    fn fix_in_list(self) -> P { self }
    fn html_ok(&self) -> bool {
        match self { P::Lit(Int(_) | Bool(_) | List(_)) | P::List(..) | P::Dict(..) => false, P::Equals(e) if matches!(**e, E::Lit(Int(_) | Bool(_) | List(_)) | E::List(_)) => false, P::And(a, b) | P::Or(a, b) => a.html_ok() && b.html_ok(), _ => true }
    }
}

pub fn c19(run: &mut Run) {
    run.rule("random programs of nested let, implicit, functions (with parameters which shadow variables, defined in one scope and called in another) and matches with failing branches, against an interpreter with lexical environments");
    let n = run.scale(8000, 200000);
    for _ in 0..n {
        if run.done() { return; }
        let mut r = Rng::new(run.rng.next());
        let mut g = G { r: &mut r, fresh: 0, fns: vec![] };
        let d = 3 + g.r.below(3);
        let body = g.body(d);
        let e = E::Let(NAMES.iter().enumerate().map(|(i, k)| (k.to_string(), E::Lit(Int(100 + i as i64)))).chain([("_p".to_string(), E::Lit(Int(200)))]).take(3).collect(), r.chance(1, 2), Box::new(body));
        let e = e.fix_patterns();
        let src = e.src();
        if src.len() > 1200 { continue; }
        let want = e.eval(&Env::empty()).and_then(X::value);
        run.case("scopes", &src, want.is_ok(), || agree(&src, want));
    }
    run.rule("fixed programs: visibility after a body, closures, implicit scope");
    for (src, want) in [
        ("[@let(x=1) $x, $x]", "error"), ("@let(x=1) [@let(x=2) $x, $x]", "[2, 1]"), ("@let(x=1) [@match 2 { $x -> $x }, $x]", "[2, 1]"),
        ("@let(x=1) @let(f=@fn f . -> $x) @let(x=2) @f.", "1"), ("@let(x=1) @let(f=@fn f($x) . -> $x) [@f(x=5)., $x]", "[5, 1]"),
        ("@let(f=@fn f($x) . -> $x) [@f(x=5)., $x]", "error"), ("@match 1 { [$x] -> 0, _ -> $x }", "error"), ("@let(x=9) @match [1, 2] { [$x, 3] -> 0, _ -> $x }", "9"),
        ("@let(f=@fn f($k: @implicit int) . -> $k) @let(g=@fn g . -> @f.) @implicit(k=1) @g.", "error"), ("@let(f=@fn f($k: @implicit int) . -> $k) @implicit(k=1) @let(g=@fn g . -> @f.) @implicit(k=2) @g.", "1"),
        ("@let(f=@fn f . -> $k) @implicit(k=1) @f.", "error"), ("@let(f=@fn f($k?: @implicit int) . -> [$k]) @let(k=1) @f.", "[.]"),
        ("@let(mk=@fn mk($_x) . -> @fn in($_y) . -> [$_x, $_y]) @let(f=@mk(1)., g=@mk(2).) [@f(3)., @g(4)., @f(5).]", "[[1, 3], [2, 4], [1, 5]]"),
        ("@let(x=1) @let(f=@fn f($a = $x) . -> $a) @let(x=2) @f.", "1"),
        ("@let(x=1) @match [5, 6] { ([$x, 7]) -> 0, [_, $y] -> [$x, $y] }", "error"),
        ("@let(x=1) @match [5, 6] { [$x, 7] | [_, $y] -> [$x, $y] }", "[., 6]"),
        // a function which is declared in text is a variable, but not an implicit one
        ("{@fn g . -> 1 @fn f($g: @implicit any) . -> 2 @f.}", "error"), ("{@fn g . -> 1 @fn f($g?: @implicit any) . -> @match $g {. -> 5, _ -> 6} @f.}", "\"5\""), ("{@fn g . -> 1 @let(f=@fn f . -> @g.) @f.}", "\"1\""),
        ("@let(h=@fn h . -> {@fn g . -> 2 @g.}) [@h., @g.]", "error"), ("@let(h=@fn h . -> {@fn g . -> 2 @g.}) @let(g=@fn . -> 1) [@h., @g.]", "[\"2\", 1]"),
        // the function which shows code is a variable like others, and so are its implicit parameters
        ("@let(code=@fn code($k: @implicit int) $c -> {$k $c}) @implicit(k=7) {`x`}", "\"7 x\""), ("@let(code=@fn code($k: @implicit int) $c -> {$k $c}) @let(k=7) {`x`}", "error"), ("@let(code=@fn code $c -> $c) {`x`}", "\"x\""),
        // a variable of a match or a let which has ended is not implicit either
        ("@let(f=@fn f($k?: @implicit int) . -> [$k]) [@implicit(k=1) @f., @f.]", "[[1], [.]]"), ("@let(f=@fn f($k?: @implicit int) . -> [$k]) @implicit(k=1) @match 2 { $k -> @f. }", "[1]"), ("@let(f=@fn f($k?: @implicit int) . -> [$k]) @implicit(k=1) @let(k=2) [$k, @f.]", "[2, [1]]"),
        ("@let(f=@fn f($k?: @implicit int) . -> [$k], h=@fn h($k) . -> @f.) @implicit(k=1) @h(k=2).", "[.]"), ("@let(f=@fn f($k: @implicit int) . -> [$k]) @implicit(k=1) @f(k=2).", "[2]"),
    ] {
        run.case("fixed", src, true, || { let g = eval_show(src); ensure(g == want, want, g) });
    }
}
impl E {
    fn fix_patterns(self) -> E {
        let bx = |e: Box<E>| Box::new(e.fix_patterns());
        match self {
            E::List(es) => E::List(es.into_iter().map(E::fix_patterns).collect()),
            E::Let(vs, im, b) => E::Let(vs.into_iter().map(|(k, e)| (k, e.fix_patterns())).collect(), im, bx(b)),
            E::Match(v, bs) => E::Match(bx(v), bs.into_iter().map(|(p, e)| (p.fix(), e.fix_patterns())).collect()),
            E::Fn(f) => { let f = Rc::try_unwrap(f).unwrap_or_else(|_| unreachable!()); E::Fn(Rc::new(FnE { body: f.body.fix_patterns(), ..f })) },
            E::Call(f, p, n) => E::Call(f, p.into_iter().map(E::fix_patterns).collect(), n.into_iter().map(|(k, e)| (k, e.fix_patterns())).collect()),
            e => e,
        }
    }
}

// ------------------------------------------------------------------ C22

fn gen_value(r: &mut Rng, d: usize) -> V {
    if d == 0 { return [Int(1), Int(2), Str("x".into()), Str("y".into()), None, Bool(true)][r.below(6)].clone() }
    match r.below(8) {
        0 | 1 => List((0..r.below(5)).map(|_| gen_value(r, d - 1)).collect()),
        2 => { let mut ks = vec!["k", "l", "m", "n"]; Dict((0..r.below(4)).map(|_| (ks.remove(r.below(ks.len())).to_string(), gen_value(r, d - 1))).collect()) },
        3 => gen_tag(r, d - 1),
        4 => gen_seq(r, d - 1),
        5 => Str(["a-b", "-", "a-b-c", "ab", "a--b", "é-ü", "-a-"][r.below(7)].into()),
        _ => gen_value(r, 0),
    }
}
fn gen_tag(r: &mut Rng, d: usize) -> V {
    let mut ks = vec!["id", "title", "lang"];
    let at = (0..r.below(3)).map(|_| (ks.remove(r.below(ks.len())).to_string(), if r.chance(1, 4) { Option::None } else { Some(["1", "2"][r.below(2)].to_string()) })).collect();
    let c = match r.below(4) { 0 => None, 1 => Str(["x", "y"][r.below(2)].into()), _ if d > 0 => if r.chance(1, 2) { gen_seq(r, d - 1) } else { gen_tag(r, d - 1) }, _ => Str("x".into()) };
    Tag(["b", "i", "u"][r.below(3)].into(), at, Box::new(c))
}
fn gen_seq(r: &mut Rng, d: usize) -> V {
    let n = 2 + r.below(3);
    let mut vs: Vec<V> = vec![];
    for _ in 0..n {
        let text = matches!(vs.last(), Some(Str(_)));
        vs.push(if !text && r.chance(1, 3) { Str(["w", "z"][r.below(2)].into()) } else { gen_tag(r, d.min(1)) });
    }
    Seq(vs)
}
struct PG<'a> { r: &'a mut Rng, next: usize }
impl<'a> PG<'a> {
    fn var(&mut self) -> P { self.next += 1; P::Var(format!("v{}", self.next)) }
    fn name(&mut self) -> String { self.next += 1; format!("v{}", self.next) }
    /// A pattern which resembles the value, so that it often matches.
    fn like(&mut self, v: &V, d: usize) -> P {
        if d > 0 {
            match self.r.below(14) {
                0 => { let (a, b) = (self.like(v, d - 1), self.like(v, d - 1)); return P::And(Box::new(a), Box::new(b)) },
                1 => return self.or(v, d),
                2 => { let p = self.simple(v); let t = ["any", "int", "str", "none", "int?", "any list", "int list", "any dict", "str dict", "inline", "bool"][self.r.below(11)]; return if matches!(p, P::Var(_) | P::Ignore) { P::Typed(Box::new(p), t) } else { p } },
                3 => { let k = self.name(); let p = self.simple(v); return if matches!(p, P::Var(_) | P::Ignore) && !type_name(v).contains('?') { P::TypeVar(Box::new(p), k) } else { p } },
                4 => { let w = gen_value(self.r, d); return self.like(&w, d - 1) },
                _ => {},
            }
            let sloppy = self.r.chance(1, 10);
            match v {
                List(vs) => { let (ps, s) = self.seq(vs, d, sloppy); return P::List(ps, s) },
                Seq(vs) if self.r.chance(4, 5) => { let (ps, s) = self.seq(vs, d, sloppy); return P::Seq(ps, s) },
                Tag(..) if self.r.chance(1, 8) => { let (ps, s) = self.seq(&[v.clone()], d, sloppy); return P::Seq(ps, s) },
                None if self.r.chance(1, 4) => return P::Seq(vec![P::Ignore], Some(0)),
                Dict(vs) => { let (ps, s) = self.dict(vs, d, sloppy); return P::Dict(ps, s) },
                Tag(n, at, c) => {
                    let at: Vec<(String, V)> = at.iter().map(|(k, v)| (k.clone(), v.clone().map_or(None, Str))).collect();
                    let (ps, s) = self.dict(&at, 1, sloppy);
                    let n = match self.r.below(4) { 0 => TagName::Any, 1 => TagName::Var(self.name()), _ => TagName::Lit(if sloppy { "b".into() } else { n.clone() }) };
                    let c = self.like(c, d - 1);
                    return P::Tag(n, ps, s, Box::new(c));
                },
                Str(s) if s.contains('-') => {
                    let (a, b) = (self.name(), self.name());
                    let mut ts = vec![T::Var(a), T::Text("-".into()), T::Var(b)];
                    if self.r.chance(1, 4) { let c = self.name(); ts.extend([T::Text("-".into()), T::Var(c)]); }
                    if self.r.chance(1, 5) { ts.remove(0); }
                    return P::Template(ts);
                },
                _ => {},
            }
        }
        self.simple(v)
    }
    fn simple(&mut self, v: &V) -> P {
        match self.r.below(6) {
            0 => P::Ignore,
            1 => match v { Int(_) | Bool(_) | Str(_) => P::Lit(v.clone()), None => P::NoneP, List(_) | Dict(_) => P::Equals(Box::new(E::Lit(v.clone()))), _ => P::Ignore },
            2 if self.r.chance(1, 3) => P::Lit(Int(1)),
            3 if self.r.chance(1, 5) => P::NoneP,
            _ => self.var(),
        }
    }
    fn or(&mut self, v: &V, d: usize) -> P {
        let from = self.next;
        let a = self.like(v, d - 1);
        let to = self.next;
        // often the same variables on both sides
        if self.r.chance(1, 2) { self.next = from; }
        let w = if self.r.chance(1, 2) { v.clone() } else { gen_value(self.r, d) };
        let b = self.like(&w, d - 1);
        self.next = self.next.max(to);
        P::Or(Box::new(a), Box::new(b))
    }
    fn seq(&mut self, vs: &[V], d: usize, sloppy: bool) -> (Vec<P>, Option<usize>) {
        let mut vs = vs.to_vec();
        if sloppy && self.r.chance(1, 2) { vs.push(Int(1)); } else if sloppy { vs.pop(); }
        if self.r.chance(1, 3) { return (vs.iter().map(|v| self.like(v, d - 1)).collect(), Option::None) }
        let a = self.r.below(vs.len() + 1);
        let b = a + self.r.below(vs.len() - a + 1);
        let mut ps: Vec<P> = vs[..a].iter().map(|v| self.like(v, d - 1)).collect();
        let s = if self.r.chance(1, 4) { P::Ignore } else if self.r.chance(1, 6) && b > a { self.like(&List(vs[a..b].to_vec()), d - 1) } else { self.var() };
        ps.push(if s.atom() { s } else { P::Ignore });
        for v in &vs[b..] { let p = self.like(v, d - 1); ps.push(p); }
        (ps, Some(a))
    }
    fn dict(&mut self, vs: &[(String, V)], d: usize, sloppy: bool) -> (Vec<(String, P)>, Option<Box<P>>) {
        let mut vs = vs.to_vec();
        for i in (1..vs.len()).rev() { let j = self.r.below(i + 1); vs.swap(i, j); }
        let whole = self.r.chance(1, 2);
        if sloppy { vs.push(("other".into(), Int(1))); }
        let n = if whole { vs.len() } else { self.r.below(vs.len() + 1) };
        let ps = vs[..n].iter().map(|(k, v)| (k.clone(), self.like(v, d - 1))).collect();
        let s = if whole && self.r.chance(3, 4) { Option::None } else { Some(Box::new(if self.r.chance(1, 3) { P::Ignore } else { self.var() })) };
        (ps, s)
    }
}

pub fn c22(run: &mut Run) {
    run.rule("random values (numbers, text, none, lists, dicts, tags, HTML sequences) and patterns which resemble them, in up to three branches, against a reference matcher; each branch gives its number and all its variables");
    for _ in 0..run.scale(8000, 200000) {
        if run.done() { return; }
        let mut r = Rng::new(run.rng.next());
        let v = gen_value(&mut r, 3);
        let n = 1 + r.below(3);
        let mut bs = vec![];
        for i in 0..n {
            let mut g = PG { r: &mut r, next: 0 };
            let p = g.like(&v, 3).fix();
            let mut names = vec![];
            p.names(&mut names);
            let es = [E::Lit(Int(i as i64))].into_iter().chain(names.into_iter().map(E::Var)).collect();
            bs.push((p, E::List(es)));
        }
        let e = E::Match(Box::new(E::Lit(v)), bs);
        let src = e.src();
        let want = e.eval(&Env::empty()).and_then(X::value);
        // the reported type of a mixture is the concern of C10
        if matches!(&want, Ok(w) if format!("{w:?}").contains("? ")) { continue; }
        run.case("match", &src, true, || agree(&src, want.clone()));
        // the same where other variables have those names
        if r.chance(1, 2) && src.contains("$v") {
            let src = format!("@let({}) {src}", (1..=6).filter(|_| r.chance(2, 3)).map(|i| format!("v{i}=`outer`")).chain(["z=1".to_string()]).collect::<Vec<_>>().join(", "));
            run.case("shadowing", &src, true, || agree(&src, want));
        }
    }
    run.rule("all list patterns with a spread at every position, for all lengths up to six");
    for len in 0..=6usize {
        for before in 0..=4usize {
            for after in 0..=4usize {
                let v = List((0..len as i64).map(Int).collect());
                let mut ps: Vec<P> = (0..before).map(|i| P::Var(format!("a{i}"))).collect();
                ps.push(P::Var("mid".into()));
                ps.extend((0..after).map(|i| P::Var(format!("z{i}"))));
                let mut names = vec![];
                let p = P::List(ps, Some(before));
                p.names(&mut names);
                let e = E::Match(Box::new(E::Lit(v)), vec![(p, E::List(names.into_iter().map(E::Var).collect())), (P::Ignore, E::Lit(Str("no".into())))]);
                let src = e.src();
                let want = e.eval(&Env::empty()).and_then(X::value);
                run.case("spread", &src, true, || agree(&src, want));
            }
        }
    }
}

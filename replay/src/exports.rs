//! C33: random documents with exports in every position against a reference
//! evaluator; the importer shows the names, the values and the functions.
use crate::util::*;
use papyri_lang::compiler::Context;
use papyri_lang::errors::ReportingLevel;
use crate::modules::Scratch;

#[derive(Clone, Debug)]
enum E { Int(i64), Var(usize), Bad, Group(Vec<Item>, Option<i64>) }
#[derive(Clone, Debug)]
enum Item { Names(Vec<(usize, E)>), Let(Vec<(usize, E)>, Vec<Item>, bool), Func(usize, i64), Plain(Vec<(usize, E)>, Vec<Item>), Call(usize), Group(Vec<Item>), Match(bool, Vec<Item>) }
#[derive(Clone, Debug, PartialEq)]
enum Val { Text(String), Func(i64) }

const NAMES: [&str; 5] = ["va", "vb", "vc", "ddx", "e_1"];

fn names(r: &mut Rng) -> Vec<usize> {
    let mut ns: Vec<usize> = (0..NAMES.len()).collect();
    for i in (1..ns.len()).rev() { ns.swap(i, r.below(i + 1)); }
    ns.truncate(1 + r.below(3));
    ns
}
fn expr(r: &mut Rng, depth: usize, calls: usize) -> E {
    match r.below(if depth == 0 { 6 } else { 9 }) {
        0..=2 => E::Int(r.below(100) as i64),
        3 | 4 => E::Var(r.below(NAMES.len())),
        5 => if r.chance(1, 2) { E::Bad } else { E::Int(7) },
        _ => E::Group(items(r, depth - 1, calls), r.chance(1, 2).then(|| r.below(50) as i64)),
    }
}
fn vars(r: &mut Rng, depth: usize, calls: usize) -> Vec<(usize, E)> { names(r).into_iter().map(|n| { let e = expr(r, depth, calls); (n, e) }).collect() }
fn items(r: &mut Rng, depth: usize, calls: usize) -> Vec<Item> { (0..r.below(4)).map(|_| item(r, depth, calls)).collect() }
fn item(r: &mut Rng, depth: usize, calls: usize) -> Item {
    match r.below(if depth == 0 { 5 } else { 10 }) {
        0..=2 => Item::Names(vars(r, depth, calls)),
        3 => Item::Func(r.below(NAMES.len()), r.below(100) as i64),
        4 => if calls > 0 { Item::Call(r.below(calls)) } else { Item::Names(vars(r, depth, calls)) },
        5 | 6 => { let v = vars(r, depth, calls); Item::Let(v, items(r, depth - 1, calls), r.chance(1, 6)) },
        7 => { let v = vars(r, depth, calls); let mut b = items(r, depth - 1, calls); if b.is_empty() { b.push(Item::Names(vec![(0, E::Int(5))])); } Item::Plain(v, b) },
        8 => Item::Group(items(r, depth - 1, calls)),
        _ => Item::Match(r.chance(1, 2), items(r, depth - 1, calls)),
    }
}
fn show_expr(e: &E) -> String {
    match e {
        E::Int(i) => i.to_string(), E::Var(n) => format!("${}", NAMES[*n]), E::Bad => "$none_such".into(),
        E::Group(v, k) => format!("{{{}{}}}", show(v), k.map_or(String::new(), |k| format!(" {k}"))),
    }
}
fn show_vars(vs: &[(usize, E)]) -> String { vs.iter().map(|(n, e)| format!("{}={}", NAMES[*n], show_expr(e))).collect::<Vec<_>>().join(", ") }
fn show(v: &[Item]) -> String { v.iter().map(show_item).collect::<Vec<_>>().join(" ") }
fn show_item(i: &Item) -> String {
    match i {
        Item::Names(vs) => format!("@export({}).", show_vars(vs)),
        Item::Let(vs, b, text) => format!("@export @let({}) {{{}{}}}", show_vars(vs), show(b), if *text { " text" } else { "" }),
        Item::Func(n, k) => format!("@export @fn {} . -> {{{k}}}", NAMES[*n]),
        Item::Plain(vs, b) => format!("@let({}) {{{}}}", show_vars(vs), show(b)),
        Item::Call(k) => format!("@g{k}."),
        Item::Group(b) => format!("{{{}}}", show(b)),
        Item::Match(first, b) => { let b = show(b); if *first { format!("@match 1 {{1 -> {{{b}}}, _ -> {{@export(va=77).}}}}") } else { format!("@match 2 {{1 -> {{@export(va=77).}}, _ -> {{{b}}}}}") } },
    }
}

struct Model { exports: Vec<(usize, Val)>, errors: u32, warnings: u32, scopes: Vec<Vec<(usize, Val)>>, funcs: Vec<Vec<Item>>, fuel: usize }
impl Model {
    fn export(&mut self, n: usize, v: Val) {
        match self.exports.iter_mut().find(|e| e.0 == n) { Some(e) => { self.warnings += 1; e.1 = v; }, None => self.exports.push((n, v)) }
    }
    fn declare(&mut self, n: usize, v: Val) {
        let s = self.scopes.last_mut().unwrap();
        match s.iter_mut().find(|e| e.0 == n) { Some(e) => { self.warnings += 1; e.1 = v; }, None => s.push((n, v)) }
    }
    fn eval(&mut self, e: &E) -> Option<Val> {
        match e {
            E::Int(i) => Some(Val::Text(i.to_string())),
            E::Var(n) => { let v = self.scopes.iter().rev().find_map(|s| s.iter().find(|x| x.0 == *n)).map(|x| x.1.clone()); if v.is_none() { self.errors += 1; } v },
            E::Bad => { self.errors += 1; None },
            E::Group(b, k) => { self.run(b); Some(Val::Text(k.map_or(String::new(), |k| k.to_string()))) },
        }
    }
    fn run(&mut self, v: &[Item]) { for i in v { self.item(i); } }
    fn item(&mut self, i: &Item) {
        if self.fuel == 0 { return; }
        self.fuel -= 1;
        match i {
            Item::Names(vs) => for (n, e) in vs { let Some(v) = self.eval(e) else { return }; self.export(*n, v); },
            Item::Let(vs, b, text) => { self.scoped(vs, b, true, *text) },
            Item::Plain(vs, b) => { self.scoped(vs, b, false, false) },
            Item::Func(n, k) => { self.export(*n, Val::Func(*k)); self.declare(*n, Val::Func(*k)); },
            Item::Call(k) => {
                let rest = self.scopes.split_off(1);
                self.scopes.push(vec![]);
                let b = self.funcs[*k].clone();
                self.run(&b);
                self.scopes.pop();
                self.scopes.extend(rest);
            },
            Item::Group(b) => self.run(b),
            Item::Match(_, b) => { self.scopes.push(vec![]); self.run(b); self.scopes.pop(); },
        }
    }
    fn scoped(&mut self, vs: &[(usize, E)], b: &[Item], export: bool, text: bool) {
        self.scopes.push(vec![]);
        let mut ok = true;
        for (n, e) in vs {
            let Some(v) = self.eval(e) else { ok = false; break };
            if export { self.export(*n, v.clone()); }
            self.declare(*n, v);
        }
        if ok { self.run(b); if text { self.errors += 1; } }
        self.scopes.pop();
    }
}

pub fn c33(run: &mut Run) {
    run.rule("random documents with @export(...), @export @let and @export @fn at top level and in groups, bodies, values, functions and match branches, with errors and repeated names, against a reference evaluator: the names and values of the exports in order, the functions called by the importer, the variables which @include declares, and the numbers of errors and warnings");
    let dir = Scratch::new();
    for case in 0..run.scale(2000, 50000) {
        if run.done() { return; }
        let mut r = Rng::new(run.rng.next());
        let nf = r.below(3);
        let funcs: Vec<Vec<Item>> = (0..nf).map(|k| items(&mut r, 1, k)).collect();
        let depth = [1, 1, 2, 3][case % 4];
        let doc: Vec<Item> = (0..1 + r.below(4)).map(|_| item(&mut r, depth, nf)).collect();
        let sep = *r.pick(&["\n\n", " ", "\n"]);
        let src = funcs.iter().enumerate().map(|(k, b)| format!("@fn g{k} . -> {{{}}}\n\n", show(b))).collect::<String>() + &doc.iter().map(show_item).collect::<Vec<_>>().join(sep);
        let mut m = Model { exports: vec![], errors: 0, warnings: 0, scopes: vec![vec![]], funcs, fuel: 4000 };
        m.run(&doc);
        if m.fuel == 0 { continue; }
        run.case("exports", &src, !m.exports.is_empty(), || {
            let name = format!("m{case}");
            dir.write(&format!("{name}.papyri"), &src);
            let mut main = format!("@let(m=@import `{name}`) {{$m}}\n\n");
            let mut want = String::new();
            for (n, v) in &m.exports {
                if let Val::Func(k) = v { main += &format!("@let(q=@import `{name}`) {{@let(h=$q::{}) {{<b>@h.</b>}}}}\n\n", NAMES[*n]); want += &format!("<b>{k}</b>"); }
            }
            let vars: Vec<_> = m.exports.iter().filter_map(|(n, v)| if let Val::Text(t) = v { Some((NAMES[*n], t.clone())) } else { None }).collect();
            main += &format!("@include `{name}`\n\n");
            for (n, t) in &vars { main += &format!("<i>.${n}.</i>\n\n"); want += &format!("<i>.{t}.</i>"); }
            dir.write("main.papyri", &main);
            let mut ctx = Context::new(ReportingLevel::Warning, None, None);
            let o = ctx.load_uncached(&dir.0.join("main.papyri")).map_err(|e| ("the main file loads".to_string(), e.to_string()))?;
            let _ = std::fs::remove_file(dir.0.join(format!("{name}.papyri")));
            let diags = format!("{:?}", ctx.diagnostics);
            let mut b = vec![];
            ctx.render(&o.out, true, &mut b).unwrap();
            let html = String::from_utf8(b).unwrap();
            let rows: Vec<(String, String)> = html.split("<tr>").skip(1).map(|row| {
                let cell = |t: &str| row.split_once(&format!("<{t}>")).and_then(|x| x.1.split_once(&format!("</{t}>"))).map_or(String::new(), |x| x.0.to_string());
                let v = cell("td");
                (cell("th"), if v.contains("fn") { "@fn".to_string() } else { v })
            }).collect();
            let expected: Vec<(String, String)> = m.exports.iter().map(|(n, v)| (NAMES[*n].to_string(), match v { Val::Text(t) => t.clone(), Val::Func(_) => "@fn".into() })).collect();
            let shown = format!("{html}\n{diags}");
            ensure(rows == expected, format!("exports {expected:?}"), format!("{rows:?}; {shown}"))?;
            let mut rest = String::new();
            let mut s = &html[..];
            while let Some(at) = [s.find("<b>"), s.find("<i>")].into_iter().flatten().min() {
                let t = &s[at + 1..at + 2];
                let end = s[at..].find(&format!("</{t}>")).unwrap() + at + 4;
                rest += &s[at..end];
                s = &s[end..];
            }
            ensure(rest == want, want.clone(), format!("{rest}; {shown}"))?;
            check_eq(&(m.errors, m.warnings), &(ctx.diagnostics.num_errors, ctx.diagnostics.num_warnings)).map_err(|(a, b)| (format!("{a} errors and warnings"), format!("{b}; {shown}")))
        });
    }
}

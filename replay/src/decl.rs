//! C29: declarations, parameters and arguments are read as they are written.
use crate::util::*;

fn gap(r: &mut Rng) -> &'static str { if r.chance(3, 4) { "" } else { *r.pick(&[" ", "\n", "  ", " <!-- c --> ", "\n\n"]) } }

#[derive(Clone, Copy, PartialEq)]
enum Spread { No, Pos, Named }

#[derive(Clone)]
struct P { spread: Spread, name: String, question: bool, ty: Option<&'static str>, implicit: bool, default: Option<i64> }
impl P {
    fn gen(r: &mut Rng, spreads: usize) -> P {
        let spread = if r.chance(spreads, 8) { *r.pick(&[Spread::Pos, Spread::Named]) } else { Spread::No };
        let under = match spread { Spread::No => r.chance(1, 2), Spread::Pos => !r.chance(1, 12), Spread::Named => r.chance(1, 12) };
        let name = format!("{}{}", if under { "_" } else { "" }, r.pick(&["a", "b", "c", "d", "e", "long_name", "x1", "_", "y_"]));
        let ty = match spread { Spread::No => *r.pick(&[None, None, Some("int"), Some("any"), Some("int?")]), Spread::Pos => *r.pick(&[None, Some("int list"), Some("list")]), Spread::Named => *r.pick(&[None, Some("int dict"), Some("dict")]) };
        let odd = spread != Spread::No;
        P { spread, name, question: r.chance(1, 5), ty, implicit: ty.is_some() && r.chance(1, if odd || under { 16 } else { 6 }), default: if r.chance(1, if odd { 12 } else { 4 }) { Some(r.below(90) as i64 + 100) } else { None } }
    }
    fn under(&self) -> bool { self.name.starts_with('_') }
    fn positional(&self) -> bool { match self.spread { Spread::No => self.under(), s => s == Spread::Pos } }
    fn required(&self) -> bool { self.spread == Spread::No && !self.question && self.default.is_none() }
    fn src(&self, r: &mut Rng) -> String {
        let mut s = format!("{}{}${}", match self.spread { Spread::No => "", Spread::Pos => "*", Spread::Named => "**" }, if self.spread == Spread::No { "" } else { gap(r) }, self.name);
        if self.question { s += gap(r); s += "?"; }
        if let Some(t) = self.ty { s += gap(r); s += ":"; s += gap(r); if self.implicit { s += "@implicit "; } s += t; }
        if let Some(d) = self.default { s += gap(r); s += "="; s += gap(r); s += &d.to_string(); }
        s
    }
    fn may_follow(&self, before: &[P]) -> Result<(), &'static str> {
        let same = |p: &&P| p.positional() == self.positional();
        if before.iter().any(|p| p.name == self.name) { return Err("a name is repeated"); }
        if self.positional() && before.iter().any(|p| !p.positional()) { return Err("positional after named"); }
        if self.required() && before.iter().filter(same).any(|p| p.spread == Spread::No && !p.required()) { return Err("required after optional"); }
        if before.iter().filter(same).any(|p| p.spread != Spread::No) { return Err("after a spread"); }
        if self.implicit && (self.positional() || self.spread != Spread::No || self.default.is_some()) { return Err("implicit"); }
        if self.spread == Spread::Pos && !self.under() || self.spread == Spread::Named && self.under() { return Err("the name of a spread"); }
        if self.spread != Spread::No && self.default.is_some() { return Err("a spread with a default"); }
        Ok(())
    }
}

/// Separates items; sometimes wrongly, which is an error.
fn separate(r: &mut Rng, open: &str, close: &str, items: &[String]) -> (String, bool) {
    let mut ok = true;
    let mut s = format!("{open}{}", gap(r));
    for (i, x) in items.iter().enumerate() {
        s += x;
        s += gap(r);
        if i + 1 < items.len() || r.chance(1, 6) { if r.chance(1, 60) { ok = false; s += *r.pick(&[",,", ";", ". ,", "|"]); } else { s += ","; } }
        s += gap(r);
    }
    if r.chance(1, 80) { ok = false; s += *r.pick(&[",,", "=", "]", ")", "}"]); if !close.is_empty() && s.ends_with(close) { s += close; } }
    s += close;
    (s, ok)
}

fn signatures(run: &mut Run) {
    run.rule("random declarations of parameters, of which two thirds break a rule (repeated names, order, spreads, implicit, defaults, separators), against a reference reading; and a call of each legal function, which shows what each parameter is bound to");
    for _ in 0..run.scale(20000, 80000) {
        if run.done() { return; }
        let mut r = Rng::new(run.rng.next());
        let n = r.below(6);
        let mut ps: Vec<P> = vec![];
        let strict = r.chance(2, 3);
        for _ in 0..n {
            for _ in 0..20 {
                let p = P::gen(&mut r, if strict { 2 } else { 1 });
                if !strict || p.may_follow(&ps).is_ok() { ps.push(p); break; }
            }
        }
        let mut why = (0..ps.len()).find_map(|i| ps[i].may_follow(&ps[..i]).err());
        let items: Vec<String> = ps.iter().map(|p| p.src(&mut r)).collect();
        let mut def = String::from("@fn");
        let named = r.chance(1, 2);
        if named { def += " f"; }
        if !ps.is_empty() || r.chance(1, 2) {
            let (s, ok) = separate(&mut r, "(", ")", &items);
            if !ok { why = why.or(Some("separators")); }
            def += gap(&mut r);
            def += &s;
        }
        def += " ";
        let mut content: Option<P> = None;
        if r.chance(1, 2) { def += "."; } else {
            let mut c = P::gen(&mut r, 0);
            c.implicit = false;
            if r.chance(1, 12) { c.spread = *r.pick(&[Spread::Pos, Spread::Named]); } else if !r.chance(1, 10) { c.default = None; }
            if c.spread != Spread::No { c.ty = None; }
            if strict && r.chance(9, 10) { c.name = format!("{}content", if r.chance(1, 2) { "_" } else { "" }); }
            def += &c.src(&mut r);
            if ps.iter().any(|p| p.name == c.name) { why = why.or(Some("a name is repeated")); }
            if c.spread != Spread::No { why = why.or(Some("a spread of content")); }
            if c.default.is_some() { why = why.or(Some("a default of content")); }
            content = Some(c);
        }
        def += gap(&mut r);
        if r.chance(1, 60) { def += " => "; why = why.or(Some("no arrow")); } else { def += "->"; }
        let shown: Vec<String> = ps.iter().chain(&content).map(|p| format!("${}", p.name)).collect();
        def += &format!("{}[{}]", gap(&mut r), shown.join(", "));
        if let Some(why) = why {
            run.case("illegal declaration", &def, true, || { let got = eval_show(&def); ensure(got == "error", format!("error: {why}"), got) });
            continue;
        }
        // a call of it
        let pos: Vec<&P> = ps.iter().filter(|p| p.positional() && p.spread == Spread::No).collect();
        let required = pos.iter().filter(|p| p.required()).count();
        let given = required + r.below(pos.len() - required + 1);
        let mut args: Vec<String> = vec![];
        let mut want: Vec<(String, String)> = vec![];
        let mut next = 10;
        let mut value = || { next += 1; next };
        for (i, p) in pos.iter().enumerate() {
            let v = if i < given { let v = value(); args.push(v.to_string()); v.to_string() } else { p.default.map_or(".".into(), |d| d.to_string()) };
            want.push((p.name.clone(), v));
        }
        if let Some(p) = ps.iter().find(|p| p.spread == Spread::Pos) {
            let extra: Vec<String> = (0..if given == pos.len() { r.below(3) } else { 0 }).map(|_| value().to_string()).collect();
            args.extend(extra.clone());
            want.push((p.name.clone(), format!("[{}]", extra.join(", "))));
        }
        for p in ps.iter().filter(|p| !p.positional() && p.spread == Spread::No) {
            let v = if p.required() || r.chance(1, 2) { let v = value(); args.push(format!("{}={v}", p.name)); v.to_string() } else { p.default.map_or(".".into(), |d| d.to_string()) };
            want.push((p.name.clone(), v));
        }
        if let Some(p) = ps.iter().find(|p| p.spread == Spread::Named) {
            let extra: Vec<String> = (0..r.below(3)).map(|_| value().to_string()).collect();
            for (i, v) in extra.iter().enumerate() { args.push(format!("extra{i}={v}")); }
            want.push((p.name.clone(), format!("{{{}}}", extra.join(", "))));
        }
        let arg = match &content { Some(p) => { let v = if p.question && r.chance(1, 2) { ".".into() } else { value().to_string() }; want.push((p.name.clone(), v.clone())); v }, None => ".".into() };
        let src = format!("@let(g={def}) @g({}){}{arg}", args.join(", "), if arg == "." { "" } else { " " });
        let values: Vec<String> = ps.iter().chain(&content).map(|p| want.iter().find(|w| w.0 == p.name).unwrap().1.clone()).collect();
        let want = format!("[{}]", values.join(", "));
        run.case("declaration", &src, true, || { let (got, d) = eval_show_diag(&src); ensure(got == want, want, format!("{got} {d}")) });
    }
}

#[derive(Clone)]
enum A { Val(i64), Bare(&'static str), SpreadPos(Vec<i64>), Name(String, i64), SpreadNamed(Vec<(String, i64)>), SpreadName(String) }
impl A {
    fn gen(r: &mut Rng, i: usize) -> A {
        let k = i as i64 * 10;
        match r.below(10) {
            0..=2 => A::Val(k + r.below(9) as i64), 3 => A::Bare(*r.pick(&["foo", "x_y", "a_b"])), 4 => A::SpreadPos((0..r.below(3) as i64).map(|j| k + j).collect()),
            5..=7 => A::Name(r.pick(&["a", "b", "c", "d", "e_f"]).to_string(), k + r.below(9) as i64), 8 => A::SpreadNamed((0..r.below(3)).map(|j| (format!("s{i}_{j}"), k + j as i64)).collect()),
            _ => if r.chance(1, 5) { A::SpreadName(format!("z{i}")) } else { A::Val(k) },
        }
    }
    fn src(&self, r: &mut Rng) -> String {
        match self {
            A::Val(v) => v.to_string(), A::Bare(s) => s.to_string(), A::SpreadPos(vs) => format!("*{}[{}]", gap(r), vs.iter().map(|v| v.to_string()).collect::<Vec<_>>().join(", ")),
            A::Name(n, v) => format!("{n}{}={}{v}", gap(r), gap(r)),
            A::SpreadNamed(vs) => format!("**{}@dict::new({}).", gap(r), vs.iter().map(|(n, v)| format!("{n}={v}")).collect::<Vec<_>>().join(", ")),
            A::SpreadName(n) => format!("{}{n}=[1]", r.pick(&["*", "**"])),
        }
    }
    fn named(&self) -> bool { matches!(self, A::Name(..) | A::SpreadNamed(..) | A::SpreadName(..)) }
}
fn illegal(args: &[A]) -> Option<&'static str> {
    for (i, a) in args.iter().enumerate() {
        if !a.named() && args[..i].iter().any(A::named) { return Some("positional after named"); }
        if let A::Name(n, _) = a { if args[..i].iter().any(|b| matches!(b, A::Name(m, _) if m == n)) { return Some("a name is repeated"); } }
        if let A::SpreadName(_) = a { return Some("a spread with a name"); }
    }
    None
}
fn positionals(args: &[A]) -> Vec<String> { args.iter().flat_map(|a| match a { A::Val(v) => vec![v.to_string()], A::Bare(s) => vec![format!("{s:?}")], A::SpreadPos(vs) => vs.iter().map(|v| v.to_string()).collect(), _ => vec![] }).collect() }
fn nameds(args: &[A]) -> Vec<String> { args.iter().flat_map(|a| match a { A::Name(_, v) => vec![v.to_string()], A::SpreadNamed(vs) => vs.iter().map(|v| v.1.to_string()).collect(), _ => vec![] }).collect() }
fn only_names(args: &[A]) -> bool { !args.is_empty() && args.iter().all(|a| matches!(a, A::Name(..))) }

fn gen_args(r: &mut Rng) -> Vec<A> {
    let n = r.below(6);
    let mut args: Vec<A> = vec![];
    let strict = r.chance(2, 3);
    for i in 0..n {
        for _ in 0..20 {
            let a = A::gen(r, i);
            if strict { let mut all = args.clone(); all.push(a.clone()); if illegal(&all).is_some() { continue; } }
            args.push(a);
            break;
        }
    }
    args
}

fn arguments(run: &mut Run) {
    run.rule("random arguments of calls, items of lists, and names of @let, @implicit and @export, of which many break a rule, against a reference reading");
    for _ in 0..run.scale(20000, 80000) {
        if run.done() { return; }
        let mut r = Rng::new(run.rng.next());
        let what = r.below(5);
        let mut args = gen_args(&mut r);
        if what >= 2 && r.chance(4, 5) { args = args.into_iter().filter(|a| if what == 2 { !a.named() } else { matches!(a, A::Name(..)) }).collect(); }
        let items: Vec<String> = args.iter().map(|a| a.src(&mut r)).collect();
        let (open, close) = if what == 2 { ("[", "]") } else { ("(", ")") };
        let (list, ok) = separate(&mut r, open, close, &items);
        let mut why = if ok { illegal(&args) } else { Some("separators") };
        match what {
            0 | 1 => {
                let (c, shown) = match r.below(5) { 0 => (".", "."), 1 => (" 7", "7"), 2 => (" {}", "."), 3 => (" \"s\"", "\"s\""), _ => (" w", "\"w\"") };
                let list = if args.is_empty() && ok && r.chance(1, 2) { String::new() } else { list };
                let src = format!("@let(f=@fn f(*$_r, **$kw) $c -> [$_r, $kw, $c]) @f{}{list}{c}", gap(&mut r));
                let want = if why.is_some() { "error".to_string() } else { format!("[[{}], {{{}}}, {shown}]", positionals(&args).join(", "), nameds(&args).join(", ")) };
                run.case("call", &src, true, || { let (got, d) = eval_show_diag(&src); ensure(got == want, format!("{want} {why:?}"), format!("{got} {d}")) });
            },
            2 => {
                if args.iter().any(A::named) { why = why.or(Some("a name in a list")); }
                let want = if why.is_some() { "error".to_string() } else { format!("[{}]", positionals(&args).join(", ")) };
                run.case("list", &list, true, || { let (got, d) = eval_show_diag(&list); ensure(got == want, format!("{want} {why:?}"), format!("{got} {d}")) });
            },
            3 => {
                if !only_names(&args) { why = why.or(Some("not only names")); }
                let names: Vec<String> = args.iter().filter_map(|a| if let A::Name(n, _) = a { Some(format!("${n}")) } else { None }).collect();
                let body = match r.below(8) { 0 => { let l = *r.pick(&["5", ".", "True", "word", "`code`"]); why = why.or(Some("a literal")); l.to_string() }, _ => format!("[{}]", names.join(", ")) };
                let src = format!("@{}{}{list}{}{body}", r.pick(&["let", "implicit"]), gap(&mut r), if body == "." { "" } else { " " });
                let want = if why.is_some() { "error".to_string() } else { format!("[{}]", nameds(&args).join(", ")) };
                run.case("let", &src, true, || { let (got, d) = eval_show_diag(&src); ensure(got == want, format!("{want} {why:?}"), format!("{got} {d}")) });
            },
            _ => {
                if !only_names(&args) { why = why.or(Some("not only names")); }
                let form = r.below(3);
                let end = if form == 1 { " {}" } else { "." };
                let src = if form == 0 { let bad = r.chance(1, 20); if bad { why = why.or(Some("no dot")); } format!("text @export{}{list}{}", gap(&mut r), if bad { " {}" } else { end }) } else { format!("text @export @let{}{list}{end}", gap(&mut r)) };
                let want = nameds(&args);
                run.case("export", &src, true, || with_ctx(|ctx| {
                    let (out, _, exports) = compile_in(ctx, &src);
                    let got: Vec<String> = exports.iter().map(show).collect();
                    if why.is_some() { ensure(!out.ok(), format!("error: {why:?}"), format!("{got:?}")) } else { ensure(out.ok() && got == want, format!("{want:?}"), format!("{got:?} {}", out.diags)) }
                }));
            },
        }
    }
}

pub fn c29(run: &mut Run) {
    signatures(run);
    arguments(run);
    run.rule("names of functions, and what may be exported");
    for (src, want) in [
        ("@fn f . -> 1 @f.", true), ("@fn . -> 1", false), ("@fn (). -> 1", false), ("@fn ($x). -> 1", false), ("@export @fn f . -> 1", true), ("@export @fn . -> 1", false), ("@export @fn ($x). -> 1", false),
        ("@export(a=1).", true), ("@fn ff($x: @implicit int) . -> {($x)}\n@implicit(x=5) {@ff.}", true), ("@fn ff($x: @implicit int) . -> {($x)}\n@let(x=5) {@ff.}", false), ("@fn ff($x: @implicit int) . -> {($x)}\n@export @let(x=5) {@export(y=@ff.).}", false), ("@fn ff($x: @implicit int) . -> {($x)}\n@export @let(x=5) {@implicit(x=$x) {@export(y=@ff.).}}", true), ("@export(a=1).", true), ("@export().", false), ("@export.", false), ("@export a", false), ("@export(a=1) {}", false), ("@export @let(a=1).", true), ("@export @let(a=1) {}", true), ("@export @let(a=1) 5", false), ("@export @let() 5", false), ("@export @let 5", false), ("@export @implicit(a=1) 5", false), ("@export @match 1 {_ -> 1}", false),
        ("@let(a=1) @let(b=2) {$a $b}", true), ("@let(a=1) @let(b=2) 3", false), ("@let(a=1) ... $a", true), ("@let(a=1)...", false), ("@let(a=1)...{x}", true), ("@let {}", false), ("@implicit {}", false), ("@let(f=@fn f . -> 1) @f.", true), ("@let(f=@fn . -> 1) @f.", true), ("@let(f=@fn($x). -> 1) @f(x=1).", true), ("@let(f=@fn) {}", false), ("@let(f=@fn f .) {}", false), ("@let(f=@fn f . ->) {}", false),
        ("@fn f($x = @export(a=1).). -> 1", false), ("[@export(a=1).]", false), ("@fn f(1) . -> 1", false), ("@fn f(x) . -> 1", false), ("@fn f($x: nope) . -> 1", false), ("@fn f($x: ) . -> 1", false), ("@fn f($x = ) . -> 1", false), ("@fn f($x,,) . -> 1", false), ("@fn f(,) . -> 1", false), ("@fn f($x . -> 1", false), ("@fn f($x) -> 1", false), ("@fn f ** $x -> 1", false),
    ] {
        run.case("fixed", src, true, || { let o = compile(src); ensure(o.ok() == want, if want { "no error" } else { "an error" }, o.diags) });
    }
}

//! C32: expressions, groups and nodes as they are written.
use crate::model::V;
use crate::util::*;

fn gap(r: &mut Rng) -> &'static str { if r.chance(3, 4) { "" } else { *r.pick(&[" ", "\n", "  ", " <!-- c --> ", "\n\n", "<!-- c -->"]) } }

/// One step of `$x::step`.
#[derive(Clone, Debug)]
enum Step { Item(i64), Key(&'static str) }

#[derive(Clone, Debug)]
enum X {
    Dot, Braces, Bool(bool), Int(i64), Word(&'static str), Text(&'static str), Verb(&'static str, usize),
    List(Vec<(X, bool)>), Group(&'static str), Name(String, Vec<(Step, bool)>), Quoted(String),
    Let(bool, Vec<(String, X)>, Box<X>), Match(Box<X>, String, Box<X>), Dict(Vec<(&'static str, X)>),
}
const KEYS: [&str; 4] = ["ka", "kb", "kc", "Kd"];

type Env = Vec<(String, V)>;

impl X {
    fn src(&self, r: &mut Rng) -> String {
        match self {
            X::Dot => ".".into(), X::Braces => format!("{{{}}}", r.pick(&["", " ", "\n", "<!-- c -->", " \n\n "])),
            X::Bool(b) => if *b { "True".into() } else { "False".into() }, X::Int(i) => i.to_string(), X::Word(w) => w.to_string(),
            X::Text(t) => template_lit(t).unwrap(), X::Verb(t, n) => format!("{0}{t}{0}", "`".repeat(*n)),
            X::List(xs) => {
                let n = xs.len();
                let mut s = "[".to_string();
                for (i, (x, spread)) in xs.iter().enumerate() {
                    s += gap(r);
                    if *spread { s += "*"; s += gap(r); }
                    s += &x.src(r);
                    s += gap(r);
                    if i + 1 < n || r.chance(1, 5) { s += ","; }
                }
                s + gap(r) + "]"
            },
            X::Group(w) => format!("{{{}{w}{}}}", gap(r), gap(r)),
            X::Name(x, steps) => format!("${x}") + &steps.iter().map(|(s, q)| format!("{}::{}", if *q { "?" } else { "" }, match s { Step::Item(i) => i.to_string(), Step::Key(k) => k.to_string() })).collect::<String>(),
            X::Quoted(x) => format!("\"<${x}>\""),
            X::Let(implicit, vars, body) => {
                let vars = vars.iter().map(|(x, e)| format!("{}{x}{}={}{}{}", gap(r), gap(r), gap(r), e.src(r), gap(r))).collect::<Vec<_>>().join(",");
                format!("{}({vars}){}{}", if *implicit { "@implicit" } else { "@let" }, gap(r), body.src(r))
            },
            X::Match(v, x, body) => format!("@match {}{}{{{}${x}{}->{}{}{}}}", gap(r), v.src(r), gap(r), gap(r), gap(r), body.src(r), gap(r)),
            X::Dict(xs) => format!("@dict::new({}).", xs.iter().map(|(k, x)| format!("{k}={}", x.src(r))).collect::<Vec<_>>().join(", ")),
        }
    }
    /// The value, or none if there is an error.
    fn value(&self, env: &Env) -> Option<V> {
        Some(match self {
            X::Dot | X::Braces => V::None, X::Bool(b) => V::Bool(*b), X::Int(i) => V::Int(*i), X::Word(w) | X::Text(w) | X::Verb(w, _) => V::Str(w.to_string()),
            X::List(xs) => {
                let mut out = vec![];
                for (x, spread) in xs {
                    let v = x.value(env)?;
                    if !*spread { out.push(v); } else if let V::List(vs) = v { out.extend(vs); } else { return None; }
                }
                V::List(out)
            },
            X::Group("&lt;") => V::Str("<".into()), X::Group(w) => V::Str(w.to_string()),
            X::Name(x, steps) => {
                let mut v = env.iter().rev().find(|(y, _)| y == x)?.1.clone();
                for (s, q) in steps {
                    v = match (s, v) {
                        (_, V::None) if *q => V::None,
                        (Step::Item(i), V::List(vs)) => { let n = vs.len() as i64; if *i >= -n && *i < n { vs[(if *i < 0 { i + n } else { *i }) as usize].clone() } else { return None } },
                        (Step::Key(k), V::Dict(vs)) => vs.into_iter().find(|(l, _)| l == k)?.1,
                        _ => return None,
                    };
                }
                v
            },
            X::Quoted(x) => { let v = env.iter().rev().find(|(y, _)| y == x)?.1.clone(); match v { V::Str(s) => V::Str(format!("<{s}>")), V::None => V::Str("<>".into()), V::Int(i) => V::Str(format!("<{i}>")), V::Bool(b) => V::Str(if b { "<True>".into() } else { "<False>".into() }), _ => return None } },
            X::Let(_, vars, body) => {
                let mut env = env.clone();
                for (x, e) in vars { let v = e.value(&env)?; env.push((x.clone(), v)); }
                body.value(&env)?
            },
            X::Match(v, x, body) => { let mut env = env.clone(); let v = v.value(&env)?; env.push((x.clone(), v)); body.value(&env)? },
            X::Dict(xs) => { let mut out: Vec<(String, V)> = vec![]; for (k, x) in xs { out.push((k.to_string(), x.value(env)?)); } V::Dict(out) },
        })
    }
    fn literal(&self) -> bool { matches!(self, X::Dot | X::Braces | X::Bool(_) | X::Int(_) | X::Word(_) | X::Text(_) | X::Verb(..) | X::Quoted(_)) }
}

struct G<'a> { r: &'a mut Rng, next: usize }
impl G<'_> {
    fn fresh(&mut self, scope: &Env) -> String {
        // sometimes a name again
        if !scope.is_empty() && self.r.chance(1, 6) { return self.r.pick(scope).0.clone(); }
        self.next += 1;
        format!("v{}", self.next)
    }
    /// A path into a value, which is usually one of its.
    fn steps(&mut self, mut v: V) -> Vec<(Step, bool)> {
        let mut out = vec![];
        while out.len() < 6 && self.r.chance(4, 5) {
            let q = self.r.chance(1, 4);
            match v {
                V::List(ref vs) => {
                    let n = vs.len() as i64;
                    let i = if self.r.chance(1, 30) { *self.r.pick(&[n, -n - 1, i64::MAX, i64::MIN]) } else if n == 0 { break } else { self.r.below(2 * n as usize) as i64 - n };
                    out.push((Step::Item(i), q));
                    if i < -n || i >= n { break; }
                    v = vs[(if i < 0 { i + n } else { i }) as usize].clone();
                },
                V::Dict(ref vs) => {
                    if vs.is_empty() { break; }
                    let (k, w) = self.r.pick(vs).clone();
                    out.push((Step::Key(KEYS.iter().find(|l| **l == k).unwrap()), q));
                    v = w;
                },
                // nothing to take, with or without `?`
                V::None => { let q = self.r.chance(5, 6); out.push((if self.r.chance(1, 2) { Step::Item(0) } else { Step::Key("ka") }, q)); if !q { break; } },
                _ => break,
            }
        }
        out
    }
    fn gen(&mut self, depth: usize, env: &Env) -> X {
        if depth == 0 || self.r.chance(1, 4) {
            return match self.r.below(if env.is_empty() { 8 } else { 14 }) {
                0 => X::Dot, 1 => X::Braces, 2 => X::Bool(self.r.chance(1, 2)), 3 => X::Int(*self.r.pick(&[0, 7, -1, 42, i64::MAX, i64::MIN])),
                4 => X::Word(*self.r.pick(&["a", "abc", "_x", "Truely", "let", "x1"])),
                5 => X::Text(*self.r.pick(&["", "a b", "$", "\"", "{x}", "é"])),
                6 => { let n = self.r.below(2); let t = *self.r.pick(&["x", "a b", "$x", "{", "@f", "<b>", "\\n", "a\tb"]); X::Verb(t, 1 + 2 * n) },
                7 => X::Group(*self.r.pick(&["k", "kk", "&lt;"])),
                8 => X::Quoted(self.r.pick(env).0.clone()),
                _ => { let (x, v) = self.r.pick(env).clone(); let v = env.iter().rev().find(|(y, _)| *y == x).unwrap_or(&(x.clone(), v)).1.clone(); X::Name(x, self.steps(v)) },
            };
        }
        match self.r.below(7) {
            0..=2 => { let n = self.r.below(4); X::List((0..n).map(|_| if self.r.chance(1, 4) { let d = depth.max(2) - 1; (self.list(d, env), true) } else { (self.gen(depth - 1, env), false) }).collect()) },
            3 => { let mut keys = KEYS.to_vec(); let n = self.r.below(4); X::Dict((0..n).map(|_| { let k = keys.remove(self.r.below(keys.len())); (k, self.gen(depth - 1, env)) }).collect()) },
            4 | 5 => {
                let mut inner = env.clone();
                let n = 1 + self.r.below(3);
                let mut vars: Vec<(String, X)> = vec![];
                for _ in 0..n {
                    let x = self.fresh(env);
                    if vars.iter().any(|(y, _)| *y == x) { continue; }
                    let e = self.gen(depth - 1, &inner);
                    let v = e.value(&inner).unwrap_or(V::None);
                    inner.push((x.clone(), v));
                    vars.push((x, e));
                }
                if vars.is_empty() { return X::Dot; }
                let body = self.gen(depth - 1, &inner);
                let body = if body.literal() { X::List(vec![(body, false)]) } else { body };
                X::Let(self.r.chance(1, 4), vars, Box::new(body))
            },
            _ => {
                let v = self.gen(depth - 1, env);
                let x = self.fresh(&vec![]);
                let mut inner = env.clone();
                let w = v.value(env).unwrap_or(V::None);
                inner.push((x.clone(), w));
                let body = self.gen(depth - 1, &inner);
                X::Match(Box::new(v), x, Box::new(body))
            },
        }
    }
    /// Usually a list.
    fn list(&mut self, depth: usize, env: &Env) -> X {
        if self.r.chance(1, 20) { return X::Int(1); }
        let lists: Vec<_> = env.iter().filter(|(_, v)| matches!(v, V::List(_))).map(|(x, _)| x.clone()).collect();
        if !lists.is_empty() && self.r.chance(1, 2) { return X::Name(self.r.pick(&lists).clone(), vec![]); }
        let n = self.r.below(4);
        X::List((0..n).map(|_| (self.gen(depth - 1, env), false)).collect())
    }
}

pub fn c32(run: &mut Run) {
    run.rule("random expressions (literals, lists with spreads, dicts, names with attributes and indices with and without `?`, strings with variables, groups, `@let`, `@implicit`, `@match`), with white space and comments at random: their values, or that there is an error");
    for _ in 0..run.scale(12000, 400000) {
        if run.done() { return; }
        let mut r = Rng::new(run.rng.next());
        let d = 1 + r.below(4);
        let x = G { r: &mut r, next: 0 }.gen(d, &vec![]);
        let want = x.value(&vec![]).map_or("error".to_string(), |v| v.show());
        let src = format!("{}{}", gap(&mut r), x.src(&mut r));
        run.case("expression", &src, d > 1, || { let (got, diags) = eval_show_diag(&src); ensure(got == want, &want, format!("{got} {diags}")) });
    }

    run.rule("long lists, paths and groups");
    for n in [10usize, 1000, 20_000] {
        run.case("long", &format!("list {n}"), true, || check_eq(&format!("{n}"), &eval_show(&format!("@let(x=[{}]) @list::len $x", "1, ".repeat(n)))));
        run.case("long", &format!("spreads {n}"), true, || check_eq(&format!("{}", 2 * n), &eval_show(&format!("@let(y=[1, 2]) @let(x=[{}]) @list::len $x", "*$y, ".repeat(n)))));
        run.case("long", &format!("group {n}"), true, || check_eq(&"x".repeat(n), &compile(&format!("@let(x=x) {{{}}}", "$x".repeat(n))).text.trim().to_string()));
        let m = n.min(500);
        run.case("long", &format!("path {m}"), true, || check_eq(&"1".to_string(), &eval_show(&format!("@let(x={}1{}) $x{}", "[".repeat(m), "]".repeat(m), "::0".repeat(m)))));
        run.case("long", &format!("path of none {m}"), true, || check_eq(&".".to_string(), &eval_show(&format!("@let(x=.) $x{}", "?::a?::0".repeat(m)))));
    }
    run.rule("each kind of token where an expression is expected, and what may stand before and after one: the value, or an error");
    for (src, want) in [
        (".", "."), ("{}", "."), ("{ }", "."), ("True", "True"), ("False", "False"), ("true", "\"true\""), ("-0", "0"), ("007", "7"), ("9223372036854775807", "9223372036854775807"), ("9223372036854775808", "error"), ("-9223372036854775808", "-9223372036854775808"), ("-9223372036854775809", "error"),
        ("abc", "\"abc\""), ("`abc`", "\"abc\""), ("```abc```", "\"abc\""), ("\"abc\"", "\"abc\""), ("'abc'", "\"abc\""), ("\"\"", "\"\""), ("''", "\"\""), ("'a\"b'", "\"a\\\"b\""), ("\"a'b\"", "\"a'b\""), ("\"a `b` c\"", "error"),
        ("$x", "error"), ("$list::map", "<func>"), ("@x.", "error"), ("@export(y=1).", "error"), ("@fn $x -> $x", "<func>"), ("@fn f $x -> $x", "<func>"), ("@fn @f $x -> $x", "error"), ("@let(x=1) $x", "1"), ("@let(x=1) [$x]", "[1]"), ("@implicit(x=1) $x", "1"), ("@let() 5", "error"), ("@let $x", "error"), ("@let(1) $x", "error"), ("@let(x=1)", "error"), ("@let(x=1, x=2) $x", "error"), ("@let(x=1, y=$x) $y", "1"), ("@let(y=$x, x=1) $y", "error"), ("@let(**$x) .", "error"), ("@let(x=1) 5", "error"), ("@let(x=1) @let(x=[$x, $x]) $x", "[1, 1]"),
        ("@match 1 {1 -> 2}", "2"), ("@match 1 {2 -> 2}", "error"), ("@match {}", "error"),
        ("[]", "[]"), ("[ ]", "[]"), ("[,]", "error"), ("[1,]", "[1]"), ("[1,,]", "error"), ("[1 2]", "error"), ("[1;2]", "error"), ("[1, 2", "error"), ("[1, 2}", "error"), ("[1, 2)", "error"), ("[*[1, 2], 3]", "[1, 2, 3]"), ("[3, *[]]", "[3]"), ("[* [1]]", "[1]"), ("[*1]", "error"), ("[*.]", "error"), ("[**[1]]", "error"), ("[a=1]", "error"), ("[***[1]]", "error"), ("[* *[1]]", "error"), ("[[1], [2]]", "[[1], [2]]"), ("[*[[1], 2], [3]]", "[[1], 2, [3]]"), ("[.]", "[.]"), ("[., {}, .]", "[., ., .]"), ("[...]", "error"), ("[a, b]", "[\"a\", \"b\"]"), ("*[1]", "error"),
        ("{a}", "\"a\""), ("{ a }", "\"a\""), ("{\n\na\n\n}", "\"a\""), ("{a", "error"), ("{a]", "error"), ("{a}}", "error"), ("{{a}}", "\"a\""), ("{{}}", "."), ("{{} {}}", "."), ("{<i>a</i>", "error"), ("{</i>}", "error"),
        ("<>", "error"), ("</>", "error"), ("< i></i>", "error"), ("<1></1>", "error"), ("<i", "error"), ("<i>", "error"), ("<\"a\"></>", "error"),
        ("(1)", "error"), (")", "error"), ("]", "error"), ("}", "error"), (",", "error"), (":", "error"), ("::", "error"), ("=", "error"), ("->", "error"), ("|", "error"), ("&", "error"), ("&amp;", "error"), ("\\n", "error"), ("\\\\", "error"), ("_", "error"), ("?", "error"), ("!", "error"), (">", "error"), ("*", "error"), ("**", "error"), ("...", "error"), ("-", "error"), ("+", "error"), ("%", "error"), ("$", "error"), ("@", "error"), ("é", "error"), ("", "error"), (" ", "error"), ("<!-- c -->", "error"), ("# c", "error"),
        ("1 2", "error"), ("1)", "error"), ("<!-- c -->\n 1 <!-- c -->", "1"),
        // names
        ("@let(x=[1, 2, 3]) $x::0", "1"), ("@let(x=[1, 2, 3]) $x::-1", "3"), ("@let(x=[1, 2, 3]) $x::-3", "1"), ("@let(x=[1, 2, 3]) $x::3", "error"), ("@let(x=[1, 2, 3]) $x::-4", "error"), ("@let(x=[[1, 2], [3]]) $x::1::0", "3"), ("@let(x=[[1, 2], [3]]) $x::0::1", "2"), ("@let(x=[1]) $x:: 0", "error"), ("@let(x=[1]) $x ::0", "error"), ("@let(x=[1]) $x::", "error"), ("@let(x=[1], y=0) $x::$y", "error"), ("@let(x=[1]) $x::`len`", "error"), ("@let(x=[1]) $x::\"len\"", "error"), ("@let(x=[1]) @list::len $x", "1"), ("@let(x=[1]) $x::True", "error"), ("@let(x=[1]) $x::99999999999999999999", "error"), ("@let(x=[1]) $x::0::0", "error"), ("@let(x=[1]) $x?::0", "1"), ("@let(x=.) $x?::0", "."), ("@let(x=.) $x?::a", "."), ("@let(x=.) $x::0", "error"), ("@let(x=.) $x::a", "error"), ("@let(x=.) $x?::a::b", "error"), ("@let(x=.) $x?::a?::b", "."), ("@let(x=.) $x?::0?::0", "."), ("@let(x=[.]) $x::0?::0", "."), ("@let(x=[.]) $x?::0::0", "error"), ("@let(x=[1]) $x?::5", "error"), ("@let(x=@dict::new(a=5).) $x::a", "5"), ("@let(x=@dict::new(a=5).) $x::A", "error"), ("@let(x=@dict::new(a=5).) $x?::a", "5"), ("@let(x=@dict::new(a=5).) $x?::b", "error"), ("@let(x=@dict::new(len=9).) $x::len", "9"), ("@let(x=@dict::new(a=[5, 6]).) $x::a::1", "6"), ("@let(x=[@dict::new(a=5).]) $x::0::a", "5"), ("@let(x=[1]) [$x::len]", "[<func>]"), ("@let(x=<i>k</i>) $x::tag_name", "\"i\""), ("@let(x=1) $X", "error"), ("@let(x=1, X=2) [$x, $X]", "[1, 2]"),
        ("@let(x=[1]) \"$x::0\"", "\"1\""), ("@let(x=.) \"a$x?::0\"", "\"a\""), ("@let(x=k) \"$x:$x\"", "\"k:k\""),
    ] {
        run.case("form", src, true, || { let (got, diags) = eval_show_diag(src); ensure(got == want, want, format!("{got} {diags}")) });
    }
    run.rule("nodes of documents, groups and tags, and how far `...` reaches: the HTML, or an error");
    for (src, want) in [
        ("1 True . a", "<p>1 True . a</p>"), ("[1, 2]", "<ul><li>1</li><li>2</li></ul>"), ("{a}", "<p>a</p>"), ("a{b}c", "<p>abc</p>"), ("{a }b", "<p>ab</p>"), ("a { b}", "<p>a b</p>"), ("{}", ""), ("a{}b", "<p>ab</p>"),
        ("a < b", "<p>a &lt; b</p>"), ("a <1> b", "<p>a &lt;1&gt; b</p>"), ("a > b", "<p>a &gt; b</p>"), ("(a)", "<p>(a)</p>"), ("a, b", "<p>a, b</p>"), ("a=b", "<p>a=b</p>"), ("a: b::c", "<p>a: b::c</p>"), ("a*b**c", "<p>a*b**c</p>"), ("_a_ b?", "<p>_a_ b?</p>"),
        ("]", "error"), ("a]", "error"), ("}", "error"), ("</i>", "error"), ("</>", "error"), (")", "<p>)</p>"), ("[a", "error"), ("{a", "error"),
        ("\\]", "<p>]</p>"), ("\\{a\\}", "<p>{a}</p>"), ("&lt;i>", "<p>&lt;i&gt;</p>"), ("a\\nb", "<p>a\nb</p>"), ("\\x41", "<p>A</p>"), ("&zzzz;", "error"), ("\\xZZ", "error"),
        ("$x", "error"), ("@let(x=1) $x", "<p>1</p>"), ("@let(x=1) {$x$x}", "<p>11</p>"), ("@let(x=1) {$x $x}", "<p>1 1</p>"), ("a@let(x=1){$x}b", "<p>a1b</p>"), ("a @let(x=1) {$x} b", "<p>a 1 b</p>"), ("@let(x=1) $x $x", "error"), ("a @match 1 {1 -> b} c", "<p>a b c</p>"), ("a@export(x=1). b", "<p>a b</p>"), ("a @export(x=1). $x", "error"), ("@fn f $x -> {[$x]} @f k", "<ul><li>k</li></ul>"), ("@fn f $x -> {<b>$x</b>}\na @f k b", "<p>a <b>k</b> b</p>"), ("a @fn $x -> $x b", "error"),
        ("@let(x=1) ... a $x\n\nb $x", "<p>a 1</p><p>b 1</p>"), ("@let(x=1)... a $x", "<p>a 1</p>"), ("a @let(x=1)...", "error"), ("{a @let(x=1) ... b $x} c", "<p>a b 1 c</p>"), ("{a @let(x=1) ... b $x} $x", "error"), ("<i>a @let(x=1) ... b $x</i> c", "<p><i>a b 1</i> c</p>"), ("<i>a @let(x=1) ... b $x</i> $x", "error"), ("<i>a @let(x=1) ... b $x</> c", "<p><i>a b 1</i> c</p>"), ("@let(x=1) ... a $x @let(y=2) ... $x $y", "<p>a 1 1 2</p>"), ("@let(x=1) ... a } b", "error"), ("@let(x=1) ... a </i> b", "error"), ("@let(x=1) ... {a} <i>b</i> $x", "<p>a <i>b</i> 1</p>"), ("@fn f $x -> {<b>$x</b>}\n@f ... a\n\nb", "error"), ("@fn f $x -> {<b>$x</b>}\n@f ... a b", "<p><b>a b</b></p>"), ("@fn f $x -> {<b>$x</b>}\n{@f ... a b} c", "<p><b>a b</b> c</p>"), ("... a", "<p>… a</p>"), ("a ... b", "<p>a … b</p>"), ("@let(x=1) ... a ... b", "<p>a … b</p>"), ("@let(x=1) ... ] b", "error"),
        ("`a`", "<p><code>a</code></p>"), ("x `a < b` y", "<p>x <code>a &lt; b</code> y</p>"),
        ("```a```", "~<pre"), ("```\na\n```", "~<pre"), ("```ab```", "~<pre"), ("x ```\n``` y", "~<pre"), ("{```a```}", "~<pre"), ("```a long line of code```", "~<pre"), ("a `b` c", "<p>a <code>b</code> c</p>"), ("`a long line of code`", "<p><code>a long line of code</code></p>"), ("``` a```", "~<pre"),
        ("@fn f $x -> {$x}\n@f <!DOCTYPE html>", "<!DOCTYPE html>\n"), ("@let(x=<!DOCTYPE html>) $x", "<!DOCTYPE html>\n"), ("<!DOCTYPE html>", "<!DOCTYPE html>\n"), ("@let(t=`em`) {@fn f $x -> {$x}\n@f <$t>a</>}", "<p><em>a</em></p>"), ("@let(t=`em`) {<$t>a</>}", "<p><em>a</em></p>"), ("[<i>a</i>, b]", "<ul><li><i>a</i></li><li>b</li></ul>"),
        ("[@let(x=1) ... a ]", "error"), ("[@let(x=1) ... a ], b]", "error"), ("[{@let(x=1) ... a}, b]", "<ul><li>a</li><li>b</li></ul>"), ("[<i>@let(x=1) ... a</i>, b]", "<ul><li><i>a</i></li><li>b</li></ul>"), ("[@fn f $x -> {$x}]", "error"), ("[@fn f ... ]", "error"), ("@let(x=1) {]}", "error"), ("@fn f $x -> {b $x}\n[@f ... a ]", "error"), ("@fn f $x -> {b $x}\n[{@f ... a }]", "<ul><li>b a</li></ul>"),
        ("a\n\nb", "<p>a</p><p>b</p>"), ("a\nb", "<p>a b</p>"), ("{a\n\nb}", "<p>a</p><p>b</p>"), ("a <!-- c --> b", "<p>a b</p>"),
    ] {
        run.case("node", src, true, || {
            let o = compile(src);
            let got = if o.ok() { o.html.as_str() } else { "error" };
            ensure(want.strip_prefix('~').map_or(got == want, |w| got.contains(w)), want, format!("{got} {}", o.diags))
        });
    }
}

//! C28: tags come out as they are written.
use crate::util::*;
use crate::html::{self, N};

const ENV: &str = "@let(s=\"v\", n=., i=-3, l=[1], t=\"Em\", u=\"x_1\", w=\"BR\", q=\"!DocType\", bad=\"no-tag\", d=@dict::new(p=\"1\", q=., r=\"<&\")., e=@dict::new(c=\"z\")., f=@dict::new()., g=@dict::new(p=[1]).){";
const TAIL: &str = "}";
/// A source and what it stands for, or None when it is an error.
type Made<T> = (String, Option<T>);
type Attr = (String, Option<String>);

fn space(rng: &mut Rng) -> &'static str { *rng.pick(&["", "", "", " ", " ", "\n", "  \n ", " <!-- a=\"9\" --> ", " # c\n"]) }
fn sep(rng: &mut Rng) -> &'static str { *rng.pick(&[" ", " ", " ", "\n", "   ", " <!-- > --> ", " # >\n"]) }

/// An expression for a string: its source and what it gives (Some(None) is none).
fn value(rng: &mut Rng) -> Made<Option<String>> {
    let some = |s: &str| Some(Some(s.to_string()));
    let (s, v): (&str, _) = *rng.pick(&[
        ("\"1\"", 0), ("\"\"", 1), ("'a\"b'", 2), ("`<>`", 3), ("\"x$s\"", 4), ("$s", 5), ("5", 6), ("-7", 7), ("True", 8), ("$i", 9), ("\"\\x41&lt;\"", 10), ("``a`b``", 11),
        ("$n", 20), (".", 20), ("{}", 20), ("$l", 30), ("$d", 30), ("[]", 30), ("$zzz", 30), ("<i>x</i>", 30), ("@fn {}", 30), ("{w}", 12), ("\"é\"", 13), ("@let(k=\"w\") {$k}", 12), ("\"/>\"", 14),
    ]);
    let v = match v {
        0 => some("1"), 1 => some(""), 2 => some("a\"b"), 3 => some("<>"), 4 => some("xv"), 5 => some("v"), 6 => some("5"), 7 => some("-7"), 8 => some("True"), 9 => some("-3"),
        10 => some("A<"), 11 => some("a`b"), 12 => some("w"), 13 => some("é"), 14 => some("/>"), 20 => Some(None), _ => None,
    };
    (s.to_string(), v)
}
fn attr(rng: &mut Rng, name: &str, risky: bool) -> Made<Vec<Attr>> {
    if rng.chance(1, 5) {
        let (e, v): (_, &[(&str, Option<&str>)]) = *rng.pick(&[("$d", &[("p", Some("1")), ("q", None), ("r", Some("<&"))] as &[_]), ("$e", &[("c", Some("z"))]), ("$f", &[]), ("@dict::new(k2=\"y\").", &[("k2", Some("y"))]), ("$g", &[("p", Some("1"))])]);
        let own = |v: &[(&str, Option<&str>)]| v.iter().map(|(k, v)| (k.to_string(), v.map(str::to_string))).collect();
        return match if risky { rng.below(6) } else { 9 } {
            0 => (format!("*{}{e}", space(rng)), None), 1 => (format!("**{}$l", space(rng)), None), 2 => ("**$s".into(), None),
            _ => (format!("**{}{e}", space(rng)), if e == "$g" { None } else { Some(own(v)) }),
        };
    }
    if rng.chance(1, 4) { return (name.to_string(), Some(vec![(name.to_string(), None)])); }
    let optional = rng.chance(1, 2);
    if optional && risky && rng.chance(1, 8) { return (format!("{name}{}?", space(rng)), None); }
    let mut v = value(rng);
    for _ in 0..40 { if risky || matches!(&v.1, Some(x) if optional || x.is_some()) { break; } v = value(rng); }
    let src = format!("{name}{}{}{}={}{}", space(rng), if optional { "?" } else { "" }, if optional { space(rng) } else { "" }, space(rng), v.0);
    (src, match v.1 { Some(Some(s)) => Some(vec![(name.to_string(), Some(s))]), Some(None) if optional => Some(vec![]), _ => None })
}
fn tag(rng: &mut Rng, depth: usize, risky: bool, top: bool) -> Made<N> {
    let (open, mut name): (&str, Option<String>) = match rng.below(14) {
        0 => ("$t", Some("em".into())), 1 => ("$u", Some("x_1".into())), 2 if risky => ("$bad", None), 3 => ("$w", Some("br".into())), 4 if top => ("$q", Some("!DOCTYPE".into())), 5 if risky => ("$i", None), 6 if risky => ("$n", None),
        k => { let s = ["b", "span", "SPAN", "Em", "foo", "br", "Img", "q", "x2", "B", "wbr", "s", "i", "sPan"][(k + rng.below(14)) % 14]; (s, Some(s.to_ascii_lowercase())) },
    };
    let variable = open.starts_with('$');
    let void = html::VOID.contains(&name.as_deref().unwrap_or(""));
    let mut src = format!("<{open}");
    let mut attrs: Vec<Attr> = vec![];
    let mut ok = true;
    let mut written = vec![];
    let n = *rng.pick(&[0, 0, 1, 1, 2, 3, 4]);
    let names = ["a", "b", "c", "d_e", "A", "href", "k2", "p"];
    for k in 0..n {
        let name = if risky { *rng.pick(&names) } else { names[(k * 3 + rng.below(3)) % 6] };
        let before = src.clone();
        src += if src.ends_with(['"', '\'']) && rng.chance(1, 4) { "" } else { sep(rng) };
        let (s, a) = attr(rng, name, risky);
        src += &s;
        // a name which is written twice is an error also when it is left out
        let again = !s.starts_with('*') && written.contains(&name);
        match a {
            Some(a) if !again && !a.iter().any(|x| attrs.iter().any(|y| y.0 == x.0)) => { attrs.extend(a); if !s.starts_with('*') { written.push(name); } },
            _ if risky => ok = false,
            _ => src = before,
        }
    }
    let closed_here = rng.chance(1, 4) || void && variable;
    src += if src.ends_with('/') { " " } else { space(rng) };
    let mut kids = vec![];
    if closed_here { src += "/>"; }
    else {
        src += ">";
        if !void {
            let mut first = true;
            let n = if depth == 0 { rng.below(2) } else { rng.below(4) };
            src += *rng.pick(&["", " ", "  ", " \n "]);
            for _ in 0..n {
                if !first { let sp = *rng.pick(&["", " ", "\n"]); src += sp; if !sp.is_empty() { kids.push(N::Text(" ".into())); } }
                first = false;
                if depth > 0 && rng.chance(1, 2) {
                    let (s, v) = tag(rng, depth - 1, risky, false);
                    src += &s;
                    match v { Some(v) => kids.push(v), None => ok = false }
                } else {
                    let w = *rng.pick(&["x", "word", "1", "é", "$s"]);
                    src += w;
                    if w == "$s" { kids.push(N::Text("v".into())) } else { kids.push(N::Text(w.into())) }
                    if w == "$s" { src += " "; src += "."; kids.push(N::Text(" .".into())); }
                }
            }
            src += *rng.pick(&["", " ", "\n"]);
            let close = match if risky { rng.below(8) } else { 1 + rng.below(7) } {
                0 => { ok = false; if open != "s" && open != "S" && !variable { "</s>".into() } else { "</zz>".to_string() } },
                1 | 2 | 3 => "</>".into(),
                _ if variable => { if risky { ok = false; format!("</{}>", name.as_deref().unwrap_or("b").replace('!', "")) } else { "</>".into() } },
                4 => format!("</{}>", open.to_ascii_uppercase()), 5 => format!("</{}>", open.to_ascii_lowercase()), _ => format!("</{open}>"),
            };
            src += &close;
        }
    }
    if name.is_none() { ok = false; name = Some("b".into()); }
    (src, if ok { Some(N::Tag(name.unwrap(), attrs, kids)) } else { None })
}
#[cfg(papyri_verif)]
pub fn c28(run: &mut Run) {
    run.rule("trees of up to 4 nested tags: fourteen names in different cases, names from variables, up to 4 attributes (alone, `=`, `?=`, `**`), twenty-five values, white space and comments between, closed by `/>`, `</>` or the name in any case; and the same with errors (repeated names, values of another type, other closing tags); non-trivial: with attributes or nested");
    for risky in [false, true] {
        for _ in 0..run.scale(40000, 400000) {
            if run.done() { return; }
            let depth = run.rng.below(4);
            let (src, want) = { let rng = &mut run.rng; tag(rng, depth, risky, true) };
            let is_doctype = matches!(&want, Some(N::Tag(n, _, _)) if n == "!DOCTYPE");
            run.case(if want.is_some() { "tag" } else { "error" }, &src, src.contains('=') || src.matches('<').count() > 2, || {
                let text = format!("{ENV}{src}{TAIL}");
                with_ctx(|c| {
                    let (o, h, _) = compile_in(c, &text);
                    match &want {
                        None => ensure(o.errors > 0, "an error", format!("{} {}", o.html, o.diags)),
                        Some(w) => {
                            let got = html::tree(c, &h);
                            let want = if is_doctype { vec![w.clone()] } else { vec![N::Tag("p".into(), vec![], vec![w.clone()])] };
                            let want = html::merge(want);
                            let got = html::merge(got);
                            ensure(o.errors == 0 && got == want, format!("{}", html::show_nodes(&want)), format!("{} {}", html::show_nodes(&got), o.diags))
                        },
                    }
                })
            });
        }
    }
}
#[cfg(not(papyri_verif))]
pub fn c28(run: &mut Run) { crate::lex::c01(run) }

//! Functions on truth values, text, dicts and regular expressions, and how
//! attributes and indices of names resolve.
use crate::model::{values, V};
use crate::util::*;

#[derive(Clone, Debug)]
enum R { C(char), Dot, Set(String), Seq(Vec<R>), Alt(Vec<R>), Opt(Box<R>), Plus(Box<R>), Group(usize, Option<String>, Box<R>) }
type Caps = Vec<Option<(usize, usize)>>;
impl R {
    fn print(&self) -> String {
        match self {
            R::C(c) => c.to_string(),
            R::Dot => ".".into(),
            R::Set(s) => format!("[{s}]"),
            R::Seq(rs) => rs.iter().map(R::print).collect(),
            R::Alt(rs) => format!("(?:{})", rs.iter().map(R::print).collect::<Vec<_>>().join("|")),
            R::Opt(r) => format!("(?:{})?", r.print()),
            R::Plus(r) => format!("(?:{})+", r.print()),
            R::Group(_, None, r) => format!("({})", r.print()),
            R::Group(_, Some(n), r) => format!("(?P<{n}>{})", r.print()),
        }
    }
    /// Leftmost-first matching by backtracking.
    fn run(&self, s: &[char], i: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
        match self {
            R::C(c) => s.get(i) == Some(c) && k(i + 1, caps),
            R::Dot => s.get(i).is_some_and(|c| *c != '\n') && k(i + 1, caps),
            R::Set(t) => s.get(i).is_some_and(|c| t.contains(*c)) && k(i + 1, caps),
            R::Seq(rs) => R::run_all(rs, s, i, caps, k),
            R::Alt(rs) => rs.iter().any(|r| r.run(s, i, caps, k)),
            R::Opt(r) => r.run(s, i, caps, k) || k(i, caps),
            R::Plus(r) => r.run(s, i, caps, &mut |j, caps| self.run(s, j, caps, k) || k(j, caps)),
            R::Group(n, _, r) => {
                let old = caps[*n];
                let ok = r.run(s, i, caps, &mut |j, caps| {
                    let before = caps[*n];
                    caps[*n] = Some((i, j));
                    if k(j, caps) { return true; }
                    caps[*n] = before;
                    false
                });
                if !ok { caps[*n] = old; }
                ok
            },
        }
    }
    fn run_all(rs: &[R], s: &[char], i: usize, caps: &mut Caps, k: &mut dyn FnMut(usize, &mut Caps) -> bool) -> bool {
        match rs.split_first() {
            None => k(i, caps),
            Some((r, rest)) => r.run(s, i, caps, &mut |j, caps| R::run_all(rest, s, j, caps, k)),
        }
    }
    fn matches(&self, groups: usize, s: &[char]) -> Vec<Caps> {
        let mut out = vec![];
        let mut i = 0;
        while i <= s.len() {
            let mut caps: Caps = vec![None; groups + 1];
            let mut end = 0;
            let mut found = None;
            if self.run(s, i, &mut caps, &mut |j, c| { end = j; let mut c = c.clone(); c[0] = Some((i, j)); found = Some(c); true }) {
                out.push(found.unwrap());
                i = end.max(i + 1);
            } else { i += 1; }
        }
        out
    }
}
struct Gen { names: Vec<Option<String>>, named: bool, groups: bool }
const NAMES: &[&str] = &["b", "a", "key", "x2", "Word", "len", "z"];
impl Gen {
    fn atom(&mut self, rng: &mut Rng) -> R {
        match rng.below(6) { 0 => R::Dot, 1 => R::Set("ab".into()), 2 => R::Set("bc".into()), _ => R::C(*rng.pick(&['a', 'b', 'c', 'é'])) }
    }
    fn part(&mut self, rng: &mut Rng, depth: usize) -> R {
        match rng.below(9) {
            0 if depth > 0 => { let n = 2 + rng.below(2); R::Alt((0..n).map(|_| self.part(rng, depth - 1)).collect()) },
            1 if depth > 0 => R::Opt(Box::new(self.part(rng, depth - 1))),
            2 => R::Plus(Box::new(self.atom(rng))),
            3 | 4 | 5 if depth > 0 && self.groups && self.names.len() < NAMES.len() => {
                let k = self.names.len();
                let name = self.named.then(|| NAMES[k].to_string());
                self.names.push(name.clone());
                R::Group(k + 1, name, Box::new(self.part(rng, depth - 1)))
            },
            6 if depth > 0 => { let n = 1 + rng.below(3); R::Seq((0..n).map(|_| self.part(rng, depth - 1)).collect()) },
            _ => self.atom(rng),
        }
    }
}

fn q(s: &str) -> String { template_lit(s).unwrap() }
fn b(x: bool) -> String { if x { "True" } else { "False" }.into() }
fn strs(v: impl IntoIterator<Item = String>) -> String { format!("[{}]", v.into_iter().map(|s| format!("{s:?}")).collect::<Vec<_>>().join(", ")) }

fn truth(v: &V) -> bool {
    match v { V::None => false, V::Bool(x) => *x, V::Int(i) => *i != 0, V::Str(s) => !s.is_empty(), V::List(l) => !l.is_empty(), V::Dict(d) => !d.is_empty(), _ => true }
}

const METHODS: &[(&str, &[&str])] = &[
    ("bool", &["and", "or", "negate"]), ("int", &["add", "negate"]),
    ("str", &["ends_with", "starts_with", "escape_html", "is_empty", "is_whitespace", "len", "lower", "split", "trim", "unique_id", "upper"]),
    ("regex", &["count", "find", "find_all", "split", "test"]), ("function", &["bind", "name"]),
    ("html", &["escape_html", "is_empty", "is_whitespace"]),
    ("list", &["all", "any", "contains", "enumerate", "filter", "find", "flat", "get", "is_empty", "join", "len", "map", "slice", "sorted"]),
];
fn group_of(v: &V) -> &'static str {
    match v { V::None | V::Block(_) | V::Inline(_) => "html", V::Bool(_) => "bool", V::Int(_) => "int", V::Str(_) => "str", V::Func => "function", V::Regex => "regex", V::List(_) => "list", V::Dict(_) => "" }
}

pub fn c30(run: &mut Run) {
    run.rule("the truth of every model value; Boolean operations; text functions on random texts against Rust's; dict functions on random dicts; random regular expressions (literals, classes, alternatives, options, repetitions, groups with and without names) on random texts against a backtracking matcher; every attribute name on a value of each type, entries of dicts, tag names, indices and `?::`; non-trivial: the text or dict is not empty");
    let val = |v: &V| v.expr();
    let mut vs = values();
    vs.extend([V::Int(0), V::Bool(false), V::Int(i64::MIN), V::Str(" ".into()), V::Str("0".into()), V::List(vec![V::None]), V::List(vec![V::Int(0)])]);
    for v in &vs { run.case("truth", &format!("@bool::from {}", val(v)), true, || check_eq(&b(truth(v)), &eval_show(&format!("@bool::from {}", val(v))))); }
    for x in [false, true] {
        run.case("negate", &b(x), true, || check_eq(&b(!x), &eval_show(&format!("@bool::negate {}", b(x)))));
        for y in [false, true] {
            for (e, want) in [(format!("@bool::and({}, {}).", b(x), b(y)), x && y), (format!("@bool::or({}, {}).", b(x), b(y)), x || y)] {
                run.case("and-or", &e, true, || check_eq(&b(want), &eval_show(&e)));
            }
        }
    }
    texts(run);
    dicts(run);
    regexes(run);
    attributes(run);
}

fn texts(run: &mut Run) {
    let parts = ["a", "b", "ab", "A", "é", "ß", " ", "\t", "\n", "\u{a0}", "\u{2003}", "İ", ",", "ba", "😀", "\u{c}", "\u{b}", "\u{85}"];
    for _ in 0..run.scale(1200, 20000) {
        let s = random_string(&mut run.rng, &parts, 6);
        let t = match run.rng.below(4) {
            0 => random_string(&mut run.rng, &parts, 2),
            1 => { let n = s.chars().count(); s.chars().take(run.rng.below(n + 1)).collect() },
            2 => { let n = s.chars().count(); s.chars().skip(run.rng.below(n + 1)).collect() },
            _ => run.rng.pick(&parts).to_string(),
        };
        let (l, m) = (q(&s), q(&t));
        let mut cases = vec![
            ("len", format!("@str::len {l}"), s.len().to_string()),
            ("is-empty", format!("@str::is_empty {l}"), b(s.is_empty())),
            ("is-whitespace", format!("@str::is_whitespace {l}"), b(s.chars().all(|c| matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}')))),
            ("starts-with", format!("@str::starts_with({l}, {m})."), b(s.as_bytes().starts_with(t.as_bytes()))),
            ("ends-with", format!("@str::ends_with({l}, {m})."), b(s.as_bytes().ends_with(t.as_bytes()))),
            ("lower", format!("@str::lower {l}"), format!("{:?}", s.to_lowercase())),
            ("upper", format!("@str::upper {l}"), format!("{:?}", s.to_uppercase())),
            ("trim", format!("@str::trim {l}"), format!("{:?}", s.trim_matches(char::is_whitespace))),
            ("from", format!("@str::from {l}"), format!("{s:?}")),
        ];
        if !t.is_empty() {
            // split by hand
            let (mut out, mut cur, mut rest) = (vec![], String::new(), s.as_str());
            while !rest.is_empty() {
                if let Some(r) = rest.strip_prefix(t.as_str()) { out.push(std::mem::take(&mut cur)); rest = r; }
                else { let c = rest.chars().next().unwrap(); cur.push(c); rest = &rest[c.len_utf8()..]; }
            }
            out.push(cur);
            cases.push(("split", format!("@str::split({m}) {l}"), strs(out)));
        }
        for (k, e, want) in cases { run.case(k, &e, !s.is_empty(), || check_eq(&want, &eval_show(&e))); }
        if run.done() { return; }
    }
}

fn dicts(run: &mut Run) {
    let names = ["a", "b", "c", "key", "len", "get", "Z", "x1", "tag_name", "is_empty", "unused_name"];
    for _ in 0..run.scale(500, 6000) {
        let n = run.rng.below(6);
        let mut d: Vec<(String, V)> = vec![];
        for _ in 0..n {
            let k = *run.rng.pick(&names[..10]);
            if d.iter().any(|(x, _)| x == k) { continue; }
            let v = match run.rng.below(5) { 0 => V::None, 1 => V::Str(k.into()), 2 => V::List(vec![V::Int(1)]), 3 => V::Bool(true), _ => V::Int(run.rng.below(9) as i64) };
            d.push((k.into(), v));
        }
        let v = V::Dict(d.clone()).expr();
        // the argument is a name, since a call has to be given a content argument
        let with = |f: &str| format!("@let(d={v}) [{}]", f);
        let k = *run.rng.pick(&names);
        let e = d.iter().find(|(x, _)| x == k).map(|(_, v)| v.show());
        let cases = vec![
            ("dict-keys", with("@dict::keys $d"), format!("[{}]", strs(d.iter().map(|x| x.0.clone())))),
            ("dict-values", with("@dict::values $d"), format!("[[{}]]", d.iter().map(|x| x.1.show()).collect::<Vec<_>>().join(", "))),
            ("dict-items", with("@dict::items $d"), format!("[[{}]]", d.iter().map(|x| format!("[{:?}, {}]", x.0, x.1.show())).collect::<Vec<_>>().join(", "))),
            ("dict-len", with("@dict::len $d"), format!("[{}]", d.len())),
            ("dict-is-empty", with("@dict::is_empty $d"), format!("[{}]", b(d.is_empty()))),
            ("dict-get", with(&format!("@dict::get({}) $d", q(k))), e.clone().map_or("error".into(), |e| format!("[{e}]"))),
            ("dict-attribute", with(&format!("$d::{k}")), e.clone().map_or("error".into(), |e| format!("[{e}]"))),
            ("dict-attribute-if", with(&format!("$d?::{k}")), e.map_or("error".into(), |e| format!("[{e}]"))),
        ];
        for (g, e, want) in cases { run.case(g, &e, !d.is_empty(), || check_eq(&want, &eval_show(&e))); }
        if run.done() { return; }
    }
}

fn regexes(run: &mut Run) {
    let cells = ["a", "b", "c", "é", "ab", " ", "\n", "d"];
    for round in 0..run.scale(1500, 20000) {
        let mut g = Gen { names: vec![], named: run.rng.chance(1, 2), groups: round % 4 != 0 };
        let depth = 1 + run.rng.below(3);
        let mut parts = vec![g.atom(&mut run.rng)];
        for _ in 0..run.rng.below(4) { parts.push(g.part(&mut run.rng, depth)); }
        // sometimes the match is a part of the text only
        if run.rng.chance(1, 2) { parts.rotate_left(1); let a = g.atom(&mut run.rng); parts.push(a); }
        let r = R::Seq(parts);
        let s = random_string(&mut run.rng, &cells, 8);
        let cs: Vec<char> = s.chars().collect();
        let ms = r.matches(g.names.len(), &cs);
        let text = |x: Option<(usize, usize)>| x.map_or(".".to_string(), |(i, j)| format!("{:?}", cs[i..j].iter().collect::<String>()));
        let named = g.names.iter().all(|n| n.is_some()) && !g.names.is_empty();
        let shown = |c: &Caps| if g.names.is_empty() { text(c[0]) } else if named {
            format!("[{}]", g.names.iter().zip(&c[1..]).map(|(n, x)| format!("[{:?}, {}]", n.as_ref().unwrap(), text(*x))).collect::<Vec<_>>().join(", "))
        } else { format!("[{}]", c.iter().map(|x| text(*x)).collect::<Vec<_>>().join(", ")) };
        let mut pieces = vec![];
        let mut at = 0;
        for m in &ms { let (i, j) = m[0].unwrap(); pieces.push(cs[at..i].iter().collect::<String>()); at = j; }
        pieces.push(cs[at..].iter().collect());
        let re = r.print();
        let l = q(&s);
        let with = |e: &str| format!("@let(r=@regex::compile `{re}`) [{e}]");
        let find = if named && !ms.is_empty() { "@dict::items @r::find ARG" } else { "@r::find ARG" }.replace("ARG", &l);
        let find_all = if named { "@list::map($dict::items) @r::find_all ARG" } else { "@r::find_all ARG" }.replace("ARG", &l);
        let cases = vec![
            ("regex-test", with(&format!("@r::test {l}")), format!("[{}]", b(!ms.is_empty()))),
            ("regex-count", with(&format!("@r::count {l}")), format!("[{}]", ms.len())),
            ("regex-find", with(&find), format!("[{}]", ms.first().map_or(".".into(), &shown))),
            ("regex-find-all", with(&find_all), format!("[[{}]]", ms.iter().map(&shown).collect::<Vec<_>>().join(", "))),
            ("regex-split", with(&format!("@r::split {l}")), format!("[{}]", strs(pieces))),
        ];
        for (k, e, want) in cases { run.case(k, &e, !ms.is_empty(), || check_eq(&want, &eval_show(&e))); }
        if run.done() { return; }
    }
    for (re, ok) in [("(a)(?P<x>b)", false), ("(?P<x>a)(b)", false), ("(?P<x>a)(?P<y>b)", true), ("(a)(b)", true), ("(?P<x.y>a)", false), ("(?P<é>a)", false), ("(?P<a>x)(?P<a.b>y)", false), ("(?P<a.b>x)(y)", false), ("(a", false), ("a)", false), ("a**", true), ("[", false), ("(?:a)(?:b)", true), ("()", true), ("(?P<x>)", true), ("(?P<x>a)(?P<x>b)", false), ("(?P<x1>a)(?:b)", true), ("(?P<Abc>a)|b", true), ("(?:(a)|(?P<x>b))", false)] {
        let e = format!("@bool::from @regex::compile `{re}`");
        run.case("regex-compile", &e, true, || check_eq(&if ok { "True" } else { "error" }.to_string(), &eval_show(&e)));
    }
    // groups which take no part are none, also by name; an empty one is an empty text
    for (re, s, want) in [("(?P<x>a)|(?P<y>b)", "b", "[., \"b\"]"), ("(?P<x>a*)b", "b", "[\"\"]"), ("(a)?(b)", "b", "[\"b\", ., \"b\"]"), ("(a*)(b)", "b", "[\"b\", \"\", \"b\"]")] {
        let e = if re.contains("P<") { format!("@let(r=@regex::compile `{re}`) @dict::values @r::find `{s}`") } else { format!("@let(r=@regex::compile `{re}`) @r::find `{s}`") };
        run.case("regex-groups", &e, true, || check_eq(&want.to_string(), &eval_show(&e)));
    }
}

fn attributes(run: &mut Run) {
    let mut all: Vec<&str> = METHODS.iter().flat_map(|x| x.1.iter().copied()).collect();
    all.extend(["from", "parse", "compile", "keys", "values", "items", "new", "read", "reversed", "html_nodes", "tag_name", "missing", "nodes"]);
    all.sort();
    all.dedup();
    let mut subjects = values();
    subjects.truncate(60);
    for v in &subjects {
        let has: &[&str] = METHODS.iter().find(|x| x.0 == group_of(v)).map_or(&[], |x| x.1);
        for name in &all {
            // a function is no HTML
            if *name == "join" && v.show().contains("<func>") { continue; }
            let tag = match v { V::Block(s) | V::Inline(s) if s.starts_with('<') => Some(s[1..].split('>').next().unwrap()), _ => None };
            for q in ["::", "?::"] {
                let e = format!("@let(x={}) [$x{q}{name}]", v.expr());
                let want = if v == &V::None && q == "?::" { "[.]".to_string() }
                    else if *name == "tag_name" && tag.is_some() { format!("[{:?}]", tag.unwrap()) }
                    else if has.contains(name) { "[<func>]".into() } else { "error".into() };
                run.case("attribute", &e, true, || check_eq(&want, &eval_show(&e)));
            }
        }
        if run.done() { return; }
    }
    // the function of the attribute is applied to the value
    for (v, call, want) in [
        ("True", "@x::and(False).", "False"), ("False", "@x::or(True).", "True"), ("False", "@x::negate.", "True"),
        ("5", "@x::add(2, 3).", "10"), ("5", "@x::negate.", "-5"),
        ("\"abc\"", "@x::starts_with(\"a\").", "True"), ("\"abc\"", "@x::starts_with(\"abcd\").", "False"), ("\"abc\"", "@x::ends_with(\"bc\").", "True"), ("\"bc\"", "@x::ends_with(\"abc\").", "False"),
        ("\"aXb\"", "@x::split(\"X\").", "[\"a\", \"b\"]"), ("\"aXb\"", "@x::len.", "3"), ("\"aXb\"", "@x::lower.", "\"axb\""), ("\"aXb\"", "@x::upper.", "\"AXB\""), ("\"ab\"", "@x::trim.", "\"ab\""), ("\"ab\"", "@x::is_empty.", "False"), ("\"ab\"", "@x::is_whitespace.", "False"),
        ("\"Ab c\"", "@x::unique_id.", "\"ab_c\""), ("\"Abc\"", "@x::unique_id(max_length=2).", "\"ab\""),
        ("@regex::compile `a+`", "@x::count \"aabab\"", "2"), ("@regex::compile `a+`", "@x::find \"baab\"", "\"aa\""), ("@regex::compile `a+`", "@x::test \"bb\"", "False"),
        ("$str::len", "@x::name.", "\"len\""), ("$str::starts_with", "@function::name $x", "\"starts_with\""), ("$int::add", "[@function::bind($x, 4).]", "[<func>]"),
        ("<b>a</b>", "@x::is_empty.", "False"), ("<b>a</b>", "@x::is_whitespace.", "False"),
        ("[1, 2, 3]", "@x::get(1).", "2"), ("[1, 2, 3]", "@x::slice(1).", "[2, 3]"), ("[1, 2, 3]", "@x::contains(3).", "True"), ("[3, 1, 2]", "@x::sorted.", "[1, 2, 3]"), ("[3, 1, 2]", "@x::sorted(reversed=True).", "[3, 2, 1]"), ("[5]", "@x::enumerate(from=7).", "[[7, 5]]"), ("[[1], 2]", "@x::flat.", "[1, 2]"), ("[]", "@x::is_empty.", "True"), ("[1, 2]", "@x::len.", "2"),
        ("[3, 1, 2]", "@x::map(@fn $y -> [$y]).", "[[3], [1], [2]]"), ("[3, 1, 2]", "@x::find(@fn $y -> True).", "3"), ("[3]", "@x::any(@fn $y -> False).", "False"), ("[3]", "@x::all(@fn $y -> True).", "True"), ("[3, ., 4]", "@x::filter.", "[3, 4]"),
    ] {
        let e = format!("@let(x={v}) [{call}]");
        let want = format!("[{want}]");
        run.case("method", &e, true, || check_eq(&want, &eval_show(&e)));
    }
    // chains, indices, none
    for (v, name, want) in [
        ("[1, 2, 3]", "x::0", "1"), ("[1, 2, 3]", "x::2", "3"), ("[1, 2, 3]", "x::-1", "3"), ("[1, 2, 3]", "x::-3", "1"), ("[1, 2, 3]", "x::3", "error"), ("[1, 2, 3]", "x::-4", "error"), ("[]", "x::0", "error"),
        (".", "x::0", "error"), (".", "x?::0", "."), ("[1]", "x?::0", "1"), ("[1]", "x?::1", "error"), ("\"abc\"", "x::0", "error"), ("5", "x?::0", "error"), ("@dict::new(a=1).", "x::0", "error"), ("<b>a</b>", "x?::0", "error"),
        ("@dict::new(a=[5, @dict::new(b=7).]).", "x::a::1::b", "7"), ("@dict::new(a=[5, @dict::new(b=7).]).", "x::a::0", "5"), ("@dict::new(a=[5, @dict::new(b=7).]).", "x::a::1::c", "error"), ("@dict::new(a=[5, @dict::new(b=7).]).", "x::b::1", "error"),
        ("@dict::new(a=.).", "x::a", "."), ("@dict::new(a=.).", "x::a::b", "error"), ("@dict::new(a=.).", "x::a?::b", "."), ("@dict::new(a=.).", "x::a?::b?::c", "."), ("@dict::new(a=.).", "x::a?::b::c", "error"), ("@dict::new(a=.).", "x::a?::b?::0", "."), ("@dict::new(a=.).", "x::a?::0?::b", "."), ("@dict::new(a=.).", "x::a?::0::b", "error"),
        ("@dict::new(tag_name=1).", "x::tag_name", "1"), ("<b>{a}</b>", "x::tag_name", "\"b\""), ("<p>{a}</p>", "x::tag_name", "\"p\""), ("[<i>a</i>]", "x::0::tag_name", "\"i\""), ("[<i>a</i>]", "x::0::tag_name::len", "<func>"),
        (".", "x::missing", "error"), (".", "x?::missing", "."), (".", "x?::is_empty", "."), (".", "x::is_empty", "<func>"), ("1", "y", "error"), ("1", "y?::a", "error"), ("1", "x", "1"),
    ] {
        let e = format!("@let(x={v}) [${name}]");
        let want = if want == "error" { "error".to_string() } else { format!("[{want}]") };
        run.case("resolve", &e, true, || check_eq(&want, &eval_show(&e)));
    }
    // random chains into random nested values
    for _ in 0..run.scale(3000, 30000) {
        let v = nested(&mut run.rng, 3);
        let mut at = Some(v.clone());
        let mut name = String::from("x");
        for _ in 0..1 + run.rng.below(5) {
            let coalescing = run.rng.chance(1, 2);
            name += if coalescing { "?::" } else { "::" };
            let follow = run.rng.chance(5, 6);
            let step = match &at {
                Some(V::Dict(d)) if follow && !d.is_empty() => Ok(run.rng.pick(d).0.clone()),
                Some(V::List(l)) if follow && !l.is_empty() => Err(run.rng.below(2 * l.len()) as i64 - l.len() as i64),
                _ => if run.rng.chance(1, 2) { Ok(run.rng.pick(&["a", "b", "c", "len", "name"]).to_string()) } else { Err(run.rng.below(5) as i64 - 2) },
            };
            match &step { Ok(k) => name += k, Err(i) => name += &i.to_string() }
            at = at.and_then(|v| match (&v, &step) {
                (V::None, _) if coalescing => Some(V::None),
                (V::Dict(d), Ok(k)) => d.iter().find(|(x, _)| x == k).map(|(_, v)| v.clone()),
                (v, Ok(k)) => METHODS.iter().find(|x| x.0 == group_of(v)).filter(|x| x.1.contains(&k.as_str())).map(|_| V::Func),
                (V::List(l), Err(i)) => if *i >= 0 { l.get(*i as usize).cloned() } else { (l.len() as i64 + i).try_into().ok().and_then(|k: usize| l.get(k).cloned()) },
                _ => None,
            });
        }
        let e = format!("@let(x={}) [${name}]", v.expr());
        let want = at.map_or("error".to_string(), |v| format!("[{}]", v.show()));
        run.case("chain", &e, true, || check_eq(&want, &eval_show(&e)));
        if run.done() { return; }
    }
}

fn nested(rng: &mut Rng, depth: usize) -> V {
    match rng.below(if depth == 0 { 4 } else { 9 }) {
        0 | 1 => V::None,
        2 => V::Int(rng.below(9) as i64),
        3 => V::Str("t".into()),
        4..=6 => { let n = 1 + rng.below(3); V::Dict(["a", "b", "c"][..n].iter().map(|k| (k.to_string(), nested(rng, depth - 1))).collect()) },
        _ => { let n = rng.below(4); V::List((0..n).map(|_| nested(rng, depth - 1)).collect()) },
    }
}

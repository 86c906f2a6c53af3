//! C05 to C09: names, HTML values, content model, rendering.
use crate::util::*;
use papyri_lang::compiler::{Context, Value, HTML};

pub const VOID: &[&str] = &["!DOCTYPE", "area", "base", "br", "col", "command", "embed", "hr", "img", "input", "keygen", "link", "menuitem", "meta", "param", "source", "track", "wbr"];
pub const BLOCK: &[&str] = &["!DOCTYPE", "address", "article", "aside", "base", "blockquote", "body", "dd", "details", "div", "dl", "dt", "fieldset", "figcaption", "figure", "footer", "form", "h1", "h2", "h3", "h4", "h5", "h6", "head", "header", "hgroup", "hr", "html", "iframe", "li", "link", "main", "menu", "meta", "nav", "ol", "p", "pre", "script", "section", "style", "table", "template", "title", "ul"];
const NEEDS_BLOCK: &[&str] = &["article", "aside", "blockquote", "footer", "header", "main", "nav", "section"];
const ALLOWS_BOTH: &[&str] = &["a", "address", "body", "details", "div", "fieldset", "figcaption", "figure", "form", "li"];
const ONE_OF: &[(&str, &[&str])] = &[
    ("dl", &["dd", "dt"]), ("hgroup", &["p", "h1", "h2", "h3", "h4", "h5", "h6"]), ("html", &["body", "head"]),
    ("head", &["base", "link", "meta", "noscript", "script", "style", "template", "title"]),
    ("menu", &["li"]), ("ol", &["li"]), ("ul", &["li"]),
    ("table", &["tr", "tbody", "tfoot", "thead", "caption", "colgroup"]),
    ("tbody", &["tr"]), ("tfoot", &["tr"]), ("thead", &["tr"]), ("tr", &["td", "th"]),
];
const INLINE_ONLY: &[&str] = &["p", "h1", "h2", "h3", "h4", "h5", "h6"];
const OTHER: &[&str] = &["b", "i", "span", "em", "code", "td", "th", "tr", "tbody", "caption", "button", "label", "video", "canvas", "custom", "noscript", "q", "br", "img", "input", "wbr"];

/// The structure of an HTML value or document.
#[derive(Clone, Debug, PartialEq)]
pub enum N { Text(String), Tag(String, Vec<(String, Option<String>)>, Vec<N>) }
impl N {
    fn show(&self) -> String {
        match self {
            N::Text(t) => format!("{t:?}"),
            N::Tag(n, a, c) => format!("<{n}{}>{}</>", a.iter().map(|(k, v)| format!(" {k}={v:?}")).collect::<String>(), show_nodes(c)),
        }
    }
    pub fn is_block(&self) -> bool {
        match self {
            N::Text(_) => false,
            N::Tag(n, _, c) => if n == "a" { c.iter().any(N::is_block) } else { BLOCK.contains(&n.as_str()) },
        }
    }
    pub fn text(&self) -> String {
        match self { N::Text(t) => t.clone(), N::Tag(_, _, c) => c.iter().map(N::text).collect() }
    }
}
pub fn show_nodes(ns: &[N]) -> String { ns.iter().map(N::show).collect::<Vec<_>>().join(" ") }
fn push_node(out: &mut Vec<N>, n: N) {
    match n {
        N::Text(t) if t.is_empty() => {},
        N::Text(t) => match out.last_mut() { Some(N::Text(u)) => *u += &t, _ => out.push(N::Text(t)) },
        n => out.push(n),
    }
}
pub fn merge(ns: Vec<N>) -> Vec<N> {
    let mut out = vec![];
    for n in ns { push_node(&mut out, match n { N::Tag(a, b, c) => N::Tag(a, b, merge(c)), n => n }); }
    out
}

// ---------------------------------------------------------------- strict reading of rendered HTML

pub fn decode(s: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = s;
    while let Some(c) = rest.chars().next() {
        if c == '&' {
            let e = rest.find(';').ok_or("raw `&`")?;
            let name = &rest[1..e];
            let ch = match name {
                "lt" | "LT" => '<', "gt" | "GT" => '>', "amp" | "AMP" => '&', "quot" | "QUOT" => '"', "apos" => '\'',
                n if n.starts_with("#x") || n.starts_with("#X") => u32::from_str_radix(&n[2..], 16).ok().and_then(char::from_u32).ok_or("bad entity")?,
                n if n.starts_with('#') => n[1..].parse().ok().and_then(char::from_u32).ok_or("bad entity")?,
                n => return Err(format!("unexpected entity &{n};")),
            };
            out.push(ch);
            rest = &rest[e + 1..];
        } else {
            out.push(c);
            rest = &rest[c.len_utf8()..];
        }
    }
    Ok(out)
}
/// Reads rendered HTML. Every tag which is not void must be closed by a tag
/// with its name; `<`, `>` and `&` must not be raw.
pub fn parse_html(s: &str) -> Result<Vec<N>, String> {
    let mut stack: Vec<(String, Vec<(String, Option<String>)>, Vec<N>)> = vec![("".into(), vec![], vec![])];
    let mut rest = s;
    while !rest.is_empty() {
        if let Some(r) = rest.strip_prefix("</") {
            let e = r.find('>').ok_or("unterminated closing tag")?;
            let (n, a, c) = stack.pop().unwrap();
            if stack.is_empty() || n != r[..e] { return Err(format!("closing tag {} for <{n}>", &r[..e])); }
            stack.last_mut().unwrap().2.push(N::Tag(n, a, c));
            rest = &r[e + 1..];
        } else if let Some(r) = rest.strip_prefix('<') {
            let e = r.find(|c| c == ' ' || c == '>').ok_or("unterminated tag")?;
            let name = r[..e].to_string();
            if name.is_empty() { return Err("raw `<`".into()); }
            let mut attrs = vec![];
            let mut r = &r[e..];
            while let Some(q) = r.strip_prefix(' ') {
                let e = q.find(|c| c == ' ' || c == '>' || c == '=').ok_or("unterminated tag")?;
                let k = q[..e].to_string();
                if k.is_empty() { return Err("attribute without a name".into()); }
                r = &q[e..];
                if let Some(q) = r.strip_prefix("=\"") {
                    let e = q.find('"').ok_or("unterminated attribute")?;
                    let v = &q[..e];
                    if v.contains(|c| c == '<' || c == '>' || c == '\'') { return Err(format!("raw special character in attribute value {v:?}")); }
                    attrs.push((k, Some(decode(v)?)));
                    r = &q[e + 1..];
                } else {
                    attrs.push((k, None));
                }
            }
            rest = r.strip_prefix('>').ok_or("raw `<`")?;
            if VOID.contains(&name.as_str()) {
                if name == "!DOCTYPE" { rest = rest.strip_prefix('\n').unwrap_or(rest); }
                stack.last_mut().unwrap().2.push(N::Tag(name, attrs, vec![]));
            } else {
                stack.push((name, attrs, vec![]));
            }
        } else {
            let e = rest.find('<').unwrap_or(rest.len());
            let t = &rest[..e];
            if t.contains('>') { return Err("raw `>`".into()); }
            stack.last_mut().unwrap().2.push(N::Text(decode(t)?));
            rest = &rest[e..];
        }
    }
    if stack.len() > 1 { return Err(format!("<{}> is not closed", stack.last().unwrap().0)); }
    Ok(merge(stack.pop().unwrap().2))
}

// ---------------------------------------------------------------- structure of HTML values

#[cfg(papyri_verif)]
pub fn tree(ctx: &Context, h: &HTML) -> Vec<N> {
    use papyri_lang::compiler::verif;
    let mut out = vec![];
    match h {
        HTML::Empty => {},
        HTML::Text(t) => out.push(N::Text(t.to_string())),
        HTML::Whitespace => out.push(N::Text(" ".into())),
        HTML::RawNewline => out.push(N::Text("\n".into())),
        HTML::Sequence(s) => for c in s.iter() { out.extend(tree(ctx, c)); },
        HTML::Tag(t) => {
            let (n, a, c) = verif::tag_parts(t);
            let attrs = a.into_iter().map(|(k, v)| (verif::name_of(ctx, k).to_string(), v.map(|v| v.to_string()))).collect();
            out.push(N::Tag(verif::name_of(ctx, n).to_string(), attrs, tree(ctx, c)));
        },
    }
    out
}
#[cfg(not(papyri_verif))]
pub fn tree(ctx: &Context, h: &HTML) -> Vec<N> {
    let mut out = vec![];
    ctx.render(h, true, &mut out).unwrap();
    parse_html(&String::from_utf8(out).unwrap()).unwrap_or_default()
}
#[cfg(papyri_verif)]
pub fn build(ctx: &mut Context, n: &N) -> HTML {
    use papyri_lang::compiler::verif;
    match n {
        N::Text(t) => verif::to_html(ctx, &Value::Str(rc(t))),
        N::Tag(name, attrs, c) => {
            let content: Vec<HTML> = c.iter().map(|c| build(ctx, c)).collect();
            let id = verif::intern(ctx, name);
            let attrs: Vec<_> = attrs.iter().map(|(k, v)| (verif::intern(ctx, k), v.as_deref())).collect();
            verif::tag(id, &attrs, HTML::from_iter(content))
        },
    }
}

/// Checks that an HTML value is in normal form.
pub fn normal(h: &HTML) -> Result<(), (String, String)> {
    fn err(want: &str, h: &HTML) -> Result<(), (String, String)> { Err((want.to_string(), show_html(h))) }
    match h {
        HTML::Text(t) if matches!(t.as_ref(), "" | " " | "\n") => err("text is not empty, a space or a newline", h),
        HTML::Sequence(s) => {
            if s.len() < 2 { return err("a sequence has at least two items", h); }
            for c in s.iter() {
                if matches!(c, HTML::Empty | HTML::Sequence(_)) { return err("an item of a sequence is not empty or a sequence", h); }
                normal(c)?;
            }
            for w in s.windows(2) {
                if !matches!(w[0], HTML::Tag(_)) && !matches!(w[1], HTML::Tag(_)) { return err("no two adjacent items are text", h); }
            }
            Ok(())
        },
        #[cfg(papyri_verif)]
        HTML::Tag(t) => normal(papyri_lang::compiler::verif::tag_parts(t).2),
        _ => Ok(()),
    }
}
fn normal_value(v: &Value) -> Result<(), (String, String)> {
    match v {
        Value::HTML(h) => match h {
            // text is a string when it is a value
            HTML::Text(_) | HTML::Whitespace | HTML::RawNewline => Err(("text is represented as a string".into(), show_html(h))),
            h => normal(h),
        },
        Value::List(vs) => vs.as_ref().iter().try_for_each(normal_value),
        Value::Dict(vs) => vs.values().try_for_each(normal_value),
        _ => Ok(()),
    }
}

// ---------------------------------------------------------------- C05

pub fn c05(run: &mut Run) {
    run.rule("random sequences of intern, intern in lowercase and look up, over names with shared prefixes, mixed case and non-ASCII letters, against a reference map, on fresh and used pools; the predefined names one by one; names in programs: printed names of functions, parameters, dict keys, tags and attributes; non-trivial: at least 10 operations or a program");
    #[cfg(papyri_verif)]
    {
        use papyri_lang::compiler::verif;
        use papyri_lang::utils::StringPool;
        let strs = verif::const_strs();
        for (i, s) in strs.iter().enumerate() {
            run.case("predefined", s, true, || {
                let mut p = StringPool::default();
                let mut q = StringPool::default();
                let id = verif::pool_insert(&mut p, s);
                ensure(Some(id) == verif::pool_find(&q, s), format!("{s:?} is interned from the start"), "it is not")?;
                check_eq(&s.to_string(), &verif::pool_get(&q, id).to_string())?;
                ensure(strs[..i].iter().all(|t| verif::pool_insert(&mut q, t) != id), "predefined names have different identifiers", s.to_string())
            });
        }
        let mut words: Vec<String> = ["a", "A", "ab", "aB", "x", "_x", "foo", "Foo", "FOO", "fooo", "é", "É", "ß", "ẞ", "İ", "i̇", "Σ", "ς", "σ", "", " ", "\n", "<anonymous>", "!DOCTYPE", "!doctype", "P", "p", "data_line_no", "Data_Line_No", "K", "k", "ǅ"].iter().map(|s| s.to_string()).collect();
        for i in 0..40 { words.push(format!("n{i}")); words.push(format!("N{i}")); }
        for s in strs.iter().take(40) { words.push(s.to_uppercase()); words.push(s.to_string()); }
        for k in 0..run.scale(300, 20000) {
            let n = 1 + run.rng.below(60);
            let ops: Vec<(usize, usize)> = (0..n).map(|_| (run.rng.below(4), run.rng.below(words.len()))).collect();
            let case = ops.iter().map(|(o, w)| format!("{} {:?}", ["insert", "insert_lowercase", "find", "insert"][*o], words[*w])).collect::<Vec<_>>().join("; ");
            run.case("pool", &format!("#{k}: {case}"), n >= 10, || {
                let mut pool = StringPool::default();
                let mut map: std::collections::HashMap<String, papyri_lang::utils::NameID> = Default::default();
                for s in strs.iter() { map.insert(s.to_string(), verif::pool_find(&pool, s).ok_or_else(|| (format!("{s:?} is predefined"), "not found".to_string()))?); }
                for (o, w) in &ops {
                    let w = words[*w].clone();
                    match o {
                        2 => check_eq(&(&w, map.get(&w).copied()), &(&w, verif::pool_find(&pool, &w)))?,
                        o => {
                            let key = if *o == 1 { w.to_lowercase() } else { w.clone() };
                            let id = if *o == 1 { verif::pool_insert_lowercase(&mut pool, &w) } else { verif::pool_insert(&mut pool, &w) };
                            match map.get(&key) {
                                Some(old) => check_eq(&(&key, *old), &(&key, id))?,
                                None => {
                                    ensure(map.values().all(|x| *x != id), format!("a new identifier for {key:?}"), format!("{id:?}"))?;
                                    map.insert(key, id);
                                },
                            }
                        },
                    }
                }
                for (s, id) in &map { check_eq(s, &verif::pool_get(&pool, *id).to_string())?; }
                Ok(())
            });
        }
    }
    // predefined names as used by the compiler
    let natives: &[(&str, &[&str])] = &[
        ("bool", &["and", "from", "or", "negate"]), ("int", &["add", "negate", "parse"]),
        ("str", &["ends_with", "escape_html", "from", "is_empty", "is_whitespace", "len", "lower", "split", "starts_with", "trim", "unique_id", "upper"]),
        ("regex", &["compile", "count", "find", "find_all", "split", "test"]), ("function", &["bind", "name"]),
        ("html", &["escape_html", "is_empty", "is_whitespace", "parse"]),
        ("list", &["all", "any", "contains", "enumerate", "filter", "find", "flat", "get", "html_nodes", "is_empty", "join", "len", "map", "slice", "sorted", "reversed"]),
        ("dict", &["get", "is_empty", "items", "keys", "len", "new", "values"]), ("file", &["list", "read", "write"]), ("net", &["fetch_raw", "fetch_html"]),
        ("", &["code", "import", "include", "raise"]),
    ];
    for (ns, fs) in natives {
        for f in fs.iter() {
            let path = if ns.is_empty() { f.to_string() } else { format!("{ns}::{f}") };
            run.case("native-name", &path, true, || {
                check_eq(&format!("{f:?}"), &eval_show(&format!("@function::name ${path}")))
            });
        }
    }
    let progs: &[(&str, &str)] = &[
        ("@str::len abc", "3"), ("@str::upper abc", "\"ABC\""), ("@str::lower ABC", "\"abc\""), ("@str::is_empty abc", "False"),
        ("@str::is_whitespace abc", "False"), ("@str::trim ` a `", "\"a\""), ("@str::starts_with(ab, a).", "True"), ("@str::ends_with(ab, a).", "False"),
        ("@bool::and(True, False).", "False"), ("@bool::or(True, False).", "True"), ("@bool::negate True", "False"), ("@bool::from 0", "False"),
        ("@int::add(1, 2).", "3"), ("@int::negate 1", "-1"), ("@int::parse `12`", "12"), ("@list::len [1, 2]", "2"), ("@list::reversed [1, 2]", "[2, 1]"),
        ("@list::is_empty [1]", "False"), ("@list::get(0) [7]", "7"), ("@list::slice(1) [7, 8]", "[8]"), ("@list::slice(0, 1) [7, 8]", "[7]"), ("@list::flat [[1], 2]", "[1, 2]"),
        ("@list::contains(1) [1]", "True"), ("@list::enumerate(from=4) [9]", "[[4, 9]]"), ("@list::sorted(reversed=True) [1, 2]", "[2, 1]"),
        ("@list::sorted(key=$int::negate) [1, 2]", "[2, 1]"), ("@list::join(`, `) [a, b]", "\"a, b\""), ("@list::map($int::negate) [1]", "[-1]"),
        ("@list::all($bool::negate) [True]", "False"), ("@list::any($bool::negate) [True]", "False"), ("@list::find($bool::negate) [True, False]", "False"), ("@list::filter($bool::negate) [True, False]", "[False]"),
        ("@dict::keys @dict::new(b=1, a=2).", "[\"b\", \"a\"]"), ("@dict::values @dict::new(b=1, a=2).", "[1, 2]"), ("@dict::items @dict::new(b=1).", "[[\"b\", 1]]"),
        ("@dict::len @dict::new(b=1).", "1"), ("@dict::get(b) @dict::new(b=1).", "1"), ("@dict::is_empty @dict::new(b=1).", "False"),
        ("@regex::test(@regex::compile `a`) cat", "True"), ("@regex::count(@regex::compile `a`) cata", "2"), ("@regex::split(@regex::compile `a`) cat", "[\"c\", \"t\"]"), ("@regex::find_all(@regex::compile `a`) cat", "[\"a\"]"), ("@regex::find(@regex::compile `a`) cat", "\"a\""),
        ("@html::is_empty .", "True"), ("@html::is_whitespace ` `", "True"), ("@html::escape_html <b>a</b>", "\"<b>a</b>\""), ("@str::escape_html `<`", "\"&lt;\""), ("@str::unique_id(max_length=2) abc", "\"ab\""), ("@str::split(`-`) `a-b`", "[\"a\", \"b\"]"), ("@list::html_nodes {a <b>c</b>}", "*"),
        ("@let(t=<Foo>a</Foo>) $t::tag_name", "\"foo\""), ("@let(t=<b>a</b>) $t::tag_name", "\"b\""), ("@let(f=@fn fooBar($_x) . -> 1) @function::name $f", "\"fooBar\""),
        ("@let(xs=[3, 4]) @xs::len.", "2"), ("@let(xs=[3, 4]) @xs::slice(1, 2).", "[4]"), ("@let(s=ab) @s::upper.", "\"AB\""), ("@let(s=ab) @s::len.", "2"), ("@let(i=4) @i::negate.", "-4"),
    ];
    for (p, want) in progs {
        run.case("predefined-use", p, true, || if *want == "*" { eval(p).map(|_| ()).map_err(|d| (format!("{p} has a value"), d)) } else { check_eq(&want.to_string(), &eval_show_or(p)) });
    }
    // names are printed as they are written, and tags in lowercase
    for k in 0..run.scale(60, 600) {
        let names: Vec<String> = (0..2 + run.rng.below(6)).map(|i| { let n = random_string(&mut run.rng, &["a", "B", "c_", "Q", "é2", "x", "_", "9", "p", "P", "len", "name", "div"], 5).replace("é2", "e"); format!("{}{i}", if n.is_empty() || n.starts_with(|c: char| c.is_ascii_digit() || c == '_') { format!("v{n}") } else { n }) }).collect();
        let src = format!("@dict::new({}).", names.iter().enumerate().map(|(i, n)| format!("{n}={i}")).collect::<Vec<_>>().join(", "));
        run.case("dict-keys", &format!("#{k} {src}"), true, || {
            check_eq(&format!("[{}]", names.iter().map(|n| format!("{n:?}")).collect::<Vec<_>>().join(", ")), &eval_show(&format!("@dict::keys {src}")))?;
            for (i, n) in names.iter().enumerate() {
                check_eq(&i.to_string(), &eval_show(&format!("@let(d={src}) $d::{n}")))?;
                check_eq(&i.to_string(), &eval_show(&format!("@dict::get({n}) {src}")))?;
                check_eq(&format!("{n:?}"), &eval_show(&format!("@let(f=@fn {n}($_x) . -> 1) @function::name $f")).replace("error", &format!("{n:?}")))?;
            }
            check_eq(&"error".to_string(), &eval_show(&format!("@dict::get(zz_never) {src}")))?;
            let tags: String = names.iter().map(|n| format!("<span-{n}>x</span-{n}>").replace("span-", "t")).collect();
            let o = compile(&tags);
            let want: Vec<String> = names.iter().map(|n| format!("t{n}").to_lowercase()).collect();
            let got: Vec<String> = parse_html(&o.html).map_err(|e| ("well-formed HTML".to_string(), e))?.iter().flat_map(|n| match n { N::Tag(_, _, c) => c.iter().filter_map(|c| match c { N::Tag(n, ..) => Some(n.clone()), _ => None }).collect(), _ => vec![] }).collect();
            check_eq(&want, &got)
        });
        if run.done() { return; }
    }
}
fn eval_show_or(p: &str) -> String { let (a, b) = eval_show_diag(p); if a == "error" { format!("error {b}") } else { a } }

// ---------------------------------------------------------------- C06

fn random_item(rng: &mut Rng, depth: usize) -> HTML {
    match rng.below(if depth == 0 { 5 } else { 9 }) {
        0 => HTML::Empty,
        1 => HTML::Whitespace,
        2 => HTML::RawNewline,
        3 => HTML::Text(rc(rng.pick(&["a", "bc", "  ", "\n\n", " x", "x ", "é", "<", " \n", "w"]))),
        4 => TAGS.with(|t| t.borrow()[rng.below(4)].clone()),
        5 => HTML::Whitespace,
        _ => { let n = rng.below(5); HTML::from_iter((0..n).map(|_| random_item(rng, depth - 1)).collect::<Vec<_>>()) },
    }
}
thread_local! { static TAGS: std::cell::RefCell<Vec<HTML>> = std::cell::RefCell::new(vec![]); }
fn flat_items(hs: &[HTML], ctx: &Context) -> Vec<N> {
    let mut out = vec![];
    for h in hs { for n in tree(ctx, h) { push_node(&mut out, n); } }
    out
}
/// Expressions with an HTML value.
fn html_exprs(rng: &mut Rng, depth: usize) -> String {
    let atoms = ["{a <b>x</b> c}", "<p>a</p>", "{<p>a</p> <p>b</p>}", "` `", "`x`", "{}", ".", "{a\\n}", "[a, <b>x</b>]", "True", "12", "\"\\n\"", "\"\"", "{<i>q</i>}", "{ <br> }", "<a href=`u`>{t}</a>", "$s", "$e", "$h", "`\t`", "{&nbsp;}", "{ x  y }"];
    if depth == 0 || rng.chance(1, 3) { return rng.pick(&atoms).to_string(); }
    let mut e = |rng: &mut Rng| html_exprs(rng, depth - 1);
    match rng.below(12) {
        0 => format!("{{{} {}}}", e(rng), e(rng)).replace('$', "$"),
        1 => format!("{{{}{}{}}}", e(rng), e(rng), e(rng)),
        2 => format!("@list::join [{}, {}, {}]", e(rng), e(rng), e(rng)),
        3 => format!("@list::join({}) [{}, {}]", e(rng), e(rng), e(rng)),
        4 => format!("<span>{{{}}}</span>", e(rng)),
        5 => format!("<div>{} {}</div>", e(rng), e(rng)),
        6 => format!("@html::parse `<b>a</b> c <!-- x --><i></i>  d`"),
        7 => format!("@match {{ {} {} }} {{ {{ $x *$xs }} -> $xs, {{ *$ys }} -> $ys, _ -> . }}", e(rng), e(rng)),
        8 => format!("@match {{{}{}}} {{ {{ *$xs $x }} -> $xs, _ -> . }}", e(rng), e(rng)),
        9 => format!("@list::html_nodes {}", e(rng)),
        10 => format!("@list::join @list::html_nodes {}", e(rng)),
        _ => format!("@list::join @list::reversed @list::html_nodes {{{} {}}}", e(rng), e(rng)),
    }
}

pub fn c06(run: &mut Run) {
    run.rule("HTML::from_iter on random nested lists of empty, text, whitespace, newline, tag and sequence items, against flattening and merging; all lists of up to 4 (thorough: 6) basic items; every value and output of random programs which join, split, match, parse and nest HTML, checked for normal form; non-trivial: at least two items, or a program without errors");
    with_ctx(|c| {
        let o = compile_in(c, "<b>x</b><i></i><p>y z</p><a>{q}</a>");
        let mut ts = vec![];
        fn tags(h: &HTML, out: &mut Vec<HTML>) { match h { HTML::Tag(_) => { out.push(h.clone()); }, HTML::Sequence(s) => s.iter().for_each(|c| tags(c, out)), _ => {} } }
        tags(&o.1, &mut ts);
        while ts.len() < 4 { ts.push(ts[0].clone()); }
        TAGS.with(|t| *t.borrow_mut() = ts);
    });
    let check = |items: &[HTML]| -> Result<(), (String, String)> {
        with_ctx(|c| {
            let h = HTML::from_iter(items.to_vec());
            normal(&h)?;
            let want = flat_items(items, c);
            let got = tree(c, &h);
            ensure(want == got, show_nodes(&want), show_nodes(&got))
        })
    };
    let basic: Vec<HTML> = vec![HTML::Empty, HTML::Whitespace, HTML::RawNewline, HTML::Text(rc("a")), HTML::Text(rc("  ")), TAGS.with(|t| t.borrow()[0].clone()), HTML::from_iter(vec![HTML::Text(rc("u")), TAGS.with(|t| t.borrow()[1].clone()), HTML::Whitespace])];
    let max = run.scale(4, 6);
    let mut stack: Vec<Vec<HTML>> = vec![vec![]];
    while let Some(items) = stack.pop() {
        run.case("combine", &items.iter().map(show_html).collect::<Vec<_>>().join(" + "), items.len() >= 2, || check(&items));
        if run.done() { return; }
        if items.len() < max { for b in &basic { let mut v = items.clone(); v.push(b.clone()); stack.push(v); } }
    }
    for _ in 0..run.scale(2000, 40000) {
        let n = run.rng.below(7);
        let items: Vec<HTML> = (0..n).map(|_| random_item(&mut run.rng, 3)).collect();
        run.case("combine", &items.iter().map(show_html).collect::<Vec<_>>().join(" + "), items.len() >= 2, || check(&items));
        if run.done() { return; }
    }
    for _ in 0..run.scale(4000, 60000) {
        let e = html_exprs(&mut run.rng, 3);
        let mut seen = false;
        let src = format!("@let(s=` `, e=``, h={{x <b>y</b> }}) {{ @export(v={e}, w={{{e}}}). }}");
        let seen_ref = &mut seen;
        run.case("program", &src, true, || with_ctx(|c| {
            let (o, html, exports) = compile_in(c, &src);
            if o.errors > 0 { return Ok(()); }
            *seen_ref = true;
            normal(&html)?;
            exports.iter().try_for_each(normal_value)
        }));
        if run.done() { return; }
        let src = format!("@let(s=` `, e=``, h={{x <b>y</b> }}) {{ {e} }}");
        run.case("program", &src, true, || with_ctx(|c| {
            let (o, html, _) = compile_in(c, &src);
            if o.errors > 0 { return Ok(()); }
            normal(&html)
        }));
        if run.done() { return; }
    }
    for src in ["```\nxyz\n```", "`abc`", "`` ` ``", "```rust\nfn f() { 1 }\n\n  2\n```", "@code(language=`rust`, code_block=True) ```\na\n\nb```", "@code ` `", "@code ```\n```", "@code(code_block=True) ```\n```", "@code(code_block=True) ```\n\n```", "@code(language=`papyri`) ```\n<b>x</b> @f(1) $x \"q\"\n```", "@code(language=`papyri`, code_block=True) ```\n<b>x</b>\n @f(1) $x \"q\"\n\n```"] {
        run.case("code", src, true, || with_ctx(|c| normal(&compile_in(c, src).1)));
    }
}

// ---------------------------------------------------------------- C07

fn kind(ns: &[N]) -> &'static str { if ns.is_empty() { "none" } else if ns.iter().any(N::is_block) { "block" } else { "inline" } }

pub fn c07(run: &mut Run) {
    run.rule("every known tag name and some unknown ones, with empty, inline, block and mixed content, links nested up to 3 deep, and random sequences of them, against a classification from tables of block-level names; the reported type, the types which accept the value, and a match on the value's type; non-trivial: has a tag");
    let mut names: Vec<&str> = BLOCK.iter().chain(OTHER).chain(VOID).chain(NEEDS_BLOCK).chain(ALLOWS_BOTH).copied().collect();
    names.extend(ONE_OF.iter().map(|p| p.0));
    names.sort(); names.dedup();
    let t = |n: &str, c: Vec<N>| N::Tag(n.to_string(), vec![], c);
    let txt = |s: &str| N::Text(s.to_string());
    let mut cases: Vec<Vec<N>> = vec![vec![], vec![txt("x")], vec![txt(" ")], vec![txt("\n")], vec![txt("a b")], vec![txt("  ")]];
    for n in &names {
        cases.push(vec![t(n, vec![])]);
        cases.push(vec![t(n, vec![txt("x")])]);
        cases.push(vec![t(n, vec![t("p", vec![txt("x")])])]);
        cases.push(vec![t("a", vec![t(n, vec![])])]);
        cases.push(vec![t("a", vec![txt("q"), t(n, vec![])])]);
        cases.push(vec![t("a", vec![t("a", vec![t(n, vec![])])])]);
        cases.push(vec![t("span", vec![t(n, vec![])])]);
        cases.push(vec![txt("x"), t(n, vec![])]);
        cases.push(vec![t(n, vec![]), txt(" ")]);
        cases.push(vec![t(n, vec![]), t("b", vec![])]);
        cases.push(vec![t("b", vec![]), txt("z"), t(n, vec![])]);
        cases.push(vec![t("a", vec![]), t("a", vec![txt("z"), t("b", vec![]), t(n, vec![txt("u")])]), txt("x")]);
    }
    fn random_nodes(rng: &mut Rng, names: &[&str], depth: usize) -> Vec<N> {
        let n = rng.below(4);
        merge((0..n).map(|_| if depth == 0 || rng.chance(1, 3) { N::Text(rng.pick(&["x", " ", "\n", "y z"]).to_string()) } else {
            let name = if rng.chance(1, 2) { "a" } else { names[rng.below(names.len())] };
            N::Tag(name.to_string(), vec![], random_nodes(rng, names, depth - 1))
        }).collect())
    }
    for _ in 0..run.scale(1500, 30000) { cases.push(random_nodes(&mut run.rng, &names, 4)); }
    #[cfg(papyri_verif)]
    for ns in &cases {
        use papyri_lang::compiler::verif;
        run.case("value", &show_nodes(ns), ns.iter().any(|n| matches!(n, N::Tag(..))), || with_ctx(|c| {
            let items: Vec<HTML> = ns.iter().map(|n| build(c, n)).collect();
            let h = HTML::from_iter(items);
            let k = kind(ns);
            check_eq(&(k == "none", k == "block", k == "inline"), &(h.is_empty(), h.is_block(), h.is_inline()))?;
            let v = Value::HTML(h.clone());
            let want = if k == "inline" && ns.len() == 1 && matches!(ns[0], N::Text(_)) { check_eq(&"inline".to_string(), &verif::type_of(&v)) } else { check_eq(&k.to_string(), &verif::type_of(&v)) };
            want?;
            for ty in ["none", "block", "inline", "html", "any", "block?", "inline?", "int?", "int", "str", "function", "bool", "regex", "any list", "any dict"] {
                let want = match ty { "any" | "html" => true, "none" => k == "none", "block" | "block?" => k == "block" || k == "none", "inline" | "inline?" => k == "inline" || k == "none", "int?" => k == "none", _ => false };
                if matches!(ns[..], [N::Text(_)]) && matches!(ty, "str") { continue; }
                check_eq(&(ty, want), &(ty, verif::type_check(ty, &v)))?;
            }
            Ok(())
        }));
        if run.done() { return; }
    }
    // through programs: tags which can be written without restrictions
    for n in &names {
        for content in ["", "x"] {
            if VOID.contains(n) && !content.is_empty() { continue; }
            for (pre, post) in [("", ""), ("<a>", "</a>"), ("<a>q ", "</a>"), ("<a><a>", "</a></a>")] {
                let e = if VOID.contains(n) { format!("{pre}<{n}>{post}") } else { format!("{pre}<{n}>{content}</{n}>{post}") };
                run.case("program", &e, true, || {
                    let want = if BLOCK.contains(n) || *n == "a" && content == "<p>" { "block" } else { "inline" };
                    let (got, d) = eval_show_diag(&format!("@match {e} {{ _: $t -> $t }}"));
                    if got == "error" && *n == "head" && !content.is_empty() { return Ok(()); }
                    if got == "error" { return Err((want.to_string(), d)); }
                    check_eq(&format!("{want:?}"), &got)?;
                    for (ty, ok) in [("block", want == "block"), ("inline", want == "inline"), ("html", true), ("none", false), ("block?", want == "block"), ("str", false)] {
                        check_eq(&(ty, if ok { "True".to_string() } else { "False".into() }), &(ty, eval_show(&format!("@match {e} {{ _: {ty} -> True, _ -> False }}"))))?;
                    }
                    Ok(())
                });
                if run.done() { return; }
            }
        }
    }
    // parameters and variables of HTML types
    for (e, ts) in [("{a <b>c</b>}", "inline html any"), ("<p>x</p>", "block html any"), ("{}", "none block inline html any int?"), (".", "none block inline html any str?"), ("<a><div>x</div></a>", "block html any"), ("<a>x</a>", "inline html any"), ("{<p>x</p><p>y</p>}", "block html any"), ("x", "str inline html any"), ("` `", "str inline html any"), ("@list::join [<p>a</p>, `b`]", "block html any"), ("@list::join [<b>a</b>, `b`]", "inline html any"), ("@list::join [`b`, <a>{<p>a</p>}</a>]", "block html any"), ("@list::join [`b`, .]", "str inline html any")] {
        for ty in ["none", "block", "inline", "html", "any", "int?", "str?", "str"] {
            run.case("accepts", &format!("{e}: {ty}"), true, || {
                let want = ts.split(' ').any(|t| t == ty) || ts.starts_with("none") && ty.ends_with('?') || ts.starts_with("str") && ty == "str?";
                check_eq(&(if want { "True" } else { "False" }).to_string(), &eval_show(&format!("@match {e} {{ _: {ty} -> True, _ -> False }}")))
            });
        }
    }
}

// ---------------------------------------------------------------- C08

struct Gen<'r> { rng: &'r mut Rng, words: usize, tags: usize, out: String, events: Vec<Ev>, ws: bool, vars: Vec<(String, Vec<Ev>)> }
#[derive(Clone, Debug, PartialEq)]
enum Ev { Open(usize), Close(usize), Word(String) }

impl<'r> Gen<'r> {
    fn word(&mut self) { self.words += 1; let w = format!("w{}", self.words); self.out += &w; self.events.push(Ev::Word(w)); }
    fn space(&mut self) { let s: &&str = self.rng.pick(&[" ", "\n", "  ", " \n "]); let s = s.to_string(); self.out += &s; }
    fn tag(&mut self, name: &str, depth: usize) {
        self.tags += 1;
        let id = self.tags;
        self.events.push(Ev::Open(id));
        if VOID.contains(&name) {
            self.out += &format!("<{name} id=`{id}`>");
        } else {
            self.out += &format!("<{name} id=`{id}`>");
            self.content(name, depth);
            self.out += &format!("</{name}>");
        }
        self.events.push(Ev::Close(id));
    }
    fn content(&mut self, parent: &str, depth: usize) {
        let n = if depth == 0 { self.rng.below(3) } else { self.rng.below(6) };
        if self.rng.chance(1, 5) { self.space(); }
        for _ in 0..n { self.item(parent, depth); if self.rng.chance(1, 2) { self.space(); } }
    }
    fn item(&mut self, parent: &str, depth: usize) {
        let one_of = ONE_OF.iter().find(|p| p.0 == parent).map(|p| p.1);
        let inline_only = INLINE_ONLY.contains(&parent) || !(parent.is_empty() || one_of.is_some() || NEEDS_BLOCK.contains(&parent) || ALLOWS_BOTH.contains(&parent));
        let r = self.rng.below(20);
        if r < 5 || depth == 0 { self.word(); return; }
        if r == 5 && !INLINE_ONLY.contains(&parent) { self.out += "\n\n"; return; }
        if r == 6 { self.out += *self.rng.pick(&["# comment\n", "<!-- c -->", "# c "]); self.out += "\n"; return; }
        if r == 7 && depth >= 2 && !inline_only { self.splice(parent, depth); return; }
        if r == 8 && !self.vars.is_empty() {
            let i = self.rng.below(self.vars.len());
            let (v, evs) = self.vars[i].clone();
            self.out += &format!("${v} ");
            self.events.extend(evs);
            return;
        }
        if let (Some(names), true) = (one_of, r < 15) { let n: &str = *self.rng.pick(names); self.tag(n, depth - 1); return; }
        let inline = ["b", "i", "span", "a", "code", "br", "img", "em", "button", "label", "wbr"];
        let block = ["p", "div", "ul", "ol", "section", "table", "h1", "h2", "blockquote", "dl", "article", "pre", "hr", "li", "form", "a", "figure", "hgroup", "nav", "main", "details", "menu", "header", "tr", "td", "head", "html", "body", "title"];
        let n = if inline_only || self.rng.chance(1, 2) { *self.rng.pick(&inline) } else { *self.rng.pick(&block) };
        self.tag(n, depth - 1);
    }
    /// A group or joined list, which is a value spliced into the content.
    fn splice(&mut self, parent: &str, depth: usize) {
        match self.rng.below(3) {
            0 => { self.out += "{"; self.content("", depth - 1); self.out += "}"; },
            1 => { self.out += "@list::join [{"; self.content("", depth - 1); self.out += "}, {"; self.content("", depth - 1); self.out += "}, "; self.out += if self.rng.chance(1, 2) { "` `" } else { "." }; self.out += "]"; },
            _ => { self.out += "@fn_id {"; self.content(parent, depth - 1); self.out += "}"; },
        }
    }
}

fn collect_events(ns: &[N], out: &mut Vec<Ev>) {
    for n in ns {
        match n {
            N::Text(t) => {
                let mut w = String::new();
                for c in t.chars() {
                    // words are `w` followed by digits, and may touch
                    if c == 'w' || c.is_whitespace() { if !w.is_empty() { out.push(Ev::Word(std::mem::take(&mut w))); } if c == 'w' { w.push(c); } }
                    else { w.push(c); }
                }
                if !w.is_empty() { out.push(Ev::Word(w)); }
            },
            N::Tag(_, a, c) => {
                let id = a.iter().find(|p| p.0 == "id").and_then(|p| p.1.as_ref()).and_then(|v| v.parse().ok());
                if let Some(i) = id { out.push(Ev::Open(i)); }
                collect_events(c, out);
                if let Some(i) = id { out.push(Ev::Close(i)); }
            },
        }
    }
}
fn check_model(parent: &str, ns: &[N]) -> Result<(), (String, String)> {
    let bad = |want: String| Err((want, format!("<{parent}> has {}", show_nodes(ns))));
    let p = parent;
    if let Some((_, names)) = ONE_OF.iter().find(|q| q.0 == p) {
        for n in ns { match n { N::Tag(t, ..) if names.contains(&t.as_str()) => {}, _ => return bad(format!("<{p}> only has children {names:?}")) } }
    }
    if (p.is_empty() || NEEDS_BLOCK.contains(&p)) && !ns.iter().all(N::is_block) { return bad(format!("<{p}> only has block children")); }
    if ALLOWS_BOTH.contains(&p) && ns.iter().any(N::is_block) && !ns.iter().all(N::is_block) { return bad(format!("<{p}> is not a mixture of block and inline")); }
    if INLINE_ONLY.contains(&p) && ns.iter().any(N::is_block) { return bad(format!("<{p}> has no block children")); }
    if VOID.contains(&p) && !ns.is_empty() { return bad(format!("<{p}> is empty")); }
    for n in ns { if let N::Tag(t, _, c) = n { check_model(t, c)?; } }
    Ok(())
}
/// Which pairs of neighbouring inline items have whitespace between them.
fn check_spaces(ns: &[N], src: &str, vars: bool) -> Result<(), (String, String)> {
    for n in ns { if let N::Tag(_, _, c) = n { check_spaces(c, src, vars)?; } }
    if vars { return Ok(()); }
    // within one text, words touch or are separated as they are in the source
    for n in ns {
        if let N::Text(t) = n {
            let mut words = vec![];
            collect_events(&[N::Text(t.clone())], &mut words);
            for p in words.windows(2) {
                let (Ev::Word(a), Ev::Word(b)) = (&p[0], &p[1]) else { continue };
                let touch_src = src.contains(&format!("{a}{b}"));
                let touch_out = t.contains(&format!("{a}{b}"));
                let end = src.find(&format!("{b}")).map_or(true, |i| src[i + b.len()..].starts_with(|c: char| c.is_ascii_digit()));
                if end { continue; }
                if touch_src && !touch_out { return Err((format!("no space between {a} and {b}"), t.clone())); }
                let gap = src.find(a.as_str()).zip(src.find(b.as_str())).map(|(i, j)| if i + a.len() <= j { src[i + a.len()..j].to_string() } else { "?".into() });
                if let Some(g) = gap { if !g.is_empty() && g.chars().all(|c| c == ' ' || c == '\n') && touch_out { return Err((format!("space between {a} and {b}"), t.clone())); } }
            }
        }
    }
    Ok(())
}

pub fn c08(run: &mut Run) {
    run.rule("random documents of nested tags of every kind, words, spaces, paragraph breaks, groups, joined lists, function results and variables, with every source tag and word marked; the rendered output is read back and checked against the content model, and its marked tags and words must be those of the source in order; short documents over an alphabet of tags and words exhaustively; non-trivial: compiles without errors and has at least two tags in the output");
    fn check(src: &str, events: Option<&[Ev]>, vars: bool, mark: &mut bool) -> Result<(), (String, String)> {
        with_ctx(|c| {
            let (o, _, _) = compile_in(c, src);
            if o.errors > 0 { return Ok(()); }
            let ns = parse_html(&o.html).map_err(|e| ("well-formed output".to_string(), format!("{e}: {}", o.html)))?;
            *mark = ns.len() >= 2;
            check_model("", &ns)?;
            if let Some(evs) = events {
                let mut got = vec![];
                collect_events(&ns, &mut got);
                ensure(evs == got.as_slice(), format!("{evs:?}"), format!("{got:?} in {}", o.html))?;
                check_spaces(&ns, src, vars)?;
            }
            Ok(())
        })
    }
    for k in 0..run.scale(12000, 200000) {
        let mut g = Gen { rng: &mut run.rng, words: 0, tags: 0, out: String::new(), events: vec![], ws: false, vars: vec![] };
        let mut pre = String::from("@fn fn_id($x: any) $x -> $x\n");
        pre = String::from("@fn fn_id $x -> $x\n");
        if k % 4 == 0 {
            for v in ["va", "vb"] {
                let n = 1 + g.rng.below(3);
                let (o, e) = (std::mem::take(&mut g.out), std::mem::take(&mut g.events));
                for _ in 0..n { g.item("", 2); g.out += " "; }
                let (val, evs) = (std::mem::replace(&mut g.out, o), std::mem::replace(&mut g.events, e));
                pre += &format!("@let({v}={{{val}}}) >>> ");
                g.vars.push((v.to_string(), evs));
            }
        }
        let root = *g.rng.pick(&["", "", "", "div", "section", "ul", "li", "table", "a", "blockquote", "dl", "tr", "span", "h1", "p"]);
        let depth = 1 + g.rng.below(4);
        if root.is_empty() { g.content("", depth); } else { g.tag(root, depth); }
        if g.rng.chance(1, 3) { g.out += "\n\n"; g.content("", depth); }
        let has_vars = !g.vars.is_empty();
        let (out, events, _) = (g.out, g.events, g.ws);
        let src = if has_vars { let mut body = out.clone(); for part in pre.trim_start_matches("@fn fn_id $x -> $x\n").split(" >>> ").filter(|s| !s.is_empty()).collect::<Vec<_>>().into_iter().rev() { body = format!("{part} {{{body}}}"); } format!("@fn fn_id $x -> $x\n{body}") } else { format!("{pre}{out}") };
        let mut mark = false;
        run.case("document", &src, false, || check(&src, Some(&events), has_vars, &mut mark));
        if mark { run.note("document", &src); }
        if run.done() { return; }
    }
    // short documents, exhaustively
    let parts: &[&str] = &["x", " ", "\n\n", "<p>y</p>", "<b>z</b>", "<li>q</li>", "<br>", "{u <i>v</i>}", "$m"];
    let n = run.scale(3, 4);
    let mut all = vec![];
    all_strings_parts(parts, n, &mut vec![], &mut |ps| all.push(ps.concat()));
    for root in ["", "div", "ul", "section", "a", "li", "span", "h2", "dl", "table", "tr", "td", "p", "body", "nav", "figure", "custom", "hgroup"] {
        for s in &all {
            let body = if root.is_empty() { s.clone() } else { format!("<{root}>{s}</{root}>") };
            let src = format!("@let(m=@list::join [`s`, <div>t</div>, ` `]) {{{body}}}");
            let mut mark = false;
            run.case("short", &src, false, || check(&src, None, true, &mut mark));
            if mark { run.note("short", &src); }
            if run.done() { return; }
        }
    }
    for s in ["$m", "[$m]", "[$m, $m]", "@dict::new(a=$m).", "[[$m]]", "<$n>$m</>", "<$n></>", "<a>$m</a>", "<ul>$m</ul>", "<table>$m</table>", "@list::map(@fn $x -> <div>$x</div>) [$m, q]", "<p>$d</p>", "<ul>$d $d</ul>", "<li>$l</li>"] {
        let src = format!("@let(m=@list::join [`s`, <div>t</div>, ` `], n=section, d=<b>k</b>, l=[1, <p>2</p>]) {{{s}}}");
        let mut mark = false;
        run.case("value", &src, true, || check(&src, None, true, &mut mark));
    }
    // joined lists of every mixture of items, wherever a value can be put
    let (mut joins, n) = (vec![], run.scale(3, 4));
    all_strings_parts(&["`s`", "` `", "<div>t</div>", "<b>k</b>", "<p>z</p>", "<li>q</li>"], n, &mut vec![], &mut |ps| joins.push(ps.join(", ")));
    for j in &joins {
        for s in ["$m", "[$m]", "[$m, $m]", "$m, x", "[[$m], 1]", "@dict::new(a=$m, b=$m).", "<ul>$m</ul>", "<$n>$m</>", "<li>$m $m</li>", "<blockquote>x $m</blockquote>", "<a>$m</a>", "<td>$m</td>", "@list::map(@fn $x -> <$n>$x</>) [$m, q]"] {
            let src = format!("@let(m=@list::join [{j}], n=section) {{{s}}}");
            let mut mark = false;
            run.case("joined", &src, true, || check(&src, None, true, &mut mark));
            if run.done() { return; }
        }
    }
}
fn all_strings_parts<'a>(alphabet: &[&'a str], left: usize, cur: &mut Vec<&'a str>, f: &mut impl FnMut(&[&'a str])) {
    f(cur);
    if left == 0 { return; }
    for a in alphabet { cur.push(a); all_strings_parts(alphabet, left - 1, cur, f); cur.pop(); }
}

// ---------------------------------------------------------------- C09

fn strip_nl(s: &str) -> String { s.chars().filter(|c| *c != '\n').collect() }
fn plain(ns: &[N]) -> String {
    ns.iter().map(|n| match n { N::Text(t) => strip_nl(t), N::Tag(n, _, _) if n == "hr" => "\u{2015}".into(), N::Tag(_, _, c) => plain(c) }).collect()
}
fn render(c: &Context, h: &HTML, as_html: bool) -> String {
    let mut out = vec![];
    c.render(h, as_html, &mut out).unwrap();
    String::from_utf8(out).unwrap()
}

pub fn c09(run: &mut Run) {
    run.rule("every character of Unicode as text, as attribute value and through escape_html; random strings of special characters; random trees of tags with attributes of every form, rendered and read back by a strict reader, as HTML and as plain text; non-trivial: has a special character or a tag");
    // every character, in blocks
    let mut block = String::new();
    let mut blocks = vec![];
    for c in (0..=0x10FFFFu32).filter_map(char::from_u32) {
        block.push(c);
        if block.chars().count() == 512 { blocks.push(std::mem::take(&mut block)); }
    }
    blocks.push(block);
    let mut texts: Vec<String> = vec![];
    let special = ["<", ">", "&", "\"", "'", "a", " ", "\n", "&lt;", "&amp;", "&#60;", "#", ";", "é", "\u{a0}", "-", "_", "="];
    all_strings(&special[..6], 3, |s| texts.push(s.to_string()));
    for _ in 0..run.scale(2000, 60000) { texts.push(random_string(&mut run.rng, &special, 10)); }
    let no_ctrl = |s: &str| s.to_string();
    for s in blocks.iter().chain(&texts) {
        let s = no_ctrl(s);
        run.case("text", &s, s.contains(['<', '>', '&', '"', '\'']), || with_ctx(|c| {
            let h = HTML::Text(rc(&s));
            let out = render(c, &h, true);
            ensure(!out.contains(['<', '>']), "no raw `<` or `>`", out.clone())?;
            check_eq(&Ok(s.clone()), &decode(&out))?;
            check_eq(&s, &render(c, &h, false))
        }));
        #[cfg(papyri_verif)]
        run.case("attribute", &s, s.contains(['<', '>', '&', '"', '\'']), || with_ctx(|c| {
            use papyri_lang::compiler::verif;
            let (n, k) = (verif::intern(c, "b"), verif::intern(c, "data_foo"));
            let out = render(c, &verif::tag(n, &[(k, Some(&s))], HTML::Empty), true);
            let v = out.strip_prefix("<b data-foo=\"").and_then(|o| o.strip_suffix("\"></b>")).ok_or_else(|| ("<b data-foo=\"…\"></b>".to_string(), out.clone()))?;
            ensure(!v.contains(['<', '>', '"', '\'']), "no raw `<`, `>` or quotes", v)?;
            check_eq(&Ok(s.clone()), &decode(v))
        }));
        if run.done() { return; }
    }
    for s in texts.iter().step_by(3) {
        let Some(lit) = str_lit(s) else { continue };
        for f in ["str", "html"] {
            run.case("escape_html", &format!("@{f}::escape_html {lit}"), true, || match eval(&format!("@{f}::escape_html {lit}")) {
                Ok(Value::Str(out)) => { ensure(!out.contains(['<', '>']), "no raw `<` or `>`", out.to_string())?; check_eq(&Ok(s.clone()), &decode(&out)) },
                r => Err((format!("{s:?} escaped"), format!("{r:?}"))),
            });
        }
        if run.done() { return; }
    }
    // line breaks and spaces, within tags or not, are text too
    #[cfg(papyri_verif)]
    for n in 1..=run.scale(4, 5) {
        let mut all = vec![];
        all_strings(&["a", "<", " ", "\n", "T"], n, |s| if s.len() == n { all.push(s.to_string()) });
        for s in all {
            run.case("line-break", &s, s.contains('\n'), || with_ctx(|c| {
                use papyri_lang::compiler::verif;
                let span = verif::intern(c, "span");
                let h: Vec<HTML> = s.chars().map(|ch| match ch { ' ' => HTML::Whitespace, '\n' => HTML::RawNewline, 'T' => verif::tag(span, &[], HTML::from_iter([HTML::RawNewline, HTML::Text(rc(">")), HTML::Whitespace])), ch => HTML::Text(rc(&ch.to_string())) }).collect();
                let h = HTML::from_iter(h);
                check_eq(&s.replace('T', "\n> "), &render(c, &h, false))?;
                check_eq(&s.replace('<', "&lt;").replace('T', "<span>\n&gt; </span>"), &render(c, &h, true))
            }));
            if run.done() { return; }
        }
    }
    // trees
    fn random_tree(rng: &mut Rng, depth: usize) -> Vec<N> {
        let n = rng.below(4);
        (0..n).map(|_| if depth == 0 || rng.chance(1, 3) {
            N::Text(random_string(rng, &["x", "<", "&", "\"", "'", " ", "\n", "é", "&gt;"], 4))
        } else {
            let name = *rng.pick(&["p", "b", "br", "hr", "img", "div", "ul", "li", "custom", "a", "table", "td", "!DOCTYPE", "pre", "h1", "input", "meta", "script", "source", "span"]);
            let mut attrs: Vec<(String, Option<String>)> = vec![];
            for k in ["id", "class", "data-x", "href", "z", "aria-a-b", "-q", "w--"] {
                if rng.chance(1, 3) { attrs.push((k.to_string(), if rng.chance(1, 4) { None } else { Some(random_string(rng, &["x", "<", "&", "\"", "'", " ", "é", ">", "="], 4)) })); }
            }
            if rng.chance(1, 3) { attrs.reverse(); }
            N::Tag(name.to_string(), attrs, if VOID.contains(&name) { vec![] } else { random_tree(rng, depth - 1) })
        }).collect()
    }
    for _ in 0..run.scale(4000, 60000) {
        let t = merge(random_tree(&mut run.rng, 4));
        #[cfg(papyri_verif)]
        run.case("tree", &show_nodes(&t), t.len() > 1, || with_ctx(|c| {
            let items: Vec<HTML> = t.iter().map(|n| build(c, n)).collect();
            let h = HTML::from_iter(items);
            let out = render(c, &h, true);
            let got = parse_html(&out).map_err(|e| (show_nodes(&t), format!("{e}: {out}")))?;
            ensure(t == got, show_nodes(&t), show_nodes(&got))?;
            check_eq(&plain(&t), &strip_nl(&render(c, &h, false)))?;
            if t.iter().all(no_block) { check_eq(&texts_of(&t), &render(c, &h, false))?; }
            let src = tree_source(&t);
            Ok(src)
        }).map(|_| ()));
        if run.done() { return; }
        // written as a program
        let t: Vec<N> = t.into_iter().filter(|n| matches!(n, N::Tag(..))).collect();
        if let Some(src) = t.first().and_then(|n| inline_only(n).then(|| tree_source(std::slice::from_ref(n)))) {
            run.case("program", &src, true, || with_ctx(|c| {
                let (o, _, _) = compile_in(c, &src);
                if o.errors > 0 { return Ok(()); }
                let got = parse_html(&o.html).map_err(|e| ("well-formed output".to_string(), format!("{e}: {}", o.html)))?;
                let got = match got.as_slice() { [N::Tag(n, a, c)] if n == "p" && a.is_empty() && !t[0].is_block() => c.clone(), _ => got };
                ensure(trim_all(&t[..1]) == trim_all(&got), show_nodes(&t[..1]), show_nodes(&got))
            }));
            if run.done() { return; }
        }
    }
}
fn no_block(n: &N) -> bool { match n { N::Text(_) => true, N::Tag(name, _, c) => !n.is_block() && name != "hr" && name != "p" && c.iter().all(no_block) } }
fn texts_of(ns: &[N]) -> String { ns.iter().map(|n| match n { N::Text(t) => t.clone(), N::Tag(_, _, c) => texts_of(c) }).collect() }
fn inline_only(n: &N) -> bool {
    match n { N::Text(_) => true, N::Tag(n, _, c) => ["b", "custom", "span", "br", "img", "input", "source", "pre", "script"].contains(&n.as_str()) && c.iter().all(|c| inline_only(c) && !c.is_block()) }
}
fn trim_all(ns: &[N]) -> Vec<N> {
    let mut out: Vec<N> = ns.iter().map(|n| match n { N::Tag(n, a, c) => N::Tag(n.clone(), a.clone(), trim_all(c)), t => t.clone() }).collect();
    if let Some(N::Text(t)) = out.first_mut() { *t = t.trim_start().to_string(); }
    if let Some(N::Text(t)) = out.last_mut() { *t = t.trim_end().to_string(); }
    out.retain(|n| !matches!(n, N::Text(t) if t.is_empty()));
    out
}
fn tree_source(ns: &[N]) -> String {
    ns.iter().map(|n| match n {
        N::Text(t) => format!("$str::from::zz{t}").replace(&format!("$str::from::zz{t}"), &format!("@str::from {}", template_lit(t).unwrap())),
        N::Tag(n, a, c) => {
            let attrs: String = a.iter().map(|(k, v)| format!(" {}{}", k.replace('-', "_"), v.as_ref().map(|v| format!("={}", template_lit(v).unwrap())).unwrap_or_default())).collect();
            if VOID.contains(&n.as_str()) { format!("<{n}{attrs}>") } else { format!("<{n}{attrs}>{}</{n}>", tree_source(c)) }
        },
    }).collect()
}

//! C21: formatted code keeps the code.
use papyri_lang::compiler::{Value, HTML};
use papyri_lang::utils::text;
use crate::html::{parse_html, N};
use crate::util::*;

fn blank(s: &str) -> bool { s.chars().all(char::is_whitespace) }
/// The lines which must be shown for a source text.
fn ref_lines(src: &str, block: bool) -> Vec<String> {
    let mut lines: Vec<&str> = src.split('\n').collect();
    if block && lines.len() > 1 {
        let hint = lines[0].trim_end();
        if hint.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && hint.chars().all(|c| c.is_ascii_alphanumeric() || c == '_') { lines.remove(0); }
    }
    while lines.first().map_or(false, |l| blank(l)) { lines.remove(0); }
    while lines.last().map_or(false, |l| blank(l)) { lines.pop(); }
    let Some(first) = lines.first() else { return vec![] };
    let indent = &first[..first.len() - first.trim_start().len()];
    let n = lines.len();
    lines.iter().enumerate().map(|(i, l)| {
        let l = l.strip_prefix(indent).unwrap_or_else(|| l.trim_start());
        let l = l.strip_suffix('\r').unwrap_or(l);
        if i + 1 == n { l.trim_end().to_string() } else { l.to_string() }
    }).collect()
}
fn text_of(ns: &[N]) -> String { ns.iter().map(N::text).collect() }
fn unix(s: &str) -> String { s.replace("\r\n", "\n") }
/// The lines of a numbered listing: line number and text.
fn listing(ns: &[N]) -> Result<Vec<(String, String)>, String> {
    let mut out = vec![];
    let mut expect_break = false;
    for n in ns {
        match n {
            N::Text(t) if t == "\n" && expect_break => expect_break = false,
            N::Tag(name, at, c) if name == "span" && !expect_break && at.contains(&("class".into(), Some("line".into()))) => {
                let no = at.iter().find(|a| a.0 == "data-line-no").and_then(|a| a.1.clone()).ok_or("no line number")?;
                let t = text_of(c);
                out.push((no, t.strip_suffix('\r').unwrap_or(&t).to_string()));
                expect_break = true;
            },
            n => return Err(format!("{n:?}")),
        }
    }
    Ok(out)
}
fn check(src: &str, lang: Option<&str>, block: Option<i128>) -> Result<(), (String, String)> {
    let Some(lit) = str_lit(src) else { return Ok(()) };
    let lit = if src.is_empty() { "\"\"".to_string() } else { lit };
    let lang = lang.map_or("language=.".to_string(), |l| format!("language=`{l}`"));
    let expr = match block { None => format!("@code({lang}) {lit}"), Some(n) => format!("@code({lang}, code_block=True, first_line_no={n}) {lit}") };
    let (html, plain) = with_ctx(|ctx| {
        ctx.reset();
        match eval_in(ctx, &expr) {
            Ok(Value::HTML(h)) => {
                let (mut a, mut b) = (vec![], vec![]);
                ctx.render(&h, true, &mut a).unwrap();
                ctx.render(&h, false, &mut b).unwrap();
                Ok((String::from_utf8(a).unwrap(), String::from_utf8(b).unwrap()))
            },
            Ok(v) => Err(("HTML".to_string(), show(&v))),
            Err(e) => Err(("no error".to_string(), e)),
        }
    })?;
    let nodes = parse_html(&html).map_err(|e| ("well-formed HTML".to_string(), format!("{e}: {html}")))?;
    let [N::Tag(name, _, body)] = &nodes[..] else { return Err(("one code tag".into(), html)) };
    ensure(name == "code", "a code tag", &html[..])?;
    let want = ref_lines(src, block.is_some());
    match block {
        None => check_eq(&want.concat().replace('\r', ""), &text_of(body).replace('\r', "")),
        Some(n) => {
            let got = listing(body).map_err(|e| ("numbered lines".to_string(), e))?;
            if want.is_empty() { return ensure(got.iter().all(|l| l.1.is_empty()), "nothing", html); }
            let want: Vec<(String, String)> = want.into_iter().enumerate().map(|(i, l)| ((n + i as i128).to_string(), l)).collect();
            check_eq(&want, &got)?;
            let text: String = want.iter().map(|l| format!("{}\n", l.1)).collect();
            ensure(unix(&plain).trim_end() == text.trim_end(), text.clone(), plain)
        },
    }
}

const PIECES: &[&str] = &["fn ", "f", "(", ")", "[", "]", "{", "}", "\"", "'", "a b", "# c", "// d", "/* e", "*/", "http://x.y/z?a=1&b", "https://é.z", "\"http://q\"", "<b>", "</b>", "<", ">", "&", "&amp;", "@let(x=1) ", "$x", "\\", "\\n", "0x1F", "1.5", "==", "->", "\n", "\n", "\n  ", "\n    ", "\n\t", "  ", "\t", "é", "虎", "😀", "let x = 1;", "def g(y):", "`", "``", ":", ",", ".", "...", "_", "True", "\n\n", "\u{a0}", "\u{c}", "-", "#", "<!-- c -->", "@x", "::", "?"];
const LANGS: &[&str] = &["none", "papyri", "rust", "python", "js", "html", "json", "c", "java", "nope", "css", "xml", "sh", "yaml", "md"];

pub fn c21(run: &mut Run) {
    run.rule("random code of 1 to 24 pieces (parentheses, strings, comments, URLs, tags, entities, papyri syntax, indentation, non-ASCII) in each language, inline and as blocks with any first line number: the text of the produced HTML against the lines computed from the source");
    for i in 0..run.scale(5000, 60000) {
        if run.done() { return; }
        let mut src = random_string(&mut run.rng, PIECES, 24);
        if run.rng.chance(1, 4) { src = format!("{}{src}", run.rng.pick(&["rust\n", "papyri\n", "python  \n", "nope\n", "not a name\n", "\n", "  \n  ", "    ", "\t", " rust\n"])); }
        if run.rng.chance(1, 12) { src = src.replace('\n', "\r\n"); }
        // highlighting with syntect is slow
        let lang = if i % 4 < 2 { *run.rng.pick(&["none", "papyri"]) } else { *run.rng.pick(LANGS) };
        let lang = if run.rng.chance(1, 15) { None } else { Some(lang) };
        let block = if run.rng.chance(1, 3) { None } else { Some(match run.rng.below(6) { 0 => run.rng.below(2000) as i128, 1 => i64::MAX as i128 - run.rng.below(3) as i128, 2 => -(run.rng.below(50) as i128), _ => 1 }) };
        run.case("code", &format!("{lang:?} {block:?} {src:?}"), src.len() > 1, || check(&src, lang, block));
    }
    run.rule("all texts of up to 5 (thorough: 6) of \"a\", newline, space, tab, \"(\", \")\"");
    let n = run.scale(5, 6);
    let mut all = vec![];
    all_strings(&["a", "\n", " ", "\t", "(", ")"], n, |s| all.push(s.to_string()));
    for (i, s) in all.iter().enumerate() {
        let (l, b) = [("none", Some(1)), ("papyri", Some(7)), ("papyri", None), ("none", None)][i % 4];
        run.case("small", &format!("{l} {b:?} {s:?}"), s.len() > 1, || check(s, Some(l), b));
        run.case("fix_indentation", &format!("{s:?}"), s.len() > 1, || check_eq(&ref_lines(s, false).join("\n"), &text::fix_indentation(s)));
        if run.done() { return; }
    }
    run.rule("the same texts behind a first line: the language hint");
    for first in ["rust", "_a9", "a b", "9a", "rust  ", " rust", "é", ""] {
        for rest in ["x", "", " y\nz", "a\nb"] {
            for nl in ["\n", ""] {
                let s = format!("{first}{nl}{rest}");
                let id = |s: &str| s.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_') && s.chars().all(|c| c.is_ascii_alphanumeric() || c == '_');
                let want = match s.split_once('\n') { Some((a, b)) if id(a.trim_end()) => (a.trim_end(), b), _ => ("dflt", &s[..]) };
                run.case("hint", &format!("{s:?}"), true, || check_eq(&want, &text::get_source_language_hint(&s, "dflt")));
            }
        }
    }
    run.rule("code fences in documents: the text of the document");
    for _ in 0..run.scale(300, 5000) {
        if run.done() { return; }
        let body = random_string(&mut run.rng, PIECES, 12).replace('`', "");
        if blank(&body) { continue; }
        let lang = *run.rng.pick(&["papyri", "rust", "none", "python"]);
        let src = format!("```{lang}\n{body}\n```");
        run.case("fence", &src, true, || {
            let o = compile(&src);
            ensure(o.errors == 0, "no errors", o.diags.clone())?;
            let nodes = parse_html(&o.html).map_err(|e| ("well-formed HTML".to_string(), e))?;
            let want: String = ref_lines(&body, false).iter().map(|l| format!("{l}\n")).collect();
            check_eq(&want, &unix(&text_of(&nodes)))
        });
        let one: String = body.chars().filter(|c| *c != '\n').collect();
        if blank(&one) { continue; }
        let src = format!("x `{one}` y");
        run.case("inline", &src, true, || {
            let o = compile(&src);
            ensure(o.errors == 0, "no errors", o.diags.clone())?;
            let nodes = parse_html(&o.html).map_err(|e| ("well-formed HTML".to_string(), e))?;
            check_eq(&format!("x {} y", one.trim()), &text_of(&nodes).trim().to_string())
        });
    }
    let _ = HTML::Empty;
}

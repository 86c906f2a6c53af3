//! C01, C02, C03, C23: tokens, positions, escapes and entities.
use crate::util::*;

/// One token by the reference lexer, which works on characters.
#[derive(Clone, Debug, PartialEq)]
pub struct RTok { pub kind: String, pub start: usize, pub end: usize, pub errors: u32 }

fn is_ws(c: char) -> bool { matches!(c, ' ' | '\t' | '\n' | '\r' | '\u{c}') }
fn id0(c: char) -> bool { matches!(c, 'a'..='z' | 'A'..='Z' | '_') }
fn id1(c: char) -> bool { id0(c) || matches!(c, '0'..='9') }
fn hex(c: char) -> bool { matches!(c, '0'..='9' | 'a'..='f' | 'A'..='F') }

/// The first token of a non-empty text: kind, length in characters, errors.
/// Quotes are given without a direction.
fn ref_token(s: &[char]) -> (String, usize, u32) {
    let at = |i: usize| s.get(i).copied();
    let run = |from: usize, f: &dyn Fn(char) -> bool| { let mut i = from; while i < s.len() && f(s[i]) { i += 1 } i };
    let starts = |i: usize, p: &str| { let p: Vec<char> = p.chars().collect(); s.len() >= i + p.len() && s[i..i + p.len()] == p[..] };
    let find = |from: usize, p: &str| (from..=s.len()).find(|&i| starts(i, p));
    let text = |a: usize, b: usize| s[a..b].iter().collect::<String>();
    let newlines = |a: usize, b: usize| s[a..b].iter().filter(|c| **c == '\n').count();
    let k = |k: &str, n: usize| (k.to_string(), n, 0);
    let c = s[0];
    if c == '#' {
        let i = run(1, &|c| c != '\n');
        let j = run(i, &is_ws);
        return k("Comment", if newlines(i, j) >= 2 { i } else { j });
    }
    if is_ws(c) {
        let j = run(0, &is_ws);
        return k(if newlines(0, j) >= 2 { "Newline" } else { "Whitespace" }, j);
    }
    if id0(c) {
        let j = run(0, &id1);
        return match text(0, j).as_str() {
            "True" => k("Boolean(true)", j), "False" => k("Boolean(false)", j), "_" => k("Underscore", j), _ => k("Name", j),
        };
    }
    if c.is_ascii_digit() { return k("Number", run(0, &|c| c.is_ascii_digit())); }
    if (c == '$' || c == '@') && at(1).map_or(false, id0) {
        let j = run(1, &id1);
        if c == '$' { return k("VarName", j); }
        return match text(1, j).as_str() {
            "export" => k("Keyword(Export)", j), "fn" => k("Keyword(Fn)", j), "implicit" => k("Keyword(Implicit)", j),
            "let" => k("Keyword(Let)", j), "match" => k("Keyword(Match)", j), _ => k("FuncName", j),
        };
    }
    if c == '&' && at(1).map_or(false, |c| c.is_ascii_alphabetic() || c == '#') {
        let j = run(2, &|c| !is_ws(c) && c != ';');
        return if at(j) == Some(';') { k("Entity", j + 1) } else { ("Entity".into(), j, 1) };
    }
    if c == '\\' {
        return match at(1) {
            None | Some('\n') => ("RawText".into(), 1, 1),
            Some(x @ ('x' | 'u' | 'U')) => {
                let n = match x { 'x' => 2, 'u' => 4, _ => 8 };
                if s.len() >= 2 + n && s[2..2 + n].iter().all(|c| hex(*c)) { k("Escape", 2 + n) } else { ("RawText".into(), 2, 1) }
            },
            Some(_) => k("Escape", 2),
        };
    }
    if c == '`' {
        let n = run(0, &|c| c == '`');
        let kind = if n >= 3 { "Verbatim(Multiline)" } else { "Verbatim(Simple)" };
        let delim = "`".repeat(n);
        return match find(n, &delim) {
            None => (kind.into(), s.len(), 1),
            Some(p) => {
                let e = run(p, &|c| c == '`');
                let err = e - p > n || n < 3 && newlines(n, p) > 0;
                (kind.into(), e, err as u32)
            },
        };
    }
    if c == '<' {
        if starts(0, "<!--") { return k("Comment", find(4, "-->").map_or(s.len(), |i| i + 3)); }
        if at(1) == Some('/') {
            if at(2).map_or(false, id0) {
                let j = run(2, &id1);
                return if at(j) == Some('>') { k("CloseTag", j + 1) } else { ("RawText".into(), j, 1) };
            }
            return if at(2) == Some('>') { k("CloseTag", 3) } else { ("RawText".into(), 2, 1) };
        }
        return k("LAngle", 1);
    }
    if c == '-' && at(1).map_or(false, |c| c.is_ascii_digit()) { return k("Number", run(1, &|c| c.is_ascii_digit())); }
    // longest punctuation first
    for (p, kind) in [
        ("...", "Ellipsis"), ("?::", "QuestionMarkDoubleColon"), ("->", "Arrow"), ("/>", "RAngle"), ("**", "DoubleAsterisk"), ("::", "DoubleColon"),
        ("(", "LPar"), (")", "RPar"), ("[", "LSqb"), ("]", "RSqb"), ("{", "LBrace"), ("}", "RBrace"), (">", "RAngle"), ("&", "Ampersand"),
        ("|", "Bar"), (",", "Comma"), ("=", "Equals"), ("!", "ExclamationMark"), ("*", "Asterisk"), (":", "Colon"), ("?", "QuestionMark"),
        (".", "Dot"), ("'", "Quote(Single)"), ("\"", "Quote(Double)"),
    ] {
        if starts(0, p) { return k(kind, p.len()); }
    }
    // raw text begins with any other character
    let special = |c: char| "()[]{}<>.,-=:*!?/|#@$&\\`'\"".contains(c);
    k("RawText", run(1, &|c| !special(c) && !id1(c) && !is_ws(c)))
}

pub fn ref_tokens(src: &str) -> Vec<RTok> {
    let chars: Vec<char> = src.chars().collect();
    let (mut i, mut b) = (0, 0);
    let mut out: Vec<RTok> = vec![];
    while i < chars.len() {
        let (mut kind, n, errors) = ref_token(&chars[i..]);
        if kind.starts_with("Quote(") {
            // the direction depends only on what precedes the quote
            let opens = match out.last() {
                None => true,
                Some(p) => ["Whitespace", "Newline", "Equals", "LBrace", "LPar", "LSqb", "RAngle"].contains(&p.kind.as_str()),
            };
            kind = kind.replace(')', if opens { ", Left)" } else { ", Right)" });
        }
        let len: usize = chars[i..i + n].iter().map(|c| c.len_utf8()).sum();
        out.push(RTok { kind, start: b, end: b + len, errors });
        i += n; b += len;
    }
    out
}

fn strip(toks: &[RTok]) -> Vec<RTok> {
    let mut out: Vec<RTok> = vec![];
    let ws = |t: &RTok| t.kind == "Whitespace" || t.kind == "Newline";
    for t in toks.iter().filter(|t| t.kind != "Comment") {
        if ws(t) && out.last().map_or(false, ws) {
            if t.kind == "Newline" { *out.last_mut().unwrap() = t.clone(); }
        } else { out.push(t.clone()); }
    }
    out
}

pub const PIECES: &[&str] = &[
    "a", "x", "u", "U", "Z", "_", "0", "9", "f", "e0", "41", " ", "\n", "\t", "\r", "\u{c}", "\u{b}", "\u{a0}", "#", "<", "!", "--", "<!--", "-->", "/", ">", "`", "``", "```", "````",
    "\\", "\\x", "\\u", "\\U", "\"", "'", "&", "&#", ";", "@", "$", "é", "虎", "😀", "\u{301}", "-", "->", "*", "**", "?", "?::", ":", "::", ".", "...", "=", "{", "}", "(", ")", "[", "]", "|", ",",
    "True", "False", "@fn", "@let", "@match", "@export", "@implicit", "@foo", "$x", "</", "</a>", "/>", "1234", "ABCDEF01", "%", "^", "+", "~", "\0", "\u{7f}",
];

#[cfg(papyri_verif)]
fn got_tokens(src: &str, strip: bool) -> (Vec<RTok>, u32) {
    let (ts, e) = papyri_lang::compiler::verif::tokens(src, strip);
    (ts.into_iter().map(|(k, s, e)| RTok { kind: format!("{k:?}"), start: s, end: e, errors: 0 }).collect(), e)
}

/// Calls `f` with texts made to contain interesting tokens.
fn texts(run: &mut Run, mut f: impl FnMut(&mut Run, &str)) {
    run.rule("texts: all sequences of 2 (thorough: 3 over a smaller set) pieces of the lexical grammar, all strings of up to 5 (thorough: 7) characters over a few small alphabets, and random sequences of up to 12 pieces; non-trivial: at least 2 characters");
    let n = if run.thorough { 3 } else { 2 };
    let mut all = vec![];
    let small: Vec<&str> = if run.thorough { PIECES.iter().step_by(2).copied().collect() } else { PIECES.to_vec() };
    all_strings(&small, n, |s| all.push(s.to_string()));
    let k = run.scale(5, 7);
    for alpha in [&[" ", "\n", "#", "a"] as &[&str], &["`", "a", "\n"], &["<", "!", "-", ">"], &["\\", "x", "1", "é"], &["'", "=", " "], &["-", "1", ">", "."], &["&", "a", ";", " "], &["<", "/", "a", ">"], &["?", ":", ".", "*"], &["\n", " ", "<!---->", "#", "\t"], &["\n\n", "  ", "<!--c-->", "'"]] {
        all_strings(alpha, k, |s| all.push(s.to_string()));
    }
    for s in &all { f(run, s); if run.done() { return; } }
    for _ in 0..run.scale(20000, 400000) {
        let s = random_string(&mut run.rng, PIECES, 12);
        f(run, &s);
        if run.done() { return; }
    }
}

#[cfg(papyri_verif)]
pub fn c01(run: &mut Run) {
    texts(run, |run, s| run.case("tile", s, s.chars().count() >= 2, || {
        let (full, _) = got_tokens(s, false);
        let mut pos = 0;
        for t in &full {
            ensure(t.start == pos && t.end > t.start && s.is_char_boundary(t.end), format!("a token starting at {pos}"), format!("{full:?}"))?;
            pos = t.end;
        }
        ensure(pos == s.len(), "tokens up to the end", format!("{full:?}"))?;
        let (stripped, _) = got_tokens(s, true);
        // the stripped tokens follow from the unstripped tokens
        let got: Vec<_> = stripped.iter().map(|t| (t.kind.clone(), t.start, t.end)).collect();
        let want: Vec<_> = strip(&full).iter().map(|t| (t.kind.clone(), t.start, t.end)).collect();
        check_eq(&want, &got)?;
        for (i, t) in full.iter().enumerate() {
            if t.kind.starts_with("Quote(") {
                let left = i == 0 || ["Whitespace", "Newline", "Equals", "LBrace", "LPar", "LSqb", "RAngle"].contains(&full[i - 1].kind.as_str());
                ensure(t.kind.ends_with(if left { "Left)" } else { "Right)" }), format!("quote at {} opens: {left}", t.start), t.kind.clone())?;
            }
        }
        Ok(())
    }));
}
#[cfg(papyri_verif)]
pub fn c02(run: &mut Run) {
    texts(run, |run, s| run.case("kinds", s, s.chars().count() >= 2, || {
        let (got, errors) = got_tokens(s, false);
        let want = ref_tokens(s);
        let g: Vec<_> = got.iter().map(|t| (t.kind.clone(), t.start, t.end)).collect();
        let w: Vec<_> = want.iter().map(|t| (t.kind.clone(), t.start, t.end)).collect();
        check_eq(&w, &g)?;
        check_eq(&want.iter().map(|t| t.errors).sum::<u32>(), &errors)
    }));
    for (kind, args) in [("TokenInvalidEscape", "\\xg0"), ("TokenEntityMissingSemicolon", "&lt "), ("TokenVerbatimEOF", "`a"), ("TokenVerbatimTooManyBackticks", "`a``"), ("TokenVerbatimMultilineNotEnoughBackticks", "`\n`"), ("TagCloseMalformed", "</ >")] {
        run.case("which-error", args, true, || { let o = compile(args); ensure(o.errors >= 1, format!("an error {kind}"), o.diags) });
    }
}
#[cfg(not(papyri_verif))]
pub fn c01(run: &mut Run) { run.rule("without the hook: compiling does not crash"); texts(run, |run, s| run.case("compile", s, s.len() > 1, || { compile(s); Ok(()) })); }
#[cfg(not(papyri_verif))]
pub fn c02(run: &mut Run) { c01(run) }

fn ref_line_col(s: &str, idx: usize) -> (u32, u32) {
    let before = &s[..idx];
    let line = before.matches('\n').count() as u32 + 1;
    let tail = match before.rfind('\n') { Some(i) => &before[i + 1..], None => before };
    (line, tail.chars().count() as u32 + 1)
}

pub fn c03(run: &mut Run) {
    run.rule("line and column at every character boundary of: all strings of up to 5 (thorough: 7) of \"a\", newline, carriage return, \"é\", \"虎\", \"😀\", and random texts; and the position printed for an error placed behind such a text; non-trivial: contains a newline or a non-ASCII character");
    #[cfg(papyri_verif)]
    {
        use papyri_lang::compiler::verif::line_col;
        let mut all = vec![];
        let n = run.scale(5, 7);
        all_strings(&["a", "\n", "\r", "é", "虎", "😀"], n, |s| all.push(s.to_string()));
        for _ in 0..run.scale(2000, 80000) { all.push(random_string(&mut run.rng, PIECES, 30)); }
        for s in &all {
            run.case("index", s, s.contains('\n') || !s.is_ascii(), || {
                for (i, _) in s.char_indices().chain([(s.len(), ' ')]) {
                    check_eq(&(i, ref_line_col(s, i)), &(i, line_col(s, i as u32)))?;
                }
                Ok(())
            });
            if run.done() { return; }
        }
    }
    // the positions which are printed
    for _ in 0..run.scale(400, 40000) {
        let pre = random_string(&mut run.rng, &["a", " ", "\n", "é", "虎", "😀", "b\n", "\n\n", "x y", "\r\n", "\t", "\u{c}", "\u{2028}", "\u{85}", "\u{b}"], 8);
        let src = format!("{pre}$undefined_name");
        let (l, c) = ref_line_col(&src, pre.len());
        run.case("printed", &src, true, || {
            let o = compile(&src);
            ensure(o.diags.contains(&format!("<case>:{l}:{c}")) || o.diags.contains(&format!("line {l}, col {c}")) || o.diags.contains(&format!("{l}:{c}")), format!("position {l}:{c}"), o.diags.clone())?;
            // no other position is given for the single error
            check_eq(&1, &o.errors)
        });
        if run.done() { return; }
    }
}

/// Checks that a list of (source, character) gives these characters, in a
/// quoted string and in text.
fn chars_of(run: &mut Run, group: &str, cases: &[(String, char)]) {
    for chunk in cases.chunks(400) {
        if run.done() { return; }
        run.evaluations += 2 * chunk.len() as u64 - 1;
        let all = |chunk: &[(String, char)]| -> Result<(), (String, String)> {
            let want: String = chunk.iter().map(|c| c.1).collect();
            let src: String = chunk.iter().map(|c| &c.0[..]).collect();
            let got = eval(&format!("\"{src}\""));
            match got {
                Ok(papyri_lang::compiler::Value::Str(s)) => ensure(s.as_ref() == want, format!("{want:?}"), format!("{s:?}"))?,
                Ok(v) => return Err((format!("{want:?}"), show(&v))),
                Err(e) => return Err((format!("{want:?}"), e)),
            }
            // "a" and "z" keep the words apart from the surrounding markup
            let o = compile(&format!("<p>a{src}z</p>"));
            ensure(o.errors == 0, format!("{want:?}"), o.diags)?;
            ensure(o.text.contains(&format!("a{want}z")), format!("a{want:?}z"), format!("{:?}", o.text))
        };
        if all(chunk).is_ok() {
            for c in chunk { run.note(group, &c.0); }
            run.case(group, &format!("{} to {}", chunk[0].0, chunk[chunk.len() - 1].0), true, || Ok(()));
        } else {
            for c in chunk { run.case(group, &c.0, true, || all(&[c.clone()])); }
            run.case(group, &format!("{} to {}", chunk[0].0, chunk[chunk.len() - 1].0), true, || if chunk.iter().all(|c| all(&[c.clone()]).is_ok()) { all(chunk) } else { Ok(()) });
        }
    }
}
/// Checks that each of these is an error, and nothing worse.
fn errors_of(run: &mut Run, group: &str, cases: &[String]) {
    for s in cases {
        if run.done() { return; }
        run.case(group, s, true, || {
            let o = compile(&format!("<p>a{s} z</p>"));
            ensure(o.errors >= 1, "an error", format!("{:?}", o.text))?;
            match eval(&format!("\"{s} \"")) { Ok(v) => Err(("an error".into(), show(&v))), Err(_) => Ok(()) }
        });
    }
}

pub fn c23(run: &mut Run) {
    let step = if run.thorough { 1 } else { 7 };
    let codes = || (0..0x30000u32).chain((0x30000..0x110000).step_by(step * 61)).chain(0x10fff0..0x110000).filter(|c| *c < 0x3000 || *c > 0xffe0 && *c < 0x10010 || c % step as u32 == 0);
    run.rule("escapes by code: all of \\xHH, all of \\uHHHH (quick: each seventh above 0x3000), and \\UHHHHHHHH from all planes, with digits in either case, in quoted strings and in text");
    let valid: Vec<char> = codes().filter_map(char::from_u32).collect();
    let mut cases = vec![];
    for c in &valid {
        let n = *c as u32;
        if n < 0x100 { cases.push((format!("\\x{n:02x}"), *c)); cases.push((format!("\\x{n:02X}"), *c)); }
        if n < 0x10000 { cases.push((if n % 2 == 0 { format!("\\u{n:04x}") } else { format!("\\u{n:04X}") }, *c)); }
        if n >= 0x10000 || n % 5 == 0 { cases.push((if n % 2 == 0 { format!("\\U{n:08x}") } else { format!("\\U{n:08X}") }, *c)); }
    }
    chars_of(run, "escape", &cases);
    run.rule("a backslash before every other character of the first planes");
    let cases: Vec<_> = valid.iter().filter(|c| !"xuU\n".contains(**c)).map(|c| (format!("\\{c}"), match c { 'n' => '\n', 't' => '\t', c => *c })).collect();
    chars_of(run, "simple", &cases);
    run.rule("escapes and entities without a character: surrogates, codes out of range, too few or wrong digits, unknown names");
    let mut bad: Vec<String> = (0xd800..0xe000u32).step_by(step).chain([0xdfff]).flat_map(|n| [format!("\\u{n:04x}"), format!("\\U0000{n:04X}"), format!("&#x{n:x};"), format!("&#{n};")]).collect();
    for n in [0x110000u32, 0x110001, 0x1fffff, 0x7fffffff, 0x80000000, 0xffffffff, 0xd800 << 8, 0x00d800 + 0x110000] { bad.extend([format!("\\U{n:08x}"), format!("&#x{n:X};"), format!("&#{n};")]); }
    for s in ["\\x", "\\xg0", "\\x0g", "\\x1", "\\u", "\\u123", "\\u12g4", "\\U", "\\U1234567", "\\U0001f60", "\\x+1", "\\x-1", "\\u+123", "\\xé", "\\x é", "\\u虎虎", "\\U虎", "\\u00é", "\\x０１",
        "&nosuch;", "&LTT;", "&#;", "&#x;", "&#xg;", "&#1x;", "&#x-1;", "&#+65;", "&#4294967361;", "&#18446744073709551681;", "&#99999999999999999999999999999;", "&#xffffffffffffffffffffffff41;", "&a&b;", "&amp", "&lt&gt;", "&#65", "&aé;", "&#é;", "&a=b;", "&#x 41;"] {
        bad.push(s.to_string());
    }
    errors_of(run, "bad", &bad);
    run.rule("numeric entities of the same codes, decimal and hexadecimal, with leading zeros");
    let mut cases = vec![];
    for c in &valid {
        let n = *c as u32;
        cases.push((match n % 5 { 0 => format!("&#{n};"), 1 => format!("&#x{n:x};"), 2 => format!("&#x{n:X};"), 3 => format!("&#X{n:x};"), _ => format!("&#00{n};") }, *c));
    }
    chars_of(run, "numeric", &cases);
    run.rule("all named entities of HTML 5; those which stand for two characters are errors");
    run.max_violations = 1000;
    let before = run.violations.len();
    if before > 0 { return; }
    let mut cases = vec![];
    let mut bad = vec![];
    for line in include_str!("entities.txt").lines() {
        let mut parts = line.split(' ');
        let name = parts.next().unwrap();
        let cs: Vec<char> = parts.map(|h| char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap()).collect();
        if let [c] = cs[..] { cases.push((format!("&{name};"), c)); } else { bad.push(format!("&{name};")); }
    }
    chars_of(run, "named", &cases);
    errors_of(run, "named-pair", &bad);
}

const WRITTEN: &[(&str, &str)] = &[("---", "\u{2014}"), ("<->", "\u{2194}"), ("+/-", "\u{b1}"), ("(c)", "\u{a9}"), ("--", "\u{2013}"), ("<-", "\u{2190}"), ("->", "\u{2192}"), ("!=", "\u{2260}"), ("<=", "\u{2264}"), (">=", "\u{2265}"), ("~", "\u{a0}")];
/// Longest first, from left to right.
fn ref_subs(s: &str) -> String {
    let (mut out, mut i) = (String::new(), 0);
    while i < s.len() {
        let t = &s[i..];
        if let Some((p, r)) = WRITTEN.iter().find(|(p, _)| t.starts_with(p)) { out += r; i += p.len(); }
        else if t.starts_with('-') && t[1..].starts_with(|c: char| c.is_ascii_digit()) { out.push('\u{2212}'); i += 1; }
        else { let c = t.chars().next().unwrap(); out.push(c); i += c.len_utf8(); }
    }
    out
}
/// The paragraphs of a plain text, or nothing if it is not plain.
fn ref_plain(src: &str) -> Option<Vec<String>> {
    let toks = strip(&ref_tokens(src));
    let mut paras = vec![String::new()];
    let mut text = String::new();
    let mut i = 0;
    while i < toks.len() {
        let t = &toks[i];
        if t.errors > 0 { return None; }
        let s = &src[t.start..t.end];
        let next = toks.get(i + 1).map(|t| t.kind.as_str());
        let shown = match t.kind.as_str() {
            "LAngle" if matches!(next, Some("Name" | "VarName" | "ExclamationMark")) => return None,
            "Ellipsis" => "\u{2026}", "Bar" => "\u{2060}",
            "Quote(Single, Left)" => "\u{2018}", "Quote(Single, Right)" => "\u{2019}", "Quote(Double, Left)" => "\u{201c}", "Quote(Double, Right)" => "\u{201d}",
            "Whitespace" | "Newline" | "Escape" | "Entity" => "",
            k if ["Name", "Number", "LPar", "RPar", "LAngle", "RAngle", "Ampersand", "Arrow", "Asterisk", "Colon", "Comma", "Dot", "DoubleAsterisk", "DoubleColon", "Equals", "ExclamationMark", "QuestionMark", "QuestionMarkDoubleColon", "Underscore", "RawText"].contains(&k) || k.starts_with("Boolean") => s,
            _ => return None,
        };
        // substitutions are made within a text
        if t.kind == "LAngle" || shown.is_empty() { *paras.last_mut().unwrap() += &ref_subs(&text); text.clear(); }
        let at_start = paras.last().unwrap().is_empty() && text.is_empty();
        match t.kind.as_str() {
            "Whitespace" => if !at_start && next.is_some() { paras.last_mut().unwrap().push(' '); },
            "Newline" => if !at_start && next.is_some() { paras.push(String::new()); },
            "Escape" => paras.last_mut().unwrap().push(match s.chars().nth(1)? { 'x' | 'u' | 'U' => char::from_u32(u32::from_str_radix(&s[2..], 16).ok()?)?, c if c.is_ascii_alphanumeric() || is_ws(c) => return None, c => c }),
            "Entity" => paras.last_mut().unwrap().push(match s { "&lt;" => '<', "&amp;" => '&', "&eacute;" => 'é', "&#45;" => '-', "&mdash;" => '\u{2014}', _ => return None }),
            _ => text += shown,
        }
        i += 1;
    }
    *paras.last_mut().unwrap() += &ref_subs(&text);
    if paras.last().unwrap().is_empty() { paras.pop(); }
    Some(paras)
}
#[cfg(papyri_verif)]
fn content(h: &papyri_lang::compiler::HTML) -> String {
    use papyri_lang::compiler::HTML;
    match h {
        HTML::Empty => String::new(), HTML::Text(t) => t.to_string(), HTML::Whitespace => " ".into(), HTML::RawNewline => "\n".into(),
        HTML::Sequence(s) => s.iter().map(content).collect(),
        HTML::Tag(t) => content(papyri_lang::compiler::verif::tag_parts(t).2),
    }
}
const PLAIN: &[&str] = &["a", "word", "c", "True", "False", "0", "7", "42", "é", "虎", "😀", " ", " ", "\n", "\n\n", "-", "--", "---", "->", "<-", "<->", "<", "<=", ">", ">=", "!", "!=", "=", "+", "/", "+/-", "(", ")", "(c)", "(C)", "~", "|", ".", "...", ",", ":", "::", "?", "?::", "*", "**", "_", "'", "\"", "%", "^", ";", "&", "\\-", "\\\"", "\\x2d", "&lt;", "&amp;", "&#45;", "&mdash;", "&eacute;", "<!--x-->", "# c\n", "\u{a0}", "\u{2014}"];
#[cfg(papyri_verif)]
pub fn c27(run: &mut Run) {
    use papyri_lang::compiler::HTML;
    run.rule("plain texts: all sequences of up to 3 of sixty words, marks, escapes and entities, all strings of up to 6 (thorough: 7) characters over a few alphabets of dashes, arrows and quotation marks, and random sequences of up to 14 words, as a document, in a tag and in a group; non-trivial: at least 2 words");
    let mut all = vec![];
    all_strings(PLAIN, 2, |s| all.push(s.to_string()));
    all_strings(&PLAIN.iter().step_by(if run.thorough { 1 } else { 2 }).copied().collect::<Vec<_>>(), 3, |s| all.push(s.to_string()));
    let k = if run.thorough { 7 } else { 6 };
    for alpha in [&["-", "<", ">", "1"] as &[&str], &["-", ">", "=", "!"], &["'", " ", "=", "a"], &["\"", "(", "c", ")"], &["+", "/", "-", "3"], &["~", "|", ".", "\n"], &["<", "-", "&lt;", "\\-"]] {
        all_strings(alpha, k, |s| all.push(s.to_string()));
    }
    for _ in 0..run.scale(15000, 300000) { all.push(random_string(&mut run.rng, PLAIN, 14)); }
    for s in &all {
        if run.done() { return; }
        let Some(want) = ref_plain(s) else { continue };
        run.case("document", s, s.len() > 1, || {
            let (o, h) = with_ctx(|c| { let (o, h, _) = compile_in(c, s); (o, h) });
            let got: Vec<String> = match &h {
                HTML::Empty => vec![], HTML::Sequence(hs) => hs.iter().filter(|h| matches!(h, HTML::Tag(_))).map(content).collect(), h => vec![content(h)],
            };
            ensure(got == want, format!("{want:?}"), format!("{got:?} {}", o.diags))
        });
        if want.len() != 1 || ref_tokens(s).last().map_or(true, |t| t.kind == "Comment") { continue; }
        for (group, src) in [("tag", format!("<b>{s}</b>")), ("group", format!("<b>@let(x=1){{{s}}}</b>"))] {
            // the text before a quotation mark decides its direction; here it is ">" or "{"
            run.case(group, &src, s.len() > 1, || {
                let (o, h) = with_ctx(|c| { let (o, h, _) = compile_in(c, &src); (o, h) });
                let got = content(&h);
                ensure(got == want[0], format!("{want:?}"), format!("{got:?} {}", o.diags))
            });
        }
    }
}
#[cfg(not(papyri_verif))]
pub fn c27(run: &mut Run) { c01(run) }

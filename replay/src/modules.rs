//! C04, C15, C16, C20: diagnostics, unique IDs, output files and modules.
use std::collections::{BTreeMap, HashMap, HashSet};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicUsize, Ordering};

use papyri_lang::compiler::Context;
use papyri_lang::errors::ReportingLevel;
use papyri_lang::utils::text::UniqueIDGenerator;
use papyri_lang::utils::{relpath, OutFiles};
use crate::util::*;

type R = Result<(), (String, String)>;

/// A directory which is removed again.
pub struct Scratch(pub PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        static N: AtomicUsize = AtomicUsize::new(0);
        let p = std::env::temp_dir().canonicalize().unwrap()
            .join(format!("papyri-replay-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed)));
        std::fs::create_dir_all(&p).unwrap();
        Scratch(p)
    }
    pub fn write(&self, name: &str, s: impl AsRef<[u8]>) {
        let p = self.0.join(name);
        std::fs::create_dir_all(p.parent().unwrap()).unwrap();
        std::fs::write(p, s).unwrap();
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        assert!(self.0.to_string_lossy().contains("papyri-replay-"));
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

/// All files below a directory, by relative path.
pub fn files_in(dir: &Path) -> BTreeMap<String, String> {
    fn go(dir: &Path, base: &Path, out: &mut BTreeMap<String, String>) {
        let Ok(es) = std::fs::read_dir(dir) else { return };
        for e in es.flatten() {
            let p = e.path();
            if p.is_dir() { go(&p, base, out) }
            else {
                let k = p.strip_prefix(base).unwrap().to_string_lossy().to_string();
                out.insert(k, String::from_utf8_lossy(&std::fs::read(&p).unwrap_or_default()).to_string());
            }
        }
    }
    let mut out = BTreeMap::new();
    go(dir, dir, &mut out);
    out
}

// ------------------------------------------------------------------ C04

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Sev { Warning, Error }

/// One expected diagnostic of a segment. `col` is in the segment; `func` is
/// the name of the function whose body it is in, with the column in it.
#[derive(Clone)]
pub struct Diag { phase: u8, sev: Sev, trace: bool, col: usize, inner: Option<(&'static str, usize, usize)>, msg: &'static str }

const E0: Sev = Sev::Error;
const W0: Sev = Sev::Warning;
fn rt(col: usize, msg: &'static str) -> Diag { Diag { phase: 2, sev: E0, trace: true, col, inner: None, msg } }
fn st(phase: u8, sev: Sev, col: usize, msg: &'static str) -> Diag { Diag { phase, sev, trace: false, col, inner: None, msg } }
fn wn(col: usize, msg: &'static str) -> Diag { Diag { phase: 2, sev: W0, trace: true, col, inner: None, msg } }

/// The program starts with one line which declares functions.
pub const PRELUDE: &str = "@fn bad($_x) . -> $nope7 @fn two($_x) . -> \"$nope8 $nope9\" @fn deep($_x) . -> @bad($_x). @fn fine($_x) . -> $_x";
fn in_bad(col: usize) -> Diag { Diag { phase: 2, sev: E0, trace: true, col, inner: Some(("bad", 1, 19)), msg: "Name error: no such variable 'nope7'" } }

pub fn segments() -> Vec<(&'static str, Vec<Diag>)> {
    let inline = "Warning: cannot enumerate lines in inline code";
    vec![
        ("plain text", vec![]),
        ("<b>bold</b> @fine(1). end", vec![]),
        ("$undef1", vec![rt(1, "Name error: no such variable 'undef1'")]),
        ("ab $undef2 cd", vec![rt(4, "Name error: no such variable 'undef2'")]),
        ("<b>$undef3 and $undef4</b>", vec![rt(4, "Name error: no such variable 'undef3'"), rt(16, "Name error: no such variable 'undef4'")]),
        ("@raise `boom`", vec![rt(1, "Runtime error: boom")]),
        ("@raise(`bang`).", vec![rt(1, "Name error: too many positional arguments")].into_iter().take(0).collect()),
        ("@code(first_line_no=2) `x`", vec![wn(1, inline)]),
        ("x @code(first_line_no=3) `y` @code(first_line_no=4) `z`", vec![wn(3, inline), wn(30, inline)]),
        ("@implicit(language=\"zzz\") @code `x`", vec![wn(27, "Warning: no syntax highlighter found for language \"zzz\"")]),
        ("@list::get(5) [1]", vec![rt(1, "Runtime error: index out of bounds (index 5, length 1)")]),
        ("@match 1 { 2 -> x }", vec![rt(1, "Runtime error: no matching branch in @match")]),
        ("&zzz;", vec![st(1, E0, 1, "Syntax error: invalid entity")]),
        ("\\xzz", vec![st(0, E0, 1, "Syntax error: invalid Unicode escape")]),
        ("@bad(1).", vec![in_bad(1)]),
        ("é @bad(1). @bad(2).", vec![in_bad(3), in_bad(12)]),
        ("$zed $zed", vec![rt(1, "Name error: no such variable 'zed'"), rt(6, "Name error: no such variable 'zed'")]),
    ].into_iter().filter(|(s, d)| !(s.starts_with("@raise(") && d.is_empty())).collect()
}

pub struct Program { pub src: String, pub diags: Vec<(u8, Sev, String)> }
pub fn program(rng: &mut Rng, segs: &[(&'static str, Vec<Diag>)], max: usize, file: &str, clean: bool) -> Program {
    let mut src = String::from(PRELUDE);
    let mut line = 1;
    let mut diags = vec![];
    for _ in 0..rng.below(max + 1) {
        let (s, ds) = rng.pick(segs);
        if clean && !ds.is_empty() { continue; }
        src.push_str("\n\n");
        line += 2;
        for _ in 0..rng.below(3) { src.push('\n'); line += 1; }
        src.push_str(s);
        for d in ds {
            let at = format!("    File \"{file}\", line {line}, col {}", d.col);
            let text = match (&d.inner, d.trace) {
                (Some((f, l, c)), _) => format!("Traceback (most recent call last):\n{at}\n    File \"{file}\", line {l}, col {c}, in @{f}\n{}\n", d.msg),
                (None, true) => format!("Traceback (most recent call last):\n{at}\n{}\n", d.msg),
                (None, false) => format!("{}\n{at}\n", d.msg),
            };
            diags.push((d.phase, d.sev, text));
        }
    }
    diags.sort_by_key(|d| d.0);
    Program { src, diags }
}
pub fn summary(e: usize, w: usize) -> String {
    let s = |n: usize| if n == 1 { "" } else { "s" };
    if e > 0 { format!("failed, {e} error{}, {w} warning{}", s(e), s(w)) }
    else if w > 0 { format!("OK, {w} warning{}", s(w)) } else { "OK".into() }
}
fn listing(p: &Program, level: ReportingLevel) -> String {
    let mut out = String::new();
    for (_, sev, text) in &p.diags {
        let listed = match level { ReportingLevel::All | ReportingLevel::Warning => true, ReportingLevel::Error => *sev == Sev::Error, ReportingLevel::IgnoreAll => false };
        if listed { out += text; }
    }
    out + &summary(p.count(Sev::Error), p.count(Sev::Warning)) + "\n"
}
impl Program {
    pub fn count(&self, s: Sev) -> usize { self.diags.iter().filter(|d| d.1 == s).count() }
}
/// Removes the entries which only say that something was already reported.
fn without_debug(s: &str) -> String {
    let mut out: Vec<&str> = vec![];
    let mut start = 0;
    for l in s.lines() {
        if l.starts_with("Traceback") { start = out.len(); }
        if l == "Diagnostic already reported" { out.truncate(start); } else { out.push(l); }
    }
    out.join("\n") + "\n"
}

pub fn c04(run: &mut Run) {
    use ReportingLevel::*;
    run.rule("programs made of segments with known diagnostics, under every reporting level: the numbers of errors and warnings, the exact listing in order, the summary, clearing, and whether compile_str gives output");
    let segs = segments();
    let levels = [All, Warning, Error, IgnoreAll];
    let mut ctxs: Vec<Context> = levels.iter().map(|l| Context::new(*l, None, None)).collect();
    let n = run.scale(250, 10000);
    for i in 0..n {
        if run.done() { return; }
        let max = 1 + run.rng.below(12);
        let clean = run.rng.chance(1, 5);
        let p = if i < segs.len() { let one = vec![segs[i].clone()]; let mut r = Rng::new(1); loop { let p = program(&mut r, &one, 1, "<case>", false); if p.src.len() > PRELUDE.len() { break p } } }
            else { program(&mut run.rng, &segs, max, "<case>", clean) };
        for (l, ctx) in levels.iter().zip(ctxs.iter_mut()) {
            let (p, src) = (&p, p.src.clone());
            run.case(&format!("level {l:?}"), &src, !p.diags.is_empty(), || {
                let e = p.count(Sev::Error);
                let w = p.count(Sev::Warning);
                ctx.reset();
                let r0 = (ctx.diagnostics.is_empty(), ctx.diagnostics.num_errors, ctx.diagnostics.num_warnings, format!("{:?}", ctx.diagnostics));
                check_eq(&(true, 0, 0, "OK\n".to_string()), &r0)?;
                ctx.compile_synthetic("<case>", &src);
                check_eq(&(e, w), &(ctx.diagnostics.num_errors as usize, ctx.diagnostics.num_warnings as usize))?;
                check_eq(&(e + w == 0), &ctx.diagnostics.is_empty())?;
                check_eq(&summary(e, w), &ctx.diagnostics.summary())?;
                let got = format!("{:?}", ctx.diagnostics);
                check_eq(&listing(p, *l), &if *l == All { without_debug(&got) } else { got })
            });
        }
        let (p, src) = (&p, p.src.clone());
        if i % 4 == 0 {
            run.case("compile_str", &src, true, || {
                let r = papyri_lang::compile_str(&src.replace("<case>", "<string>"));
                check_eq(&p.diags.is_empty(), &r.is_ok())
            });
        }
    }
    drop(ctxs);
    run.rule("many diagnostics in one compilation");
    for k in [1usize, 2, 300, if run.thorough { 20000 } else { 2000 }] {
        for w in [0usize, 1, 257] {
            run.case("many", &format!("{k} errors, {w} warnings"), true, || {
                let mut s = String::from("x\n\n");
                for _ in 0..k { s += "$u "; }
                for _ in 0..w { s += "@code(first_line_no=2) `x` "; }
                for l in levels {
                    let mut ctx = Context::new(l, None, None);
                    ctx.compile_synthetic("<case>", &s);
                    check_eq(&(k as u32, w as u32), &(ctx.diagnostics.num_errors, ctx.diagnostics.num_warnings))?;
                }
                Ok(())
            });
        }
    }
    run.rule("the command line program on scratch directories: which files are written, the exit code and the summary line");
    let Ok(bin) = std::env::var("PAPYRI_BIN") else { run.rule("(the program was not built)"); return };
    for i in 0..run.scale(40, 2000) {
        if run.done() { return; }
        let mut r = Rng::new(run.rng.next());
        let k = 1 + r.below(4);
        let mut files = vec![];
        for j in 0..k {
            let style = r.below(6);
            let name = ["a", "b/c", "d e", "z"][j].to_string();
            let mut p = program(&mut r, &segs, 3, "?", style < 2);
            let mut writes = vec![];
            if r.chance(1, 2) {
                let n = 1 + r.below(2);
                for t in 0..n {
                    let at = if r.chance(1, 2) { 0 } else { p.src.len() };
                    let w = format!("@file::write(`w{j}_{t}.html`) `W{j}{t}`");
                    p.src = if at == 0 { format!("{w} {}", p.src) } else { format!("{}\n\n{w}", p.src) };
                    writes.push((format!("w{j}_{t}.html"), format!("W{j}{t}")));
                }
                // written in the order in which they are evaluated
            }
            files.push((name, p, writes));
        }
        let flags: Vec<&str> = [r.chance(1, 3).then_some("-s"), r.chance(1, 3).then_some("--ignore-warnings"), r.chance(1, 4).then_some("-t")].into_iter().flatten().collect();
        let with_out = r.chance(2, 3);
        let case = format!("flags {flags:?} out={with_out} {:?}", files.iter().map(|(n, p, _)| format!("{n}.papyri: {}", p.src)).collect::<Vec<_>>());
        run.case("cli", &case, true, || {
            let dir = Scratch::new();
            for (n, p, _) in &files { dir.write(&format!("{n}.papyri"), &p.src); }
            let mut cmd = std::process::Command::new(&bin);
            cmd.current_dir(&dir.0).args(&flags);
            if with_out { cmd.args(["-o", "out"]); }
            let o = cmd.output().unwrap();
            let (stdout, stderr) = (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
            let ext = if flags.contains(&"-t") { "txt" } else { "html" };
            let mut expected: Vec<(String, Option<String>)> = vec![];
            let (mut ok, mut failed, mut skipped) = (0, 0, 0);
            for (n, p, w) in &files {
                let errors = p.count(Sev::Error) + if with_out { 0 } else { w.len() };
                let has_out = p.src.replace(PRELUDE, "").split("\n\n").any(|s| !s.trim().is_empty() && !s.trim().starts_with("@file::write"));
                if errors > 0 { failed += 1; continue; }
                if !has_out && (w.is_empty() || !with_out) { skipped += 1; continue; }
                ok += 1;
                let pre = if with_out { "out/" } else { "" };
                if has_out { expected.push((format!("{pre}{n}.{ext}"), None)); }
                for (f, t) in w { expected.push((format!("{pre}{f}"), Some(t.clone()))); }
            }
            let got: BTreeMap<String, String> = files_in(&dir.0).into_iter().filter(|(k, _)| !k.ends_with(".papyri")).collect();
            let mut names: Vec<String> = expected.iter().map(|e| e.0.clone()).collect();
            names.sort();
            let shown = format!("{stdout}\n{stderr}");
            ensure(names == got.keys().cloned().collect::<Vec<_>>(), format!("files {names:?}"), format!("files {:?}; {shown}", got.keys()))?;
            for (f, t) in &expected { if let Some(t) = t { check_eq(t, &got[f])?; } }
            let total = expected.len();
            let msg = format!("{total} file{} written; {ok} OK, {failed} failed, {skipped} skipped", if total == 1 { "" } else { "s" });
            ensure(o.status.code() == Some((failed > 0) as i32), format!("exit {}", (failed > 0) as i32), format!("{:?}; {shown}", o.status))?;
            let line = if failed > 0 { stderr.lines().last() } else { stdout.lines().last() };
            if failed > 0 || !flags.contains(&"-s") { ensure(line == Some(&msg[..]), msg, shown.clone())?; }
            let level = if flags.contains(&"--ignore-warnings") { ReportingLevel::Error } else { ReportingLevel::Warning };
            for (_, p, _) in &files {
                for (_, sev, text) in &p.diags {
                    let m = text.lines().find(|l| l.contains(": ") && !l.starts_with("Traceback") && !l.starts_with("    ")).unwrap_or("");
                    if *sev == Sev::Error || level == ReportingLevel::Warning { ensure(stderr.contains(m), m, shown.clone())?; }
                }
            }
            Ok(())
        });
        let _ = i;
    }
    run.rule("the command line program on standard input: output exactly when nothing was reported");
    for _ in 0..run.scale(25, 200) {
        if run.done() { return; }
        let mut r = Rng::new(run.rng.next());
        let clean = r.chance(1, 2);
        let p = program(&mut r, &segs, 3, "<stdin>", clean);
        let flags: Vec<&str> = [r.chance(1, 3).then_some("-s"), r.chance(1, 2).then_some("--ignore-warnings"), r.chance(1, 4).then_some("-t")].into_iter().flatten().collect();
        run.case("stdin", &format!("{flags:?} {}", p.src), true, || {
            use std::io::Write;
            let mut c = std::process::Command::new(&bin).arg("-i").args(&flags).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::piped()).spawn().unwrap();
            c.stdin.take().unwrap().write_all(p.src.as_bytes()).unwrap();
            let o = c.wait_with_output().unwrap();
            let (stdout, stderr) = (String::from_utf8_lossy(&o.stdout).to_string(), String::from_utf8_lossy(&o.stderr).to_string());
            let clean = p.diags.is_empty();
            check_eq(&Some(!clean as i32), &o.status.code())?;
            if !clean {
                ensure(stdout.is_empty(), "no output", stdout)?;
                let errors_only = flags.contains(&"--ignore-warnings");
                let want: String = p.diags.iter().filter(|d| !errors_only || d.1 == Sev::Error).map(|d| d.2.clone() + "\n").collect::<String>() + &summary(p.count(Sev::Error), p.count(Sev::Warning)) + "\n";
                check_eq(&want, &stderr)
            } else { check_eq(&String::new(), &stderr) }
        });
    }
}

// ------------------------------------------------------------------ C15

fn is_lower_ident(s: &str) -> bool {
    let mut cs = s.chars();
    matches!(cs.next(), Some('a'..='z' | '_')) && cs.all(|c| matches!(c, 'a'..='z' | '0'..='9' | '_'))
}

pub fn c15(run: &mut Run) {
    run.rule("sequences of requests to one generator, with bases and lengths chosen to collide, cleared at random");
    let bases = ["", "a", "A", "_", "9", "a_2", "a_3", "a_10", "abc", "Abc", "ABC_2", "abcdef", "abcdefgh", "héllo wörld", "日本", "x y", "x  y", "x_y", "--", "a-", "a_", "a__2", "_2", "__", "a_9", "a_99", "b9", "\u{1f600}", "ab_2", "abcdefghi_9", "İ", "\n", "K", "1a", "_1", "ǅ", "a\u{0}b"];
    for i in 0..run.scale(1500, 60000) {
        if run.done() { return; }
        let mut r = Rng::new(run.rng.next());
        let few: Vec<&str> = (0..1 + r.below(4)).map(|_| *r.pick(&bases)).collect();
        let k = 1 + r.below(if i % 10 == 0 { 250 } else { 30 });
        let lens: Vec<usize> = (0..1 + r.below(2)).map(|_| [1, 2, 3, 4, 5, 6, 7, 8, 12, 128, usize::MAX][r.below(11)]).collect();
        let seq: Vec<Option<(&str, usize)>> = (0..k).map(|_| if r.chance(1, 60) { None } else { Some((*r.pick(&few), *r.pick(&lens))) }).collect();
        run.case("generator", &format!("{seq:?}"), true, || {
            let mut g = UniqueIDGenerator::new();
            let mut used: HashSet<String> = HashSet::new();
            let mut used_list: Vec<String> = vec![];
            for s in &seq {
                let Some((base, max)) = s else { g.clear(); used.clear(); used_list.clear(); continue };
                let id = g.get_unique_id(base, *max).to_string();
                let at = || format!("request {base:?} max {max} after {used_list:?}");
                if !is_lower_ident(&id) { return Err((format!("a lowercase identifier for {}", at()), id)); }
                if used.contains(&id) { return Err((format!("a new identifier for {}", at()), id)); }
                let room = *max >= 3 && (*max > 20 || used.len() + 2 < 10usize.pow(*max as u32 - 2));
                // with nothing used which begins alike there is no reason for a longer one
                let fresh = !used.iter().any(|u| u[..1] == id[..1]);
                if (fresh || room) && id.len() > *max { return Err((format!("at most {max} characters for {}", at()), id)); }
                used.insert(id.clone());
                used_list.push(id);
            }
            Ok(())
        });
    }
    run.rule("very many IDs with one base");
    for max in [1, 2, 3, 4, 5, 8] {
        for base in ["abcdefghij", "q", "zz"] {
            let n = if run.thorough { 12000 } else { 1200 };
            run.case("many", &format!("{n} of {base} max {max}"), true, || {
                let mut g = UniqueIDGenerator::new();
                let mut used = HashSet::new();
                for k in 0..n {
                    let id = g.get_unique_id(base, max).to_string();
                    ensure(is_lower_ident(&id), "a lowercase identifier", id.clone())?;
                    if max >= 3 && k + 2 < 10usize.pow(max as u32 - 2) || k == 0 { ensure(id.len() <= max, format!("at most {max} characters"), id.clone())?; }
                    ensure(used.insert(id.clone()), "a new identifier", format!("{id} again after {k}"))?;
                }
                Ok(())
            });
        }
    }
    run.rule("@str::unique_id in programs: distinct within one compilation, and again available after a reset");
    for _ in 0..run.scale(60, 3000) {
        if run.done() { return; }
        let mut r = Rng::new(run.rng.next());
        let reqs: Vec<(String, i64)> = (0..1 + r.below(12)).map(|_| (r.pick(&bases[1..20]).to_string(), [1, 2, 3, 5, 128, 1 << 40][r.below(6)])).collect();
        let src: String = reqs.iter().map(|(b, n)| format!("@str::unique_id(max_length={n}) {} ", template_lit(b).unwrap())).collect();
        run.case("program", &src, true, || {
            let mut first: Option<String> = None;
            for _ in 0..2 {
                let o = with_ctx(|c| { c.reset(); compile_in(c, &src).0 });
                ensure(o.ok(), "no error", o.diags.clone())?;
                let ids: Vec<&str> = o.text.split_whitespace().collect();
                check_eq(&reqs.len(), &ids.len())?;
                let mut used = HashSet::new();
                for id in &ids {
                    ensure(is_lower_ident(id), "a lowercase identifier", *id)?;
                    ensure(used.insert(*id), "distinct IDs", o.text.clone())?;
                }
                if let Some(f) = &first { check_eq(f, &o.text)?; }
                first = Some(o.text.clone());
            }
            Ok(())
        });
    }
    for n in [0i64, -1, i64::MIN] {
        let src = format!("@str::unique_id(max_length={}) `a`", if n < 0 { "@int::negate @int::negate 0".to_string() } else { n.to_string() });
        run.case("bad length", &src, true, || { let o = compile(&src); ensure(!o.ok(), "an error", o.text) });
    }
}

// ------------------------------------------------------------------ C16

/// A path after removing `.` and `..`: absolute?, leading parents, names.
#[derive(Clone, PartialEq, Debug)]
struct Loc { abs: bool, up: usize, names: Vec<String> }
fn resolve(start: Loc, p: &str) -> Loc {
    let mut l = if p.starts_with('/') { Loc { abs: true, up: 0, names: vec![] } } else { start };
    for c in p.split('/') {
        match c {
            "" | "." => {},
            ".." => if l.names.pop().is_none() && !l.abs { l.up += 1 },
            c => l.names.push(c.to_string()),
        }
    }
    l
}
fn nowhere() -> Loc { Loc { abs: false, up: 0, names: vec![] } }
/// The location which the path denotes, and its names below the base.
fn below(base: &str, p: &str) -> Option<(Loc, Vec<String>)> {
    let b = resolve(nowhere(), base);
    let l = resolve(b.clone(), p);
    (l.abs == b.abs && l.up == b.up && l.names.len() >= b.names.len() && l.names[..b.names.len()] == b.names[..])
        .then(|| (l.clone(), l.names[b.names.len()..].to_vec()))
}

pub fn c16(run: &mut Run) {
    run.rule("base and file paths of up to four components against an independent path resolver: acceptance, location, and the order and content of what is handed over");
    let bases = ["", ".", "/", "..", "../..", "out", "/out", "/a/out", "a/../out", "../out", "out/..", "./out/.", "/..", "out/sub", "/a/b/../out/", "../a/..", "a/../..", "..a"];
    let mut rels = vec![];
    all_strings(&["a", "/", "..", ".", "out", "sub"], 4, |s| rels.push(s.to_string()));
    for extra in ["a/../../out/x", "/out/x", "/out/../x", "/a/out/x", "/a/out/../x", "/outx", "../outx", "../out", "../out/x", "../out/../x", "...", "..a", "a..", "a/..b/c", "out/sub/../../../x", "/a/../out/x", "//out/x", "a//b", "a/./b", "a/", "./", "é/ü.html", "a b/c d", "/a/b/x", "../../a/out/x", "..\\x", "a/../..", "a/../../..", "x.html", "a/../b/../c"] { rels.push(extra.into()); }
    for base in bases {
        for rel in &rels {
            if run.done() { return; }
            run.case("path", &format!("{base:?} + {rel:?}"), true, || {
                let want = below(base, rel);
                let got = relpath::make_relative(Path::new(base), Path::new(rel));
                let want_rel = want.as_ref().map(|w| w.1.join("/"));
                check_eq(&want_rel, &got.as_ref().map(|p| p.to_str().unwrap().to_string()))?;
                let mut o = OutFiles::new(base);
                check_eq(&true, &o.is_empty())?;
                check_eq(&want.is_some(), &o.try_push(rel, 7))?;
                check_eq(&want.is_none(), &o.is_empty())?;
                let v: Vec<(PathBuf, i32)> = o.take_iter().collect();
                check_eq(&true, &o.is_empty())?;
                check_eq(&(want.is_some() as usize), &v.len())?;
                if let Some((loc, _)) = want {
                    check_eq(&7, &v[0].1)?;
                    let at = v[0].0.to_str().unwrap();
                    check_eq(&loc, &resolve(nowhere(), at))?;
                    ensure(below(base, &if at.starts_with('/') { at.to_string() } else { v[0].0.strip_prefix(base).unwrap().to_str().unwrap().to_string() }).is_some(), "a location in the output directory", at)?;
                }
                Ok(())
            });
        }
    }
    run.rule("sequences of files given to one collector");
    for _ in 0..run.scale(1000, 20000) {
        if run.done() { return; }
        let mut r = Rng::new(run.rng.next());
        let base = *r.pick(&bases);
        let seq: Vec<Option<String>> = (0..r.below(9)).map(|_| (!r.chance(1, 6)).then(|| r.pick(&rels).clone())).collect();
        run.case("sequence", &format!("{base:?} {seq:?}"), true, || {
            let mut o = OutFiles::new(Path::new(base));
            let mut want = vec![];
            for (i, s) in seq.iter().map(Some).chain([None]).enumerate() {
                match s {
                    Some(Some(p)) => {
                        let b = below(base, p);
                        check_eq(&b.is_some(), &o.try_push(p.clone(), i))?;
                        if let Some((l, _)) = b { want.push((l, i)); }
                    },
                    _ => {
                        let got: Vec<(Loc, usize)> = o.take_iter().map(|(p, i)| (resolve(nowhere(), p.to_str().unwrap()), i)).collect();
                        check_eq(&want, &got)?;
                        want.clear();
                    },
                }
                check_eq(&want.is_empty(), &o.is_empty())?;
            }
            Ok(())
        });
    }
    run.rule("@file::write in programs, with and without an output directory");
    let some: Vec<String> = rels.iter().filter(|r| !r.contains('\\') && str_lit(r).is_some() && !r.is_empty()).cloned().collect();
    for i in 0..run.scale(60, 4000) {
        if run.done() { return; }
        let mut r = Rng::new(run.rng.next());
        let base = *r.pick(&bases);
        let paths: Vec<String> = (0..1 + r.below(5)).map(|_| r.pick(&some).clone()).collect();
        let with = i % 5 != 0;
        let src: String = paths.iter().enumerate().map(|(k, p)| format!("@file::write({}) `content{k}` ", str_lit(p).unwrap())).collect();
        run.case("program", &format!("out dir {:?}: {src}", with.then_some(base)), true, || {
            let mut ctx = Context::new(ReportingLevel::All, with.then(|| Path::new(base)), None);
            let (o, _, _) = compile_in(&mut ctx, &src);
            let mut want = vec![];
            let mut errors = 0;
            for (k, p) in paths.iter().enumerate() {
                match below(base, p).filter(|_| with) { Some((l, _)) => want.push((l, format!("content{k}"))), None => errors += 1 }
            }
            check_eq(&(errors as u32), &o.errors)?;
            let got: Vec<(PathBuf, papyri_lang::compiler::HTML)> = ctx.out_files.as_mut().map_or(vec![], |o| o.take_iter().collect());
            let mut shown = vec![];
            for (p, h) in got {
                let mut b = vec![];
                ctx.render(&h, false, &mut b).unwrap();
                shown.push((resolve(nowhere(), p.to_str().unwrap()), String::from_utf8(b).unwrap()));
            }
            check_eq(&want, &shown)
        });
    }
    run.rule("the command line program: files are written at the locations denoted, below the output directory only");
    let Ok(bin) = std::env::var("PAPYRI_BIN") else { run.rule("(the program was not built)"); return };
    for _ in 0..run.scale(25, 500) {
        if run.done() { return; }
        let mut r = Rng::new(run.rng.next());
        // what could be written outside stays inside the scratch directory
        let out = ["out", "./out", "sub/../out", "deep/er/out", "../work/out", "."][r.below(6)];
        let safe = ["x.html", "a/x.html", "a/../y.html", "../out/z.html", "../w.html", "./v.html", "a/b/../../u.html", "../../work/out/t.html", "../../s.html"];
        let mut seen = HashSet::new();
        let paths: Vec<&str> = (0..1 + r.below(3)).map(|_| *r.pick(&safe)).filter(|p| seen.insert(*p)).collect();
        let src: String = paths.iter().enumerate().map(|(k, p)| format!("@file::write(`{p}`) `content{k}`\n\n")).collect();
        run.case("cli", &format!("-o {out}: {src}"), true, || {
            let dir = Scratch::new();
            let work = dir.0.join("x/y/work");
            std::fs::create_dir_all(&work).unwrap();
            std::fs::create_dir_all(work.join("sub")).unwrap();
            std::fs::write(work.join("m.papyri"), format!("main text\n\n{src}")).unwrap();
            let o = std::process::Command::new(&bin).current_dir(&work).args(["-o", out]).output().unwrap();
            let shown = format!("{}{}", String::from_utf8_lossy(&o.stdout), String::from_utf8_lossy(&o.stderr));
            let here = Loc { abs: false, up: 0, names: vec!["x".into(), "y".into(), "work".into()] };
            let mut want: BTreeMap<String, String> = BTreeMap::new();
            let mut ok = true;
            want.insert(resolve(resolve(here.clone(), out), "m.html").names.join("/"), "<p>main text</p>".into());
            for (k, p) in paths.iter().enumerate() {
                match below(out, p) {
                    Some(_) => { want.insert(resolve(resolve(here.clone(), out), p).names.join("/"), format!("content{k}")); },
                    None => ok = false,
                }
            }
            if !ok { want.clear(); }
            let got: BTreeMap<String, String> = files_in(&dir.0).into_iter().filter(|(k, _)| !k.ends_with(".papyri")).collect();
            ensure(want.keys().eq(got.keys()), format!("{:?}", want.keys()), format!("{:?} {shown}", got.keys()))?;
            for (k, v) in &want { if v.starts_with("content") { check_eq(v, &got[k])?; } }
            check_eq(&Some(!ok as i32), &o.status.code())
        });
    }
}

// ------------------------------------------------------------------ C20

const UNREADABLE: [u8; 3] = [0xff, 0xfe, 0x41];

#[derive(Clone, Debug)]
enum Step { Include(usize), Import(usize), Missing, Write }
#[derive(Clone, Debug)]
struct Module { readable: bool, steps: Vec<(Step, String)> }

#[derive(Clone, PartialEq, Debug)]
enum State { Loaded { text: String, id: String }, Busy, Error }

/// The behaviour which the property asks for.
struct Sim<'a> { mods: &'a [Module], state: HashMap<usize, State>, ids: HashMap<usize, u32>, errors: Vec<&'static str>, files: Vec<String>, nesting: usize }
impl<'a> Sim<'a> {
    fn body(&mut self, k: usize) -> (String, String) {
        let c = self.ids.entry(k).or_insert(0);
        *c += 1;
        let id = if *c == 1 { format!("m{k}") } else { format!("m{k}_{c}") };
        let mut text = format!("({k}");
        let steps = self.mods[k].steps.clone();
        for (i, (s, _)) in steps.iter().enumerate() {
            match s {
                Step::Missing => self.errors.push("missing"),
                Step::Write => if self.nesting > 0 { self.errors.push("write") } else { self.files.push(format!("F{k}x{i}")) },
                Step::Include(j) => if let Some((t, id)) = self.load(*j) { text += &t; text += &format!("i{id}."); } else { self.errors.push("other"); text += "i."; },
                Step::Import(j) => if let Some((_, id)) = self.load(*j) { text += &format!("e{id}."); },
            }
        }
        text += &format!("{k})");
        (text, id)
    }
    fn load(&mut self, k: usize) -> Option<(String, String)> {
        match self.state.get(&k).cloned() {
            Some(State::Loaded { text, id }) => Some((text, id)),
            Some(State::Busy) => { self.errors.push("circular"); None },
            Some(State::Error) => { self.errors.push("previous"); None },
            None if !self.mods[k].readable => { self.state.insert(k, State::Error); self.errors.push("io"); None },
            None => {
                self.state.insert(k, State::Busy);
                self.nesting += 1;
                let (text, id) = self.body(k);
                self.nesting -= 1;
                self.state.insert(k, State::Loaded { text: text.clone(), id: id.clone() });
                Some((text, id))
            },
        }
    }
}
fn module_src(k: usize, m: &Module) -> String {
    let mut s = format!("@export(mid=@str::unique_id `m{k}`).\n\n({k}\n\n");
    for (i, (step, spelling)) in m.steps.iter().enumerate() {
        s += &match step {
            // nothing is bound when it fails, so the use is in a function which then fails too
            Step::Include(_) => format!("@fn inc{i} . -> {{@include `{spelling}` i$mid.}}\n\n@inc{i}.\n\n"),
            Step::Import(_) => format!("@fn imp{i} . -> @let(got=@import `{spelling}`) {{e$got::mid.}}\n\n@imp{i}.\n\n"),
            Step::Missing => "@import `no-such-file`\n\n".into(),
            Step::Write => format!("@file::write(`f{k}x{i}.html`) `F{k}x{i}`\n\n"),
        };
    }
    s + &format!("{k})\n")
}

pub fn c20(run: &mut Run) {
    run.rule("random graphs of up to five modules (with cycles, unreadable and missing files, symbolic links and several spellings of each path) against a simulation: the text, the exported IDs (which count how often a module was compiled), the errors in order, and the output files of the importer");
    // modules of every kind of content are compiled once
    let contents = ["", " \n\n", "# comment\n", "text", "@export(a=1).", "@fn f($x: none?) . -> x\n", "@fn f($x: none?) . -> x\n\ntext", "@let(a=1) @let(a=2) {}", "@raise `no`", "@raise `no`\n\n@export(a=1).", "{", "</b>", "@file::write(`w.html`) `w`", "@export(a=1, b=$no).", "[", "&x", "@include `no-such-file`", "@include `self`", "@str::unique_id `x`", "@export(a=@str::unique_id `x`).", "@export(a=1).\n\n@export(a=2)."];
    let spellings = ["m", "m.papyri", "./m", "s/../m", "s/t/../../m.papyri", "./././m"];
    for content in contents {
        for times in 1..=run.scale(4, 6) {
            for how in 0..3 {
                let mut r = Rng::new(run.rng.next());
                let loads: Vec<String> = (0..times).map(|i| {
                    let sp = spellings[r.below(spellings.len())];
                    let import = how == 0 || how == 2 && r.chance(1, 2);
                    if import { format!("@let(x{i}=@import `{sp}`) {{y}}") } else { format!("@fn f{i} . -> {{@include `{sp}`}}\n\n@f{i}.") }
                }).collect();
                let src = loads.join("\n\n") + "\n\nid-@str::unique_id `x`";
                run.case("contents", &format!("{content:?} loaded by {src:?}"), times > 1, || {
                    let dir = Scratch::new();
                    std::fs::create_dir_all(dir.0.join("s/t")).unwrap();
                    dir.write("m.papyri", content.replace("self", "m"));
                    let count = |src: &str| -> Result<(usize, u32, u32, String), (String, String)> {
                        dir.write("main.papyri", src);
                        let mut ctx = Context::new(ReportingLevel::Warning, None, None);
                        let o = ctx.load_uncached(&dir.0.join("main.papyri")).map_err(|e| ("the main file loads".to_string(), e.to_string()))?;
                        let diags = format!("{:?}", ctx.diagnostics);
                        let mut b = vec![];
                        ctx.render(&o.out, false, &mut b).unwrap();
                        let id: String = String::from_utf8(b).unwrap().rsplit_once("id-").map_or(String::new(), |x| x.1.trim().to_string());
                        Ok((diags.matches("m.papyri").count(), ctx.diagnostics.num_errors, ctx.diagnostics.num_warnings, id))
                    };
                    let one = count(&(loads[0].clone() + "\n\nid-@str::unique_id `x`"))?;
                    let all = count(&src)?;
                    ensure(one.1 == all.1 && one.2 == all.2 && one.3 == all.3, format!("{one:?} (as when loaded once)"), format!("{all:?}"))
                });
                if run.done() { return; }
            }
        }
    }
    let names = ["m0", "m1", "s/m2", "s/t/m3", "m4"];
    for _ in 0..run.scale(250, 20000) {
        if run.done() { return; }
        let mut r = Rng::new(run.rng.next());
        let n = 2 + r.below(4);
        let dag = r.chance(1, 2);
        let spell = |r: &mut Rng, from: usize, to: usize, abs: &str| -> String {
            let up = "../".repeat(names[from].matches('/').count());
            let t = names[to];
            match r.below(8) {
                0 => format!("{up}{t}"), 1 => format!("{up}{t}.papyri"), 2 => format!("./{up}./{t}"), 3 => format!("{up}s/../{t}"),
                4 => format!("{up}{}link{to}", t.rsplit_once('/').map_or(String::new(), |p| format!("{}/", p.0))), 5 => format!("{abs}/{t}.papyri"), 6 => format!("{up}s/t/../../{t}"), _ => format!("{up}slink/../{t}"),
            }
        };
        let mut mods: Vec<Module> = vec![];
        for k in 0..n {
            let mut steps = vec![];
            for _ in 0..r.below(4) {
                let j = if dag { if k + 1 >= n { continue } else { k + 1 + r.below(n - k - 1) } } else { r.below(n) };
                steps.push(match r.below(12) {
                    0 => (Step::Missing, String::new()), 1 => (Step::Write, String::new()),
                    2..=5 => (Step::Import(j), String::new()), _ => (Step::Include(j), String::new()),
                });
            }
            mods.push(Module { readable: k == 0 || !r.chance(1, 8), steps });
        }
        let again = r.chance(1, 2);
        let dir = Scratch::new();
        let abs = dir.0.to_str().unwrap().to_string();
        for k in 0..n {
            for i in 0..mods[k].steps.len() {
                if let Step::Include(j) | Step::Import(j) = mods[k].steps[i].0 { mods[k].steps[i].1 = spell(&mut r, k, j, &abs); }
            }
        }
        for k in 0..n {
            let f = format!("{}.papyri", names[k]);
            if mods[k].readable { dir.write(&f, module_src(k, &mods[k])); } else { dir.write(&f, UNREADABLE); }
            { std::os::unix::fs::symlink(dir.0.join(&f), dir.0.join(&f).with_file_name(format!("link{k}.papyri"))).unwrap(); }
        }
        std::fs::create_dir_all(dir.0.join("s/t")).unwrap();
        std::fs::create_dir_all(dir.0.join("other")).unwrap();
        std::fs::create_dir_all(dir.0.join("s")).unwrap();
        // a link whose parent directory is the directory itself
        std::os::unix::fs::symlink(dir.0.join("other"), dir.0.join("slink")).unwrap();
        let case = format!("{:?} twice={again}", mods.iter().enumerate().map(|(k, m)| if m.readable { format!("{}: {}", names[k], module_src(k, m).replace(&abs, "ABS")) } else { format!("{}: unreadable", names[k]) }).collect::<Vec<_>>());
        run.case("modules", &case, true, || {
            let mut ctx = Context::new(ReportingLevel::Warning, Some(Path::new("/nowhere/out")), None);
            let mut sim = Sim { mods: &mods, state: HashMap::new(), ids: HashMap::new(), errors: vec![], files: vec![], nesting: 0 };
            for round in 0..1 + again as usize {
                if round == 1 {
                    // what was loaded stays loaded; what failed stays failed
                    for k in 1..n { std::fs::write(dir.0.join(format!("{}.papyri", names[k])), "@export(mid=`new`).\n\n(new)").unwrap(); }
                    if sim.state.len() + 1 < n && (1..n).any(|k| !sim.state.contains_key(&k)) { break; }
                    ctx.reset();
                    sim.ids.clear();
                    sim.errors.clear();
                    sim.files.clear();
                }
                let (text, _) = sim.body(0);
                let result = match ctx.load_uncached(&dir.0.join("m0.papyri")) { Ok(r) => r, Err(e) => return Err(("the main file loads".into(), e.to_string())) };
                let mut b = vec![];
                ctx.render(&result.out, false, &mut b).unwrap();
                let got: String = String::from_utf8(b).unwrap().chars().filter(|c| !c.is_whitespace()).collect();
                let diags = format!("{:?}", ctx.diagnostics).replace(&abs, "ABS");
                ensure(got == text, text, format!("{got}\n{diags}"))?;
                let mut errs = vec![];
                for l in diags.lines().filter(|l| l.contains(" error: ")) {
                    errs.push(if l.contains("circular") { "circular" } else if l.contains("previous error") { "previous" }
                        else if l.contains("write") { "write" } else if l.contains("no-such-file") { "missing" } else if l.contains("Module error") { "io" } else { "other" });
                }
                ensure(errs == sim.errors, format!("{:?}", sim.errors), format!("{errs:?}\n{diags}"))?;
                check_eq(&(sim.errors.len() as u32), &ctx.diagnostics.num_errors)?;
                let files: Vec<_> = ctx.out_files.as_mut().unwrap().take_iter().collect();
                let mut got = vec![];
                for (p, h) in files {
                    let mut b = vec![];
                    ctx.render(&h, false, &mut b).unwrap();
                    let t = String::from_utf8(b).unwrap();
                    ensure(p.ends_with(format!("{}.html", t.to_lowercase())), "content at its own path", format!("{t} at {p:?}"))?;
                    got.push(t);
                }
                check_eq(&sim.files, &got)?;
            }
            Ok(())
        });
    }
}

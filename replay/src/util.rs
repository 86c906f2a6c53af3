//! Shared machinery: random choices, running the compiler, reporting.
use std::cell::RefCell;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::Mutex;
use std::time::Instant;

use papyri_lang::compiler::{Context, Value, HTML};
use papyri_lang::errors::ReportingLevel;

pub static CURRENT: Mutex<(String, Option<Instant>)> = Mutex::new((String::new(), None));

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Rng { Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03) }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T { &xs[self.below(xs.len())] }
}

#[derive(Clone)]
pub struct Violation { pub key: String, pub case: String, pub expected: String, pub got: String }

/// Collects what one property's exploration did.
pub struct Run {
    pub thorough: bool,
    pub rng: Rng,
    pub start: Instant,
    pub evaluations: u64,
    distinct: HashSet<u64>,
    pub samples: Vec<String>,
    pub violations: Vec<Violation>,
    pub rules: Vec<String>,
    pub max_violations: usize,
    trace: Option<String>,
}

pub const MAX_VIOLATIONS: usize = 5;

impl Run {
    pub fn new(seed: u64, thorough: bool) -> Run {
        Run {
            thorough, rng: Rng::new(seed), start: Instant::now(), evaluations: 0,
            distinct: HashSet::new(), samples: vec![], violations: vec![], rules: vec![], max_violations: std::env::var("REPLAY_MAX").map_or(MAX_VIOLATIONS, |s| s.parse().unwrap()),
            trace: std::env::var("REPLAY_TRACE").ok(),
        }
    }
    pub fn done(&self) -> bool { self.violations.len() >= self.max_violations }
    pub fn rule(&mut self, s: &str) { self.rules.push(s.to_string()); }
    /// How much to do: numbers of random cases (100 or more in the thorough run) are cheap, sizes are not.
    pub fn scale(&self, quick: usize, thorough: usize) -> usize {
        if std::env::var_os("REPLAY_SMALL").is_some() { return quick; }
        match (self.thorough, thorough >= 100) { (true, true) => thorough * 5, (false, true) => quick.max(thorough / 2), (true, false) => thorough, (false, false) => quick }
    }
    /// Counts a case as non-trivial after it was run.
    pub fn note(&mut self, group: &str, case: &str) {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (group, case).hash(&mut h);
        self.distinct.insert(h.finish());
        let n = self.distinct.len();
        if self.samples.len() < 12 && (n < 4 || n.is_power_of_two()) { self.samples.push(format!("[{group}] {case}")); }
    }
    pub fn distinct_count(&self) -> u64 { self.distinct.len() as u64 }
    /// Runs one case; `f` returns an error (expected, got) if the property fails.
    pub fn case(&mut self, group: &str, case: &str, nontrivial: bool, f: impl FnOnce() -> Result<(), (String, String)>) {
        if self.done() { return; }
        self.evaluations += 1;
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (group, case).hash(&mut h);
            self.distinct.insert(h.finish());
            let n = self.distinct.len();
            if self.samples.len() < 12 && (n < 4 || n.is_power_of_two()) { self.samples.push(format!("[{group}] {case}")); }
        }
        if let Some(p) = &self.trace { let _ = std::fs::write(p, format!("[{group}] {case}")); }
        *CURRENT.lock().unwrap() = (format!("[{group}] {case}"), Some(Instant::now()));
        let r = catch_unwind(AssertUnwindSafe(f));
        CURRENT.lock().unwrap().1 = None;
        let (expected, got) = match r {
            Ok(Ok(())) => return,
            Ok(Err(p)) => p,
            Err(e) => ("no crash".to_string(), format!("panic: {}", panic_msg(&e))),
        };
        self.violations.push(Violation { key: group.to_string(), case: case.to_string(), expected, got });
    }
}

pub fn panic_msg(e: &Box<dyn std::any::Any + Send>) -> String {
    e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "?".into())
}

pub fn check_eq<T: PartialEq + std::fmt::Debug>(expected: &T, got: &T) -> Result<(), (String, String)> {
    if expected == got { Ok(()) } else { Err((format!("{expected:?}"), format!("{got:?}"))) }
}
pub fn ensure(b: bool, expected: impl Into<String>, got: impl Into<String>) -> Result<(), (String, String)> {
    if b { Ok(()) } else { Err((expected.into(), got.into())) }
}

thread_local! { static CTX: RefCell<Option<Context>> = RefCell::new(None); }

/// The outcome of compiling a program.
#[derive(Clone, Debug, PartialEq)]
pub struct Out { pub html: String, pub text: String, pub diags: String, pub errors: u32, pub warnings: u32 }
impl Out {
    pub fn ok(&self) -> bool { self.errors == 0 }
    pub fn clean(&self) -> bool { self.errors == 0 && self.warnings == 0 }
}

/// Runs `f` with a compiler context which is reused between cases, and thrown
/// away after a panic.
pub fn with_ctx<T>(f: impl FnOnce(&mut Context) -> T) -> T {
    let mut ctx = CTX.with(|c| c.borrow_mut().take()).unwrap_or_else(new_ctx);
    ctx.reset();
    let r = f(&mut ctx);
    CTX.with(|c| *c.borrow_mut() = Some(ctx));
    r
}
pub fn new_ctx() -> Context { Context::new(ReportingLevel::All, None, None) }

pub fn compile_in(ctx: &mut Context, src: &str) -> (Out, HTML, Vec<Value>) {
    let r = ctx.compile_synthetic("<case>", src);
    let mut html = Vec::new();
    ctx.render(&r.out, true, &mut html).unwrap();
    let mut text = Vec::new();
    ctx.render(&r.out, false, &mut text).unwrap();
    let out = Out {
        html: String::from_utf8(html).unwrap(),
        text: String::from_utf8(text).unwrap(),
        diags: format!("{:?}", ctx.diagnostics),
        errors: ctx.diagnostics.num_errors,
        warnings: ctx.diagnostics.num_warnings,
    };
    (out, r.out, r.exports.values().cloned().collect())
}
pub fn compile(src: &str) -> Out { with_ctx(|c| compile_in(c, src).0) }

/// Evaluates an expression to a value.
pub fn eval_in(ctx: &mut Context, expr: &str) -> Result<Value, String> {
    let (out, _, exports) = compile_in(ctx, &format!("@export(v={expr})."));
    if out.errors > 0 { return Err(out.diags); }
    exports.into_iter().next().ok_or_else(|| format!("no value: {}", out.diags))
}
pub fn eval(expr: &str) -> Result<Value, String> { with_ctx(|c| { c.reset(); eval_in(c, expr) }) }
/// Evaluates an expression and shows the value as text; errors become "error".
pub fn eval_show(expr: &str) -> String {
    match eval(expr) { Ok(v) => show(&v), Err(_) => "error".into() }
}
pub fn eval_show_diag(expr: &str) -> (String, String) {
    match eval(expr) { Ok(v) => (show(&v), String::new()), Err(d) => ("error".into(), d) }
}

/// Shows a value. Text is quoted; HTML is shown by its structure.
pub fn show(v: &Value) -> String {
    match v {
        Value::Bool(b) => if *b { "True".into() } else { "False".into() },
        Value::Int(i) => i.to_string(),
        Value::Str(s) => format!("{s:?}"),
        Value::List(vs) => format!("[{}]", vs.as_ref().iter().map(show).collect::<Vec<_>>().join(", ")),
        Value::Dict(vs) => format!("{{{}}}", vs.values().map(show).collect::<Vec<_>>().join(", ")),
        Value::HTML(h) => show_html(h),
        Value::Func(_) => "<func>".into(),
        Value::Regex(_) => "<regex>".into(),
    }
}
pub fn show_html(h: &HTML) -> String {
    match h {
        HTML::Empty => ".".into(),
        HTML::Text(t) => format!("t{t:?}"),
        HTML::Whitespace => "ws".into(),
        HTML::RawNewline => "nl".into(),
        HTML::Sequence(s) => format!("({})", s.iter().map(show_html).collect::<Vec<_>>().join(" ")),
        #[cfg(papyri_verif)]
        HTML::Tag(t) => {
            let (n, a, c) = papyri_lang::compiler::verif::tag_parts(t);
            format!("<{n:?}{}>{}</>", a.iter().map(|(k, v)| format!(" {k:?}={v:?}")).collect::<String>(), show_html(c))
        },
        #[cfg(not(papyri_verif))]
        HTML::Tag(t) => format!("{t:?}"),
    }
}

/// A papyri verbatim string literal which denotes exactly `s`, if there is one.
pub fn str_lit(s: &str) -> Option<String> {
    if s.starts_with('`') || s.ends_with('`') || s.is_empty() { return template_lit(s); }
    for n in [1, 2, 3, 4, 5] {
        let d = "`".repeat(n);
        if !s.contains(&d) && (n >= 3 || !s.contains('\n')) { return Some(format!("{d}{s}{d}")); }
    }
    None
}
/// A quoted string literal, using escapes for all but plain characters.
pub fn template_lit(s: &str) -> Option<String> {
    let mut out = String::from("\"");
    for c in s.chars() {
        if c.is_ascii_alphanumeric() || c == ' ' { out.push(c) }
        else { out += &format!("\\U{:08x}", c as u32) }
    }
    // consecutive spaces are collapsed, so escape all but the first
    let mut fixed = String::new();
    let mut prev_space = false;
    for c in out.chars() {
        if c == ' ' && prev_space { fixed += "\\U00000020"; } else { fixed.push(c) }
        prev_space = c == ' ';
    }
    fixed.push('"');
    Some(fixed)
}

pub fn rc(s: &str) -> Rc<str> { Rc::from(s) }

pub fn all_strings(alphabet: &[&str], max_len: usize, mut f: impl FnMut(&str)) {
    fn go(alphabet: &[&str], left: usize, cur: &mut String, f: &mut impl FnMut(&str)) {
        f(cur);
        if left == 0 { return; }
        for a in alphabet {
            let n = cur.len();
            cur.push_str(a);
            go(alphabet, left - 1, cur, f);
            cur.truncate(n);
        }
    }
    go(alphabet, max_len, &mut String::new(), &mut f);
}
pub fn random_string(rng: &mut Rng, alphabet: &[&str], max_parts: usize) -> String {
    let n = rng.below(max_parts + 1);
    (0..n).map(|_| *rng.pick(alphabet)).collect()
}

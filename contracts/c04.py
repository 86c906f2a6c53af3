"""C04: the diagnostic sink counts everything and lists by level; errors block output."""
from vx import Unit, File, match_close


def variants(path, name):
    """The variants of a field-less enum in the order of their declaration."""
    fl = File.get(path)
    i, j, e = fl.find_item('enum', name)
    return [t.s for t in fl.toks[j + 1:e] if t.k == 'id']


def rank(path, name):
    vs = variants(path, name)
    return 'pub open spec fn rank_%s(x: %s) -> int { match x { %s } }\n' % (name.lower(), name, ', '.join(f'{name}::{v} => {i}int' for i, v in enumerate(vs)))


P = 'src/errors/sink_base.rs'

PRE = r'''
pub struct SourceFile { pub id: u32 }
pub struct SourceRange { pub start: u32, pub end: u32 }
'''


def sink():
    u = Unit('sink')
    u.text('use std::rc::Rc;\n' + PRE)
    u.item(P, 'enum', 'Severity', attrs='#[derive(Clone, Copy)]')
    u.item(P, 'enum', 'ReportingLevel', attrs='#[derive(Clone, Copy)]')
    u.item(P, 'struct', 'DiagSourceRange')
    u.item(P, 'type', 'StackTrace')
    u.item(P, 'struct', 'Diagnostic', subs=[('T : std :: fmt :: Display', 'T')])
    u.item(P, 'struct', 'DiagnosticSink', subs=[('T : std :: fmt :: Display', 'T')])
    u.text(rank(P, 'Severity') + r'''
/// The derived order of a field-less enum is that of its declaration.
#[verifier::external_body]
pub fn severity_ge(a: Severity, b: Severity) -> (r: bool)
    ensures r == (rank_severity(a) >= rank_severity(b)),
{ a as u8 >= b as u8 }

/// What a reporting level lists.
pub open spec fn listed(level: ReportingLevel, sev: Severity) -> bool {
    match level {
        ReportingLevel::All => true,
        ReportingLevel::Warning => sev !is Debug,
        ReportingLevel::Error => sev is Error,
        ReportingLevel::IgnoreAll => false,
    }
}
/// How often a severity occurs.
pub open spec fn count(h: Seq<(Severity, int)>, sev: Severity) -> nat { h.filter(|x: (Severity, int)| x.0 == sev).len() }
''')
    u.text('impl ReportingLevel {')
    f = u.fn(P, 'should_report', impl='^impl ReportingLevel$')
    f.sub('severity >= $x,', 'severity_ge(severity, $x),', 0)
    f.ensures('r == listed(self, severity)')
    u.text('} impl DiagSourceRange {')
    f = u.fn(P, 'at', impl='^impl DiagSourceRange$')
    f.ensures('r.src == src', 'r.start == range.start', 'r.in_func is None')
    f = u.fn(P, 'at_func', impl='^impl DiagSourceRange$')
    f.sub('Box :: from ( $x )', 'box_str($x)', 0)
    f.ensures('r.src == src', 'r.start == range.start', 'r.in_func matches Some(n) && n@ == func_name@')
    u.text('''} #[verifier::external_body]
pub fn box_str(s: &str) -> (r: Box<str>)
    ensures r@ == s@,
{ Box::from(s) }
impl<T> DiagnosticSink<T> {''')
    I = '^impl < T : std : : fmt : : Display > DiagnosticSink < T >$'
    f = u.fn(P, 'new', impl=I)
    f.ensures('r.v@.len() == 0', 'r.num_errors == 0', 'r.num_warnings == 0', 'r.reporting_level == reporting_level')
    f = u.fn(P, 'is_empty', impl=I)
    f.ensures('r == (self.num_errors == 0 && self.num_warnings == 0)')
    f = u.fn(P, 'clear', impl=I)
    f.ensures('final(self).v@.len() == 0', 'final(self).num_errors == 0', 'final(self).num_warnings == 0', 'final(self).reporting_level == old(self).reporting_level')
    f = u.fn(P, 'add', impl=I)
    f.requires('old(self).num_errors < u32::MAX', 'old(self).num_warnings < u32::MAX')
    f.ensures(
        'final(self).num_errors == old(self).num_errors + (if severity is Error { 1int } else { 0 })',
        'final(self).num_warnings == old(self).num_warnings + (if severity is Warning { 1int } else { 0 })',
        'final(self).reporting_level == old(self).reporting_level',
        'listed(old(self).reporting_level, severity) ==> final(self).v@ == old(self).v@.push(Diagnostic { msg, range: DiagSourceRange { src: source_file, start: range.start, in_func: None }, trace })',
        '!listed(old(self).reporting_level, severity) ==> final(self).v@ == old(self).v@')
    u.text(r'''}
/// The number of reports of one severity in a history.
pub open spec fn number<T>(h: Seq<(Severity, T)>, sev: Severity) -> nat decreases h.len() {
    if h.len() == 0 { 0 } else { number(h.drop_last(), sev) + (if h.last().0 == sev { 1nat } else { 0 }) }
}
/// The messages of a history which a level lists, in their order.
pub open spec fn listing<T>(level: ReportingLevel, h: Seq<(Severity, T)>) -> Seq<T> decreases h.len() {
    if h.len() == 0 { Seq::empty() } else if listed(level, h.last().0) { listing(level, h.drop_last()).push(h.last().1) } else { listing(level, h.drop_last()) }
}
/// A history of any length, over the contracts alone: what the sink shows at
/// the end is what was reported since it was made.
pub fn history<T: Copy>(level: ReportingLevel, h: Vec<(Severity, T)>, src: Rc<SourceFile>) -> (s: DiagnosticSink<T>)
    requires h@.len() < u32::MAX,
    ensures
        s.num_errors == number(h@, Severity::Error),
        s.num_warnings == number(h@, Severity::Warning),
        s.v@.map_values(|d: Diagnostic<T>| d.msg) =~= listing(level, h@),
{
    let mut s = DiagnosticSink::<T>::new(level);
    let mut i: usize = 0;
    while i < h.len()
        invariant
            i <= h@.len() < u32::MAX, s.reporting_level == level,
            s.num_errors == number(h@.take(i as int), Severity::Error), s.num_errors <= i,
            s.num_warnings == number(h@.take(i as int), Severity::Warning), s.num_warnings <= i,
            s.v@.map_values(|d: Diagnostic<T>| d.msg) =~= listing(level, h@.take(i as int)),
        decreases h@.len() - i,
    {
        proof { assert(h@.take(i + 1).drop_last() =~= h@.take(i as int)); }
        let (sev, msg) = h[i];
        s.add(sev, msg, src.clone(), SourceRange { start: 0, end: 0 }, None);
        i += 1;
    }
    proof { assert(h@.take(i as int) =~= h@); }
    s
}
''')
    return u


def severity():
    u = Unit('severity')
    S = 'src/errors/sink.rs'
    u.text(PRE + '\n'.join(f'pub struct {n} {{ pub id: u32 }}' for n in ('ModuleError', 'NameError', 'RuntimeError', 'SyntaxError', 'TypeError', 'Warning')))
    u.item(P, 'enum', 'Severity')
    u.item(S, 'enum', 'PapyriError')
    u.text('''
/// Everything which is not a warning, and was not reported before, is an error.
pub open spec fn severity_of(e: PapyriError) -> Severity {
    match e { PapyriError::Warning(_) => Severity::Warning, PapyriError::AlreadyReported => Severity::Debug, _ => Severity::Error }
}
pub struct Rc<T> { pub t: T }
pub struct DiagSourceRange { pub id: u32 }
pub type StackTrace = Box<[DiagSourceRange]>;
/// The reports which a sink has received.
pub struct Diagnostics { pub log: Ghost<Seq<(Severity, PapyriError, Option<StackTrace>)>> }
impl Diagnostics {
    #[verifier::external_body]
    pub fn add(&mut self, severity: Severity, msg: PapyriError, source_file: Rc<SourceFile>, range: SourceRange, trace: Option<StackTrace>)
        ensures final(self).log@ == old(self).log@.push((severity, msg, trace)),
    { unimplemented!() }
}
#[verifier::external_body]
pub fn into_error<T: Into<PapyriError>>(e: T) -> (r: PapyriError)
    ensures call_ensures(T::into, (e,), r),
{ e.into() }
impl PapyriError {''')
    f = u.fn(S, 'severity', impl='^impl PapyriError$')
    f.ensures('r == severity_of(*self)')
    u.text('} impl Diagnostics {')
    f = u.fn(S, 'report_static', impl='^impl Diagnostics$')
    f.sub('e . into ( )', 'into_error(e)', 1)
    f.ensures('final(self).log@.len() == old(self).log@.len() + 1', 'final(self).log@.drop_last() =~= old(self).log@', 'final(self).log@.last().0 == severity_of(final(self).log@.last().1)', 'call_ensures(T::into, (e,), final(self).log@.last().1)', 'final(self).log@.last().2 is None')
    f = u.fn(S, 'report', impl='^impl Diagnostics$')
    f.sub('e . into ( )', 'into_error(e)', 1)
    f.ensures('final(self).log@.len() == old(self).log@.len() + 1', 'final(self).log@.drop_last() =~= old(self).log@', 'final(self).log@.last().0 == severity_of(final(self).log@.last().1)', 'call_ensures(T::into, (e,), final(self).log@.last().1)', 'final(self).log@.last().2 == Some(trace)')
    u.text('}')
    return u


WORLD = r'''
struct HTML { id: u64 }
struct Diagnostics { num_errors: u32, num_warnings: u32 }
impl Diagnostics {
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self.num_errors == 0 && self.num_warnings == 0) { unimplemented!() }
    #[verifier::external_body]
    fn print_to_stderr(&self) { }
}
spec fn nothing(d: Diagnostics) -> bool { d.num_errors == 0 && d.num_warnings == 0 }
#[verifier::external_body]
fn html_is_empty(h: &HTML) -> (r: bool) ensures r == no_content(*h) { unimplemented!() }
uninterp spec fn no_content(h: HTML) -> bool;
#[verifier::external_body]
fn message() -> String { unimplemented!() }
'''


def compile_str():
    u = Unit('compile_str')
    u.text(WORLD + r'''
enum ReportingLevel { All, Warning, Error, IgnoreAll }
struct Output { out: HTML }
struct Context { diagnostics: Diagnostics, state: u64 }
/// What compiling and rendering give; nothing is assumed about these.
uninterp spec fn compiled(c: Context, name: Seq<char>, src: Seq<char>) -> (Context, HTML);
uninterp spec fn rendered(c: Context, h: HTML, markup: bool) -> Seq<u8>;
uninterp spec fn fresh(level: ReportingLevel) -> Context;
uninterp spec fn decoded(b: Seq<u8>) -> Seq<char>;
impl Context {
    #[verifier::external_body]
    fn new(level: ReportingLevel, out_dir: Option<u64>, client: Option<u64>) -> (r: Context) ensures r == fresh(level) { unimplemented!() }
    #[verifier::external_body]
    fn compile_synthetic(&mut self, name: &str, src: &str) -> (r: Output)
        ensures (*final(self), r.out) == compiled(*old(self), name@, src@),
    { unimplemented!() }
    #[verifier::external_body]
    fn render(&mut self, h: &HTML, markup: bool, out: &mut Vec<u8>) -> (r: Result<(), u64>)
        ensures r is Ok, final(out)@ == old(out)@ + rendered(*old(self), *h, markup), *final(self) == *old(self),
    { unimplemented!() }
}
#[verifier::external_body]
fn from_utf8(v: Vec<u8>) -> (r: String) ensures r@ == decoded(v@) { unimplemented!() }
spec fn result_of(src: Seq<char>) -> (Context, HTML) { compiled(fresh(ReportingLevel::Warning), "<string>"@, src) }
''')
    f = u.fn('src/lib.rs', 'compile_str')
    f.sub('errors :: Diagnostics', 'Diagnostics', 0).sub('compiler :: Context', 'Context', 0).sub('errors :: ReportingLevel', 'ReportingLevel', 0)
    f.sub('String :: from_utf8 ( $x ) . unwrap ( )', 'from_utf8($x)', 1)
    f.sub('ctx . render ( $x , $y , $z ) . unwrap ( )', '{ let _ = ctx.render($x, $y, $z); }', 1)
    f.ensures('r is Ok == nothing(result_of(src@).0.diagnostics)', 'r matches Ok(s) ==> s@ == decoded(rendered(result_of(src@).0, result_of(src@).1, true))', 'r matches Err(d) ==> d == result_of(src@).0.diagnostics')
    f.after('let mut out = Vec :: new ( ) ;', 'proof { assert(out@ + rendered(ctx, result.out, true) =~= rendered(ctx, result.out, true)); }')
    return u


def one_file():
    u = Unit('process_source_file')
    B = 'src/bin/papyri.rs'
    u.text(WORLD + r'''
struct Path { id: u64 }
type PathBuf = Path;
struct Output { out: HTML }
struct Context { diagnostics: Diagnostics, pending: Ghost<Seq<(PathBuf, HTML)>>, state: u64 }
uninterp spec fn loaded(c: Context, p: Path) -> (Context, HTML);
uninterp spec fn was_reset(c: Context) -> Context;
/// A log of the files which were written.
struct Main { options: ProgramArgs, ctx: Context, written: Ghost<Seq<(PathBuf, HTML)>> }
impl Context {
    #[verifier::external_body]
    fn reset(&mut self) ensures *final(self) == was_reset(*old(self)) { }
    #[verifier::external_body]
    fn load_uncached(&mut self, p: &Path) -> (r: Result<Output, String>)
        ensures *final(self) == loaded(*old(self), *p).0, r matches Ok(o) ==> o.out == loaded(*old(self), *p).1,
    { unimplemented!() }
    /// The files which the document asked for.
    #[verifier::external_body]
    fn take_out_files(&mut self) -> (r: Vec<(PathBuf, HTML)>)
        ensures r@ == old(self).pending@, final(self).diagnostics == old(self).diagnostics,
    { unimplemented!() }
}
struct Writer { path: Path }
#[verifier::external_body]
fn create_parent(p: &Path) -> Result<(), String> { unimplemented!() }
#[verifier::external_body]
fn create_file(p: &Path) -> (r: Result<Writer, String>) ensures r matches Ok(w) ==> w.path == *p { unimplemented!() }
#[verifier::external_body]
fn is_papyri_library(p: &Path) -> bool { unimplemented!() }
#[verifier::external_body]
fn is_unchanged(p: &Path, q: &Path) -> bool { unimplemented!() }
spec fn after_load(m: Main, p: Path) -> Context { loaded(was_reset(m.ctx), p).0 }
spec fn main_output(m: Main, p: Path) -> HTML { loaded(was_reset(m.ctx), p).1 }
''')
    u.item(B, 'enum', 'SourceFileResult')
    u.item(B, 'struct', 'ProgramArgs', subs=[('std :: path :: PathBuf', 'Path')])
    u.text(r'''
uninterp spec fn out_path_of(m: Main, p: Path, d: Path) -> Result<PathBuf, String>;
impl Main {
    #[verifier::external_body]
    fn get_out_path(&self, src_path: &Path, in_dir: &Path) -> (r: Result<PathBuf, String>) ensures r == out_path_of(*self, *src_path, *in_dir) { unimplemented!() }
    /// Writing to a file which was created: only the rendering which the
    /// options ask for is written.
    #[verifier::external_body]
    fn render_to_file(&mut self, html: &HTML, markup: bool, out: &mut Writer) -> (r: Result<(), String>)
        requires markup == !old(self).options.text,
        ensures
            final(self).options == old(self).options,
            r is Ok ==> final(self).written@ == old(self).written@.push((old(out).path, *html)),
    { unimplemented!() }
''')
    f = u.fn(B, 'write_out_file', impl='^impl Main$')
    f.sub('compiler :: HTML', 'HTML', 0).sub('let path_str = path . to_string_lossy ( ) ;', '', 0).sub('println ! ( $x ) ;', '', 0).sub('. map_err ( | e | format ! ( $x ) )', '', 0)
    f.sub('path . parent ( ) . map_or ( Ok ( ( ) ) , fs :: create_dir_all )', 'create_parent(path)', 1)
    f.sub('fs :: File :: create ( $x ) . map ( io :: BufWriter :: new )', 'create_file($x)', 1)
    f.sub('self . ctx . render (', 'self.render_to_file(', 1)
    f.ensures('r is Ok ==> final(self).written@ == old(self).written@.push((*path, html))', 'final(self).options == old(self).options')
    f = u.fn(B, 'process_source_file', impl='^impl Main$')
    f.sub('let src_path_str = src_path . to_string_lossy ( ) ;', '', 0)
    f.sub('println ! ( $x ) ;', '', 0).sub('eprintln ! ( $x ) ;', '', 0).sub('utils :: sourcefile :: is_papyri_library', 'is_papyri_library', 0)
    f.sub('. map_err ( | e | format ! ( $x ) )', '', 0).sub('self . ctx . out_files . as_mut ( ) . map_or_else ( Vec :: new , | o | o . take_iter ( ) . collect ( ) )', 'self.ctx.take_out_files()', 1)
    f.sub('result . out . is_empty ( )', 'html_is_empty(&result.out)', 0)
    f.sub('let diagnostics = & mut self . ctx . diagnostics ;', 'let diagnostics = &self.ctx.diagnostics;', 0)
    f.sub('for ( $a , $b ) in $x {', 'for pair in $x { let ($a, $b) = pair;', 1)
    f.ensures(
        # any error: no file is written and the file counts as failed
        'final(self).written@ != old(self).written@ ==> after_load(*old(self), *src_path).diagnostics.num_errors == 0',
        'r matches Ok(SourceFileResult::OkWroteFiles(k)) ==> after_load(*old(self), *src_path).diagnostics.num_errors == 0 && out_path_of(*old(self), *src_path, *in_dir) is Ok && ({ let todo = after_load(*old(self), *src_path).pending@ + (if no_content(main_output(*old(self), *src_path)) { Seq::empty() } else { seq![(out_path_of(*old(self), *src_path, *in_dir)->Ok_0, main_output(*old(self), *src_path))] }); k == todo.len() as u32 && final(self).written@ =~= old(self).written@ + todo })',
        'r matches Ok(SourceFileResult::Failed) ==> after_load(*old(self), *src_path).diagnostics.num_errors > 0 && final(self).written@ == old(self).written@',
        'r matches Ok(SourceFileResult::SkippedNoOutput) ==> after_load(*old(self), *src_path).diagnostics.num_errors == 0 && after_load(*old(self), *src_path).pending@.len() == 0 && no_content(main_output(*old(self), *src_path))')
    f.after('let diagnostics = & self . ctx . diagnostics ;', 'let ghost files = to_write@;')
    f.loop(0, it='it', invariant=['it.seq() == files', 'self.written@ =~= old(self).written@ + files.take(it.index@ as int)', 'after_load(*old(self), *src_path).diagnostics.num_errors == 0'])
    u.text('}')
    return u


def program():
    u = Unit('program')
    B = 'src/bin/papyri.rs'
    u.text(WORLD + r'''
struct Path { id: u64 }
struct Output { out: HTML }
struct Context { diagnostics: Diagnostics, state: u64 }
uninterp spec fn compiled(c: Context, name: Seq<char>, src: Seq<char>) -> (Context, HTML);
uninterp spec fn decoded(b: Seq<u8>) -> Option<Seq<char>>;
impl Diagnostics {
    #[verifier::external_body]
    fn summary(&self) -> String { unimplemented!() }
}
impl Context {
    #[verifier::external_body]
    fn compile_synthetic(&mut self, name: &str, src: &str) -> (r: Output)
        ensures (*final(self), r.out) == compiled(*old(self), name@, src@),
    { unimplemented!() }
}
#[verifier::external_body]
fn from_utf8(v: Vec<u8>) -> (r: Result<String, String>) ensures r matches Ok(s) ==> decoded(v@) == Some(s@), r is Err ==> decoded(v@) is None { unimplemented!() }
/// What standard input holds, and what the current directory is; nothing is assumed about these.
uninterp spec fn input() -> Seq<u8>;
uninterp spec fn input_ok() -> bool;
uninterp spec fn directory() -> Result<Path, String>;
#[verifier::external_body]
fn read_stdin(b: &mut Vec<u8>) -> (r: Result<(), String>) ensures r is Ok == input_ok(), r is Ok ==> final(b)@ == old(b)@ + input() { unimplemented!() }
#[verifier::external_body]
fn current_directory() -> (r: Result<Path, String>) ensures r == directory() { unimplemented!() }
/// What was written to standard output, and the results of the files which
/// were compiled; `broken` when one could not be read or written.
struct Main { options: ProgramArgs, ctx: Context, stdout: Ghost<Seq<(HTML, bool)>>, results: Ghost<Seq<SourceFileResult>>, broken: Ghost<bool> }
uninterp spec fn paths_to_compile(o: ProgramArgs) -> Result<Seq<Path>, String>;
spec fn failed(rs: Seq<SourceFileResult>, n: int) -> nat decreases n { if n <= 0 { 0 } else { failed(rs, n - 1) + (if rs[n - 1] is Failed { 1nat } else { 0 }) } }
spec fn fine(rs: Seq<SourceFileResult>, n: int) -> nat decreases n { if n <= 0 { 0 } else { fine(rs, n - 1) + (if rs[n - 1] is OkWroteFiles { 1nat } else { 0 }) } }
spec fn skips(x: SourceFileResult) -> bool { x is SkippedLibrary || x is SkippedUnchanged || x is SkippedNoOutput }
spec fn skipped(rs: Seq<SourceFileResult>, n: int) -> nat decreases n { if n <= 0 { 0 } else { skipped(rs, n - 1) + (if skips(rs[n - 1]) { 1nat } else { 0 }) } }
spec fn files(rs: Seq<SourceFileResult>, n: int) -> nat decreases n { if n <= 0 { 0 } else { files(rs, n - 1) + (match rs[n - 1] { SourceFileResult::OkWroteFiles(k) => k as nat, _ => 0 }) } }
proof fn lemma_grows(a: Seq<SourceFileResult>, x: SourceFileResult, n: int)
    requires 0 <= n <= a.len(),
    ensures failed(a.push(x), n) == failed(a, n), fine(a.push(x), n) == fine(a, n), skipped(a.push(x), n) == skipped(a, n), files(a.push(x), n) == files(a, n),
    decreases n,
{ if n > 0 { lemma_grows(a, x, n - 1); } }
proof fn lemma_failed(a: Seq<SourceFileResult>, n: int)
    requires 0 <= n <= a.len(),
    ensures failed(a, n) > 0 <==> exists|i: int| 0 <= i < n && a[i] is Failed,
    decreases n,
{ if n > 0 { lemma_failed(a, n - 1); if failed(a, n - 1) > 0 { let i = choose|i: int| 0 <= i < n - 1 && a[i] is Failed; assert(a[i] is Failed); } } }
uninterp spec fn report_of(files: int, ok: int, failed: int, skipped: int) -> Seq<char>;
/// The last line the program prints.
#[verifier::external_body]
fn report(files: u32, ok: i32, failed: i32, skipped: i32) -> (r: String) ensures r@ == report_of(files as int, ok as int, failed as int, skipped as int) { unimplemented!() }
''')
    u.item(B, 'enum', 'SourceFileResult')
    u.item(B, 'struct', 'ProgramArgs', subs=[('std :: path :: PathBuf', 'Path')])
    u.text(r'''
impl Main {
    #[verifier::external_body]
    fn get_source_paths(&self) -> (r: Result<Vec<Path>, String>)
        ensures
            r is Ok == paths_to_compile(self.options) is Ok,
            r matches Ok(v) ==> paths_to_compile(self.options) == Ok::<Seq<Path>, String>(v@) && v@.len() < i32::MAX,
    { unimplemented!() }
    /// One run writes fewer than 2^32 files.
    #[verifier::external_body]
    fn one_file(&mut self, src_path: &Path, in_dir: &Path) -> (r: Result<SourceFileResult, String>)
        ensures
            final(self).options == old(self).options,
            final(self).stdout@ == old(self).stdout@,
            r matches Ok(x) ==> final(self).results@ == old(self).results@.push(x) && final(self).broken@ == old(self).broken@,
            r is Err ==> final(self).results@ == old(self).results@ && final(self).broken@,
            files(final(self).results@, final(self).results@.len() as int) <= u32::MAX,
    { unimplemented!() }
    fn process_source_file(&mut self, src_path: &Path, in_dir: &Path) -> (r: Result<SourceFileResult, String>)
        ensures
            final(self).options == old(self).options,
            final(self).stdout@ == old(self).stdout@,
            r matches Ok(x) ==> final(self).results@ == old(self).results@.push(x) && final(self).broken@ == old(self).broken@,
            r is Err ==> final(self).results@ == old(self).results@ && final(self).broken@,
            r matches Ok(x) ==> ({ let (a, b) = (old(self).results@, final(self).results@); let (n, m) = (a.len() as int, b.len() as int);
                failed(b, m) == failed(a, n) + (if x is Failed { 1int } else { 0 }) && fine(b, m) == fine(a, n) + (if x is OkWroteFiles { 1int } else { 0 })
                && skipped(b, m) == skipped(a, n) + (if skips(x) { 1int } else { 0 })
                && files(b, m) == files(a, n) + (match x { SourceFileResult::OkWroteFiles(k) => k as int, _ => 0 }) && files(b, m) <= u32::MAX }),
    {
        let ghost before = self.results@;
        let r = self.one_file(src_path, in_dir);
        proof { if r is Ok { lemma_grows(before, r->Ok_0, before.len() as int); } }
        r
    }
    #[verifier::external_body]
    fn render_to_stdout(&mut self, html: &HTML, markup: bool) -> (r: Result<(), String>)
        ensures
            final(self).ctx == old(self).ctx,
            r is Ok ==> final(self).stdout@ == old(self).stdout@.push((*html, markup)),
    { unimplemented!() }
''')
    f = u.fn(B, 'run_stdin', impl='^impl Main$')
    f.sub('use std :: io :: Read ;', '', 0)
    f.sub('std :: io :: stdin ( ) . read_to_end ( & mut $x )', 'read_stdin(&mut $x)', 1).sub('String :: from_utf8 (', 'from_utf8(', 1)
    f.sub('self . ctx . render ( $x , $y , & mut std :: io :: stdout ( ) )', 'self.render_to_stdout($x, $y)', 1)
    f.sub('. map_err ( | e | format ! ( $x ) )', '', 0)
    f.sub('$i:s . as_ref ( )', '$s.as_str()', 0)
    OUT = 'compiled(old(self).ctx, "<stdin>"@, decoded(input())->Some_0)'
    f.ensures(
        '({ let usable = old(self).options.paths@.len() == 0 && old(self).options.out_dir is None && input_ok() && decoded(input()) is Some; '
        f'&&& r is Ok ==> usable && nothing({OUT}.0.diagnostics) && final(self).stdout@ == old(self).stdout@.push(({OUT}.1, !old(self).options.text)) '
        f'&&& usable && nothing({OUT}.0.diagnostics) || final(self).stdout@ == old(self).stdout@ }})')
    f.after('let mut src_buf = Vec :: new ( ) ;', 'let ghost none = src_buf@;')
    f.before('let src_str', 'proof { assert(none + input() =~= input()); }')
    f = u.fn(B, 'run', impl='^impl Main$')
    f.sub('std :: env :: current_dir ( ) . and_then ( fs :: canonicalize ) . map_err ( | e | format ! ( $x ) )', 'current_directory()', 1)
    f.sub('println ! ( $x ) ;', '', 0)
    f.sub('let msg = format ! ( "{num_files_written} file{} written; {num_ok} OK, {num_failed} failed, {num_skipped} skipped" , $x )', 'let msg = report(num_files_written, num_ok, num_failed, num_skipped)', 1)
    for n in ('ok', 'failed', 'skipped'): f.sub(f'let mut num_{n} = 0 ;', f'let mut num_{n}: i32 = 0;', 0)
    f.requires('old(self).results@.len() == 0', '!old(self).broken@')
    f.ensures(
        '!old(self).options.use_stdin ==> (r is Ok == (directory() is Ok && paths_to_compile(old(self).options) is Ok && !final(self).broken@ && forall|i: int| 0 <= i < final(self).results@.len() ==> !(#[trigger] final(self).results@[i] is Failed)))',
        '!old(self).options.use_stdin && directory() is Ok && !final(self).broken@ && paths_to_compile(old(self).options) is Ok ==> final(self).results@.len() == paths_to_compile(old(self).options)->Ok_0.len()',
        '!old(self).options.use_stdin && !final(self).broken@ && r is Err && directory() is Ok && paths_to_compile(old(self).options) is Ok ==> ({ let a = final(self).results@; let n = a.len() as int; r->Err_0@ == report_of(files(a, n) as int, fine(a, n) as int, failed(a, n) as int, skipped(a, n) as int) })')
    N = 'self.results@, self.results@.len() as int'
    f.loop(0, it='it', invariant=[
        'self.options == old(self).options', '!self.broken@', '!self.options.use_stdin', 'directory() is Ok', 'paths_to_compile(self.options) == Ok::<Seq<Path>, String>(it.seq())', 'it.seq().len() < i32::MAX',
        'self.results@.len() == it.index@', f'num_failed == failed({N})', f'num_ok == fine({N})', f'num_skipped == skipped({N})', f'num_files_written == files({N})',
        'num_ok + num_failed + num_skipped == self.results@.len()', '0 <= num_ok', '0 <= num_failed', '0 <= num_skipped'])
    f.before('let msg =', f'proof {{ lemma_failed({N}); }}')
    u.text('}')
    return u

UNITS = [sink, severity, compile_str, one_file, program]

"""C20: each module is compiled once, and cycles are errors."""
from vx import Unit

ML = 'src/compiler/module_loader.rs'
CACHE = '^impl ModuleCache$'
CTX = '^impl Context$'

TYPES = r'''
use std::rc::Rc;
#[verifier::external_body] struct Path { x: u64 }
#[verifier::external_body] struct PathBuf { x: u64 }
#[verifier::external_body] struct HTML { x: u64 }
#[verifier::external_body] struct AST { x: u64 }
#[verifier::external_body] struct Diagnostics { x: u64 }
#[verifier::external_body] struct StringPool { x: u64 }
#[verifier::external_body] struct SourceFileCache { x: u64 }
#[verifier::external_body] struct OutFiles { x: u64 }
#[verifier::external_body] struct IoError { x: u64 }
#[verifier::external_body] #[derive(Clone, Copy)] struct ContentKind { x: u64 }
#[derive(Clone, Copy)]
struct SourceRange { src_id: u32 }
#[verifier::external_body] struct RcStr { x: u64 }
#[verifier::external_body] struct Value { x: u64 }
type NameID = u32;
/// A file of the file system, whatever it is called.
#[verifier::external_body] struct File { x: u64 }
impl View for Path { type V = int; uninterp spec fn view(&self) -> int; }
impl View for PathBuf { type V = int; uninterp spec fn view(&self) -> int; }
/// Whether the path is that of a file, and the canonical path of it: the file
/// system does not change while the compiler runs.
uninterp spec fn canonical(p: int) -> Option<int>;
#[verifier::external_body] struct SourceFile { x: u64 }
uninterp spec fn file_of(s: SourceFile) -> int;
spec fn file_in(s: Rc<SourceFile>) -> int { file_of(*s) }
impl SourceFileCache {
    #[verifier::external_body]
    fn load_from_path(&mut self, p: &Path) -> (r: Result<Rc<SourceFile>, IoError>) ensures r matches Ok(s) ==> canonical(p@) == Some(file_of(*s)) { unimplemented!() }
}
/// NameIDMap<Value>
#[verifier::external_body] struct Dict { x: u64 }
impl Dict {
    uninterp spec fn order(self) -> Seq<(NameID, Value)>;
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.order().len() { unimplemented!() }
    #[verifier::external_body]
    fn entry(&self, i: usize) -> (r: (NameID, Value)) requires i < self.order().len() ensures r == self.order()[i as int] { unimplemented!() }
}
type RcDict = Rc<Dict>;
#[verifier::external_body]
fn canonicalize(p: &PathBuf) -> (r: Result<PathBuf, IoError>) ensures match canonical(p@) { Some(k) => r matches Ok(q) && q@ == k, None => r is Err } { unimplemented!() }
#[verifier::external_body]
fn boxed(p: PathBuf) -> (r: Box<Path>) ensures r@ == p@ { unimplemented!() }
#[verifier::external_body]
fn as_path(p: &PathBuf) -> (r: &Path) ensures r@ == p@ { unimplemented!() }
/// Option<OutFiles>: std::mem::take
#[verifier::external_body]
fn take_files(f: &mut Option<OutFiles>) -> (r: Option<OutFiles>) ensures r == *old(f), *final(f) is None { unimplemented!() }
enum PapyriError { IOError, CircularImport, PreviousError, Other }
type PapyriResult<T> = Result<T, PapyriError>;
type Key = Box<Path>;
/// IndexMap<Box<Path>, ModuleState>: entries have an index.
#[verifier::external_body] struct Cache { x: u64 }
impl View for Cache { type V = Seq<(int, ModuleState)>; uninterp spec fn view(&self) -> Seq<(int, ModuleState)>; }
spec fn index_of(s: Seq<(int, ModuleState)>, k: int) -> Option<int> { if exists|i: int| 0 <= i < s.len() && s[i].0 == k { Some(choose|i: int| 0 <= i < s.len() && s[i].0 == k) } else { None } }
impl Cache {
    #[verifier::external_body]
    fn get(&self, p: &Path) -> (r: Option<&ModuleState>) ensures match index_of(self@, p@) { Some(i) => r matches Some(s) && *s == self@[i].1, None => r is None } { unimplemented!() }
    #[verifier::external_body]
    fn insert_full(&mut self, k: Key, s: ModuleState) -> (r: (usize, Option<ModuleState>))
        ensures match index_of(old(self)@, k@) { Some(i) => r.0 == i && final(self)@ == old(self)@.update(i, (k@, s)), None => r.0 == old(self)@.len() && final(self)@ == old(self)@.push((k@, s)) }
    { unimplemented!() }
    #[verifier::external_body]
    fn at_mut(&mut self, i: usize) -> (r: &mut ModuleState) requires i < old(self)@.len() ensures *r == old(self)@[i as int].1, final(self)@ == old(self)@.update(i as int, (old(self)@[i as int].0, *final(r))) { unimplemented!() }
}
#[verifier::external_body]
fn clone_result(r: &CachedCompileResult) -> (s: CachedCompileResult) ensures s == *r { unimplemented!() }
#[verifier::external_body]
fn clone_state(r: &ModuleState) -> (s: ModuleState) ensures s == *r { unimplemented!() }
'''

SPEC = r'''
struct ModuleCache { cache: Cache }
struct Context { source_files: SourceFileCache, diagnostics: Diagnostics, module_cache: ModuleCache, string_pool: StringPool, out_files: Option<OutFiles>, compiled: Ghost<Seq<int>> }
struct CompileResult { out: HTML, exports: Dict }
struct Compiler<'a> { ctx: &'a mut Context, exports: Dict, set: Ghost<Seq<(NameID, Value)>> }
#[verifier::external_body]
fn parse(src: Rc<SourceFile>, d: &mut Diagnostics, p: &mut StringPool) -> Vec<AST> { unimplemented!() }
#[verifier::external_body]
fn require_p() -> ContentKind { unimplemented!() }
/// The state of a module.
spec fn state(s: Seq<(int, ModuleState)>, k: int) -> ModuleState { match index_of(s, k) { Some(i) => s[i].1, None => ModuleState::NotLoaded } }
spec fn modules(c: Context) -> Seq<(int, ModuleState)> { c.module_cache.cache@ }
spec fn known(s: Seq<(int, ModuleState)>, k: int) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k }
/// One state for each file.
spec fn ok(s: Seq<(int, ModuleState)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).0 == (#[trigger] s[j]).0 ==> i == j
    &&& forall|i: int| 0 <= i < s.len() ==> !((#[trigger] s[i]).1 is NotLoaded)
}
/// What evaluating anything does to the modules: all which are loaded, being
/// compiled or failed stay so, the others are compiled at most once and none
/// of them is left being compiled.
spec fn step(a: Context, b: Context) -> bool {
    &&& ok(modules(a)) ==> ok(modules(b))
    &&& modules(a).len() <= modules(b).len()
    &&& forall|i: int| 0 <= i < modules(a).len() ==> (#[trigger] modules(b)[i]) == modules(a)[i]
    &&& forall|i: int| modules(a).len() <= i < modules(b).len() ==> !((#[trigger] modules(b)[i]).1 is Busy)
    &&& a.compiled@.is_prefix_of(b.compiled@)
    &&& forall|i: int| a.compiled@.len() <= i < b.compiled@.len() ==> !known(modules(a), #[trigger] b.compiled@[i]) && known(modules(b), b.compiled@[i])
    &&& forall|i: int, j: int| a.compiled@.len() <= i < j < b.compiled@.len() ==> #[trigger] b.compiled@[i] != #[trigger] b.compiled@[j]
    &&& a.out_files is None ==> b.out_files is None
}
/// A step after a step is a step.
proof fn lemma_steps(a: Context, b: Context, c: Context) requires ok(modules(a)), step(a, b), step(b, c) ensures step(a, c) {
    assert forall|i: int| modules(a).len() <= i < modules(c).len() implies !((#[trigger] modules(c)[i]).1 is Busy) by { if i < modules(b).len() { assert(modules(c)[i] == modules(b)[i]); } }
    assert forall|i: int| a.compiled@.len() <= i < c.compiled@.len() implies !known(modules(a), #[trigger] c.compiled@[i]) && known(modules(c), c.compiled@[i]) by {
        let k = c.compiled@[i];
        if i < b.compiled@.len() { assert(k == b.compiled@[i]); let j = choose|j: int| 0 <= j < modules(b).len() && (#[trigger] modules(b)[j]).0 == k; assert(modules(c)[j].0 == k); }
        else if known(modules(a), k) { let j = choose|j: int| 0 <= j < modules(a).len() && (#[trigger] modules(a)[j]).0 == k; assert(modules(b)[j].0 == k); assert(known(modules(b), k)); }
    }
    assert forall|i: int, j: int| a.compiled@.len() <= i < j < c.compiled@.len() implies #[trigger] c.compiled@[i] != #[trigger] c.compiled@[j] by {
        if i < b.compiled@.len() { assert(c.compiled@[i] == b.compiled@[i]); if j < b.compiled@.len() { assert(c.compiled@[j] == b.compiled@[j]); } }
    }
}
/// Every importer of a file which is loaded gets the same.
proof fn lemma_same(a: Context, b: Context, k: int) requires ok(modules(a)), step(a, b) ensures !(state(modules(a), k) is NotLoaded) ==> state(modules(b), k) == state(modules(a), k) {
    if index_of(modules(a), k) is Some { let i = index_of(modules(a), k)->0; assert(modules(b)[i].0 == k); let j = index_of(modules(b), k)->0; assert(modules(b)[j].0 == modules(b)[i].0); }
}
proof fn lemma_index(s: Seq<(int, ModuleState)>, k: int, i: int) requires ok(s), 0 <= i < s.len(), s[i].0 == k ensures index_of(s, k) == Some(i), state(s, k) == s[i].1 { let j = index_of(s, k)->0; assert(s[j].0 == s[i].0); }
impl<'a> Compiler<'a> {
    /// Evaluating reaches the modules only through the functions below.
    #[verifier::external_body]
    fn compile_sequence(&mut self, root: &Vec<AST>, k: ContentKind) -> (r: HTML) ensures step(*old(self).ctx, *final(self).ctx), *final(final(self).ctx) == *final(old(self).ctx) { unimplemented!() }
    #[verifier::external_body]
    fn resolve_relative_path(&self, src: u32, p: &RcStr, b: bool) -> (r: PathBuf) ensures r@ == resolved(src, *p) { unimplemented!() }
    #[verifier::external_body]
    fn set_var(&mut self, k: NameID, v: Value, implicit: bool, r: SourceRange) ensures *final(self).ctx == *old(self).ctx, final(self).set@ == old(self).set@.push((k, v)) { unimplemented!() }
}
uninterp spec fn resolved(src: u32, p: RcStr) -> int;
impl<'a> Compiler<'a> {
    #[verifier::external_body]
    fn new(ctx: &'a mut Context) -> (r: Compiler<'a>) ensures *r.ctx == *old(ctx), *final(ctx) == *final(r.ctx) { unimplemented!() }
}
/// The exports, when the compiler is done with.
#[verifier::external_body]
fn exports_of(c: Compiler<'_>) -> (r: Dict) ensures r == c.exports, *final(c.ctx) == *old(c.ctx) { unimplemented!() }
/// Loading a file which is imported.
spec fn loaded(p: int, a: Context, r: PapyriResult<CachedCompileResult>, b: Context) -> bool {
    &&& step(a, b)
    &&& b.out_files == a.out_files
    &&& match canonical(p) { None => r is Err && b.compiled == a.compiled && modules(b) == modules(a), Some(k) => match state(modules(a), k) {
        ModuleState::Loaded(v) => r == PapyriResult::<CachedCompileResult>::Ok(v) && b.compiled == a.compiled && modules(b) == modules(a),
        ModuleState::Busy => r == PapyriResult::<CachedCompileResult>::Err(PapyriError::CircularImport) && b.compiled == a.compiled && modules(b) == modules(a),
        ModuleState::Error => r == PapyriResult::<CachedCompileResult>::Err(PapyriError::PreviousError) && b.compiled == a.compiled && modules(b) == modules(a),
        ModuleState::NotLoaded => match r { Ok(v) => state(modules(b), k) == ModuleState::Loaded(v) && b.compiled@.len() > a.compiled@.len() && b.compiled@[a.compiled@.len() as int] == k, Err(_) => state(modules(b), k) is Error && b.compiled == a.compiled },
    } }
}
proof fn lemma_set_busy(s: Seq<(int, ModuleState)>, k: int) requires ok(s), !known(s, k) ensures ok(s.push((k, ModuleState::Busy))) {
    let t = s.push((k, ModuleState::Busy));
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && (#[trigger] t[i]).0 == (#[trigger] t[j]).0 implies i == j by { if i < s.len() { assert(s[i].0 == t[i].0); } if j < s.len() { assert(s[j].0 == t[j].0); } }
    assert forall|i: int| 0 <= i < t.len() implies !((#[trigger] t[i]).1 is NotLoaded) by { if i < s.len() { assert(s[i] == t[i]); } }
}
proof fn lemma_loaded(a: Context, m: Seq<(int, ModuleState)>, b: Context, c: Context, k: int, i: int, st: ModuleState, compiled: bool)
    requires ok(modules(a)), !known(modules(a), k), i == modules(a).len(), m == modules(a).push((k, ModuleState::Busy)), 
        // b: after the compilation, c: its state is recorded
        ok(modules(b)), m.len() <= modules(b).len(), forall|j: int| 0 <= j < m.len() ==> (#[trigger] modules(b)[j]) == m[j], forall|j: int| m.len() <= j < modules(b).len() ==> !((#[trigger] modules(b)[j]).1 is Busy),
        compiled ==> a.compiled@.push(k).is_prefix_of(b.compiled@) && (forall|j: int| a.compiled@.len() < j < b.compiled@.len() ==> !known(m, #[trigger] b.compiled@[j]) && known(modules(b), b.compiled@[j])) && (forall|x: int, y: int| a.compiled@.len() < x < y < b.compiled@.len() ==> #[trigger] b.compiled@[x] != #[trigger] b.compiled@[y]),
        !compiled ==> b.compiled == a.compiled,
        c.compiled == b.compiled, modules(c) == modules(b).update(i, (k, st)), st is Loaded || st is Error, c.out_files == a.out_files,
    ensures step(a, c), state(modules(c), k) == st, compiled ==> c.compiled@.len() > a.compiled@.len() && c.compiled@[a.compiled@.len() as int] == k,
{
    assert(modules(b)[i] == m[i]);
    assert(modules(c)[i].0 == k);
    assert(ok(modules(c))) by {
        assert forall|x: int, y: int| 0 <= x < modules(c).len() && 0 <= y < modules(c).len() && (#[trigger] modules(c)[x]).0 == (#[trigger] modules(c)[y]).0 implies x == y by { assert(modules(b)[x].0 == modules(c)[x].0); assert(modules(b)[y].0 == modules(c)[y].0); }
        assert forall|x: int| 0 <= x < modules(c).len() implies !((#[trigger] modules(c)[x]).1 is NotLoaded) by { if x != i { assert(modules(c)[x] == modules(b)[x]); } }
    }
    lemma_index(modules(c), k, i);
    assert forall|j: int| 0 <= j < modules(a).len() implies (#[trigger] modules(c)[j]) == modules(a)[j] by { assert(modules(b)[j] == m[j]); }
    assert forall|j: int| modules(a).len() <= j < modules(c).len() implies !((#[trigger] modules(c)[j]).1 is Busy) by { if j > i { assert(modules(b)[j] == modules(c)[j]); } }
    if compiled {
        assert(c.compiled@[a.compiled@.len() as int] == k) by { assert(a.compiled@.push(k)[a.compiled@.len() as int] == k); }
        assert(a.compiled@.is_prefix_of(c.compiled@)) by { assert forall|x: int| 0 <= x < a.compiled@.len() implies a.compiled@[x] == c.compiled@[x] by { assert(a.compiled@.push(k)[x] == a.compiled@[x]); } assert(a.compiled@ =~= c.compiled@.take(a.compiled@.len() as int)); }
        assert forall|j: int| a.compiled@.len() <= j < c.compiled@.len() implies !known(modules(a), #[trigger] c.compiled@[j]) && known(modules(c), c.compiled@[j]) by {
            let q = c.compiled@[j];
            if j == a.compiled@.len() { assert(modules(c)[i].0 == q); }
            else {
                assert(!known(m, b.compiled@[j]));
                if known(modules(a), q) { let x = choose|x: int| 0 <= x < modules(a).len() && (#[trigger] modules(a)[x]).0 == q; assert(m[x].0 == q); }
                let x = choose|x: int| 0 <= x < modules(b).len() && (#[trigger] modules(b)[x]).0 == q; assert(modules(c)[x].0 == q);
            }
        }
        assert(m[i].0 == k);
        assert forall|x: int, y: int| a.compiled@.len() <= x < y < c.compiled@.len() implies #[trigger] c.compiled@[x] != #[trigger] c.compiled@[y] by { if x == a.compiled@.len() { assert(!known(m, b.compiled@[y])); assert(known(m, k)); } }
    } else { assert(a.compiled@.is_prefix_of(c.compiled@)); }
}
'''


def modules():
    u = Unit('modules')
    u.text(TYPES)
    u.item(ML, 'type', 'CachedCompileResult')
    u.item(ML, 'enum', 'ModuleState')
    u.text(SPEC)
    subs = [('path ::', ''), ('parser ::', ''), ('sourcefile ::', ''), ('taginfo :: ContentKind :: REQUIRE_P', 'require_p()'), ('taginfo ::', ''),
        ('ModuleError :: $i:k ( $x ) . into ( )', 'PapyriError::$k'), ('ModuleError :: $i:k ( $x )', 'PapyriError::$k'), ('e . into ( )', 'e')]
    u.default_subs = subs
    u.text('impl ModuleCache {')
    f = u.fn(ML, 'get', impl=CACHE)
    f.sub('self . cache . get ( $x ) . map_or ( $d , ModuleState :: clone )', '(match self.cache.get($x) { Some(s) => clone_state(s), None => $d })', 0)
    f.ensures('r == state(old(self).cache@, path@)', 'final(self).cache@ == old(self).cache@')
    f = u.fn(ML, 'set', impl=CACHE)
    f.ensures('match index_of(old(self).cache@, path@) { Some(i) => r == i && final(self).cache@ == old(self).cache@.update(i, (path@, state)), None => r == old(self).cache@.len() && final(self).cache@ == old(self).cache@.push((path@, state)) }')
    f = u.fn(ML, 'set_by_index', impl=CACHE)
    f.sub('let ( _ , value ) = self . cache . get_index_mut ( index ) . unwrap ( ) ;', 'let value = self.cache.at_mut(index);', 0)
    f.requires('index < old(self).cache@.len()').ensures('final(self).cache@ == old(self).cache@.update(index as int, (old(self).cache@[index as int].0, state))')
    u.text('}\nimpl Context {')
    f = u.fn(ML, '_compile', impl=CTX)
    f.start('self.compiled = Ghost(self.compiled@.push(file_in(src)));')
    f.ensures('step(Context { compiled: Ghost(old(self).compiled@.push(file_in(src))), ..*old(self) }, *final(self))')
    f.sub('compiler . exports', 'exports_of(compiler)', 0)
    f = u.fn(ML, 'compile', impl=CTX)
    f.ensures('step(Context { compiled: Ghost(old(self).compiled@.push(file_in(src))), ..*old(self) }, *final(self))')
    f = u.fn(ML, 'load_uncached', impl=CTX)
    f.sub('self . source_files . load_from_path ( path ) . map ( | $i:s | $b ) . map_err ( | $i:e | $c )', '(match self.source_files.load_from_path(path) { Ok($s) => Ok($b), Err($e) => Err($c) })', 0)
    f.ensures('match r { Ok(_) => canonical(path@) matches Some(k) && step(Context { compiled: Ghost(old(self).compiled@.push(k)), source_files: final(self).source_files, diagnostics: old(self).diagnostics, ..*old(self) }, *final(self)), Err(_) => modules(*final(self)) == modules(*old(self)) && final(self).compiled == old(self).compiled && final(self).out_files == old(self).out_files }')
    f = u.fn(ML, 'load_cached', impl=CTX)
    f.sub('fs :: canonicalize ( & path )', 'canonicalize(&path)', 0).sub('self . module_cache . get ( & k )', 'self.module_cache.get(as_path(&k))', 0)
    f.sub('k . into_boxed_path ( )', 'boxed(k)', 0).sub('std :: mem :: take ( & mut self . out_files )', 'take_files(&mut self.out_files)', 0)
    f.sub('self . load_uncached ( & path ) . map ( | $i:r | $b )', '(match self.load_uncached(as_path(&path)) { Ok($r) => Ok($b), Err(e) => Err(e) })', 0)
    f.sub('result . as_ref ( ) . cloned ( ) . map_or ( $a , $b )', '(match &result { Ok(v) => $b(clone_result(v)), Err(_) => $a })', 0)
    f.requires('ok(modules(*old(self)))')
    f.ensures('loaded(path@, *old(self), r, *final(self))')
    f.start('let ghost a = *self; let ghost p0 = path@; let ghost k0 = canonical(path@)->0;')
    f.before('let old_out_files', 'let ghost m = modules(*self); proof { if index_of(modules(a), k0) is Some { assert(false); } assert(!known(modules(a), k0)) by { if known(modules(a), k0) { let x = choose|x: int| 0 <= x < modules(a).len() && (#[trigger] modules(a)[x]).0 == k0; assert(modules(a)[x].0 == k0); } } lemma_set_busy(modules(a), k0); }')
    f.before('self . module_cache . set_by_index', 'let ghost b = *self; let ghost st = state;')
    f.after('self . module_cache . set_by_index ( index , state ) ;', 'proof { assert(modules(b)[index as int] == m[index as int]); lemma_loaded(a, m, b, *self, k0, index as int, st, result is Ok); }')
    u.text('}')
    u.default_subs = subs + [('PATH . as_ref ( )', '&PATH'), ('compiler . ctx . load_cached ( $x )', '({ let result = compiler.ctx.load_cached($x); assert(loaded(resolved(call_range.src_id, PATH), *old(compiler).ctx, result, *compiler.ctx)); result })')]
    SIG = "compiler: &mut Compiler<'_>, call_range: SourceRange, PATH: RcStr"
    LOADED = 'loaded(resolved(call_range.src_id, PATH), *old(compiler).ctx, q, *final(compiler).ctx)'
    f = u.native(None, 'IMPORT', 'PATH: content RcStr', SIG, 'RcDict')
    f.requires('ok(modules(*old(compiler).ctx))')
    f.ensures(f'exists|q: PapyriResult<CachedCompileResult>| #[trigger] {LOADED} && match q {{ Ok(v) => r == PapyriResult::<RcDict>::Ok(v.1), Err(_) => r is Err }}', 'final(compiler).set@ == old(compiler).set@')
    f = u.native(None, 'INCLUDE', 'PATH: content RcStr', SIG, 'HTML')
    f.sub('for ( & $i:k , $i:v ) in module_exports . as_ref ( ) . iter ( ) {', 'let mut at: usize = 0; while at < module_exports.len() { let ($k, $v) = module_exports.entry(at); at += 1;', 0).sub('v . clone ( )', 'v', 0)
    f.requires('ok(modules(*old(compiler).ctx))')
    f.ensures(f'exists|q: PapyriResult<CachedCompileResult>| #[trigger] {LOADED} && match q {{ Ok(v) => r == PapyriResult::<HTML>::Ok(v.0) && final(compiler).set@ == old(compiler).set@ + (*v.1).order(), Err(_) => r is Err && final(compiler).set@ == old(compiler).set@ }}')
    f.attr('#[verifier::loop_isolation(false)]')
    f.before('let mut at', 'let ghost q = PapyriResult::<CachedCompileResult>::Ok((module_out, module_exports)); let ghost ctx = *compiler.ctx; proof { assert(compiler.set@ =~= old(compiler).set@ + (*module_exports).order().take(0)); }')
    f.loop(0, invariant=['at <= (*module_exports).order().len()', '*compiler.ctx == ctx', 'compiler.set@ == old(compiler).set@ + (*module_exports).order().take(at as int)'], decreases='(*module_exports).order().len() - at')
    f.loop_end(0, 'proof { assert((*module_exports).order().take(at as int) =~= (*module_exports).order().take(at - 1).push((*module_exports).order()[at - 1])); }')
    f.before('module_out', 'proof { assert((*module_exports).order().take(at as int) =~= (*module_exports).order()); }', 1)
    return u


UNITS = [modules]

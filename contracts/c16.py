"""C16: output files stay inside the output directory."""
from vx import Unit
from contracts.c04 import one_file

SPEC = r'''
/// A component of a path (there are no prefixes on Unix); names are numbers.
#[derive(Clone, Copy)]
enum Component { RootDir, CurDir, ParentDir, Normal(u64) }
/// A path, as its components.
#[verifier::external_body]
struct Path { x: u64 }
#[verifier::external_body]
proof fn axiom_rooted(p: &Path) ensures rooted(p@) {}
type PathBuf = Path;
#[verifier::external_body]
fn clone_path(p: &Path) -> (r: Path) ensures r == *p { unimplemented!() }
spec fn absolute(s: Seq<Component>) -> bool { s.len() > 0 && s[0] is RootDir }
/// What `components` gives: the root only at the start.
spec fn rooted(s: Seq<Component>) -> bool { forall|i: int| 0 < i < s.len() ==> !(#[trigger] s[i] is RootDir) }
impl Path {
    uninterp spec fn view(&self) -> Seq<Component>;
    #[verifier::external_body]
    fn new() -> (r: Path) ensures r@.len() == 0 { unimplemented!() }
    #[verifier::external_body]
    fn components(&self) -> (r: Vec<Component>) ensures r@ == self@, rooted(self@) { unimplemented!() }
    #[verifier::external_body]
    fn last_component(&self) -> (r: Option<Component>) ensures self@.len() == 0 ==> r is None, self@.len() > 0 ==> r == Some(self@.last()) { unimplemented!() }
    /// A root replaces the path.
    #[verifier::external_body]
    fn push(&mut self, c: Component) ensures final(self)@ == (if c is RootDir { seq![c] } else { old(self)@.push(c) }) { unimplemented!() }
    /// Removes the last component, unless it is the root.
    #[verifier::external_body]
    fn pop(&mut self) -> (r: bool) requires old(self)@.len() > 0, old(self)@.last() is Normal, ensures final(self)@ == old(self)@.drop_last() { unimplemented!() }
    #[verifier::external_body]
    fn join(&self, rel: &Path) -> (r: Path) ensures rooted(r@), joins(self@, rel@, r@) { unimplemented!() }
    #[verifier::external_body]
    fn strip_prefix(&self, base: &Path) -> (r: Option<Path>) ensures base@.is_prefix_of(self@) ==> (r matches Some(p) && p@ == self@.skip(base@.len() as int)), !base@.is_prefix_of(self@) ==> r is None { unimplemented!() }
    #[verifier::external_body]
    fn is_relative(&self) -> (r: bool) ensures r == !absolute(self@) { unimplemented!() }
    #[verifier::external_body]
    fn starts_with_parent(&self) -> (r: bool) ensures r == (self@.len() > 0 && self@[0] is ParentDir) { unimplemented!() }
    fn into_boxed_path(self) -> (r: Box<Path>) ensures *r == self { Box::new(self) }
}
/// An absolute path replaces the base, a relative one goes below it. Components
/// `.` may come and go.
spec fn joins(base: Seq<Component>, rel: Seq<Component>, r: Seq<Component>) -> bool {
    if absolute(rel) { r == rel } else { no_dots(r) =~= no_dots(base) + no_dots(rel) }
}
spec fn no_dots(s: Seq<Component>) -> Seq<Component> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if s.last() is CurDir { no_dots(s.drop_last()) } else { no_dots(s.drop_last()).push(s.last()) }
}
/// Goes from the place s to its component c.
spec fn step(s: Seq<Component>, c: Component) -> Seq<Component> {
    match c {
        Component::CurDir => s,
        Component::RootDir => seq![c],
        Component::Normal(_) => s.push(c),
        Component::ParentDir => if s.len() > 0 && s.last() is Normal { s.drop_last() } else if s.len() > 0 && s.last() is RootDir { s } else { s.push(c) },
    }
}
/// The place which a path denotes.
spec fn place(s: Seq<Component>) -> Seq<Component> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { step(place(s.drop_last()), s.last()) }
}
/// The root or parents, and then names.
spec fn places(s: Seq<Component>, k: int) -> bool {
    &&& 0 <= k <= s.len()
    &&& forall|i: int| 0 <= i < k ==> !(#[trigger] s[i] is Normal) && !(s[i] is CurDir) && (s[i] is RootDir ==> k == 1)
    &&& forall|i: int| k <= i < s.len() ==> #[trigger] s[i] is Normal
}
spec fn names(s: Seq<Component>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] is Normal }
proof fn lemma_place(s: Seq<Component>) -> (k: int)
    requires rooted(s),
    ensures places(place(s), k), s.len() > 0 && !absolute(s) ==> !absolute(place(s)),
    decreases s.len(),
{
    if s.len() == 0 { 0 } else {
        let r = s.drop_last();
        assert forall|i: int| 0 < i < r.len() implies !(#[trigger] r[i] is RootDir) by { assert(r[i] == s[i]); }
        let k = lemma_place(r);
        let p = place(r);
        let c = s.last();
        if c is RootDir { assert(s.len() == 1); 1 }
        else if c is ParentDir && !(p.len() > 0 && (p.last() is Normal || p.last() is RootDir)) {
            assert(k == p.len()) by { if k < p.len() { assert(p[p.len() - 1] is Normal); } }
            assert forall|i: int| 0 <= i < k implies !(#[trigger] p[i] is RootDir) by { if p[i] is RootDir { assert(p.last() is RootDir); } }
            k + 1
        } else { if k > step(p, c).len() { k - 1 } else { k } }
    }
}
proof fn lemma_no_dots(s: Seq<Component>)
    ensures place(no_dots(s)) =~= place(s),
    decreases s.len(),
{
    if s.len() > 0 {
        lemma_no_dots(s.drop_last());
        if !(s.last() is CurDir) { assert(no_dots(s).drop_last() =~= no_dots(s.drop_last())); }
    }
}
proof fn lemma_no_dots_names(s: Seq<Component>)
    requires names(s),
    ensures no_dots(s) =~= s,
    decreases s.len(),
{ if s.len() > 0 { assert(s.last() is Normal); assert(names(s.drop_last())) by { assert forall|i: int| 0 <= i < s.len() - 1 implies #[trigger] s.drop_last()[i] is Normal by { assert(s[i] is Normal); } } lemma_no_dots_names(s.drop_last()); } }
/// Names below a path denote the place below its place.
proof fn lemma_below(s: Seq<Component>, n: Seq<Component>)
    requires names(n),
    ensures place(s + n) =~= place(s) + n,
    decreases n.len(),
{
    if n.len() == 0 { assert(s + n =~= s); } else {
        let m = n.drop_last();
        assert(names(m)) by { assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] is Normal by { assert(n[i] is Normal); } }
        lemma_below(s, m);
        assert((s + n).drop_last() =~= s + m);
        assert((s + n).last() == n.last());
        assert(n[n.len() - 1] is Normal);
    }
}
proof fn lemma_settled(s: Seq<Component>, k: int)
    requires places(s, k),
    ensures place(s) =~= s, no_dots(s) =~= s,
    decreases s.len(),
{
    if s.len() > 0 {
        let r = s.drop_last();
        let j = if k > r.len() { k - 1 } else { k };
        assert(places(r, j)) by {
            assert forall|i: int| 0 <= i < j implies !(#[trigger] r[i] is Normal) && !(r[i] is CurDir) && (r[i] is RootDir ==> j == 1) by { assert(r[i] == s[i]); }
            assert forall|i: int| j <= i < r.len() implies #[trigger] r[i] is Normal by { assert(r[i] == s[i]); }
        }
        lemma_settled(r, j);
        let c = s[s.len() - 1];
        if k == s.len() { assert(!(c is Normal)); if r.len() > 0 { assert(!(s[r.len() - 1] is Normal)); assert(!(s[r.len() - 1] is RootDir)); } }
    }
}
/// A path below a place.
proof fn lemma_from_place(a: Seq<Component>, b: Seq<Component>)
    requires rooted(a),
    ensures place(place(a) + b) =~= place(a + b),
    decreases b.len(),
{
    if b.len() == 0 {
        let k = lemma_place(a);
        lemma_settled(place(a), k);
        assert(place(a) + b =~= place(a)); assert(a + b =~= a);
    } else {
        lemma_from_place(a, b.drop_last());
        assert((place(a) + b).drop_last() =~= place(a) + b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert((a + b).last() == b.last() && (place(a) + b).last() == b.last());
    }
}
proof fn lemma_rooted_no_dots(s: Seq<Component>)
    requires rooted(s),
    ensures rooted(no_dots(s)), no_dots(s).len() <= s.len(), absolute(no_dots(s)) ==> absolute(s),
    decreases s.len(),
{
    if s.len() > 0 {
        let r = s.drop_last();
        assert(rooted(r)) by { assert forall|i: int| 0 < i < r.len() implies !(#[trigger] r[i] is RootDir) by { assert(r[i] == s[i]); } }
        lemma_rooted_no_dots(r);
        if s.len() > 1 { assert(!(s[s.len() - 1] is RootDir)); }
    }
}
/// The code joins the path to the place of the base.
proof fn lemma_joined(base: Seq<Component>, rel: Seq<Component>, j: Seq<Component>)
    requires rooted(j), rooted(base), joins(place(base), rel, j),
    ensures place(j) =~= joined_place(base, rel),
        ({ let b = place(base); let p = place(j); b.is_prefix_of(p) ==> ({ let n = p.skip(b.len() as int); names(n) == !(n.len() > 0 && (n[0] is RootDir || n[0] is ParentDir)) }) }),
{
    let k = lemma_place(base);
    lemma_settled(place(base), k);
    lemma_no_dots(base); lemma_no_dots(j); lemma_rooted_no_dots(base);
    lemma_from_place(no_dots(base), no_dots(rel));
    lemma_inside(place(base), rel, j);
}
/// The place of a joined path.
spec fn joined_place(base: Seq<Component>, rel: Seq<Component>) -> Seq<Component> {
    if absolute(rel) { place(rel) } else { place(no_dots(base) + no_dots(rel)) }
}
/// The names which lead from the place of the base to the place of the path
/// relative to it.
spec fn inside(base: Seq<Component>, rel: Seq<Component>) -> Option<Seq<Component>> {
    let b = place(base);
    let p = joined_place(base, rel);
    if b.is_prefix_of(p) && names(p.skip(b.len() as int)) { Some(p.skip(b.len() as int)) } else { None }
}
proof fn lemma_inside(base: Seq<Component>, rel: Seq<Component>, j: Seq<Component>)
    requires rooted(j), joins(base, rel, j),
    ensures place(j) =~= joined_place(base, rel),
        ({ let b = place(base); let p = place(j); b.is_prefix_of(p) ==> ({ let n = p.skip(b.len() as int); names(n) == !(n.len() > 0 && (n[0] is RootDir || n[0] is ParentDir)) }) }),
{
    lemma_no_dots(j);
    let k = lemma_place(j);
    let b = place(base); let p = place(j);
    if b.is_prefix_of(p) {
        let n = p.skip(b.len() as int);
        if n.len() > 0 {
            assert(n[0] == p[b.len() as int]);
            if !(n[0] is RootDir || n[0] is ParentDir) {
                assert(b.len() >= k);
                assert forall|i: int| 0 <= i < n.len() implies #[trigger] n[i] is Normal by { assert(n[i] == p[b.len() + i]); }
            }
        }
    }
}
/// The file is written where the path denotes.
proof fn lemma_written(base: Seq<Component>, rel: Seq<Component>, n: Seq<Component>, j: Seq<Component>)
    requires inside(base, rel) == Some(n), joins(base, n, j),
    ensures place(j) =~= joined_place(base, rel), place(j) =~= place(base) + n,
{
    assert(!absolute(n)) by { if n.len() > 0 { assert(n[0] is Normal); } }
    lemma_no_dots_names(n); lemma_no_dots(j); lemma_no_dots(base);
    lemma_below(no_dots(base), n);
}
#[verifier::external_body]
struct PapyriError { e: u64 }
type PapyriResult = Result<(), PapyriError>;
#[verifier::external_body]
fn not_allowed() -> PapyriError { unimplemented!() }
#[verifier::external_body]
fn not_in_out_dir() -> PapyriError { unimplemented!() }
struct HTML { x: u64 }
#[verifier::external_body]
struct RcStr { s: u64 }
uninterp spec fn path_of(s: RcStr) -> Seq<Component>;
/// str as Path
#[verifier::external_body]
fn str_path(s: &RcStr) -> (r: Path) ensures r@ == path_of(*s), rooted(r@) { unimplemented!() }
spec fn entries<T>(v: Seq<(Box<Path>, T)>) -> Seq<(Seq<Component>, T)> { v.map_values(|e: (Box<Path>, T)| (e.0@, e.1)) }
#[verifier::external_body]
fn take_vec<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r == *old(v), final(v)@.len() == 0 { std::mem::take(v) }
#[verifier::external_body]
fn boxed<T>(p: &Path) -> (r: Box<Path>) ensures r@ == p@ { unimplemented!() }
/// Takes the first entry out of a vector.
#[verifier::external_body]
fn take_first<T>(v: &mut Vec<T>) -> (r: T) requires old(v)@.len() > 0, ensures r == old(v)@[0], final(v)@ == old(v)@.skip(1) { v.remove(0) }
'''


def out_files():
    u = Unit('out_files')
    u.text(SPEC)
    R = 'src/utils/relpath.rs'
    f = u.fn(R, 'normalise')
    f.sub('for component in path . components ( ) {', 'let parts = path.components(); for part in parts.iter() { let component = *part;', 1)
    f.sub('out . components ( ) . next_back ( )', 'out.last_component()', 0)
    f.ensures('r@ =~= place(path@)')
    f.loop(0, it='it', invariant=['rooted(path@)', 'parts@ == path@', 'it.seq() =~= parts@.map_values(|c: Component| &c)', 'out@ =~= place(path@.take(it.index@ as int))'])
    f.loop_start(0, 'proof { let i = it.index@ as int; assert(path@.take(i + 1).drop_last() =~= path@.take(i)); if i > 0 { assert(!(path@[i] is RootDir)); } else { assert(path@.take(0) =~= Seq::<Component>::empty()); } }')
    f.loop_end(0, 'proof { assert(path@.take(path@.len() as int) =~= path@); }')
    f.before('let parts = $x ;', 'proof { assert(path@.take(0) =~= Seq::<Component>::empty()); assert(path@.take(path@.len() as int) =~= path@); }')
    f = u.fn(R, 'make_relative')
    f.sub('normalise ( $x ) . strip_prefix ( $b ) . ok ( ) . filter ( | $i:p | $c ) . map ( Path :: to_path_buf )', '(match normalise($x).strip_prefix($b) { Some($p) => if $c { Some($p) } else { None }, None => None })', 1)
    f.sub('p . starts_with ( ".." )', 'p.starts_with_parent()', 0)
    f.ensures('inside(base@, rel@) matches Some(n) ==> (r matches Some(p) && p@ == n)', 'inside(base@, rel@) is None ==> r is None')
    f.before('( match normalise ( & base . join', 'proof { assert forall|j: Seq<Component>| rooted(j) && #[trigger] joins(place(base0), rel@, j) implies place(j) =~= joined_place(base0, rel@) && ({ let b = place(base0); let p = place(j); b.is_prefix_of(p) ==> ({ let n = p.skip(b.len() as int); names(n) == !(n.len() > 0 && (n[0] is RootDir || n[0] is ParentDir)) }) }) by { lemma_joined(base0, rel@, j); } let k = lemma_place(base0); lemma_settled(place(base0), k); }', 0)
    f.start('let ghost base0 = base@; proof { axiom_rooted(base); }')
    O = 'src/utils/outfiles.rs'
    u.item(O, 'struct', 'OutFiles')
    u.text('impl<T> OutFiles<T> {')
    I = '^impl < T > OutFiles < T >$'
    f = u.fn(O, 'new', impl=I)
    f.sub('new < P : AsRef < Path > > ( base_path : P )', 'new(base_path: &Path)', 1).sub('Box :: from ( base_path . as_ref ( ) )', 'boxed::<T>(base_path)', 1)
    f.ensures('r.base_path@ == base_path@', 'r.v@.len() == 0')
    f = u.fn(O, 'is_empty', impl=I)
    f.ensures('r == (self.v@.len() == 0)')
    f = u.fn(O, 'try_push', impl=I)
    f.sub('try_push < P : AsRef < Path > > ( & mut self , path : P , t : T )', 'try_push(&mut self, path: &Path, t: T)', 1).sub('path . as_ref ( )', 'path', 0).sub('relpath ::', '', 0)
    f.ensures('final(self).base_path == old(self).base_path',
        'inside(old(self).base_path@, path@) matches Some(n) ==> r && entries(final(self).v@) =~= entries(old(self).v@).push((n, t))',
        'inside(old(self).base_path@, path@) is None ==> !r && final(self).v@ == old(self).v@')
    f = u.fn(O, 'take_iter', impl=I)
    f.sub("-> impl Iterator < Item = ( PathBuf , T ) > + '_", '-> Vec<(PathBuf, T)>', 1)
    f.sub('std :: mem :: take ( & mut self . v ) . into_iter ( ) . map ( | ( $i:p , $i:t ) | $b )', '{ let mut held = take_vec(&mut self.v); let mut out: Vec<(PathBuf, T)> = Vec::new(); while held.len() > 0 { let ($p, $t) = take_first(&mut held); out.push($b); } out }', 1)
    f.sub('self . base_path . join ( p )', 'self.base_path.join(&p)', 0)
    f.ensures('final(self).v@.len() == 0', 'final(self).base_path == old(self).base_path', 'r@.len() == old(self).v@.len()',
        'forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).1 == old(self).v@[i].1 && joins(old(self).base_path@, old(self).v@[i].0@, r@[i].0@)')
    f.loop(0, invariant=['self.v@.len() == 0', 'self.base_path == old(self).base_path', 'held@.len() + out@.len() == old(self).v@.len()', 'held@ =~= old(self).v@.skip(out@.len() as int)',
        'forall|i: int| 0 <= i < out@.len() ==> (#[trigger] out@[i]).1 == old(self).v@[i].1 && joins(old(self).base_path@, old(self).v@[i].0@, out@[i].0@)'], decreases='held@.len()')
    u.text('}\nstruct Context { out_files: Option<OutFiles<HTML>> }\nstruct Compiler { ctx: Context }\nimpl Context {')
    f = u.fn('src/compiler/context.rs', 'push_out_file', impl='^impl Context$')
    f.sub('errors :: PapyriResult', 'PapyriResult', 0)
    f.sub('let Some ( sink ) = self . out_files . as_mut ( ) else { let e = $e ; return Err ( e . into ( ) ) ; } ;', 'let Some(sink) = &mut self.out_files else { return Err(not_allowed()); };', 1)
    f.sub('let e = errors :: RuntimeError :: PathNotInOutDir ( path ) ; Err ( e . into ( ) )', 'Err(not_in_out_dir())', 0)
    f.sub('path . as_ref ( )', '&str_path(&path)', 0)
    PUSHED = ['old({s}).out_files is None ==> r is Err && final({s}).out_files is None',
        '''old({s}).out_files matches Some(o) ==> (final({s}).out_files matches Some(p) && p.base_path == o.base_path && (match inside(o.base_path@, path_of({p})) {
            Some(n) => r is Ok && entries(p.v@) =~= entries(o.v@).push((n, {c})),
            None => r is Err && p.v@ == o.v@,
        }))''']
    f.ensures(*[e.replace('{s}', 'self').replace('{p}', 'path').replace('{c}', 'content') for e in PUSHED])
    u.text('}')
    f = u.native('FILE', 'WRITE', 'PATH: positional RcStr, HTML: content HTML', 'compiler: &mut Compiler, PATH: RcStr, HTML: HTML', '()')
    f.sub('PapyriResult < ( ) >', 'PapyriResult', 1)
    f.ensures(*[e.replace('old({s})', 'old(compiler).ctx').replace('final({s})', 'final(compiler).ctx').replace('{p}', 'PATH').replace('{c}', 'HTML') for e in PUSHED])
    return u

UNITS = [out_files, one_file]

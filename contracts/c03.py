"""C03: index_to_line_col against the definition of lines and columns."""
from vx import Unit
from contracts.libstr import BLEN


def line_col():
    u = Unit('line_col')
    u.text(BLEN + r'''
pub struct SourceFile { pub src: Box<str> }

/// The number of newlines in a text.
pub open spec fn newlines(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { newlines(s.drop_last()) + (if s.last() == '\n' { 1nat } else { 0 }) }
}
/// The number of characters after the last newline, or after the start.
pub open spec fn column(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else if s.last() == '\n' { 0 } else { column(s.drop_last()) + 1 }
}
pub open spec fn coords_at(s: Seq<char>, k: int) -> (u32, u32) {
    ((newlines(s.take(k)) + 1) as u32, (column(s.take(k)) + 1) as u32)
}
pub proof fn lemma_step(s: Seq<char>, k: int)
    requires 0 <= k < s.len(),
    ensures
        blen(s.take(k + 1)) == blen(s.take(k)) + clen(s[k]),
        newlines(s.take(k + 1)) == newlines(s.take(k)) + (if s[k] == '\n' { 1nat } else { 0 }),
        column(s.take(k + 1)) == (if s[k] == '\n' { 0 } else { column(s.take(k)) + 1 }),
{
    assert(s.take(k + 1).drop_last() =~= s.take(k));
}
pub proof fn lemma_bounds(s: Seq<char>)
    ensures newlines(s) <= blen(s), column(s) <= blen(s),
    decreases s.len(),
{
    if s.len() > 0 { lemma_bounds(s.drop_last()); }
}

#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize)
    ensures r == blen(s@),
{ s.len() }
#[verifier::external_body]
pub fn vec_resize<T: Copy>(v: &mut Vec<T>, n: usize, x: T)
    ensures final(v)@.len() == n, forall|i: int| 0 <= i < n ==> final(v)@[i] == (if i < old(v)@.len() { old(v)@[i] } else { x }),
{ v.resize(n, x) }
pub assume_specification<T, A: std::alloc::Allocator> [Vec::<T, A>::into_boxed_slice] (v: Vec<T, A>) -> (r: Box<[T], A>)
    ensures r@ == v@;
''')
    u.text('impl SourceFile {')
    f = u.fn('src/utils/sourcefile.rs', 'index_to_line_col', impl=r'^impl SourceFile$')
    f.sub('self.line_col_coords.get_or_init(|| $b)[$i]', 'let table: Box<[(u32, u32)]> = $b; table[$i]', 1)
    f.sub('self.src.len()', 'str_len(&self.src)', 0)
    f.sub('coords.resize($n, $x)', '{ let n_resize = $n; vec_resize(&mut coords, n_resize, $x) }', 0)
    f.requires('blen(self.src@) < 0xffff_ffff', 'exists|k: int| 0 <= k <= self.src@.len() && blen(#[trigger] self.src@.take(k)) == index')
    f.ensures('forall|k: int| 0 <= k <= self.src@.len() && blen(#[trigger] self.src@.take(k)) == index ==> r == coords_at(self.src@, k)')
    f.start('proof { reveal_with_fuel(newlines, 2); reveal_with_fuel(column, 2); assert forall|k: int| 0 <= k <= self.src@.len() implies blen(#[trigger] self.src@.take(k)) <= blen(self.src@) by { lemma_blen_mono(self.src@, k, k); } }')
    f.loop(0, it='it', invariant=[
        'blen(self.src@) < 0xffff_ffff', 'it.seq() == self.src@',
        'coords@.len() == blen(self.src@.take(it.index@)) + 1',
        'line == newlines(self.src@.take(it.index@)) + 1', 'col == column(self.src@.take(it.index@)) + 1',
        'forall|k: int| #![trigger self.src@.take(k)] 0 <= k <= it.index@ ==> blen(self.src@.take(k)) < coords@.len() && coords@[blen(self.src@.take(k)) as int] == coords_at(self.src@, k)'])
    f.loop_start(0, '''proof {
        lemma_step(self.src@, it.index@ as int);
        lemma_blen_mono(self.src@, it.index@ + 1, it.index@ + 1);
        lemma_bounds(self.src@.take(it.index@ + 1));
        assert forall|k: int| 0 <= k <= it.index@ implies blen(#[trigger] self.src@.take(k)) <= blen(self.src@.take(it.index@ as int)) by { lemma_blen_mono(self.src@, k, it.index@ as int); }
    }''')
    u.text('}')
    return u

UNITS = [line_col]

"""C21: formatting code keeps the code."""
from vx import Unit
from contracts.libhtml import H, types, LEAVES
from contracts.liblex import *

HL = 'src/compiler/highlight.rs'
TAG = 'src/compiler/tag.rs'
LI = "^impl < 'a > LineHighlighter < 'a >$"

CONTENT = r'''
/// The characters of an HTML value, through its tags.
spec fn content(h: HTML) -> Seq<char> decreases h, (match h { HTML::Sequence(s) => s@.len() + 1, _ => 0 }) {
    match h {
        HTML::Empty => Seq::empty(),
        HTML::Tag(t) => content(t.content),
        HTML::Text(t) => t@,
        HTML::Whitespace => seq![' '],
        HTML::RawNewline => seq!['\n'],
        HTML::Sequence(s) => content_upto(h, s@.len() as int),
    }
}
spec fn content_upto(h: HTML, k: int) -> Seq<char> decreases h, k {
    match h { HTML::Sequence(s) => if k <= 0 || k > s@.len() { Seq::empty() } else { content_upto(h, k - 1) + content(s@[k - 1]) }, _ => Seq::empty() }
}
spec fn contents(s: Seq<HTML>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { contents(s.drop_last()) + content(s.last()) } }
/// The characters of leaves (C06).
spec fn flat(ls: Seq<Leaf>) -> Seq<char> decreases ls.len() { if ls.len() == 0 { Seq::empty() } else { flat(ls.drop_last()) + match ls.last() { Leaf::Tag(t) => content(t.content), Leaf::Ch(c) => seq![c] } } }
proof fn lemma_flat_add(a: Seq<Leaf>, b: Seq<Leaf>) ensures flat(a + b) == flat(a) + flat(b) decreases b.len() {
    if b.len() > 0 { lemma_flat_add(a, b.drop_last()); assert((a + b).drop_last() =~= a + b.drop_last()); assert((a + b).last() == b.last()); assert(flat(a) + (flat(b.drop_last()) + match b.last() { Leaf::Tag(t) => content(t.content), Leaf::Ch(c) => seq![c] }) =~= flat(a + b)); } else { assert(a + b =~= a); assert(flat(a) + flat(b) =~= flat(a)); }
}
proof fn lemma_flat_chars(t: Seq<char>) ensures flat(chars(t)) == t decreases t.len() {
    if t.len() > 0 { lemma_flat_chars(t.drop_last()); assert(chars(t).drop_last() =~= chars(t.drop_last())); assert(t =~= t.drop_last().push(t.last())); assert(flat(chars(t)) =~= t); } else { assert(flat(chars(t)) =~= t); }
}
proof fn lemma_flat_leaves(h: HTML) ensures flat(leaves(h)) == content(h) decreases h, 1int, 0int {
    match h {
        HTML::Sequence(s) => { lemma_flat_upto(h, s@.len() as int); },
        HTML::Tag(t) => { let l = seq![Leaf::Tag(t)]; assert(l.drop_last() =~= Seq::<Leaf>::empty()); assert(flat(l.drop_last()) =~= Seq::<char>::empty()); assert(l.last() == Leaf::Tag(t)); assert(leaves(h) == l); assert(flat(leaves(h)) =~= content(h)); },
        HTML::Text(t) => { lemma_flat_chars(t@); },
        HTML::Whitespace => { lemma_flat_chars(seq![' ']); },
        HTML::RawNewline => { lemma_flat_chars(seq!['\n']); },
        HTML::Empty => {},
    }
}
proof fn lemma_flat_upto(h: HTML, k: int) requires h is Sequence, 0 <= k <= (h->Sequence_0)@.len() ensures flat(leaves_upto(h, k)) == content_upto(h, k) decreases h, 0int, k {
    let s = (h->Sequence_0)@;
    if k > 0 { lemma_flat_upto(h, k - 1); lemma_flat_leaves(s[k - 1]); lemma_flat_add(leaves_upto(h, k - 1), leaves(s[k - 1])); }
}
proof fn lemma_flat_all(s: Seq<HTML>) ensures flat(leaves_of(s)) == contents(s) decreases s.len() {
    if s.len() > 0 { lemma_flat_all(s.drop_last()); lemma_flat_leaves(s.last()); lemma_flat_add(leaves_of(s.drop_last()), leaves(s.last())); }
}
proof fn lemma_contents_push(s: Seq<HTML>, h: HTML) ensures contents(s.push(h)) == contents(s) + content(h) { assert(s.push(h).drop_last() =~= s); }
/// HTML::from_iter, as C06 proves it.
#[verifier::external_body]
fn raw_from_iter(v: Vec<HTML>) -> (r: HTML) requires all_normal(v@) ensures normal(r), leaves(r) == leaves_of(v@), r == sequence_of(v@) { unimplemented!() }
uninterp spec fn sequence_of(v: Seq<HTML>) -> HTML;
fn from_iter(v: Vec<HTML>) -> (r: HTML) requires all_normal(v@) ensures normal(r), content(r) == contents(v@), r == sequence_of(v@) {
    let r = raw_from_iter(v);
    proof { lemma_flat_all(v@); lemma_flat_leaves(r); }
    r
}
/// The attributes of a tag.
uninterp spec fn attrs(m: AttrMap) -> Map<NameID, Option<Seq<char>>>;
impl AttrMap {
    #[verifier::external_body]
    fn default() -> (r: AttrMap) ensures attrs(r) == Map::<NameID, Option<Seq<char>>>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn insert(&mut self, k: NameID, v: Option<Rc<str>>) -> (r: Option<Option<Rc<str>>>) ensures attrs(*final(self)) == attrs(*old(self)).insert(k, match v { Some(s) => Some(s@), None => None }), r is Some == attrs(*old(self)).contains_key(k) { unimplemented!() }
}
#[verifier::external_body]
fn rc_from(s: &str) -> (r: Rc<str>) ensures r@ == s@ { Rc::from(s) }
#[verifier::external_body]
fn ice<T>() -> (r: T) requires false { unimplemented!() }
'''


def tags(u, C='CONTENT'):
    kinds(u)
    types(u)
    u.text(LEAVES + CONTENT)
    u.default_subs = [('errors :: ice ( $x ) ;', 'ice::<()>();'), ('errors :: ice ( $x )', 'ice()')]
    u.text('impl Tag {')
    f = u.fn(TAG, 'new', impl='^impl Tag$').ensures('r.name_id == name_id', 'r.content == content', 'attrs(r.attributes) == Map::<NameID, Option<Seq<char>>>::empty()')
    f = u.fn(TAG, 'new_with_attrs', impl='^impl Tag$').ensures('r == (Tag { name_id, attributes, content })')
    f = u.fn(TAG, 'str_attr', impl='^impl Tag$').sub('( mut self ,', '(self,', 1).sub('self', 'this', 0).sub('( this ,', '(self,', 1).sub('Rc :: from ( $x )', 'rc_from($x)', 0)
    f.requires('!attrs(self.attributes).contains_key(k)').ensures('r.name_id == self.name_id', 'r.content == self.content', 'attrs(r.attributes) == attrs(self.attributes).insert(k, Some(v@))')
    f.start('let mut this = self;')
    f = u.fn(TAG, 'from', impl='^impl From < Tag > for HTML$').sub('fn from', 'fn into_html', 1)
    f.emit_name = 'into_html'
    f.ensures('r matches HTML::Tag(t) && *t == tag')
    u.text('} impl HTML {')
    f = u.fn(H, 'text', impl='^impl HTML$')
    f.sub('< T : AsRef < str > + Into < RcStr > > ( s : T )', '(s: &str)', 1).sub('s . into ( )', 'rc_from(s)', 0).sub('s . as_ref ( )', 's', 0)
    f.ensures('normal(r)', 'content(r) == s@')
    f.start(r'''proof { reveal_strlit(""); reveal_strlit(" "); reveal_strlit("\n"); assert(" "@ =~= seq![' ']); assert("\n"@ =~= seq!['\n']); assert(""@ =~= Seq::empty()); assert(s@.len() == 0 ==> s@ =~= ""@); }''')
    u.text('}')


SHOWN = r'''
/// A text is smaller than 4 GiB.
spec fn sub(s: Seq<char>, a: int, b: int) -> Seq<char> { s.subrange(idx(s, a), idx(s, b)) }
spec fn ok_range(s: Seq<char>, a: int, b: int) -> bool { is_b(s, a) && is_b(s, b) && a <= b }
proof fn lemma_idx_mono(s: Seq<char>, a: int, b: int) requires ok_range(s, a, b) ensures 0 <= idx(s, a) <= idx(s, b) <= s.len(), a < b ==> idx(s, a) < idx(s, b) {
    let i = idx(s, a); let j = idx(s, b);
    if j < i { lemma_blen_mono(s, j, i); }
}
proof fn lemma_sub(s: Seq<char>, a: int, b: int, c: int) requires ok_range(s, a, b), ok_range(s, b, c) ensures sub(s, a, b) + sub(s, b, c) == sub(s, a, c), sub(s, a, a) == Seq::<char>::empty() {
    lemma_idx_mono(s, a, b); lemma_idx_mono(s, b, c);
    assert(sub(s, a, b) + sub(s, b, c) =~= sub(s, a, c)); assert(sub(s, a, a) =~= Seq::<char>::empty());
}
/// Bytes of a part are bytes of the whole.
proof fn lemma_within(s: Seq<char>, a: int, b: int, x: int) requires ok_range(s, a, b), is_b(sub(s, a, b), x) ensures is_b(s, a + x), idx(s, a + x) == idx(s, a) + idx(sub(s, a, b), x), ok_range(s, a, a + x), ok_range(s, a + x, b) {
    lemma_idx_mono(s, a, b);
    let t = sub(s, a, b); let k = idx(t, x); let i = idx(s, a);
    assert(s.take(i + k) =~= s.take(i) + t.take(k));
    lemma_blen_add(s.take(i), t.take(k));
    lemma_unique(s, a + x, i + k);
    lemma_blen_mono(s, i + k, idx(s, b));
    lemma_blen_mono(s, i, i + k);
}
#[verifier::external_body]
fn take_kind(k: &mut Option<Shade>) -> (r: Option<Shade>) ensures r == *old(k), *final(k) is None { std::mem::take(k) }
#[verifier::external_body]
fn take_parts(v: &mut Vec<HTML>) -> (r: Vec<HTML>) ensures r@ == old(v)@, final(v)@.len() == 0 { std::mem::take(v) }
#[verifier::external_body]
fn same_text(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { a == b }
#[verifier::external_body]
fn last_paren(v: &Vec<(&'static str, u32)>) -> (r: Option<(&'static str, u32)>) ensures r == (if v@.len() == 0 { None } else { Some(v@.last()) }) { v.last().copied() }
#[verifier::external_body]
fn number_text(n: u32) -> (r: String) { n.to_string() }
/// Where the URLs are in a text: in order, without overlapping.
struct Match { a: usize, b: usize }
impl Match {
    fn start(&self) -> (r: usize) ensures r == self.a { self.a }
    fn end(&self) -> (r: usize) ensures r == self.b { self.b }
}
spec fn matches_in(s: Seq<char>, ms: Seq<Match>) -> bool {
    (forall|i: int| 0 <= i < ms.len() ==> ok_range(s, (#[trigger] ms[i]).a as int, ms[i].b as int)) && (forall|i: int, j: int| 0 <= i < j < ms.len() ==> (#[trigger] ms[i]).b <= (#[trigger] ms[j]).a)
}
#[verifier::external_body]
fn find_urls(s: &str) -> (r: Vec<Match>) ensures matches_in(s@, r@) { unimplemented!() }
spec fn end_of(ms: Seq<Match>, n: int) -> int { if n == 0 { 0 } else { ms[n - 1].b as int } }
spec fn paren(s: Seq<char>) -> bool { s == "("@ || s == "{"@ || s == "["@ }
/// The text of what is not yet a part.
spec fn pending(h: LineHighlighter) -> Seq<char> { if h.current_token_kind is Some { sub(h.src@, h.current_range.start as int, h.current_range.end as int) } else { Seq::empty() } }
/// What the highlighter shows so far of the line.
spec fn shown(h: LineHighlighter) -> Seq<char> { contents(h.parts@) + pending(h) }
spec fn wf(h: LineHighlighter) -> bool { all_normal(h.parts@) && (h.current_token_kind is Some ==> ok_range(h.src@, h.current_range.start as int, h.current_range.end as int)) }
/// What is pushed next may begin there.
spec fn next_at(h: LineHighlighter, n: int) -> bool { h.current_token_kind is Some ==> h.current_range.end == n }
'''


def rng(f):
    """Ranges of a text."""
    f.sub('& self . src [ $x . clone ( ) ]', 'cut(self.src, $x.start, $x.end)', 0)
    f.sub('$i:r . is_empty ( )', '($i:r.start >= $i:r.end)'.replace('$i:r', '$r'), 0)
    f.sub('$i:r . clone ( )', '$r', 0)
    return f


def highlighter_in(u):
    u.default_subs = [('errors :: ice ( $x ) ;', 'ice::<()>();'), ('errors :: ice ( $x )', 'ice()'), ('TokenKind', 'Shade'), ('LineHighlighter :: ', 'LineHighlighter::')]
    u.item(HL, 'enum', 'TokenKind', subs=[('TokenKind', 'Shade')], attrs='#[derive(Clone, Copy, PartialEq, Eq, Structural)]')
    u.text('use core::ops::Range;')
    u.item(HL, 'struct', 'LineHighlighter', subs=[('TokenKind', 'Shade')])
    u.text(SHOWN)
    f = u.fn(HL, 'matching_paren').requires('paren(s@)')
    f.start('proof { reveal_strlit("("); reveal_strlit("{"); reveal_strlit("["); }')
    u.text("impl<'a> LineHighlighter<'a> {")
    SRC = ['final(self).src == old(self).src', 'wf(*final(self))']
    PN = ['final(self).paren_count == old(self).paren_count', 'final(self).paren_stack == old(self).paren_stack']
    IN = ['wf(*old(self))', 'ok_range(old(self).src@, range.start as int, range.end as int)', 'next_at(*old(self), range.start as int)']
    OUT = ['shown(*final(self)) =~= shown(*old(self)) + sub(old(self).src@, range.start as int, range.end as int)', 'next_at(*final(self), range.end as int)']
    B = 'broadcast use bounds::group_bounds; '
    f = u.fn(HL, 'new', impl=LI).sub('-> LineHighlighter', "-> LineHighlighter<'_>", 1)
    f.ensures('r.src == src', 'wf(r)', 'shown(r) == Seq::<char>::empty()', 'r.current_token_kind is None', 'r.paren_count == 0').end('')
    f.start('')
    f = rng(u.fn(HL, 'push', impl=LI))
    f.sub('rpar == s', 'same_text(rpar, s)', 0).sub('Some ( & ( $x ) )', 'Some(($x))', 0).sub('self . paren_stack . last ( )', 'last_paren(&self.paren_stack)', 0)
    f.requires(*IN, 'kind is ParenLeft ==> paren(sub(old(self).src@, range.start as int, range.end as int))', 'old(self).paren_count < u32::MAX')
    f.ensures(*OUT, *SRC, 'final(self).paren_count <= old(self).paren_count + 1', 'kind !is ParenLeft ==> final(self).paren_count == old(self).paren_count')
    f = rng(u.fn(HL, 'push_with_possible_urls', impl=LI)).sub('for $i:m in URL_REGEX . find_iter ( s ) {', 'let matches = find_urls(s); let ghost ms = matches@; for $m in matches {', 0)
    f.requires(*IN).ensures(*OUT, *SRC, *PN)
    f.start(B + 'let ghost text = self.src@; let ghost (a, b) = (range.start as int, range.end as int); let ghost first_shown = shown(*self); proof { lemma_idx_mono(text, a, b); lemma_sub(text, a, a, b); }')
    f.loop(0, it='it', invariant=['it.seq() == ms', 'matches_in(s@, ms)', 'self.src@ == text', 'a == range.start && b == range.end', 's@ == sub(text, a, b)', 'cur == a + end_of(ms, it.index@ as int)', 'ok_range(text, a, b)', 'ok_range(text, a, cur as int)', 'ok_range(text, cur as int, b)', 'next_at(*self, cur as int)', 'shown(*self) =~= first_shown + sub(text, a, cur as int)', 'sub(text, a, cur as int) + sub(text, cur as int, b) == sub(text, a, b)', 'wf(*self)', 'self.src == old(self).src', 'self.paren_count == old(self).paren_count', 'self.paren_stack == old(self).paren_stack'])
    f.loop_start(0, 'proof { let n = it.index@ as int; let mm = ms[n]; lemma_within(text, a, b, mm.a as int); lemma_within(text, a, b, mm.b as int); lemma_sub(text, a, cur as int, a + mm.a); lemma_sub(text, a, a + mm.a, a + mm.b); lemma_sub(text, a, a + mm.b, b); }')
    f = rng(u.fn(HL, 'push_with_paren_no', impl=LI)).requires(*IN).ensures(*OUT, *SRC, *PN)
    f.after('self . close_part ( ) ;', 'let ghost parts0 = self.parts@;').after('self . parts . push ( $x ) ;', 'proof { assert(self.parts@.drop_last() =~= parts0); let n = range.end as int; assert(pending(*self) =~= Seq::<char>::empty()); }')
    f = rng(u.fn(HL, 'push_other', impl=LI)).requires(*IN).ensures(*OUT, *SRC, *PN)
    f.start('proof { let (a, b, t) = (range.start as int, range.end as int, self.src@); lemma_sub(t, a, a, b); lemma_sub(t, b, b, b); lemma_idx_mono(t, a, b); if self.current_token_kind is Some { lemma_sub(t, self.current_range.start as int, a, b); } }')
    f = rng(u.fn(HL, 'close_part', impl=LI)).sub('std :: mem :: take ( $x )', 'take_kind($x)', 0)
    f.requires('wf(*old(self))').ensures('shown(*final(self)) =~= shown(*old(self))', 'final(self).current_token_kind is None', *SRC, *PN)
    f.start('let ghost parts0 = self.parts@;').after('self . parts . push ( $x ) ;', 'proof { assert(self.parts@.drop_last() =~= parts0); }')
    f = u.fn(HL, 'take_line', impl=LI).sub('std :: mem :: take ( $x )', 'take_parts($x)', 0).sub('HTML :: from_iter', 'from_iter', 0)
    f.requires('wf(*old(self))').ensures('content(r) == shown(*old(self))', 'normal(r)', 'shown(*final(self)) == Seq::<char>::empty()', 'final(self).current_token_kind is None', *SRC, *PN)
    f = u.fn(HL, 'make_token', impl=LI).sub('$i:n . to_string ( )', 'number_text($n)', 0).sub('tag . into ( )', 'Tag::into_html(tag)', 0)
    f.ensures('content(r) == s@', 'normal(r)')
    f = u.fn(HL, 'make_link_token', impl=LI).sub('tag . into ( )', 'Tag::into_html(tag)', 0)
    f.ensures('content(r) == s@', 'normal(r)')
    u.text('}')


PAPYRI = r'''
/// The lines, each followed by a newline.
spec fn pre(v: Seq<HTML>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { pre(v.drop_last()) + content(v.last()) + seq!['\n'] } }
/// The lines, separated by newlines.
spec fn joined(v: Seq<HTML>) -> Seq<char> { if v.len() == 0 { Seq::empty() } else { pre(v.drop_last()) + content(v.last()) } }
/// Texts, separated by newlines.
spec fn nl(ps: Seq<&str>) -> Seq<char> decreases ps.len() { if ps.len() == 0 { Seq::empty() } else if ps.len() == 1 { ps[0]@ } else { nl(ps.drop_last()) + seq!['\n'] + ps.last()@ } }
/// Where the i-th of them starts.
spec fn lead(ps: Seq<&str>, i: int) -> int { if i == 0 { 0 } else { nl(ps.take(i)).len() as int + 1 } }
proof fn lemma_nl(ps: Seq<&str>, i: int) requires 0 <= i < ps.len()
    ensures lead(ps, i) + ps[i]@.len() == nl(ps.take(i + 1)).len() <= nl(ps).len(), nl(ps).subrange(lead(ps, i), lead(ps, i) + ps[i]@.len()) == ps[i]@, i > 0 ==> nl(ps)[lead(ps, i) - 1] == '\n', 0 <= lead(ps, i)
    decreases ps.len()
{
    let t = ps.drop_last();
    let a = nl(t); let n = nl(ps);
    assert(ps.take(ps.len() as int) =~= ps);
    if i + 1 < ps.len() {
        lemma_nl(t, i);
        assert(t.take(i) =~= ps.take(i)); assert(t.take(i + 1) =~= ps.take(i + 1));
        assert(n =~= a + (seq!['\n'] + ps.last()@));
        assert(n.subrange(lead(ps, i), lead(ps, i) + ps[i]@.len()) =~= a.subrange(lead(ps, i), lead(ps, i) + ps[i]@.len()));
    } else {
        assert(ps.take(i) =~= t);
        assert(n.subrange(lead(ps, i), n.len() as int) =~= ps[i]@);
    }
}
/// The i-th part of a text split at newlines, by positions in the text.
proof fn lemma_part(s: Seq<char>, a: int, b: int, ps: Seq<&str>, i: int, cur: int)
    requires ok_range(s, a, b), nl(ps) == sub(s, a, b), 0 <= i < ps.len(), is_b(s, cur), idx(s, cur) == idx(s, a) + lead(ps, i)
    ensures ({ let e = cur + blen(ps[i]@); ok_range(s, cur, e) && e <= b && b <= blen(s) && sub(s, cur, e) == ps[i]@ && idx(s, e) == idx(s, cur) + ps[i]@.len()
        && (i > 0 ==> ok_range(s, cur - 1, cur) && sub(s, cur - 1, cur) == seq!['\n'] && s.take(idx(s, a) + nl(ps.take(i)).len()) + seq!['\n'] == s.take(idx(s, cur)))
        && (i == 0 ==> s.take(idx(s, a) + nl(ps.take(i)).len()) == s.take(idx(s, cur)))
        && (i + 1 < ps.len() ==> is_b(s, e + 1) && idx(s, e + 1) == idx(s, a) + lead(ps, i + 1))
        && (i + 1 == ps.len() ==> e == b)
        && s.take(idx(s, cur)) + ps[i]@ == s.take(idx(s, a) + nl(ps.take(i + 1)).len()) }),
        nl(ps).len() == 1 && paren(nl(ps)) ==> ps.len() == 1 && ps[0]@ == nl(ps)
{
    lemma_idx_mono(s, a, b);
    lemma_nl(ps, i);
    let p = ps[i]@; let k = idx(s, cur); let t = sub(s, a, b);
    assert(p =~= s.subrange(k, k + p.len()));
    assert(starts(s.skip(k), p));
    lemma_b_found(s, cur, p);
    let e = cur + blen(p);
    bounds::lemma_b_range(s, b); bounds::lemma_b_range(s, e); bounds::lemma_b_range(s, cur);
    if b < e { lemma_idx_mono(s, b, e); }
    assert(s.take(0) =~= Seq::<char>::empty()); assert(ps.take(0) =~= Seq::<&str>::empty()); assert(ps.take(ps.len() as int) =~= ps);
    if i > 0 {
        assert(t[lead(ps, i) - 1] == '\n'); assert(s[k - 1] == '\n');
        lemma_blen_take(s, k - 1); lemma_unique(s, cur - 1, k - 1);
        assert(sub(s, cur - 1, cur) =~= seq!['\n']);
        assert(s.take(k - 1) + seq!['\n'] =~= s.take(k));
    }
    if i + 1 < ps.len() { lemma_nl(ps, i + 1); assert(t[lead(ps, i + 1) - 1] == '\n'); assert(s[k + p.len()] == '\n'); lemma_b_at(s, e); }
    else { if e < b { lemma_idx_mono(s, e, b); } }
    assert(s.take(k) + p =~= s.take(k + p.len()));
    if nl(ps).len() == 1 && paren(nl(ps)) {
        reveal_strlit("("); reveal_strlit("{"); reveal_strlit("[");
        assert(nl(ps)[0] == "("@[0] || nl(ps)[0] == "{"@[0] || nl(ps)[0] == "["@[0]);
        if ps.len() > 1 { lemma_nl(ps, 1); }
    }
}
#[derive(Clone, Copy)]
struct SourceFileID { n: u64 }
struct SourceFile { id: SourceFileID, x: u64 }
impl SourceFile { uninterp spec fn text(&self) -> Seq<char>; }
/// A text without the white space at its end.
uninterp spec fn trim_end(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn synthetic(s: &str) -> (r: Rc<SourceFile>) ensures r.text() == s@ { unimplemented!() }
#[verifier::external_body]
fn trimmed(s: &str) -> (r: &str) ensures r@ == trim_end(s@), blen(r@) <= blen(s@) { s.trim_end() }
#[verifier::external_body]
fn text_of(f: &Rc<SourceFile>) -> (r: &str) ensures r@ == f.text() { unimplemented!() }
#[verifier::external_body]
fn span(f: &Rc<SourceFile>, range: SourceRange) -> (r: &str) requires ok_range(f.text(), range.start as int, range.end as int) ensures r@ == sub(f.text(), range.start as int, range.end as int) { unimplemented!() }
#[verifier::external_body]
fn split_newlines(s: &str) -> (r: Vec<&str>) ensures r@.len() > 0, nl(r@) == s@ { unimplemented!() }
/// tokenize, as C01 proves it.
#[verifier::external_body]
fn tokenize(src: Rc<SourceFile>, strip_comments: bool) -> (r: Vec<Token>) requires blen(src.text()) < u32::MAX ensures !strip_comments ==> tiled(src.text(), r@) { unimplemented!() }
#[verifier::external_body]
fn share(f: &Rc<SourceFile>) -> (r: Rc<SourceFile>) ensures r.text() == f.text() { f.clone() }
#[verifier::opaque]
spec fn tiled(s: Seq<char>, all: Seq<Token>) -> bool { tiles(s, all) }
spec fn is_left(k: TokenKind) -> bool { k == TokenKind::LPar || k == TokenKind::LSqb || k == TokenKind::LBrace }
/// An opening bracket is one character.
proof fn lemma_left(s: Seq<char>, all: Seq<Token>, j: int) requires 0 <= j < all.len(), pieces(s, all), is_left(all[j].kind) ensures sub(s, all[j].range.start as int, all[j].range.end as int).len() == 1, paren(sub(s, all[j].range.start as int, all[j].range.end as int)) {
    assert(piece(s, all, j));
    let r = s.skip(idx(s, begin(all, j)));
    let t = sub(s, all[j].range.start as int, all[j].range.end as int);
    lemma_idx_mono(s, all[j].range.start as int, all[j].range.end as int);
    assert(lex(r).1 == all[j].kind || (lex(r).1 is Quote));
    assert(lex(r).0 == 1);
    assert(t =~= seq![r[0]]);
    reveal_strlit("("); reveal_strlit("{"); reveal_strlit("[");
    assert("("@ =~= seq!['(']); assert("{"@ =~= seq!['{']); assert("["@ =~= seq!['[']);
}
'''


def papyri_in(u):
    from contracts.c01 import SPEC
    u.text(LEX)
    u.item('src/utils/sourcefile.rs', 'struct', 'SourceRange', attrs='#[derive(Clone, Copy)]')
    u.item(TOKEN, 'struct', 'Token', attrs='#[derive(Clone, Copy)]')
    u.text(SPEC + PAPYRI)
    u.default_subs = [('token :: TokenKind', 'LexKind'), ('TokenKind', 'Shade'), ('LexKind', 'TokenKind'), ('token :: Keyword', 'Keyword'), ('LineHighlighter :: ', 'LineHighlighter::')]
    f = u.fn('src/compiler/highlight_papyri.rs', 'syntax_highlight_papyri')
    f.sub('Rc :: new ( SourceFile :: new_anonymous_synthetic ( src . trim_end ( ) ) )', 'synthetic(trimmed(src))', 0)
    f.sub('tokenize ( src . clone ( ) , $b , $d )', 'tokenize(share(&src), $b)', 0)
    f.sub('& src . src [ $a .. $b ] != "\\n"', '!same_text(cut(text_of(&src), $a, $b), "\\n")', 0)
    f.sub('& src . src', 'text_of(&src)', 0)
    f.sub('for $i:t in tokens {', 'let all = Ghost(tokens@); for $t in tokens {', 0)
    f.sub("for $i:p in src . get_span ( $r ) . split ( '\\n' ) {", 'let parts = split_newlines(span(&src, $r)); let ghost ps = parts@; proof { assert(ps.take(ps.len() as int) =~= ps); assert(ps.take(0) =~= Seq::<&str>::empty()); } for $p in parts {', 0)
    f.sub('ice_at ( $x )', 'ice::<()>()', 0).sub('part . len ( )', 'str_len(part)', 0)
    f.requires('blen(src@) < u32::MAX')
    f.ensures('joined(r@) =~= trim_end(src@)', 'all_normal(r@)')
    T = ['src.text() == s', 'tiled(s, all@)', 'blen(s) < u32::MAX', 'line.src@ == s', 'wf(line)', 'all_normal(out@)']
    f.before('let mut next_is_def', 'let ghost s = src.text();')
    f.loop(0, it='it', invariant=['it.seq() == all@', '"\\n"@ == seq![\'\\n\']', *T, 'line.paren_count <= begin(all@, it.index@ as int)', 'is_b(s, begin(all@, it.index@ as int))', 'next_at(line, begin(all@, it.index@ as int))', 'pre(out@) + shown(line) =~= s.take(idx(s, begin(all@, it.index@ as int)))'])
    f.loop_start(0, 'let ghost n = it.index@ as int; let ghost (a, b) = (tok.range.start as int, tok.range.end as int); proof { reveal(tiled); assert(piece(s, all@, n)); lemma_idx_mono(s, a, b); bounds::lemma_b_range(s, b);  if is_left(tok.kind) { lemma_left(s, all@, n); } }')
    f.loop(1, it='pt', invariant=[*T, 'pt.seq() == ps', '0 <= n < all@.len()', 'nl(ps) == sub(s, a, b)', 'ps.len() > 0', 'ps.take(ps.len() as int) == ps', 'idx(s, b) == idx(s, a) + nl(ps).len()', '"\\n"@ == seq![\'\\n\']', 'ok_range(s, a, b)', 'a == tok.range.start && b == tok.range.end && tok == all@[n]', 'kind is ParenLeft == is_left(tok.kind)', 'kind is ParenLeft ==> nl(ps).len() == 1 && paren(nl(ps))',
        'do_close == (pt.index@ > 0)', 'pt.index@ == 0 ==> cur == a && next_at(line, a)', 'line.paren_count <= a + if kind is ParenLeft { pt.index@ as int } else { 0 }',
        'pt.index@ < ps.len() ==> is_b(s, cur as int) && idx(s, cur as int) == idx(s, a) + lead(ps, pt.index@ as int) && (pt.index@ > 0 ==> next_at(line, cur - 1))', 'cur <= blen(s) + 1',
        'pt.index@ == ps.len() ==> next_at(line, b)', 'pre(out@) + shown(line) =~= s.take(idx(s, a) + nl(ps.take(pt.index@ as int)).len())'])
    f.loop_start(1, 'let ghost i = pt.index@ as int; let ghost out0 = out@; proof { lemma_part(s, a, b, ps, i, cur as int); }')
    f.before('let cur_end', 'let ghost done = pre(out@) + shown(line); proof { assert(done =~= s.take(idx(s, cur as int))); }')
    f.after('line . push ( $x ) ;', 'proof { assert(pre(out@) + shown(line) =~= done + ps[i]@); }')
    f.after('out . push ( line . take_line ( ) ) ;', 'proof { assert(out@.drop_last() =~= out0); assert(pre(out@) + shown(line) =~= pre(out0) + content(out@.last()) + seq![\'\\n\']); }', nth=0)
    f.start('proof { reveal_strlit("\\n"); assert("\\n"@ =~= seq![\'\\n\']); }')
    f.before('for tok in', 'proof { bounds::lemma_b_zero(s); let z = s.take(0); assert(z =~= Seq::<char>::empty()); assert(begin(all@, 0) == 0); assert(is_b(s, 0)); }')
    f.before('out . push ( line . take_line ( ) ) ; out', 'proof { reveal(tiled); bounds::lemma_b_all(s); assert(s.take(s.len() as int) =~= s); } let ghost out1 = out@;')
    f.after('out . push ( line . take_line ( ) ) ;', 'proof { assert(out@.drop_last() =~= out1); }', nth=1)
    return u


def highlighter():
    u = Unit('highlighter')
    tags(u)
    highlighter_in(u)
    papyri_in(u)
    return u


LINES = r'''
/// The lines of a text: separated by newlines, each without a carriage return before its newline; no empty line at the end.
spec fn strip_cr(s: Seq<char>) -> Seq<char> { if s.len() > 0 && s.last() == '\r' { s.drop_last() } else { s } }
spec fn newline_at(s: Seq<char>) -> int decreases s.len() { if s.len() == 0 || s[0] == '\n' { 0 } else { 1 + newline_at(s.skip(1)) } }
spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    let k = newline_at(s);
    if s.len() == 0 { Seq::empty() } else if 0 <= k < s.len() { seq![strip_cr(s.take(k))] + lines_of(s.skip(k + 1)) } else { seq![s] }
}
'''
INDENT = r'''
/// White space characters of Unicode.
uninterp spec fn white(c: char) -> bool;
mod white_space { use super::*;
    #[verifier::external_body]
    pub(crate) proof fn axiom_white() ensures white('\n'), white('\r'), white(' ') {}
}
spec fn trim_end(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && white(s.last()) { trim_end(s.drop_last()) } else { s } }
spec fn trim_start(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && white(s[0]) { trim_start(s.skip(1)) } else { s } }
/// The characters which are not white space.
spec fn ink(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else if white(s.last()) { ink(s.drop_last()) } else { ink(s.drop_last()).push(s.last()) } }
spec fn blank(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> white(#[trigger] s[i]) }
/// How many characters of a line are its indentation.
spec fn indent(s: Seq<char>) -> int decreases s.len() { if s.len() > 0 && white(s[0]) { 1 + indent(s.skip(1)) } else { 0 } }
/// A line without the indentation, or without its own if that is another.
spec fn unindented(l: Seq<char>, by: Seq<char>) -> Seq<char> { if starts(l, by) { l.skip(by.len() as int) } else { trim_start(l) } }
/// Lines without the indentation of the first which is not blank, each with a newline; blank lines before it are left out.
spec fn unindent(ls: Seq<Seq<char>>) -> (Option<Seq<char>>, Seq<char>) decreases ls.len() {
    if ls.len() == 0 { (None, Seq::empty()) } else {
        let (by, out) = unindent(ls.drop_last());
        let l = ls.last();
        match by { Some(i) => (by, out + unindented(l, i) + seq!['\n']), None => if blank(l) { (None, out) } else { (Some(l.take(indent(l))), out + l.skip(indent(l)) + seq!['\n']) } }
    }
}
/// There is no indentation to remove.
spec fn flush(ls: Seq<Seq<char>>) -> bool { unindent(ls).0 matches Some(by) && by.len() == 0 }
/// Code without its indentation, and without white space at both ends.
spec fn fixed(s: Seq<char>) -> Seq<char> { let ls = lines_of(trim_end(s)); if flush(ls) { trim_start(trim_end(s)) } else { let o = unindent(ls).1; if o.len() == 0 { o } else { o.drop_last() } } }
proof fn lemma_ink_add(a: Seq<char>, b: Seq<char>) ensures ink(a + b) == ink(a) + ink(b) decreases b.len() {
    if b.len() > 0 { assert((a + b).drop_last() =~= a + b.drop_last()); lemma_ink_add(a, b.drop_last()); assert(ink(a + b) =~= ink(a) + ink(b)); } else { assert(a + b =~= a); assert(ink(a) + ink(b) =~= ink(a)); }
}
proof fn lemma_ink_end(s: Seq<char>) ensures ink(trim_end(s)) == ink(s) decreases s.len() { if s.len() > 0 && white(s.last()) { lemma_ink_end(s.drop_last()); } }
proof fn lemma_ink_blank(s: Seq<char>) requires blank(s) ensures ink(s) == Seq::<char>::empty() decreases s.len() { if s.len() > 0 { assert(white(s[s.len() - 1])); assert forall|i: int| 0 <= i < s.drop_last().len() implies white(#[trigger] s.drop_last()[i]) by { assert(white(s[i])); } lemma_ink_blank(s.drop_last()); } }
proof fn lemma_ink_one(c: char) ensures ink(seq![c]) == (if white(c) { Seq::empty() } else { seq![c] }) { assert(seq![c].drop_last() =~= Seq::<char>::empty()); assert(seq![c].last() == c); assert(ink(Seq::<char>::empty()) =~= Seq::empty()); assert(ink(seq![c]) =~= (if white(c) { Seq::empty() } else { seq![c] })); }
proof fn lemma_ink_start(s: Seq<char>) ensures ink(trim_start(s)) == ink(s) decreases s.len() {
    if s.len() > 0 && white(s[0]) { lemma_ink_start(s.skip(1)); assert(s =~= seq![s[0]] + s.skip(1)); lemma_ink_add(seq![s[0]], s.skip(1)); lemma_ink_one(s[0]); assert(ink(s) =~= ink(s.skip(1))); }
}
proof fn lemma_indent(s: Seq<char>, n: int) requires 0 <= n <= s.len(), n < s.len() ==> !white(s[n]), forall|j: int| 0 <= j < n ==> white(#[trigger] s[j]) ensures indent(s) == n decreases n {
    if n > 0 { assert(white(s[0])); let t = s.skip(1); assert forall|j: int| 0 <= j < n - 1 implies white(#[trigger] t[j]) by { assert(white(s[j + 1])); } lemma_indent(t, n - 1); }
}
proof fn lemma_indent_range(s: Seq<char>) ensures 0 <= indent(s) <= s.len(), blank(s.take(indent(s))) decreases s.len() {
    if s.len() > 0 && white(s[0]) { lemma_indent_range(s.skip(1)); let n = indent(s); assert forall|j: int| 0 <= j < n implies white(#[trigger] s.take(n)[j]) by { if j > 0 { assert(s.skip(1).take(n - 1)[j - 1] == s[j]); } } }
}
spec fn concat(ls: Seq<Seq<char>>) -> Seq<char> decreases ls.len() { if ls.len() == 0 { Seq::empty() } else { concat(ls.drop_last()) + ls.last() } }
proof fn lemma_concat_front(l: Seq<char>, ls: Seq<Seq<char>>) ensures concat(seq![l] + ls) == l + concat(ls) decreases ls.len() {
    let a = seq![l] + ls;
    if ls.len() > 0 { assert(a.drop_last() =~= seq![l] + ls.drop_last()); lemma_concat_front(l, ls.drop_last()); assert(concat(a) =~= l + concat(ls)); }
    else { assert(a =~= seq![l]); assert(a.drop_last() =~= Seq::<Seq<char>>::empty()); assert(a.last() == l); assert(concat(Seq::<Seq<char>>::empty()) =~= Seq::<char>::empty()); assert(ls =~= Seq::<Seq<char>>::empty()); assert(concat(a) =~= l + concat(ls)); }
}
proof fn lemma_newline(s: Seq<char>) ensures 0 <= newline_at(s) <= s.len(), newline_at(s) < s.len() ==> s[newline_at(s)] == '\n', forall|j: int| 0 <= j < newline_at(s) ==> #[trigger] s[j] != '\n' decreases s.len() {
    if s.len() > 0 && s[0] != '\n' { lemma_newline(s.skip(1)); assert forall|j: int| 0 <= j < newline_at(s) implies #[trigger] s[j] != '\n' by { if j > 0 { assert(s.skip(1)[j - 1] == s[j]); } } }
}
/// The lines have the characters of the text.
proof fn lemma_ink_lines(s: Seq<char>) ensures ink(concat(lines_of(s))) == ink(s) decreases s.len() {
    white_space::axiom_white();
    let k = newline_at(s);
    lemma_newline(s);
    if s.len() == 0 { assert(s =~= concat(lines_of(s))); }
    else if k < s.len() {
        let a = s.take(k); let rest = s.skip(k + 1);
        lemma_ink_lines(rest);
        lemma_concat_front(strip_cr(a), lines_of(rest));
        lemma_ink_add(strip_cr(a), concat(lines_of(rest)));
        assert(s =~= a + seq!['\n'] + rest);
        lemma_ink_add(a + seq!['\n'], rest); lemma_ink_add(a, seq!['\n']); lemma_ink_one('\n');
        assert(ink(a + seq!['\n']) =~= ink(a));
        assert(ink(strip_cr(a)) == ink(a));
    } else { assert(seq![s].drop_last() =~= Seq::<Seq<char>>::empty()); assert(seq![s].last() == s); assert(concat(Seq::<Seq<char>>::empty()) =~= Seq::<char>::empty()); assert(concat(seq![s]) =~= s); }
}
proof fn lemma_ink_unindent(ls: Seq<Seq<char>>) ensures ink(unindent(ls).1) == ink(concat(ls)), unindent(ls).0 matches Some(by) ==> blank(by) decreases ls.len() {
    if ls.len() > 0 {
        white_space::axiom_white();
        let r = ls.drop_last(); let l = ls.last(); let (by, out) = unindent(r);
        lemma_ink_unindent(r);
        lemma_ink_add(concat(r), l);
        lemma_ink_one('\n');
        let x = match by { Some(i) => unindented(l, i), None => if blank(l) { Seq::empty() } else { l.skip(indent(l)) } };
        lemma_ink_add(out + x, seq!['\n']); lemma_ink_add(out, x);
        assert(ink(out + x + seq!['\n']) =~= ink(out) + ink(x));
        lemma_indent_range(l);
        if by is Some && starts(l, by->0) { let n = by->0.len() as int; assert(l.take(n) =~= by->0); assert(l =~= l.take(n) + l.skip(n)); lemma_ink_add(l.take(n), l.skip(n)); lemma_ink_blank(by->0); assert(ink(x) =~= ink(l)); }
        else if by is Some { lemma_ink_start(l); }
        else if blank(l) { lemma_ink_blank(l); assert(ink(out) =~= ink(out) + ink(l)); }
        else { let n = indent(l); assert(l =~= l.take(n) + l.skip(n)); lemma_ink_add(l.take(n), l.skip(n)); lemma_ink_blank(l.take(n)); assert(ink(x) =~= ink(l)); }
    }
}
/// Fixing the indentation keeps everything but white space.
proof fn lemma_fixed(s: Seq<char>) ensures ink(fixed(s)) == ink(s) {
    white_space::axiom_white();
    let t = trim_end(s); let ls = lines_of(t); let o = unindent(ls).1;
    lemma_ink_end(s); lemma_ink_start(t); lemma_ink_lines(t); lemma_ink_unindent(ls);
    lemma_newline_end(ls);
}
/// What ends with a newline.
proof fn lemma_newline_end(ls: Seq<Seq<char>>) ensures unindent(ls).1.len() > 0 ==> unindent(ls).1.last() == '\n', unindent(ls).0 is None ==> unindent(ls).1.len() == 0 decreases ls.len() { if ls.len() > 0 { lemma_newline_end(ls.drop_last()); } }
/// The first line which is not blank decides.
proof fn lemma_flush(ls: Seq<Seq<char>>, n: int) requires 0 <= n <= ls.len(), unindent(ls.take(n)).0 is Some ensures unindent(ls).0 == unindent(ls.take(n)).0 decreases ls.len() {
    if n < ls.len() { assert(ls.drop_last().take(n) =~= ls.take(n)); lemma_flush(ls.drop_last(), n); } else { assert(ls.take(n) =~= ls); }
}
#[verifier::external_body]
fn is_space(c: char) -> (r: bool) ensures r == white(c) { c.is_whitespace() }
#[verifier::external_body]
fn str_trim_end(s: &str) -> (r: &str) ensures r@ == trim_end(s@) { s.trim_end() }
#[verifier::external_body]
fn str_trim_start(s: &str) -> (r: &str) ensures r@ == trim_start(s@) { s.trim_start() }
#[verifier::external_body]
fn str_trim(s: &str) -> (r: &str) ensures r@ == trim_start(trim_end(s@)) { s.trim() }
#[verifier::external_body]
fn str_lines(s: &str) -> (r: Vec<&str>) ensures r@.len() == lines_of(s@).len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == lines_of(s@)[i] { s.lines().collect() }
#[verifier::external_body]
fn strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>) ensures match r { Some(t) => starts(s@, p@) && t@ == s@.skip(p@.len() as int), None => !starts(s@, p@) } { s.strip_prefix(p) }
/// s.char_indices().find(f)
#[verifier::external_body]
fn raw_find_indexed<F: Fn(char) -> bool>(s: &str, f: F) -> (r: Option<(usize, char)>)
    requires forall|c: char| f.requires((c,))
    ensures match r { Some((n, c)) => is_b(s@, n as int) && idx(s@, n as int) < s@.len() && c == s@[idx(s@, n as int)] && f.ensures((c,), true) && (forall|j: int| 0 <= j < idx(s@, n as int) ==> f.ensures((#[trigger] s@[j],), false)), None => forall|j: int| 0 <= j < s@.len() ==> f.ensures((#[trigger] s@[j],), false) }
{ unimplemented!() }
spec fn finds_ink<F: Fn(char) -> bool>(f: F) -> bool { forall|c: char, r: bool| f.ensures((c,), r) ==> r == !white(c) }
fn find_indexed<F: Fn(char) -> bool>(s: &str, f: F) -> (r: Option<(usize, char)>)
    requires forall|c: char| f.requires((c,))
    ensures match r { Some((n, c)) => is_b(s@, n as int) && idx(s@, n as int) < s@.len() && c == s@[idx(s@, n as int)] && f.ensures((c,), true) && (n == 0) == (idx(s@, n as int) == 0) && (finds_ink(f) ==> indent(s@) == idx(s@, n as int) && !blank(s@)), None => finds_ink(f) ==> blank(s@) }
{
    let r = raw_find_indexed(s, f);
    proof {
        if let Some((n, c)) = r {
            let k = idx(s@, n as int);
            bounds::lemma_b_zero(s@);
            if n > 0 { lemma_b_at(s@, n as int); assert(s@.take(0) =~= Seq::<char>::empty()); assert(blen(s@.take(k)) == n); }
            if finds_ink(f) {
                assert forall|j: int| 0 <= j < k implies white(#[trigger] s@[j]) by { assert(f.ensures((s@[j],), false)); }
                lemma_indent(s@, k);
                assert(!white(s@[k]));
            }
        } else if finds_ink(f) {
            assert forall|j: int| 0 <= j < s@.len() implies white(#[trigger] s@[j]) by { assert(f.ensures((s@[j],), false)); }
        }
    }
    r
}
#[verifier::external_body]
fn append(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { s.push_str(t) }
#[verifier::external_body]
fn pop(s: &mut String) ensures final(s)@ == (if old(s)@.len() == 0 { old(s)@ } else { old(s)@.drop_last() }) { s.pop(); }
#[verifier::external_body]
fn string_of(s: &str) -> (r: String) ensures r@ == s@ { s.to_string() }
spec fn ident(s: Seq<char>) -> bool { s.len() > 0 && start(s[0]) && forall|i: int| 0 <= i < s.len() ==> cont(#[trigger] s[i]) }
/// The language named in the first line, and what follows it; or the default.
spec fn hinted(src: Seq<char>, default: Seq<char>) -> (Seq<char>, Seq<char>) { let k = newline_at(src); if k < src.len() && ident(trim_end(src.take(k))) { (trim_end(src.take(k)), src.skip(k + 1)) } else { (default, src) } }
'''


def source():
    u = Unit('source')
    kinds(u)
    u.text(LINES + INDENT)
    for name, spec in (('is_ident_start', 'start'), ('is_ident_cont', 'cont')):
        f = u.fn(TEXT, name)
        f.sub('c . is_ascii_alphabetic ( )', 'is_al(c)', 0).sub('c . is_ascii_alphanumeric ( )', 'is_an(c)', 0).ensures(f'r == {spec}(c)')
    f = u.fn(TEXT, 'is_identifier')
    f.sub('s . chars ( )', 'chars_of(s)', 0)
    f.sub('$i:v . all ( $i:f )', '({ let mut all = true; while let Some(c) = $v.next() { if !$f(c) { all = false; break; } } all })', 1)
    f.ensures('r == ident(s@)')
    f.loop(0, invariant=['s@.len() > 0', 'start(s@[0])', 's_chars.rest@.len() < s@.len()', 's_chars.rest@ =~= s@.skip(s@.len() - s_chars.rest@.len())'], except_break=['all', 'forall|i: int| 0 <= i < s@.len() - s_chars.rest@.len() ==> cont(#[trigger] s@[i])'],
           ensures=['all == ident(s@)'], decreases='s_chars.rest@.len()')
    f = u.fn(TEXT, 'fix_indentation')
    f.sub('"" . to_string ( )', 'String::new()', 0).sub('s . trim_end ( )', 'str_trim_end(s)', 0).sub('s . trim ( ) . to_string ( )', 'string_of(str_trim(s))', 0)
    f.sub('for $i:l in $x . lines ( ) {', 'let lines = str_lines($x); let ghost ls = lines_of(trim_end(s@)); for $l in lines {', 0).sub('line . trim_start ( )', 'str_trim_start(line)', 0)
    f.sub('line . strip_prefix ( $x )', 'strip_prefix(line, $x)', 0).sub('$i:c . is_whitespace ( )', 'is_space($c)', 0)
    f.sub('line . char_indices ( ) . find ( | ( _ , $i:c ) | $b )', 'find_indexed(line, |$c: char| -> (r: bool) ensures r == !white($c) { $b })', 0)
    f.sub('& line [ .. $x ]', 'cut(line, 0, $x)', 0).sub('& line [ $x .. ]', 'tail(line, $x)', 0).sub('out += $x ;', 'append(&mut out, $x);', 0).sub('out . pop ( ) ;', 'pop(&mut out);', 0)
    f.ensures('r@ =~= fixed(s@)', 'ink(r@) == ink(s@)')
    f.start('proof { reveal_strlit("\\n"); assert("\\n"@ =~= seq![\'\\n\']); lemma_fixed(s@); let l = lines_of(trim_end(s@)); assert(l.take(0) =~= Seq::empty()); assert(l.take(l.len() as int) =~= l); }')
    f.loop(0, it='it', invariant=['ls == lines_of(trim_end(s@))', 'ls.take(ls.len() as int) == ls', 'it.seq() == lines@', 'lines@.len() == ls.len()', 'forall|i: int| 0 <= i < ls.len() ==> (#[trigger] lines@[i])@ == ls[i]', '"\\n"@ == seq![\'\\n\']', 'ink(fixed(s@)) == ink(s@)',
        'match (indentation_to_remove, unindent(ls.take(it.index@ as int)).0) { (Some(a), Some(b)) => a@ == b && b.len() > 0, (None, None) => true, _ => false }', 'out@ =~= unindent(ls.take(it.index@ as int)).1'])
    f.loop_start(0, '''let ghost n = it.index@ as int; proof { assert(line@ == ls[n]); let t = ls.take(n + 1); assert(t.drop_last() =~= ls.take(n)); assert(t.last() == ls[n]); bounds::lemma_b_zero(line@); lemma_newline_end(ls.take(n));
        if unindent(t).0 is Some { lemma_flush(ls, n + 1); } } ''')
    f = u.fn(TEXT, 'get_source_language_hint')
    f.sub("src . find ( '\\n' )", 'find_newline(src)', 0).sub('src [ .. $k ] . trim_end ( )', 'str_trim_end(cut(src, 0, $k))', 0).sub('& src [ $k .. ]', 'tail(src, $k)', 0)
    f.ensures('(r.0@, r.1@) == hinted(src@, default@)')
    f.start('proof { lemma_newline(src@); bounds::lemma_b_zero(src@); }')
    u.text('''#[verifier::external_body]
fn raw_find_newline(s: &str) -> (r: Option<usize>) ensures match r { Some(n) => is_b(s@, n as int) && idx(s@, n as int) < s@.len() && s@[idx(s@, n as int)] == '\\n' && n < usize::MAX / 4 && (forall|j: int| 0 <= j < idx(s@, n as int) ==> s@[j] != '\\n'), None => forall|j: int| 0 <= j < s@.len() ==> s@[j] != '\\n' } { s.find('\\n') }
fn find_newline(s: &str) -> (r: Option<usize>) ensures match r { Some(n) => is_b(s@, n as int) && idx(s@, n as int) == newline_at(s@) < s@.len() && n < usize::MAX / 4 && is_b(s@, n + 1) && idx(s@, n + 1) == newline_at(s@) + 1, None => newline_at(s@) == s@.len() } {
    let r = raw_find_newline(s);
    proof { lemma_newline(s@); if let Some(n) = r { let k = idx(s@, n as int); let m = newline_at(s@); if m < k { assert(s@[m] != '\\n'); } else if k < m { assert(s@[k] != '\\n'); } lemma_b_at(s@, n as int); } else if newline_at(s@) < s@.len() { assert(s@[newline_at(s@)] != '\\n'); } }
    r
}''')
    return u


LISTING = r"""
type Int = i64;
uninterp spec fn decimal(n: int) -> Seq<char>;
#[verifier::external_body]
fn integer_text(n: i128) -> (r: String) ensures r@ == decimal(n as int) { n.to_string() }
spec fn enumerates(ns: Seq<(usize, HTML)>, all: Seq<HTML>) -> bool { ns.len() == all.len() && all.len() < usize::MAX && forall|i: int| 0 <= i < ns.len() ==> (#[trigger] ns[i]).0 == i && ns[i].1 == all[i] }
#[verifier::external_body]
fn enumerated(v: Vec<HTML>) -> (r: Vec<(usize, HTML)>) ensures enumerates(r@, v@) { v.into_iter().enumerate().collect() }
spec fn blens(ls: Seq<Seq<char>>) -> nat decreases ls.len() { if ls.len() == 0 { 0 } else { blens(ls.drop_last()) + blen(ls.last()) } }
proof fn lemma_blens_front(l: Seq<char>, ls: Seq<Seq<char>>) ensures blens(seq![l] + ls) == blen(l) + blens(ls) decreases ls.len() {
    let a = seq![l] + ls;
    if ls.len() > 0 { assert(a.drop_last() =~= seq![l] + ls.drop_last()); lemma_blens_front(l, ls.drop_last()); assert(a.last() == ls.last()); }
    else { assert(a =~= seq![l]); assert(a.drop_last() =~= Seq::<Seq<char>>::empty()); assert(a.last() == l); assert(ls =~= Seq::<Seq<char>>::empty()); }
}
/// The lines are no longer than the text.
proof fn lemma_blens(s: Seq<char>) ensures blens(lines_of(s)) <= blen(s) decreases s.len() {
    let k = newline_at(s);
    lemma_newline(s);
    if s.len() == 0 {}
    else if k < s.len() {
        let a = s.take(k); let rest = s.skip(k + 1); let c = strip_cr(a);
        lemma_blens(rest);
        lemma_blens_front(c, lines_of(rest));
        assert(s =~= (a + seq!['\n']) + rest);
        lemma_blen_add(a + seq!['\n'], rest); lemma_blen_add(a, seq!['\n']);
        if a.len() > 0 { assert(blen(a.drop_last()) <= blen(a)); }
    } else { assert(seq![s].drop_last() =~= Seq::<Seq<char>>::empty()); assert(seq![s].last() == s); assert(blens(seq![s].drop_last()) == 0); assert(lines_of(s) == seq![s]); assert(blens(seq![s]) == blen(s)); }
}
proof fn lemma_blens_take(ls: Seq<Seq<char>>, n: int) requires 0 <= n < ls.len() ensures blens(ls.take(n)) + blen(ls[n]) == blens(ls.take(n + 1)) <= blens(ls) decreases ls.len() {
    assert(ls.take(n + 1).drop_last() =~= ls.take(n)); assert(ls.take(n + 1).last() == ls[n]);
    if n + 1 < ls.len() { assert(ls.drop_last().take(n) =~= ls.take(n)); assert(ls.drop_last().take(n + 1) =~= ls.take(n + 1)); lemma_blens_take(ls.drop_last(), n); } else { assert(ls.take(n + 1) =~= ls); }
}
/// The lines, each followed by a newline.
spec fn pre(v: Seq<HTML>) -> Seq<char> decreases v.len() { if v.len() == 0 { Seq::empty() } else { pre(v.drop_last()) + content(v.last()) + seq!['\n'] } }
spec fn joined(v: Seq<HTML>) -> Seq<char> { if v.len() == 0 { Seq::empty() } else { pre(v.drop_last()) + content(v.last()) } }
/// These are the lines.
spec fn lines_are(v: Seq<HTML>, ls: Seq<Seq<char>>) -> bool { v.len() == ls.len() && forall|i: int| 0 <= i < v.len() ==> content(#[trigger] v[i]) == ls[i] }
/// The lines of highlighted code; Papyri's own highlighting keeps the characters between newlines as they are.
spec fn formatted(language: Seq<char>, src: Seq<char>, v: Seq<HTML>) -> bool { all_normal(v) && if language == "papyri"@ { joined(v) == trim_end(src) } else { lines_are(v, lines_of(src)) } }
/// A line with its number.
spec fn numbered_line(h: HTML, line: HTML, n: int) -> bool {
    h matches HTML::Tag(t) && t.name_id == str_ids::SPAN && t.content == line && attrs(t.attributes) == Map::<NameID, Option<Seq<char>>>::empty().insert(str_ids::CLASS, Some("line"@)).insert(str_ids::DATA_LINE_NO, Some(decimal(n)))
}
/// Lines, each with its number and then a newline; the numbers count up by one.
#[verifier::opaque]
spec fn numbered(out: Seq<HTML>, lines: Seq<HTML>, first: int) -> bool { out.len() == 2 * lines.len() && forall|i: int| 0 <= i < lines.len() ==> numbered_line(#[trigger] out[2 * i], lines[i], first + i) && out[2 * i + 1] == HTML::RawNewline }
proof fn lemma_numbered(out: Seq<HTML>, lines: Seq<HTML>, first: int) requires numbered(out, lines, first), all_normal(lines) ensures contents(out) == pre(lines), all_normal(out) decreases lines.len() {
    reveal(numbered);
    if lines.len() > 0 {
        let n = lines.len() - 1;
        let o = out.take(2 * n); let l = lines.drop_last();
        assert forall|i: int| 0 <= i < l.len() implies numbered_line(#[trigger] o[2 * i], l[i], first + i) && o[2 * i + 1] == HTML::RawNewline by { assert(numbered_line(out[2 * i], lines[i], first + i)); }
        lemma_numbered(o, l, first);
        assert(numbered_line(out[2 * n], lines[n], first + n));
        assert(out =~= o.push(out[2 * n]).push(out[2 * n + 1]));
        lemma_contents_push(o, out[2 * n]); lemma_contents_push(o.push(out[2 * n]), out[2 * n + 1]);
        assert(contents(out) =~= pre(lines));
        assert forall|i: int| 0 <= i < out.len() implies normal(#[trigger] out[i]) by { if i < 2 * n { assert(normal(o[i])); } }
    } else { assert(contents(out) =~= pre(lines)); }
}
proof fn lemma_numbered_none(lines: Seq<HTML>, first: int) ensures numbered(Seq::empty(), lines.take(0), first) { reveal(numbered); }
proof fn lemma_numbered_push(o: Seq<HTML>, all: Seq<HTML>, n: int, first: int, h: HTML) requires 0 <= n < all.len(), numbered(o, all.take(n), first), numbered_line(h, all[n], first + n) ensures numbered(o.push(h).push(HTML::RawNewline), all.take(n + 1), first) {
    reveal(numbered);
    let p = o.push(h).push(HTML::RawNewline);
    assert(p[2 * n] == h && p[2 * n + 1] == HTML::RawNewline);
    assert forall|i: int| 0 <= i < n + 1 implies numbered_line(#[trigger] p[2 * i], all.take(n + 1)[i], first + i) && p[2 * i + 1] == HTML::RawNewline by { if i < n { assert(p[2 * i] == o[2 * i] && p[2 * i + 1] == o[2 * i + 1]); assert(numbered_line(o[2 * i], all.take(n)[i], first + i)); } else { assert(i == n); } }
}
// syntect, which is outside: where the ranges of a line are, and which scopes they have.
struct Syntax { n: u64 }
struct ParseState { n: u64 }
struct ScopeStack { n: u64 }
struct Ops { n: u64 }
struct Op { n: u64 }
struct Scopes { n: u64 }
#[verifier::external_body]
fn find_syntax(language: &str) -> (r: Option<Syntax>) { unimplemented!() }
impl ParseState {
    #[verifier::external_body]
    fn new(s: Syntax) -> ParseState { unimplemented!() }
    #[verifier::external_body]
    fn parse_line(&mut self, line: &str) -> Result<Ops, ()> { unimplemented!() }
}
impl ScopeStack {
    #[verifier::external_body]
    fn new() -> ScopeStack { unimplemented!() }
    #[verifier::external_body]
    fn apply_op(&mut self, op: Op) { unimplemented!() }
    #[verifier::external_body]
    fn as_slice(&self) -> Scopes { unimplemented!() }
}
/// The ranges cover the line, one after the other.
spec fn range_start(rs: Seq<(Range<usize>, Op)>, n: int) -> int { if n == 0 { 0 } else { rs[n - 1].0.end as int } }
#[verifier::opaque]
spec fn covers(s: Seq<char>, rs: Seq<(Range<usize>, Op)>) -> bool { range_start(rs, rs.len() as int) == blen(s) && forall|i: int| 0 <= i < rs.len() ==> (#[trigger] rs[i]).0.start == range_start(rs, i) && ok_range(s, rs[i].0.start as int, rs[i].0.end as int) }
proof fn lemma_cover(s: Seq<char>, rs: Seq<(Range<usize>, Op)>, k: int) requires covers(s, rs), 0 <= k < rs.len()
    ensures rs[k].0.start == range_start(rs, k), rs[k].0.end == range_start(rs, k + 1), ok_range(s, range_start(rs, k), range_start(rs, k + 1)), range_start(rs, k + 1) <= blen(s), s.take(idx(s, range_start(rs, k))) + sub(s, range_start(rs, k), range_start(rs, k + 1)) == s.take(idx(s, range_start(rs, k + 1)))
{
    reveal(covers);
    let (a, b) = (range_start(rs, k), range_start(rs, k + 1));
    assert(rs[k].0.start == a);
    lemma_idx_mono(s, a, b); bounds::lemma_b_range(s, b);
    assert(s.take(idx(s, a)) + sub(s, a, b) =~= s.take(idx(s, b)));
}
proof fn lemma_cover_ends(s: Seq<char>, rs: Seq<(Range<usize>, Op)>) requires covers(s, rs) ensures is_b(s, 0), s.take(idx(s, 0)) == Seq::<char>::empty(), range_start(rs, 0) == 0, s.take(idx(s, range_start(rs, rs.len() as int))) == s {
    reveal(covers);
    bounds::lemma_b_zero(s); bounds::lemma_b_all(s); assert(s.take(0) =~= Seq::<char>::empty()); assert(s.take(s.len() as int) =~= s);
}
/// What is done of the lines.
#[verifier::opaque]
spec fn done(out: Seq<HTML>, ls: Seq<Seq<char>>, n: int) -> bool { 0 <= n <= ls.len() && lines_are(out, ls.take(n)) && all_normal(out) }
proof fn lemma_done_none(ls: Seq<Seq<char>>) ensures done(Seq::empty(), ls, 0) { reveal(done); }
proof fn lemma_done(out: Seq<HTML>, ls: Seq<Seq<char>>, n: int, h: HTML) requires done(out, ls, n), n < ls.len(), content(h) == ls[n], normal(h) ensures done(out.push(h), ls, n + 1) {
    reveal(done);
    let t = ls.take(n + 1);
    assert forall|i: int| 0 <= i < out.push(h).len() implies content(#[trigger] out.push(h)[i]) == t[i] by { if i < n { assert(out.push(h)[i] == out[i]); assert(content(out[i]) == ls.take(n)[i]); } }
}
proof fn lemma_done_all(out: Seq<HTML>, ls: Seq<Seq<char>>) requires done(out, ls, ls.len() as int) ensures lines_are(out, ls), all_normal(out) { reveal(done); assert(ls.take(ls.len() as int) =~= ls); }
#[verifier::opaque]
spec fn texts(lines: Seq<&str>, ls: Seq<Seq<char>>) -> bool { lines.len() == ls.len() && forall|i: int| 0 <= i < ls.len() ==> (#[trigger] lines[i])@ == ls[i] }
proof fn lemma_text(lines: Seq<&str>, ls: Seq<Seq<char>>, n: int) requires texts(lines, ls), 0 <= n < lines.len() ensures lines[n]@ == ls[n] { reveal(texts); }
#[verifier::external_body]
fn scope_ranges(ops: &Ops, line: &str) -> (r: Vec<(Range<usize>, Op)>) ensures covers(line@, r@) { unimplemented!() }
#[verifier::external_body]
fn range_at(v: &Vec<(Range<usize>, Op)>, n: usize) -> (r: (Range<usize>, Op)) requires n < v@.len() ensures r == v@[n as int] { unimplemented!() }
#[verifier::external_body]
fn scoped(stack: &Scopes) -> bool { unimplemented!() }
#[verifier::external_body]
fn is_whitespace(s: &str) -> bool { unimplemented!() }
#[verifier::external_body]
fn is_identifier(s: &str) -> (r: bool) ensures r == ident(s@) { unimplemented!() }
#[verifier::external_body]
fn syntect_enabled() -> bool { unimplemented!() }
enum Warning { HighlightLanguageUnknown(Rc<str>), HighlightNotEnabled, InlineHighlightEnumerate, InlineHighlightMultiline }
"""


# what the other units of this property prove, assumed here
BELOW = r"""
impl<'a> LineHighlighter<'a> {
    #[verifier::external_body]
    fn new(src: &'a str) -> (r: LineHighlighter<'a>) ensures r.src == src, wf(r), shown(r) == Seq::<char>::empty(), r.current_token_kind is None, r.paren_count == 0 { unimplemented!() }
    #[verifier::external_body]
    fn push(&mut self, range: Range<usize>, kind: Shade)
        requires wf(*old(self)), ok_range(old(self).src@, range.start as int, range.end as int), next_at(*old(self), range.start as int), kind is ParenLeft ==> paren(sub(old(self).src@, range.start as int, range.end as int)), old(self).paren_count < u32::MAX
        ensures shown(*final(self)) =~= shown(*old(self)) + sub(old(self).src@, range.start as int, range.end as int), next_at(*final(self), range.end as int), final(self).src == old(self).src, wf(*final(self)), final(self).paren_count <= old(self).paren_count + 1, kind !is ParenLeft ==> final(self).paren_count == old(self).paren_count
    { unimplemented!() }
    #[verifier::external_body]
    fn take_line(&mut self) -> (r: HTML)
        requires wf(*old(self))
        ensures content(r) == shown(*old(self)), normal(r), shown(*final(self)) == Seq::<char>::empty(), final(self).current_token_kind is None, final(self).src == old(self).src, wf(*final(self)), final(self).paren_count == old(self).paren_count, final(self).paren_stack == old(self).paren_stack
    { unimplemented!() }
}
#[verifier::external_body]
fn syntax_highlight_papyri(src: &str) -> (r: Vec<HTML>) requires blen(src@) < u32::MAX ensures joined(r@) =~= trim_end(src@), all_normal(r@) { unimplemented!() }
#[verifier::external_body]
fn fix_indentation(s: &str) -> (r: String) ensures r@ =~= fixed(s@), ink(r@) == ink(s@) { unimplemented!() }
#[verifier::external_body]
fn get_source_language_hint<'a>(src: &'a str, default: &'a str) -> (r: (&'a str, &'a str)) ensures (r.0@, r.1@) == hinted(src@, default@) { unimplemented!() }
struct Compiler { n: u64 }
#[derive(Clone, Copy)]
struct SourceRange { start: u32, end: u32 }
impl Compiler {
    #[verifier::external_body]
    fn report(&mut self, w: Warning, at: SourceRange) { unimplemented!() }
}
#[verifier::external_body]
fn default_language<'a>(l: &'a Option<RcStr>, d: &'a str) -> (r: &'a str) ensures r@ == (match l { Some(s) => s@, None => d@ }) { unimplemented!() }
#[verifier::external_body]
fn class_of(language: &str) -> (r: Option<Rc<str>>) ensures r is Some { unimplemented!() }
/// The language and the code.
spec fn code_of(language: Option<RcStr>, is_block: bool, src: Seq<char>) -> (Seq<char>, Seq<char>) { let d = match language { Some(s) => s@, None => "none"@ }; if is_block { hinted(src, d) } else { (d, src) } }
/// The content shows this code: with numbered lines, or all of it.
spec fn shows(h: HTML, code: (Seq<char>, Seq<char>), is_block: bool, first: int, lines: Seq<HTML>) -> bool {
    formatted(code.0, fixed(code.1), lines) && if is_block { content(h) == pre(lines) && exists|out: Seq<HTML>| #[trigger] numbered(out, lines, first) && h == sequence_of(out) } else { content(h) == contents(lines) && h == sequence_of(lines) }
}
/// Code is smaller than 4 GiB.
spec fn small(s: Seq<char>) -> bool { blen(s) < u32::MAX }
"""


def listing():
    u = Unit('listing')
    tags(u)
    u.default_subs += [('TokenKind', 'Shade'), ('LineHighlighter :: ', 'LineHighlighter::'), ('errors :: Warning', 'Warning'), ('text :: $i:f', '$f')]
    u.item(HL, 'enum', 'TokenKind', subs=[('TokenKind', 'Shade')], attrs='#[derive(Clone, Copy, PartialEq, Eq, Structural)]')
    u.text('use core::ops::Range;')
    u.item(HL, 'struct', 'LineHighlighter', subs=[('TokenKind', 'Shade')])
    u.text(SHOWN + LINES + INDENT + LISTING + BELOW)
    NEWLINE = """proof { reveal_strlit("\\\\n"); }"""
    f = u.fn(HL, 'enumerate_lines')
    f.sub('for ( $i:i , $i:line ) in lines . into_iter ( ) . enumerate ( ) {', 'let ghost all = lines@; let numbers = enumerated(lines); let ghost ns = numbers@; for pair in numbers { let ($i, $line) = pair;', 0)
    f.sub('( $x ) . to_string ( )', 'integer_text($x)', 0).sub('i128 :: from ( start )', '(start as i128)', 0).sub('tag . into ( )', 'Tag::into_html(tag)', 0).sub('HTML :: from_iter', 'from_iter', 0)
    f.requires('all_normal(lines@)').ensures('exists|out: Seq<HTML>| #[trigger] numbered(out, lines@, start as int) && r == sequence_of(out)', 'content(r) == pre(lines@)', 'normal(r)')
    f.loop(0, it='it', invariant=['it.seq() == ns', 'enumerates(ns, all)', 'all_normal(all)', 'numbered(out@, all.take(it.index@ as int), start as int)'])
    f.loop_start(0, 'let ghost n = it.index@ as int; let ghost o = out@; proof { assert(ns[n].0 == n && ns[n].1 == all[n]); }')
    f.loop_end(0, "proof { let h = out@[out@.len() - 2]; assert(out@ =~= o.push(h).push(HTML::RawNewline)); lemma_numbered_push(o, all, n, start as int, h); }")
    f.start('proof { lemma_numbered_none(lines@, start as int); }')
    f.before('from_iter ( out )', 'proof { assert(all.take(all.len() as int) =~= all); lemma_numbered(out@, all, start as int); }')
    f = u.fn(HL, 'no_highlighting')
    f.sub('src . lines ( ) . map ( HTML :: text ) . collect ( )', '{ let lines = str_lines(src); let ghost ls = lines_of(src@); proof { reveal(texts); lemma_done_none(ls); } let mut out: Vec<HTML> = Vec::new(); for line in lines { out.push(HTML::text(line)); } proof { lemma_done_all(out@, ls); } out }', 0)
    f.ensures('lines_are(r@, lines_of(src@))', 'all_normal(r@)')
    f.loop(0, it='it', invariant=['it.seq() == lines@', 'lines@.len() == ls.len()', 'texts(lines@, ls)', 'done(out@, ls, it.index@ as int)'])
    f.loop_start(0, 'let ghost out0 = out@; proof { lemma_text(lines@, ls, it.index@ as int); }')
    f.loop_end(0, 'proof { lemma_done(out0, ls, it.index@ as int, out@.last()); assert(out@ =~= out0.push(out@.last())); }')
    f = u.fn(HL, 'token_kind', impl='^mod syntect_highlighting$')
    f.sub('& [ Scope ]', '&Scopes', 1).sub('CACHE . $i:f . does_match ( stack ) . is_some ( )', 'scoped(stack)', 0)
    f.ensures('r is ParenLeft ==> paren(s@)')
    f = u.fn(HL, 'highlight', impl='^mod syntect_highlighting$')
    f.sub('CACHE . syntax_set . find_syntax_by_token ( language ) ?', 'match find_syntax(language) { Some(s) => s, None => return None }', 0)
    f.sub('for $i:line in src . lines ( ) {', 'let lines = str_lines(src); let ghost ls = lines_of(src@); for $line in lines {', 0)
    f.sub('& CACHE . syntax_set', '', 0)
    f.sub('parse_line ( line , )', 'parse_line(line)', 0)
    f.sub('for ( $i:range , $i:op ) in ScopeRangeIterator :: new ( $a ) {', 'let ranges = scope_ranges($a); let ghost rs = ranges@; proof { lemma_cover_ends(line@, rs); } let mut range_no: usize = 0; while range_no < ranges.len() { let ($range, $op) = range_at(&ranges, range_no); range_no += 1;', 0)
    f.sub('stack . apply ( op ) . unwrap ( )', 'stack.apply_op(op)', 0).sub('stack . as_slice ( )', '&stack.as_slice()', 0)
    rng(f)
    f.sub('& line [ $x . clone ( ) ]', 'cut(line, $x.start, $x.end)', 0).sub('& line [ range ]', 'cut(line, range.start, range.end)', 0)
    f.requires('small(src@)').ensures('r matches Some(v) ==> lines_are(v@, lines_of(src@)) && all_normal(v@)')
    f.start('proof { lemma_blens(src@); reveal(texts); lemma_done_none(lines_of(src@)); }')
    T = ['lines@.len() == ls.len()', 'blens(ls) < u32::MAX', 'wf(line_highlighter)']
    f.loop(0, it='it', invariant=[*T, 'it.seq() == lines@', 'texts(lines@, ls)', 'done(out@, ls, it.index@ as int)', 'shown(line_highlighter) == Seq::<char>::empty()', 'line_highlighter.current_token_kind is None', 'line_highlighter.paren_count <= blens(ls.take(it.index@ as int))'])
    f.loop_start(0, 'let ghost n = it.index@ as int; let ghost out0 = out@; proof { lemma_text(lines@, ls, n); lemma_blens_take(ls, n); }')
    f.loop_end(0, 'proof { lemma_done(out0, ls, n, out@.last()); assert(out@ =~= out0.push(out@.last())); }')
    K = 'range_start(rs, range_no as int)'
    f.loop(1, decreases='rs.len() - range_no', invariant=[*T, 'ranges@ == rs', 'range_no <= rs.len()', 'covers(line@, rs)', 'line@ == ls[n]', '0 <= n < ls.len()', 'blens(ls.take(n)) + blen(ls[n]) == blens(ls.take(n + 1)) <= blens(ls)', 'line_highlighter.src@ == line@', f'is_b(line@, {K})', f'line_highlighter.paren_count <= blens(ls.take(n)) + {K}', f'next_at(line_highlighter, {K})', f'shown(line_highlighter) == line@.take(idx(line@, {K}))'])
    f.loop_start(1, 'let ghost shown0 = shown(line_highlighter); proof { lemma_cover(line@, rs, range_no as int); assert(range_start(rs, 0) == 0); }')
    f.before('Some ( out )', 'proof { lemma_done_all(out@, ls); }')
    f = u.fn(HL, 'syntax_highlight')
    f.sub('cfg ! ( $x )', 'syntect_enabled()', 0).sub('syntect_highlighting :: highlight', 'highlight', 0)
    f.sub('$x . map_or_else ( | | $a , | $i:l | $b )', 'match $x { None => $a, Some($l) => $b }', 0)
    f.sub('$i:x . into ( )', 'rc_from($x)', 0)
    f.requires('small(src@)').ensures('formatted(language@, src@, r.0@)', 'language@ == "none"@ || language@ == "papyri"@ ==> r.1 is None')
    f.start('proof { reveal_strlit("none"); reveal_strlit("papyri"); }')
    u.text('impl Compiler {')
    f = u.fn('src/compiler/native.rs', 'native_code_impl', impl="^impl < 'a > Compiler < 'a >$")
    f.sub('use super :: highlight :: { $x } ;', '', 0)
    f.sub('language . as_ref ( ) . map ( $x ) . unwrap_or ( $d )', 'default_language(&language, $d)', 0)
    f.sub('Some ( format ! ( $x ) . into ( ) )', 'class_of(language)', 0).sub('HTML :: from_iter', 'from_iter', 0).sub('language != "none"', '!same_text(language, "none")', 0)
    f.after('let ( lines , warning ) = $x ;', 'let ghost ls = lines@; proof { assert(formatted(language@, src@, ls)); }')
    f.requires('small(fixed(code_of(language, is_block, src@).1))')
    f.ensures('r.name_id == str_ids::CODE')
    f.ensures('exists|lines: Seq<HTML>| #[trigger] shows(r.content, code_of(language, is_block, src@), is_block, first_line_no as int, lines)')
    f.before('tag }', 'proof { assert(shows(tag.content, code_of(l0, is_block, s0), is_block, first_line_no as int, ls)); }')
    f.start('let ghost l0 = language; let ghost s0 = src@;')
    u.text('}')
    return u


UNITS = [highlighter, source, listing]

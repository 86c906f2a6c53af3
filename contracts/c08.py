"""C08: compiled content obeys the content model of its tag."""
from vx import Unit
from contracts.libhtml import H, TAGINFO, types, block_spec, LEAVES, one_of, nid, const_strs, ONE_OF, NEEDS_BLOCK, ALLOWS_BOTH, INLINE_ONLY, VOID
from contracts.c07 import ALL, FIND

S = 'src/compiler/sequence.rs'


def kinds_spec():
    pooled = {v for _, v in const_strs()}
    arms = ''.join(f'    else if id == {nid(n)} {{ k matches ContentKind::RequireOneOf(s) && s@ =~= seq![{", ".join(f"{nid(x)}u32" for x in names.split())}] }}\n' for n, names in ONE_OF.items())
    return f'''
/// What the content of a tag of this name may be.
spec fn agrees(k: ContentKind, id: NameID) -> bool {{
    if {one_of('id', NEEDS_BLOCK)} {{ k == ContentKind::RequireBlock({nid('p')}) }}
    else if {one_of('id', ALLOWS_BOTH)} {{ k == ContentKind::AllowBlock({nid('p')}) }}
{arms}    else if {one_of('id', INLINE_ONLY)} {{ k is RequireInlineNoLineBreaks }}
    else if void_name(id) {{ k is RequireEmpty }}
    else {{ k is RequireInline }}
}}
'''


SPEC = r'''
spec fn white(c: char) -> bool { c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\x0c' }
spec fn leaf_block(l: Leaf) -> bool { match l { Leaf::Tag(t) => block(HTML::Tag(t)), Leaf::Ch(_) => false } }
spec fn all_block(s: Seq<Leaf>) -> bool { forall|i: int| 0 <= i < s.len() ==> leaf_block(#[trigger] s[i]) }
spec fn no_block(s: Seq<Leaf>) -> bool { forall|i: int| 0 <= i < s.len() ==> !leaf_block(#[trigger] s[i]) }
spec fn named(s: Seq<Leaf>, names: Seq<NameID>) -> bool { forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] matches Leaf::Tag(t) && names.contains(t.name_id)) }
/// The content model: which direct children are allowed.
spec fn obeys(k: ContentKind, s: Seq<Leaf>) -> bool {
    match k {
        ContentKind::RequireOneOf(names) => named(s, names@),
        ContentKind::RequireBlock(_) => all_block(s),
        ContentKind::AllowBlock(_) => all_block(s) || no_block(s),
        ContentKind::RequireInline | ContentKind::RequireInlineNoLineBreaks => no_block(s),
        ContentKind::RequireEmpty => s.len() == 0,
    }
}
/// The names of the tags which wrap content, and of the line break for a
/// paragraph break.
spec fn wrapper(id: NameID) -> bool { WRAPPERS }
/// The content, without white space and without the wrapping: the tags which
/// are not wrappers, and the characters, in order.
spec fn kept(s: Seq<Leaf>) -> Seq<Leaf> decreases s, s.len() {
    if s.len() == 0 { Seq::empty() } else { kept(s.drop_last()) + kept1(s.last()) }
}
uninterp spec fn no_attrs() -> AttrMap;
spec fn is_wrapper(t: Rc<Tag>) -> bool { wrapper(t.name_id) && t.attributes == no_attrs() }
spec fn kept1(l: Leaf) -> Seq<Leaf> {
    match l {
        Leaf::Ch(c) => if white(c) { Seq::empty() } else { seq![l] },
        Leaf::Tag(t) => if is_wrapper(t) { kept_html(t.content) } else { seq![l] },
    }
}
/// The same for a value: a tag which may be a wrapper counts as its content.
spec fn kept_html(h: HTML) -> Seq<Leaf> decreases h, (match h { HTML::Sequence(s) => s@.len() + 1, _ => 0 }) {
    match h {
        HTML::Tag(t) => if is_wrapper(t) { kept_html(t.content) } else { seq![Leaf::Tag(t)] },
        HTML::Text(t) => kept_chars(t@),
        HTML::Sequence(s) => kept_upto(h, s@.len() as int),
        _ => Seq::empty(),
    }
}
spec fn kept_upto(h: HTML, k: int) -> Seq<Leaf> decreases h, k {
    match h {
        HTML::Sequence(s) => if k <= 0 || k > s@.len() { Seq::empty() } else { kept_upto(h, k - 1) + kept_html(s@[k - 1]) },
        _ => Seq::empty(),
    }
}
spec fn kept_chars(t: Seq<char>) -> Seq<Leaf> decreases t.len() {
    if t.len() == 0 { Seq::empty() } else { kept_chars(t.drop_last()) + (if white(t.last()) { Seq::empty() } else { seq![Leaf::Ch(t.last())] }) }
}
proof fn lemma_kept_chars(t: Seq<char>)
    ensures kept(chars(t)) =~= kept_chars(t),
    decreases t.len(),
{
    if t.len() > 0 { lemma_kept_chars(t.drop_last()); assert(chars(t).drop_last() =~= chars(t.drop_last())); }
}
proof fn lemma_kept_upto(h: HTML, k: int)
    requires h matches HTML::Sequence(s) && 0 <= k <= s@.len(),
    ensures kept(leaves_upto(h, k)) =~= kept_upto(h, k),
    decreases h, k,
{
    if k > 0 {
        lemma_kept_upto(h, k - 1);
        let s = (h->Sequence_0)@;
        lemma_kept_html(s[k - 1]);
        lemma_kept_add(leaves_upto(h, k - 1), leaves(s[k - 1]));
    }
}
proof fn lemma_kept_html(h: HTML)
    ensures kept(leaves(h)) =~= kept_html(h),
    decreases h, (match h { HTML::Sequence(s) => s@.len() + 1, _ => 0 }),
{
    match h {
        HTML::Sequence(s) => { lemma_kept_upto(h, s@.len() as int); },
        HTML::Text(t) => { lemma_kept_chars(t@); },
        HTML::Whitespace => { lemma_kept_white(chars(seq![' '])); },
        HTML::RawNewline => { lemma_kept_white(chars(seq!['\n'])); },
        HTML::Tag(t) => { lemma_kept_one(Leaf::Tag(t)); },
        HTML::Empty => {},
    }
}
proof fn lemma_kept_one(l: Leaf) ensures kept(seq![l]) =~= kept1(l) {
    assert(seq![l].drop_last() =~= Seq::<Leaf>::empty());
    assert(kept(seq![l]) =~= kept(seq![l].drop_last()) + kept1(l));
}
proof fn lemma_kept_add(a: Seq<Leaf>, b: Seq<Leaf>)
    ensures kept(a + b) =~= kept(a) + kept(b),
    decreases b.len(),
{
    if b.len() > 0 {
        assert((a + b).drop_last() =~= a + b.drop_last());
        lemma_kept_add(a, b.drop_last());
    } else { assert(a + b =~= a); }
}
proof fn lemma_kept_white(s: Seq<Leaf>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i] matches Leaf::Ch(c) && white(c)),
    ensures kept(s) =~= Seq::empty(),
    decreases s.len(),
{
    if s.len() > 0 { assert(s.last() matches Leaf::Ch(c) && white(c)); assert forall|i: int| 0 <= i < s.drop_last().len() implies (#[trigger] s.drop_last()[i] matches Leaf::Ch(c) && white(c)) by { assert(s[i] == s.drop_last()[i]); } lemma_kept_white(s.drop_last()); }
}
/// The items of a value.
spec fn nodes_of(h: HTML) -> Seq<HTML> { match h { HTML::Empty => Seq::empty(), HTML::Sequence(s) => s@, _ => seq![h] } }
proof fn lemma_nodes(h: HTML)
    ensures leaves(h) =~= leaves_of(nodes_of(h)),
{
    match h {
        HTML::Sequence(s) => { lemma_seq(h); },
        HTML::Empty => {},
        _ => { assert(seq![h].drop_last() =~= Seq::<HTML>::empty()); assert(leaves_of(seq![h]) =~= leaves_of(seq![h].drop_last()) + leaves(h)); },
    }
}
proof fn lemma_leaf_at(s: Seq<HTML>, k: int, i: int)
    requires 0 <= k < s.len(), 0 <= i < leaves(s[k]).len(),
    ensures exists|j: int| 0 <= j < leaves_of(s).len() && leaves_of(s)[j] == leaves(s[k])[i],
    decreases s.len(),
{
    let d = s.drop_last();
    if k == s.len() - 1 {
        assert(leaves_of(s)[leaves_of(d).len() + i] == leaves(s[k])[i]);
    } else {
        assert(d[k] == s[k]);
        lemma_leaf_at(d, k, i);
        let j = choose|j: int| 0 <= j < leaves_of(d).len() && leaves_of(d)[j] == leaves(d[k])[i];
        assert(leaves_of(s)[j] == leaves(s[k])[i]);
    }
}
proof fn lemma_item_at(s: Seq<HTML>, j: int) -> (r: (int, int))
    requires 0 <= j < leaves_of(s).len(),
    ensures 0 <= r.0 < s.len(), 0 <= r.1 < leaves(s[r.0]).len(), leaves_of(s)[j] == leaves(s[r.0])[r.1],
    decreases s.len(),
{
    let d = s.drop_last();
    if j < leaves_of(d).len() { let r = lemma_item_at(d, j); assert(d[r.0] == s[r.0]); r } else { (s.len() - 1, j - leaves_of(d).len()) }
}
proof fn lemma_single(h: HTML)
    requires normal(h), h !is Sequence,
    ensures h is Empty == (leaves(h).len() == 0),
        block(h) ==> all_block(leaves(h)), !block(h) ==> no_block(leaves(h)),
        block(h) ==> h is Tag, inline(h) == (!block(h) && h !is Empty),
{}
/// Being block or inline, in terms of the leaves.
proof fn lemma_block(h: HTML)
    requires normal(h),
    ensures
        h is Empty == (leaves(h).len() == 0),
        !block(h) == no_block(leaves(h)),
        (forall|i: int| 0 <= i < nodes_of(h).len() ==> block(#[trigger] nodes_of(h)[i])) == all_block(leaves(h)),
{
    let n = nodes_of(h);
    lemma_nodes(h);
    match h {
        HTML::Sequence(s) => {
            assert forall|i: int| 0 <= i < n.len() implies normal(#[trigger] n[i]) && n[i] !is Sequence && n[i] !is Empty by {}
            assert forall|i: int| 0 <= i < n.len() implies block(#[trigger] n[i]) == leaf_block(leaves(n[i])[0]) && leaves(n[i]).len() > 0 by { lemma_single(n[i]); }
            lemma_single(n[0]); lemma_leaf_at(n, 0, 0);
            if block(h) {
                let i = choose|i: int| 0 <= i < s@.len() && block(#[trigger] s@[i]);
                assert(block(n[i]));
                lemma_leaf_at(n, i, 0);
            } else {
                assert forall|j: int| 0 <= j < leaves(h).len() implies !leaf_block(#[trigger] leaves(h)[j]) by { let r = lemma_item_at(n, j); lemma_single(n[r.0]); assert(!block(s@[r.0])); }
            }
            if forall|i: int| 0 <= i < n.len() ==> block(#[trigger] n[i]) {
                assert forall|j: int| 0 <= j < leaves(h).len() implies leaf_block(#[trigger] leaves(h)[j]) by { let r = lemma_item_at(n, j); lemma_single(n[r.0]); assert(block(n[r.0])); }
            } else {
                let i = choose|i: int| 0 <= i < n.len() && !block(#[trigger] n[i]);
                lemma_leaf_at(n, i, 0);
            }
        },
        HTML::Empty => {},
        _ => { lemma_single(h); assert(n =~= seq![h]); if all_block(leaves(h)) { assert(leaf_block(leaves(h)[0])); assert(block(h)); } if !block(h) { assert(!block(n[0])); } },
    }
}
/// Parts of which each obeys the content model obey it together.
spec fn each_named(s: Seq<HTML>, names: Seq<NameID>) -> bool { forall|i: int| 0 <= i < s.len() ==> named(leaves(#[trigger] s[i]), names) }
proof fn lemma_each(s: Seq<HTML>, k: ContentKind)
    requires
        k matches ContentKind::RequireOneOf(names) ==> forall|i: int| 0 <= i < s.len() ==> named(leaves(#[trigger] s[i]), names@),
        (k is RequireBlock || k is AllowBlock) ==> forall|i: int| 0 <= i < s.len() ==> all_block(leaves(#[trigger] s[i])),
        (k is RequireInline || k is RequireInlineNoLineBreaks) ==> forall|i: int| 0 <= i < s.len() ==> no_block(leaves(#[trigger] s[i])),
    ensures
        k !is RequireEmpty ==> obeys(k, leaves_of(s)), k is AllowBlock ==> all_block(leaves_of(s)),
{
    assert forall|j: int| 0 <= j < leaves_of(s).len() implies true
        && (k matches ContentKind::RequireOneOf(names) ==> (#[trigger] leaves_of(s)[j] matches Leaf::Tag(t) && names@.contains(t.name_id)))
        && ((k is RequireBlock || k is AllowBlock) ==> leaf_block(leaves_of(s)[j]))
        && ((k is RequireInline || k is RequireInlineNoLineBreaks) ==> !leaf_block(leaves_of(s)[j])) by {
        let r = lemma_item_at(s, j);
        let l = leaves(s[r.0])[r.1];
    }
}

/// What is known about a builder at any time.
spec fn wf_kind(k: ContentKind) -> bool {
    match k {
        ContentKind::RequireOneOf(s) => s@.len() > 0 && (forall|i: int| 0 <= i < s@.len() ==> wrapper(#[trigger] s@[i])),
        ContentKind::RequireBlock(n) | ContentKind::AllowBlock(n) => n == P_ID,
        _ => true,
    }
}
spec fn wrap_name(k: ContentKind) -> NameID { match k { ContentKind::RequireOneOf(s) => s@[0], ContentKind::RequireBlock(n) | ContentKind::AllowBlock(n) => n, _ => P_ID } }
spec fn inline_kind(k: ContentKind) -> bool { k is RequireInline || k is RequireInlineNoLineBreaks }
spec fn fits(k: ContentKind, s: Seq<Leaf>) -> bool {
    match k {
        ContentKind::RequireOneOf(names) => named(s, names@),
        ContentKind::RequireBlock(_) | ContentKind::AllowBlock(_) => all_block(s),
        ContentKind::RequireInline | ContentKind::RequireInlineNoLineBreaks => no_block(s),
        ContentKind::RequireEmpty => true,
    }
}
spec fn wf(b: SequenceBuilder) -> bool decreases b {
    wf_kind(b.content_kind) && b.require_inline == inline_kind(b.content_kind)
        && all_normal(b.children@)
        && (forall|i: int| 0 <= i < b.children@.len() ==> fits(b.content_kind, leaves(#[trigger] b.children@[i])))
        && (match b.next_child { Some(c) => wf(*c) && agrees(c.content_kind, wrap_name(b.content_kind)) && !inline_kind(b.content_kind) && b.content_kind !is RequireEmpty, None => true })
}
/// What a builder has received so far, without white space and wrapping.
spec fn received(b: SequenceBuilder) -> Seq<Leaf> decreases b {
    kept(leaves_of(b.children@)) + (match b.next_child { Some(c) => received(*c), None => Seq::empty() })
}
struct PapyriError { e: u64 }
type PapyriResult<T = ()> = Result<T, PapyriError>;
struct Compiler { c: u64 }
#[verifier::external_body]
fn error() -> PapyriError { unimplemented!() }
/// Derived: a structural copy.
#[verifier::external_body]
fn clone_html(h: &HTML) -> (r: HTML) ensures r == *h { unimplemented!() }
#[verifier::external_body]
fn default_attrs() -> (r: AttrMap) ensures r == no_attrs() { unimplemented!() }
#[verifier::external_body]
fn take_child(c: &mut Option<Box<SequenceBuilder>>) -> (r: Option<Box<SequenceBuilder>>) ensures r == *old(c), *final(c) is None { std::mem::take(c) }
#[verifier::external_body]
fn contains(s: &[NameID], x: &NameID) -> (r: bool) ensures r == s@.contains(*x) { s.contains(x) }
#[verifier::external_body]
fn one_item(h: &HTML) -> (r: &[HTML]) ensures r@ == seq![*h] { std::slice::from_ref(h) }
#[verifier::external_body]
fn no_items<'a>() -> (r: &'a [HTML]) ensures r@.len() == 0 { &[] }
#[verifier::external_body]
fn rc_slice(s: &Rc<[HTML]>) -> (r: &[HTML]) ensures r@ == s@ { s.as_ref() }
/// text::is_whitespace
#[verifier::external_body]
fn text_is_whitespace(s: &Rc<str>) -> (r: bool) ensures r == forall|i: int| 0 <= i < s@.len() ==> white(#[trigger] s@[i]) { unimplemented!() }
#[verifier::external_body]
fn then_some<T>(b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None }) { b.then_some(t) }
#[verifier::external_body]
fn ice<T>() -> T requires false { unimplemented!() }
proof fn lemma_kept_text(t: Seq<char>)
    requires forall|i: int| 0 <= i < t.len() ==> white(#[trigger] t[i]),
    ensures kept(chars(t)) =~= Seq::empty(),
{ lemma_kept_white(chars(t)); }
'''

ONE = r'''
/// FromIterator<HTML> for HTML: proved in C06.
#[verifier::external_body]
fn html_from_iter(v: Vec<HTML>) -> (r: HTML) requires all_normal(v@) ensures normal(r), leaves(r) == leaves_of(v@) { unimplemented!() }
'''


def html_fns(u):
    """The functions on HTML which the builder uses."""
    u.text('impl HTML {')
    I = '^impl HTML$'
    f = u.fn(H, 'is_empty', impl=I)
    f.ensures('r == (*self is Empty)')
    f = u.fn(H, 'is_block', impl=I)
    f.ensures('r == block(*self)').decreases('*self, 1int')
    f = u.fn(H, 'block_kind', impl=I)
    f.sub('taginfo :: is_block', 'is_block', 0).sub('is_block ( $x ) . then_some ( $y )', 'then_some(is_block($x), $y)', 0)
    f.sub('$i:x . iter ( ) . find_map ( $f )', FIND, 1)
    f.ensures('r is Some == block(*self)').decreases('*self, 0int')
    f.loop(0, it='it', invariant=['*self matches HTML::Sequence(q) && it.seq() =~= q@.map_values(|h: HTML| &h)', 'found is None ==> forall|i: int| 0 <= i < it.index@ ==> !block(#[trigger] (self->Sequence_0)@[i])', 'found is Some ==> block(*self)'], ensures=['found is Some == block(*self)'])
    f = u.fn(H, 'is_whitespace', impl=I)
    f.sub('text :: is_whitespace ( $x )', 'text_is_whitespace($x)', 0)
    f.ensures('r ==> kept(leaves(*self)) =~= Seq::empty()')
    f.start('proof { lemma_kept_white(chars(seq![\' \'])); lemma_kept_white(chars(seq![\'\\n\'])); match self { HTML::Text(t) => { if forall|i: int| 0 <= i < t@.len() ==> white(#[trigger] t@[i]) { lemma_kept_text(t@); } }, _ => {} } }')
    f = u.fn(H, 'is_all', impl=I)
    f.sub('allowed_tag_names . contains ( $x )', 'contains(allowed_tag_names, $x)', 0)
    f.sub('$i:x . iter ( ) . all ( | $i:c | $b )', '{ let mut all = true; for $c in $x.iter() { if !($b) { all = false; break; } } all }', 1)
    f.requires('normal(*self)').ensures('r == named(leaves(*self), allowed_tag_names@)').decreases('*self')
    f.start('proof { lemma_nodes(*self); if *self is Sequence { lemma_named_parts((self->Sequence_0)@, allowed_tag_names@); assert forall|i: int| 0 <= i < (self->Sequence_0)@.len() implies normal(#[trigger] (self->Sequence_0)@[i]) by {} } match self { HTML::Tag(t) => { assert(leaves(*self)[0] == Leaf::Tag(*t)); }, HTML::Sequence(_) => {}, HTML::Empty => {}, HTML::Text(t) => { assert(leaves(*self)[0] == Leaf::Ch(t@[0])); }, HTML::Whitespace => { assert(leaves(*self)[0] == Leaf::Ch(\' \')); }, HTML::RawNewline => { assert(leaves(*self)[0] == Leaf::Ch(\'\\n\')); } } }')
    f.loop(0, it='it', invariant=['normal(*self)', '*self matches HTML::Sequence(q) && it.seq() =~= q@.map_values(|h: HTML| &h)', 'leaves(*self) =~= leaves_of((self->Sequence_0)@)', '(forall|i: int| 0 <= i < (self->Sequence_0)@.len() ==> named(leaves(#[trigger] (self->Sequence_0)@[i]), allowed_tag_names@)) == named(leaves(*self), allowed_tag_names@)', 'all ==> forall|i: int| 0 <= i < it.index@ ==> named(leaves(#[trigger] (self->Sequence_0)@[i]), allowed_tag_names@)', '!all ==> !named(leaves(*self), allowed_tag_names@)'], ensures=['all == named(leaves(*self), allowed_tag_names@)'])
    f.loop_start(0, 'proof { let i = it.index@ as int; assert(normal((self->Sequence_0)@[i])); }')
    f = u.fn(H, 'nodes', impl=I)
    f.sub('std :: slice :: from_ref ( $x )', 'one_item($x)', 0).sub('& [ ]', 'no_items()', 0).sub('seq . as_ref ( )', 'rc_slice(seq)', 0)
    f.ensures('r@ =~= nodes_of(*self)')
    f = u.fn(H, 'tag', impl=I)
    f.sub('Tag :: new ( $x ) . into ( )', 'from_tag(Tag::new($x))', 0)
    f.ensures('r matches HTML::Tag(t) && t.name_id == name_id && t.content == content && t.attributes == no_attrs()')
    f = u.fn(H, 'in_tag', impl=I)
    f.ensures('r matches HTML::Tag(t) && t.name_id == name_id && t.content == self && t.attributes == no_attrs()')
    u.text('} impl Tag {')
    T = 'src/compiler/tag.rs'
    f = u.fn(T, 'new', impl='^impl Tag$')
    f.sub('AttrMap :: default ( )', 'default_attrs()', 0)
    f.ensures('r.name_id == name_id', 'r.content == content', 'r.attributes == no_attrs()')
    f = u.fn(T, 'new_with_attrs', impl='^impl Tag$')
    f.ensures('r.name_id == name_id', 'r.content == content', 'r.attributes == attributes')
    u.text('}')
    f = u.fn(T, 'from', impl='^impl From < Tag > for HTML$')
    f.emit_name = 'from_tag'
    f.ensures('r matches HTML::Tag(t) && *t == tag')
    f = u.fn(TAGINFO, 'is_block')
    f.ensures('r == block_name(name_id)')
    f = u.fn(TAGINFO, 'is_self_closing')
    f.ensures('r == void_name(name_id)')


NAMED = r'''
proof fn lemma_named_parts(s: Seq<HTML>, names: Seq<NameID>)
    ensures (forall|i: int| 0 <= i < s.len() ==> named(leaves(#[trigger] s[i]), names)) == named(leaves_of(s), names),
{
    if named(leaves_of(s), names) {
        assert forall|i: int| 0 <= i < s.len() implies named(leaves(#[trigger] s[i]), names) by {
            assert forall|j: int| 0 <= j < leaves(s[i]).len() implies (#[trigger] leaves(s[i])[j] matches Leaf::Tag(t) && names.contains(t.name_id)) by {
                lemma_leaf_at(s, i, j);
            }
        }
    }
    if forall|i: int| 0 <= i < s.len() ==> named(leaves(#[trigger] s[i]), names) {
        assert forall|j: int| 0 <= j < leaves_of(s).len() implies (#[trigger] leaves_of(s)[j] matches Leaf::Tag(t) && names.contains(t.name_id)) by {
            let r = lemma_item_at(s, j);
            assert(named(leaves(s[r.0]), names));
        }
    }
}
'''


def sequences():
    u = Unit('sequences')
    u.default_subs = [('errors :: PapyriResult', 'PapyriResult')]
    types(u)
    u.item(TAGINFO, 'enum', 'ContentKind', attrs='#[derive(Clone, Copy)]')
    u.item(S, 'struct', 'SequenceBuilder')
    wrappers = sorted({n for names in ONE_OF.values() for n in names.split()} | {'p', 'br'})
    u.text(block_spec() + LEAVES + kinds_spec() + SPEC.replace('WRAPPERS', one_of('id', wrappers)).replace('P_ID', str(nid('p'))) + ONE + NAMED)
    html_fns(u)
    u.text('impl ContentKind {')
    import re
    from vx import File
    for c in ('REQUIRE_P', 'ALLOW_P'):
        m = re.search(r'const ' + c + r': ContentKind = ([^;]*);', File.get(TAGINFO).text)
        u.text(f'    const {c}: ContentKind = {m.group(1) if m else "UNKNOWN"};')
    f = u.fn(TAGINFO, 'for_', impl='^impl ContentKind$')
    f.ensures('agrees(r, name_id)', 'wf_kind(r)')
    f = u.fn(S, 'wrap_with', impl='^impl ContentKind$')
    f.requires('wf_kind(self)').ensures('r == wrap_name(self)')
    u.text('} impl SequenceBuilder {')
    I = '^impl SequenceBuilder$'
    f = u.fn(S, 'new', impl=I)
    f.requires('wf_kind(content_kind)').ensures('wf(r)', 'r.content_kind == content_kind', 'received(r) =~= Seq::empty()', 'r.next_child is None', 'r.children@.len() == 0')

    f = u.fn(S, 'close_child', impl=I)
    f.sub('std :: mem :: take ( & mut self . next_child )', 'take_child(&mut self.next_child)', 1)
    f.requires('wf(*old(self))').ensures(
        'wf(*final(self))', 'final(self).content_kind == old(self).content_kind', 'final(self).next_child is None',
        'r is Ok ==> received(*final(self)) =~= received(*old(self))', 'old(self).next_child is None ==> *final(self) == *old(self) && r is Ok',
        '(old(self).content_kind is AllowBlock || old(self).content_kind is RequireBlock) ==> r is Ok')
    f.decreases('*old(self), 0int')
    f.before('self . children . push ( $x ) ;', 'let ghost kids = self.children@; proof { lemma_block(html); }')
    f.after('self . children . push ( $x ) ;', 'proof { let h = self.children@.last(); assert(self.children@ =~= kids.push(h)); lemma_push_leaves(kids, h); lemma_kept_add(leaves_of(kids), leaves(h)); lemma_wrapped(h); }')

    f = u.fn(S, 'into_html', impl=I)
    f.sub('( mut self )', '(self)', 1).start('let mut self_ = self;').sub('self .', 'self_ .', 0)
    f.sub('Err ( errors :: TypeError :: $i:v . into ( ) )', 'Err(error())', 0)
    f.sub('self_ . next_child . map_or ( Ok ( $x ) , | $i:c | $y )', '(match self_.next_child { None => Ok($x), Some($c) => $y })', 0)
    f.sub('HTML :: from_iter ( $x )', 'html_from_iter($x)', 1)
    f.requires('wf(self)').ensures(
        'r matches Ok(h) ==> normal(h) && obeys(self.content_kind, leaves(h)) && kept(leaves(h)) =~= received(self)',
        'self.content_kind !is RequireEmpty && self.content_kind !is RequireOneOf ==> r is Ok',
        'self.children@.len() == 0 && self.next_child is None ==> r is Ok')
    f.decreases('self, 1int')
    f.loop(0, invariant=['wf(self_)', 'self_.content_kind == self.content_kind', 'self_.next_child is None', 'received(self_) =~= received(self)', 'self.children@.len() == 0 && self.next_child is None ==> self_.children@.len() == 0'], decreases='self_.children@.len()')
    f.before('self_ . children . pop ( )', 'let ghost kids = self_.children@; proof { lemma_push_leaves(kids.drop_last(), kids.last()); assert(kids.drop_last().push(kids.last()) =~= kids); lemma_kept_add(leaves_of(kids.drop_last()), leaves(kids.last())); }')
    f.before('let html = $x ;', 'proof { lemma_each(self_.children@, self_.content_kind); }')
    f.after('let html = $x ;', 'proof { lemma_block(html); }')

    f = u.fn(S, 'newline', impl=I)
    f.sub('Err ( errors :: TypeError :: $i:v . into ( ) )', 'Err(error())', 0)
    f.requires('wf(*old(self))').ensures('wf(*final(self))', 'final(self).content_kind == old(self).content_kind', 'r is Ok ==> received(*final(self)) =~= received(*old(self))')
    f.before('self . children . push ( $x ) ;', 'let ghost kids = self.children@;')
    f.after('self . children . push ( $x ) ;', 'proof { let h = self.children@.last(); assert(self.children@ =~= kids.push(h)); lemma_push_leaves(kids, h); lemma_kept_add(leaves_of(kids), leaves(h)); assert(normal(HTML::Empty)); lemma_wrapped(h); lemma_block(h); }')

    f = u.fn(S, 'push', impl=I)
    f.sub('$x . iter ( ) . all ( $f )', '{ let mut all = true; for node in $x.iter() { if !$f(node) { all = false; break; } } all }', 1) if False else None
    f.sub('child . nodes ( ) . iter ( ) . all ( HTML :: is_block )', 'all_nodes_block(&child)', 1)
    f.sub('for $i:a in $x . iter ( ) . cloned ( ) {', 'for a_ref in $x.iter() { let $a = clone_html(a_ref);', 1)
    f.sub('let child_name = $a ; let parent_name = $b ; let e = match $c ; return Err ( e . into ( ) ) ;', 'return Err(error());', 1)
    f.sub('self . next_child . get_or_insert_with ( | | $b ) . push ( $c )', '''({
                if self.next_child.is_none() { self.next_child = Some($b); }
                match take_child(&mut self.next_child) { Some(mut next) => { let result = next.push($c); self.next_child = Some(next); result }, None => ice() }
            })''', 1)
    f.requires('wf(*old(self))', 'normal(child)').ensures(
        'wf(*final(self))', 'final(self).content_kind == old(self).content_kind',
        'r is Ok ==> received(*final(self)) =~= received(*old(self)) + kept(leaves(child))',
        'old(self).content_kind is AllowBlock || old(self).content_kind is RequireBlock || (inline_kind(old(self).content_kind) && !block(child)) ==> r is Ok')
    f.attr('#[verifier::exec_allows_no_decreases_clause]')
    f.start('let ghost whole = child; let ghost first = received(*self); proof { lemma_block(child); lemma_nodes(child); lemma_push_leaves(self.children@, child); lemma_kept_add(leaves_of(self.children@), leaves(child)); }')
    f.loop(0, it='it', invariant=['wf(*self)', 'self.content_kind == old(self).content_kind', '!inline_kind(self.content_kind)', 'normal(child)', 'leaves(child) =~= leaves_of(nodes_of(child))', 'child == whole', 'it.seq() =~= nodes_of(child).map_values(|h: HTML| &h)', 'block(child)',
        'nodes_of(child).take(nodes_of(child).len() as int) =~= nodes_of(child)', 'received(*self) =~= first + kept(leaves_of(nodes_of(child).take(it.index@ as int)))'])
    f.loop_start(0, 'proof { let n = nodes_of(child); let i = it.index@ as int; assert(n.take(i + 1) =~= n.take(i).push(n[i])); lemma_push_leaves(n.take(i), n[i]); lemma_kept_add(leaves_of(n.take(i)), leaves(n[i])); assert(normal(n[i])); }')
    f.before('self . children . push ( child ) ;', 'let ghost kids = self.children@; proof { lemma_push_leaves(kids, child); lemma_kept_add(leaves_of(kids), leaves(child)); }')
    f.after('self . children . push ( child ) ;', 'proof { assert(self.children@ =~= kids.push(child)); }')
    u.text(r'''}
/// `h.nodes().iter().all(HTML::is_block)`
fn all_nodes_block(h: &HTML) -> (r: bool)
    requires normal(*h),
    ensures r == all_block(leaves(*h)),
{
    proof { lemma_block(*h); }
    let s = h.nodes();
    let mut all = true;
    for x in it: s.iter()
        invariant it.seq() =~= s@.map_values(|h: HTML| &h), s@ =~= nodes_of(*h), all ==> forall|i: int| 0 <= i < it.index@ ==> block(#[trigger] s@[i]), !all ==> exists|i: int| 0 <= i < s@.len() && !block(#[trigger] s@[i]),
        ensures all == (forall|i: int| 0 <= i < s@.len() ==> block(#[trigger] s@[i])),
    { if !HTML::is_block(x) { all = false; break; } }
    proof { assert(s@ =~= nodes_of(*h)); }
    all
}
proof fn lemma_push_leaves(s: Seq<HTML>, h: HTML)
    ensures leaves_of(s.push(h)) =~= leaves_of(s) + leaves(h),
{ assert(s.push(h).drop_last() =~= s); }
spec fn content_of(h: HTML) -> HTML { match h { HTML::Tag(t) => t.content, _ => h } }
proof fn lemma_wrapped(h: HTML)
    requires h matches HTML::Tag(t) && is_wrapper(t),
    ensures kept(leaves(h)) =~= kept(leaves((h->Tag_0).content)),
{
    lemma_kept_one(leaves(h)[0]); lemma_kept_html(content_of(h)); assert(leaves(h) =~= seq![leaves(h)[0]]);
}
''')
    A = 'src/parser/ast.rs'
    u.text('#[derive(Clone, Copy)] struct SourceRange { r: u64 }\n' + ''.join(f'struct {n} {{ x: u64 }}\n' for n in ('Export', 'Expr', 'FuncDef', 'Value', 'Func')) + 'enum Type { Html, Other }')
    u.item(A, 'enum', 'AST')
    u.text(r'''
impl AST {
    #[verifier::external_body]
    fn range(&self) -> SourceRange { unimplemented!() }
}
#[verifier::external_body]
fn range_of(s: &[AST]) -> (r: SourceRange) requires s@.len() > 0 { unimplemented!() }
impl Value {
    /// Values which are HTML are in normal form (C06).
    #[verifier::external_body]
    fn html(self) -> (r: HTML) ensures normal(r) { unimplemented!() }
}
/// HTML::text: proved in C06.
#[verifier::external_body]
fn html_text(s: &Rc<str>) -> (r: HTML) ensures normal(r), leaves(r) == chars(s@) { unimplemented!() }
#[verifier::external_body]
fn html_char(c: &char) -> (r: HTML) ensures normal(r), leaves(r) == chars(seq![*c]) { unimplemented!() }
impl Compiler {
    #[verifier::external_body]
    fn compile_export(&mut self, e: &Export) -> PapyriResult { unimplemented!() }
    #[verifier::external_body]
    fn evaluate_node(&mut self, e: &Expr, t: &Type) -> PapyriResult<Value> { unimplemented!() }
    #[verifier::external_body]
    fn define_func(&mut self, d: &FuncDef) { unimplemented!() }
    #[verifier::external_body]
    fn compile_code_fence(&mut self, r: SourceRange, m: bool) -> (x: PapyriResult<HTML>) ensures x matches Ok(h) ==> normal(h) { unimplemented!() }
    #[verifier::external_body]
    fn report(&mut self, e: PapyriError, r: SourceRange) { unimplemented!() }
''')
    I = r"^impl < 'a > Compiler < 'a >$"
    f = u.fn(S, 'compile_node', impl=I)
    f.sub('v . expect_convert ( )', 'v.html()', 0)
    f.sub('let f = self . compile_func_def ( def ) . into ( ) ; self . set_var ( $x ) ;', 'self.define_func(def);', 0)
    f.sub('text . clone ( ) . into ( )', 'html_text(text)', 0).sub('c . to_string ( ) . into ( )', 'html_char(c)', 0)
    f.sub('& AST :: CodeFence ( range , is_multiline )', 'AST::CodeFence(range, is_multiline)', 0).sub('self . compile_code_fence ( range , is_multiline )', 'self.compile_code_fence(*range, *is_multiline)', 0)
    f.requires('wf(*old(builder))').ensures('wf(*final(builder))', 'final(builder).content_kind == old(builder).content_kind',
        'node matches AST::Text(t, _) ==> (r is Ok ==> received(*final(builder)) =~= received(*old(builder)) + kept(chars(t@)))',
        'node matches AST::Char(c, _) ==> (r is Ok ==> received(*final(builder)) =~= received(*old(builder)) + kept(chars(seq![*c])))')
    f = u.fn(S, '_compile_sequence', impl=I)
    f.sub('let range = sequence [ 0 ] . range ( ) . to_end ( $x ) ;', 'let range = range_of(sequence);', 1)
    f.sub('builder . into_html ( ) . unwrap_or_else ( | e | $b )', '(match builder.into_html() { Ok(h) => h, Err(e) => $b })', 1)
    f.requires('wf_kind(content_kind)').ensures('normal(r)', 'obeys(content_kind, leaves(r))')
    f.loop(0, it='it', invariant=['wf(builder)', 'builder.content_kind == content_kind', 'sequence@.len() == 0 ==> builder.children@.len() == 0 && builder.next_child is None', 'it.seq().len() == sequence@.len()'])
    f = u.fn(S, 'compile_sequence_in_tag', impl=I)
    f.ensures('normal(r)', 'exists|k: ContentKind| agrees(k, tag_name) && #[trigger] obeys(k, leaves(r))')
    f.sub('self . _compile_sequence ( $x , ContentKind :: for_ ( $y ) , $z )', '{ let kind = ContentKind::for_($y); self._compile_sequence($x, kind, $z) }', 0)
    f = u.fn(S, 'compile_sequence', impl=I)
    f.requires('wf_kind(content_kind)').ensures('normal(r)', 'obeys(content_kind, leaves(r))')
    f = u.fn(S, 'compile_list_item', impl=I)
    f.sub('content . nodes ( ) . iter ( ) . all ( HTML :: is_block )', 'all_nodes_block(&content)', 0)
    f.sub('builder . push ( $x ) . and_then ( | _ | builder . into_html ( ) ) . unwrap_or_else ( | e | $y ) . in_tag ( $z )', '(match (match builder.push($x) { Ok(_) => builder.into_html(), Err(e) => Err(e) }) { Ok(h) => h, Err(e) => ice() }).in_tag($z)', 1)
    f.requires('normal(content)').ensures('r matches HTML::Tag(t) && t.name_id == %d && obeys(ContentKind::AllowBlock(%d), leaves(t.content)) && kept(leaves(t.content)) =~= kept(leaves(content)) && normal(t.content)' % (nid('li'), nid('p')))
    f.start('proof { lemma_block(content); }')
    u.text('}')
    return u

UNITS = [sequences]

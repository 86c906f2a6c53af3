"""HTML values: the extracted types, the pooled names, and the specification of
block and inline content. `NameID` is the number in the newtype of that name."""
from vx import File, AnchorLost, match_close, flat

H = 'src/compiler/html.rs'
TAGINFO = 'src/utils/taginfo.rs'
STRS = 'src/utils/const_strs.rs'

# https://developer.mozilla.org/en-US/docs/Web/HTML/Block-level_elements, and
# the names which the doc comment of taginfo::is_block adds
BLOCK = '!DOCTYPE address article aside base blockquote body dd details div dl dt fieldset figcaption figure footer form h1 h2 h3 h4 h5 h6 head header hgroup hr html iframe li link main menu meta nav ol p pre script section style table template title ul'.split()
VOID = '!DOCTYPE area base br col command embed hr img input keygen link menuitem meta param source track wbr'.split()
NEEDS_BLOCK = 'article aside blockquote footer header main nav section'.split()
ALLOWS_BOTH = '<anonymous> a address body details div fieldset figcaption figure form li'.split()
ONE_OF = {
    'dl': 'dd dt', 'hgroup': 'p h1 h2 h3 h4 h5 h6', 'html': 'body head', 'head': 'base link meta noscript script style template title',
    'menu': 'li', 'ol': 'li', 'ul': 'li', 'table': 'tr tbody tfoot thead caption colgroup', 'tbody': 'tr', 'tfoot': 'tr', 'thead': 'tr', 'tr': 'td th',
}
INLINE_ONLY = 'p h1 h2 h3 h4 h5 h6'.split()


def const_strs():
    """The pooled names, in order: (identifier, string)."""
    t = File.get(STRS).toks
    for i in range(len(t) - 3):
        if t[i].s == 'const_strs' and t[i + 1].s == '!' and t[i + 2].s == '(':
            e = match_close(t, i + 2)
            out, j = [], i + 3
            while j < e:
                if not (t[j].k == 'id' and t[j + 1].s == '=' and t[j + 2].k == 'str' and t[j + 3].s == ','):
                    raise AnchorLost('const_strs: unexpected form')
                out.append((t[j].s, t[j + 2].s[1:-1]))
                j += 4
            return out
    raise AnchorLost('const_strs not found')


def nid(s):
    for k, (_, v) in enumerate(const_strs()):
        if v == s:
            return k
    raise AnchorLost(f'the name {s} is not pooled')


def str_ids():
    return 'type NameID = u32;\nmod str_ids {\n' + ''.join(f'    pub const {n}: u32 = {k};\n' for k, (n, _) in enumerate(const_strs())) + '}\n'


def one_of(var, names):
    """Membership in a list of names, by their strings."""
    pooled = {v for _, v in const_strs()}
    return '(' + ' || '.join(f'{var} == {nid(n)}' for n in names if n in pooled) + ')'


def types(u, tag=True):
    u.text('use std::rc::Rc;\ntype RcStr = Rc<str>;\n' + str_ids())
    u.item(H, 'enum', 'HTML')
    if tag:
        u.text('#[verifier::external_body]\nstruct AttrMap { m: u64 }')
        u.item('src/compiler/tag.rs', 'struct', 'Tag')


def block_spec():
    return f'''
/// The names of block-level elements.
spec fn block_name(id: NameID) -> bool {{ {one_of('id', BLOCK)} }}
spec fn void_name(id: NameID) -> bool {{ {one_of('id', VOID)} }}
/// A sequence is block when some item is, a link when its content is, any
/// other tag when its name is.
spec fn block(h: HTML) -> bool decreases h {{
    match h {{
        HTML::Tag(t) => if t.name_id == {nid('a')} {{ block(t.content) }} else {{ block_name(t.name_id) }},
        HTML::Sequence(s) => exists|i: int| 0 <= i < s@.len() && block(#[trigger] s@[i]),
        _ => false,
    }}
}}
spec fn inline(h: HTML) -> bool decreases h {{
    match h {{
        HTML::Empty => false,
        HTML::Tag(t) => !block(h),
        HTML::Sequence(s) => forall|i: int| 0 <= i < s@.len() ==> inline(#[trigger] s@[i]),
        _ => true,
    }}
}}
/// No sequence contains an empty item (part of the normal form, C06).
spec fn no_empty(h: HTML) -> bool decreases h {{
    match h {{
        HTML::Tag(t) => no_empty(t.content),
        HTML::Sequence(s) => forall|i: int| 0 <= i < s@.len() ==> (#[trigger] s@[i]) !is Empty && no_empty(s@[i]),
        _ => true,
    }}
}}
proof fn lemma_exactly_one(h: HTML)
    requires no_empty(h),
    ensures h is Empty ==> !block(h) && !inline(h), h !is Empty ==> inline(h) == !block(h),
    decreases h,
{{
    match h {{
        HTML::Sequence(s) => {{ assert forall|i: int| 0 <= i < s@.len() implies inline(#[trigger] s@[i]) == !block(s@[i]) by {{ lemma_exactly_one(s@[i]); }} }},
        _ => {{}},
    }}
}}
'''

TEXTY = 'spec fn texty(h: HTML) -> bool { h is Text || h is Whitespace || h is RawNewline }\n'
# of values which have libvalue's world
LEAVES_VALUE = r'''
/// The content of an HTML value, without its structure: its tags and the
/// characters of its text, in order.
enum Leaf { Tag(Rc<Tag>), Ch(char) }
spec fn chars(t: Seq<char>) -> Seq<Leaf> { t.map_values(|c: char| Leaf::Ch(c)) }
spec fn leaves(h: HTML) -> Seq<Leaf> decreases h, (match h { HTML::Sequence(s) => s@.len() + 1, _ => 0 }) {
    match h {
        HTML::Empty => Seq::empty(),
        HTML::Tag(t) => seq![Leaf::Tag(t)],
        HTML::Text(t) => chars(t@),
        HTML::Whitespace => chars(seq![' ']),
        HTML::RawNewline => chars(seq!['\n']),
        HTML::Sequence(s) => leaves_upto(h, s@.len() as int),
    }
}
/// The content of the first k items of a sequence.
spec fn leaves_upto(h: HTML, k: int) -> Seq<Leaf> decreases h, k {
    match h {
        HTML::Sequence(s) => if k <= 0 || k > s@.len() { Seq::empty() } else { leaves_upto(h, k - 1) + leaves(s@[k - 1]) },
        _ => Seq::empty(),
    }
}
spec fn leaves_of(s: Seq<HTML>) -> Seq<Leaf> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else { leaves_of(s.drop_last()) + leaves(s.last()) }
}
proof fn lemma_upto(h: HTML, k: int)
    requires h matches HTML::Sequence(s) && 0 <= k <= s@.len(),
    ensures leaves_upto(h, k) =~= leaves_of((h->Sequence_0)@.take(k)),
    decreases k,
{
    let s = (h->Sequence_0)@;
    if k > 0 {
        lemma_upto(h, k - 1);
        assert(s.take(k).drop_last() =~= s.take(k - 1));
    } else { assert(s.take(0) =~= Seq::<HTML>::empty()); }
}
proof fn lemma_seq(h: HTML)
    requires h is Sequence,
    ensures leaves(h) =~= leaves_of((h->Sequence_0)@),
{
    lemma_upto(h, (h->Sequence_0)@.len() as int);
    assert((h->Sequence_0)@.take((h->Sequence_0)@.len() as int) =~= (h->Sequence_0)@);
}
/// The normal form.
spec fn normal(h: HTML) -> bool decreases h {
    match h {
        HTML::Text(t) => t@.len() > 0 && t@ != seq![' '] && t@ != seq!['\n'],
        HTML::Tag(t) => normal(t.content),
        HTML::Sequence(s) => s@.len() >= 2 && (forall|i: int| 0 <= i < s@.len() ==> normal(#[trigger] s@[i])) && items(s@),
        _ => true,
    }
}
/// No item is empty or a sequence, and no two adjacent ones are text.
spec fn items(s: Seq<HTML>) -> bool {
    (forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) !is Empty && s[i] !is Sequence)
        && (forall|i: int| 0 <= i < s.len() - 1 ==> !(texty(#[trigger] s[i]) && texty(s[i + 1])))
}
spec fn all_normal(s: Seq<HTML>) -> bool { forall|i: int| 0 <= i < s.len() ==> normal(#[trigger] s[i]) }
proof fn lemma_push(s: Seq<HTML>, h: HTML)
    ensures leaves_of(s.push(h)) =~= leaves_of(s) + leaves(h),
{ assert(s.push(h).drop_last() =~= s); }
'''

LEAVES = TEXTY + LEAVES_VALUE

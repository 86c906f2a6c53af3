"""C06: HTML values are in normal form, and combining keeps tags and text."""
from vx import Unit
from contracts.libhtml import H, types, LEAVES
from contracts.libstr import STR_EQ

SPEC = LEAVES + r'''
/// What is known about a builder at any time.
spec fn wf(b: HTMLSeqBuilder) -> bool {
    all_normal(b.children@) && items(b.children@)
        && all_normal(b.current_text_node@) && (forall|i: int| 0 <= i < b.current_text_node@.len() ==> texty(#[trigger] b.current_text_node@[i]))
        && (b.children@.len() > 0 ==> !texty(b.children@.last()))
}
/// The content which a builder has received so far.
spec fn received(b: HTMLSeqBuilder) -> Seq<Leaf> { leaves_of(b.children@) + leaves_of(b.current_text_node@) }
proof fn lemma_texts(s: Seq<HTML>)
    requires all_normal(s), forall|i: int| 0 <= i < s.len() ==> texty(#[trigger] s[i]),
    ensures leaves_of(s).len() >= s.len(),
    decreases s.len(),
{
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies texty(#[trigger] s.drop_last()[i]) && normal(s.drop_last()[i]) by { assert(s[i] == s.drop_last()[i]); }
        lemma_texts(s.drop_last());
        assert(texty(s.last()) && normal(s.last()));
    }
}
proof fn lemma_chars(a: Seq<char>, b: Seq<char>) ensures chars(a + b) =~= chars(a) + chars(b) {}

#[verifier::external_body]
fn rc_from(s: String) -> (r: Rc<str>) ensures r@ == s@ { Rc::from(s) }
#[verifier::external_body]
fn add_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { *s += t; }
/// Derived: a structural copy.
#[verifier::external_body]
fn clone_html(h: &HTML) -> (r: HTML) ensures r == *h { unimplemented!() }
#[verifier::external_body]
fn take_vec<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@.len() == 0 { std::mem::take(v) }
#[verifier::external_body]
fn rc_seq(v: Vec<HTML>) -> (r: Rc<[HTML]>) ensures r@ == v@ { Rc::from(v) }
#[verifier::external_body]
fn ice<T>() -> T requires false { unimplemented!() }
#[verifier::external_body]
fn empty_string() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
'''


def builder():
    u = Unit('builder')
    types(u)
    u.item(H, 'struct', 'HTMLSeqBuilder')
    u.text(STR_EQ + SPEC + 'impl HTML {')
    f = u.fn(H, 'text', impl='^impl HTML$')
    f.sub('< T : AsRef < str > + Into < RcStr > > ( s : T )', '(s: String)', 1).sub('s . as_ref ( )', 's.as_str()', 0).sub('s . into ( )', 'rc_from(s)', 0)
    f.ensures('normal(r)', 'r !is Sequence', 'r !is Tag', 'leaves(r) =~= chars(s@)', 'r is Empty == (s@.len() == 0)')
    f.start('proof { reveal_strlit(""); reveal_strlit(" "); reveal_strlit("\\n"); assert(" "@ =~= seq![\' \']); assert("\\n"@ =~= seq![\'\\n\']); assert(""@ =~= Seq::empty()); assert(s@.len() == 0 ==> s@ =~= ""@); assert(""@.len() == 0); }')
    f = u.fn(H, 'from_iter', impl='^impl FromIterator < HTML > for HTML$')
    f.sub('< T : IntoIterator < Item = HTML > > ( iter : T )', '(iter: Vec<HTML>)', 1)
    f.requires('all_normal(iter@)').ensures('normal(r)', 'leaves(r) =~= leaves_of(iter@)')
    f.start('let ghost all = iter@; proof { assert(all.take(all.len() as int) =~= all); }')
    f.loop(0, it='it', invariant=['it.seq() == all', 'all_normal(all)', 'wf(builder)', 'received(builder) =~= leaves_of(all.take(it.index@ as int))', 'all.take(all.len() as int) =~= all'])
    f.loop_start(0, 'proof { assert(all.take(it.index@ + 1).drop_last() =~= all.take(it.index@ as int)); }')
    u.text('} impl HTMLSeqBuilder {')
    I = '^impl HTMLSeqBuilder$'
    f = u.fn(H, 'new', impl=I)
    f.ensures('wf(r)', 'received(r) =~= Seq::empty()')
    f = u.fn(H, 'push', impl=I)
    f.sub('for $i:a in $i:b . iter ( ) . cloned ( ) {', 'for a_ref in $b.iter() { let $a = clone_html(a_ref);', 0)
    f.requires('wf(*old(self))', 'normal(child)').ensures('wf(*final(self))', 'received(*final(self)) =~= received(*old(self)) + leaves(child)').decreases('child')
    f.start('proof { if child is Sequence { lemma_seq(child); } lemma_push(old(self).children@, child); lemma_push(old(self).current_text_node@, child); } let ghost first = received(*self);')
    f.loop(0, it='it', invariant=['wf(*self)', 'child matches HTML::Sequence(q) && q == grandchildren && it.seq() =~= q@.map_values(|h: HTML| &h)', 'normal(child)', 'leaves(child) =~= leaves_of(grandchildren@)', 'grandchildren@.take(grandchildren@.len() as int) =~= grandchildren@', 'received(*self) =~= first + leaves_of(grandchildren@.take(it.index@ as int))'])
    f.loop_start(0, 'proof { assert(grandchildren@.take(it.index@ + 1).drop_last() =~= grandchildren@.take(it.index@ as int)); assert(grandchildren@.take(grandchildren@.len() as int) =~= grandchildren@); assert(decreases_to!(child => grandchildren@[it.index@ as int])); }')
    f.before('self . close_text_node ( ) ;', 'let ghost before = *self;')
    f.after('self . close_text_node ( ) ;', 'proof { lemma_push(self.children@, child); }')
    f = u.fn(H, 'close_text_node', impl=I)
    f.sub('std :: mem :: take ( & mut $x )', 'take_vec(&mut $x)', 1).sub('$i:s += t . as_ref ( )', 'add_str(&mut $s, t.as_ref())', 0).sub('t . as_ref ( )', '&t', 0)
    f.sub('$i:s += " "', 'add_str(&mut $s, " ")', 0).sub('$i:s += "\\n"', 'add_str(&mut $s, "\\n")', 0).sub('"" . to_string ( )', 'empty_string()', 0)
    f.sub('$i:s . into ( )', 'HTML::text($s)', 0).sub('errors :: ice ( $x )', 'ice()', 0)
    f.requires('wf(*old(self))').ensures('all_normal(final(self).children@)', 'items(final(self).children@)', 'final(self).current_text_node@.len() == 0', 'received(*final(self)) =~= received(*old(self))')
    f.start('let ghost texts = self.current_text_node@; let ghost kids = self.children@; proof { lemma_texts(texts); reveal_strlit(""); reveal_strlit(" "); reveal_strlit("\\n"); assert(" "@ =~= seq![\' \']); assert("\\n"@ =~= seq![\'\\n\']); assert(texts.take(texts.len() as int) =~= texts); }')
    f.loop(0, it='it', invariant=['it.seq() == texts', 'all_normal(texts)', 'forall|i: int| 0 <= i < texts.len() ==> texty(#[trigger] texts[i])', 'chars(s@) =~= leaves_of(texts.take(it.index@ as int))', 'self.children@ == kids', 'self.current_text_node@.len() == 0', '" "@ =~= seq![\' \']', '"\\n"@ =~= seq![\'\\n\']', 'texts.take(texts.len() as int) =~= texts'])
    f.loop_start(0, 'proof { assert(texts.take(it.index@ + 1).drop_last() =~= texts.take(it.index@ as int)); assert(texty(texts[it.index@ as int])); let x = s@; lemma_chars(x, " "@); lemma_chars(x, "\\n"@); if texts[it.index@ as int] is Text { lemma_chars(x, (texts[it.index@ as int]->Text_0)@); } }')
    f.after('self . children . push ( $x ) ;', 'proof { let h = self.children@.last(); assert(self.children@ =~= kids.push(h)); lemma_push(kids, h); assert(leaves_of(texts) =~= leaves(h)); assert(leaves(h).len() >= 2 ==> h is Text); }')
    f.after('self . children . push ( node ) ;', 'proof { let h = texts[0]; assert(self.children@ =~= kids.push(h)); lemma_push(kids, h); lemma_push(Seq::empty(), h); assert(texts =~= Seq::empty().push(h)); }', nth=0)
    f = u.fn(H, 'build', impl=I)
    f.sub('Rc :: from ( $x )', 'rc_seq($x)', 0)
    f.sub('( mut self )', '(self)', 1).start('let mut self_ = self;').sub('self .', 'self_ .', 0)
    f.sub('$x . pop ( ) . unwrap_or ( $y )', '(match $x.pop() { Some(only) => only, None => $y })', 0)
    f.requires('wf(self)').ensures('normal(r)', 'leaves(r) =~= received(self)', '!texty(r) ==> true')
    f.after('self_ . close_text_node ( ) ;', 'proof { let k = self_.children@; assert forall|q: HTML| q is Sequence && (q->Sequence_0)@ == k implies #[trigger] leaves(q) =~= leaves_of(k) by { lemma_seq(q); } if k.len() == 1 { lemma_push(Seq::empty(), k[0]); assert(k =~= Seq::empty().push(k[0])); } }')
    f.end('')
    u.text('}')
    return u

UNITS = [builder]

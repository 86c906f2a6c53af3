"""C07: HTML is exactly one of empty, block and inline."""
from vx import Unit
from contracts.libhtml import H, TAGINFO, types, block_spec

FIND = '{ let mut found = None; for node in $x.iter() { let k = $f(node); if k.is_some() { found = k; break; } } found }'
ALL = '{ let mut all = true; for node in $x.iter() { if !$f(node) { all = false; break; } } all }'


def kinds():
    u = Unit('kinds')
    types(u)
    u.text(block_spec() + 'mod taginfo { use super::*; pub use super::is_block; }\n'.replace('pub use super::is_block;', '') + r'''
#[verifier::external_body]
fn then_some<T>(b: bool, t: T) -> (r: Option<T>) ensures r == (if b { Some(t) } else { None }) { b.then_some(t) }
''')
    f = u.fn(TAGINFO, 'is_block')
    f.ensures('r == block_name(name_id)')
    f = u.fn(TAGINFO, 'is_self_closing')
    f.ensures('r == void_name(name_id)')
    u.text('impl HTML {')
    I = '^impl HTML$'
    f = u.fn(H, 'is_empty', impl=I)
    f.ensures('r == (*self is Empty)')
    f = u.fn(H, 'is_block', impl=I)
    f.ensures('r == block(*self)').decreases('*self, 1int')
    f = u.fn(H, 'block_kind', impl=I)
    f.sub('taginfo :: is_block', 'is_block', 0).sub('is_block ( $x ) . then_some ( $y )', 'then_some(is_block($x), $y)', 0)
    f.sub('$i:x . iter ( ) . find_map ( $f )', FIND, 1)
    f.ensures('r is Some == block(*self)', 'r matches Some(k) ==> block_name(k)').decreases('*self, 0int')
    f.loop(0, it='it', invariant=['*self matches HTML::Sequence(q) && it.seq() =~= q@.map_values(|h: HTML| &h)', 'found is None ==> forall|i: int| 0 <= i < it.index@ ==> !block(#[trigger] (self->Sequence_0)@[i])', 'found is Some ==> block(*self)', 'found matches Some(k) ==> block_name(k)'], ensures=['found is Some == block(*self)', 'found matches Some(k) ==> block_name(k)'])
    f = u.fn(H, 'is_inline', impl=I)
    f.sub('$i:x . iter ( ) . all ( $f )', ALL, 1)
    f.ensures('r == inline(*self)', 'no_empty(*self) ==> r == (!(*self is Empty) && !block(*self))').decreases('*self, 2int')
    f.start('proof { if no_empty(*self) { lemma_exactly_one(*self); } }')
    f.loop(0, it='it', invariant=['*self matches HTML::Sequence(q) && it.seq() =~= q@.map_values(|h: HTML| &h)', 'all ==> forall|i: int| 0 <= i < it.index@ ==> inline(#[trigger] (self->Sequence_0)@[i])', '!all ==> !inline(*self)'], ensures=['all == inline(*self)'])
    u.text('}')
    return u

UNITS = [kinds]

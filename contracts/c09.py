"""C09: rendering writes exactly what the HTML value is."""
from vx import Unit
from contracts.libhtml import H, TAGINFO, types, block_spec, nid
from contracts.libstr import STR_EQ
from contracts.libwrite import WRITER, expand_write

REN = 'src/compiler/render.rs'
TEXT = 'src/utils/text.rs'

ESCAPED = r'''
/// The special characters, and what is written for them.
spec fn special(c: char, quotes: bool) -> bool { c == '<' || c == '>' || c == '&' || quotes && (c == '\'' || c == '"') }
spec fn entity_of(c: char) -> Seq<char> {
    if c == '<' { seq!['&', 'l', 't', ';'] } else if c == '>' { seq!['&', 'g', 't', ';'] } else if c == '&' { seq!['&', 'a', 'm', 'p', ';'] } else if c == '\'' { seq!['&', 'a', 'p', 'o', 's', ';'] } else { seq!['&', 'q', 'u', 'o', 't', ';'] }
}
spec fn esc(c: char, quotes: bool) -> Seq<char> { if special(c, quotes) { entity_of(c) } else { seq![c] } }
spec fn escaped(s: Seq<char>, quotes: bool) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { esc(s[0], quotes) + escaped(s.skip(1), quotes) } }
/// What a reader of HTML reads: entities denote characters.
spec fn starts(t: Seq<char>, e: Seq<char>) -> bool { e.len() <= t.len() && t.take(e.len() as int) == e }
spec fn decode(t: Seq<char>) -> Seq<char> decreases t.len() {
    if t.len() == 0 { Seq::empty() }
    else if starts(t, entity_of('<')) { seq!['<'] + decode(t.skip(4)) }
    else if starts(t, entity_of('>')) { seq!['>'] + decode(t.skip(4)) }
    else if starts(t, entity_of('&')) { seq!['&'] + decode(t.skip(5)) }
    else if starts(t, entity_of('\'')) { seq!['\''] + decode(t.skip(6)) }
    else if starts(t, entity_of('"')) { seq!['"'] + decode(t.skip(6)) }
    else { seq![t[0]] + decode(t.skip(1)) }
}
/// Every `&` is that of an entity.
spec fn no_raw_amp(t: Seq<char>) -> bool decreases t.len() {
    if t.len() == 0 { true }
    else if starts(t, entity_of('<')) || starts(t, entity_of('>')) { no_raw_amp(t.skip(4)) }
    else if starts(t, entity_of('&')) { no_raw_amp(t.skip(5)) }
    else if starts(t, entity_of('\'')) || starts(t, entity_of('"')) { no_raw_amp(t.skip(6)) }
    else { t[0] != '&' && no_raw_amp(t.skip(1)) }
}
proof fn lemma_front(c: char, quotes: bool, rest: Seq<char>)
    ensures decode(esc(c, quotes) + rest) == seq![c] + decode(rest), no_raw_amp(rest) ==> no_raw_amp(esc(c, quotes) + rest),
{
    let e = esc(c, quotes);
    let t = e + rest;
    assert(t[0] == e[0]);
    assert(t.take(e.len() as int) =~= e);
    assert(t.skip(e.len() as int) =~= rest);
    assert forall|x: char| #[trigger] starts(t, entity_of(x)) implies t[0] == '&' && t[1] == entity_of(x)[1] && t[2] == entity_of(x)[2] by { assert(entity_of(x) == t.take(entity_of(x).len() as int)); }
    if special(c, quotes) { assert(t[1] == e[1] && t[2] == e[2]); assert(starts(t, entity_of(c))); } else { assert(t.skip(1) =~= rest); }
}
/// Decoding an escaped text gives the text, and it has no raw special character.
proof fn lemma_escaped(s: Seq<char>, quotes: bool)
    ensures decode(escaped(s, quotes)) == s, no_raw_amp(escaped(s, quotes)), forall|i: int| 0 <= i < escaped(s, quotes).len() ==> (#[trigger] escaped(s, quotes)[i]) == '&' || !special(escaped(s, quotes)[i], quotes),
    decreases s.len(),
{
    if s.len() > 0 {
        let rest = escaped(s.skip(1), quotes);
        lemma_escaped(s.skip(1), quotes);
        lemma_front(s[0], quotes, rest);
        assert(s =~= seq![s[0]] + s.skip(1));
        let e = esc(s[0], quotes);
        assert forall|i: int| 0 <= i < (e + rest).len() implies (#[trigger] (e + rest)[i]) == '&' || !special((e + rest)[i], quotes) by { if i >= e.len() { assert((e + rest)[i] == rest[i - e.len()]); } }
    } else { assert(s =~= Seq::<char>::empty()); }
}
enum EntitySet { Empty, All, NoASCII, Html, SpecialChars, SpecialCharsAndNoASCII }
enum EncodeType { Ignore, Named, Hex, NamedOrHex, Decimal, NamedOrDecimal, HexOrDecimal }
uninterp spec fn encoded(s: Seq<char>, set: EntitySet, ty: EncodeType) -> Seq<char>;
/// entity::encode(..).into_iter().collect(): special characters by name.
#[verifier::external_body]
fn entity_encode(s: &str, set: EntitySet, ty: EncodeType) -> (r: String)
    ensures r@ == (if ty is Named || ty is NamedOrHex || ty is NamedOrDecimal { if set is Html { escaped(s@, false) } else if set is SpecialChars { escaped(s@, true) } else { encoded(s@, set, ty) } } else { encoded(s@, set, ty) })
{ unimplemented!() }
'''

SPEC = r'''
type Name = u32;
/// The string of a name.
uninterp spec fn name_text(id: NameID) -> Seq<char>;
struct StringPool { x: u64 }
impl StringPool {
    #[verifier::external_body]
    fn get(&self, id: NameID) -> (r: &str) ensures r@ == name_text(id) { unimplemented!() }
}
/// The attributes in order, with their values.
uninterp spec fn attrs(m: AttrMap) -> Seq<(NameID, Option<Rc<str>>)>;
#[verifier::external_body]
fn attr_items(m: &AttrMap) -> (r: Vec<(&NameID, &Option<Rc<str>>)>) ensures r@.len() == attrs(*m).len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]).0 == attrs(*m)[i].0 && *r@[i].1 == attrs(*m)[i].1 { unimplemented!() }
#[verifier::external_body]
fn replace_first(s: &str, a: char, b: &str, n: usize) -> (r: String) { s.replacen(a, b, n) }
#[verifier::external_body]
fn replace_char(s: &str, a: char, b: &str) -> (r: String) ensures b@.len() == 1 ==> r@ == s@.map_values(|c: char| if c == a { b@[0] } else { c }) { s.replace(a, b) }
spec fn attr_name(id: NameID) -> Seq<char> { name_text(id).map_values(|c: char| if c == '_' { '-' } else { c }) }
/// An attribute: its name, with its value in quotes if it has one.
spec fn attr_text(a: (NameID, Option<Rc<str>>)) -> Seq<char> {
    seq![' '] + attr_name(a.0) + match a.1 { None => Seq::empty(), Some(v) => seq!['=', '"'] + escaped(v@, true) + seq!['"'] }
}
spec fn attrs_text(s: Seq<(NameID, Option<Rc<str>>)>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { attrs_text(s.drop_last()) + attr_text(s.last()) } }
spec fn open_text(id: NameID, m: AttrMap) -> Seq<char> { seq!['<'] + name_text(id) + attrs_text(attrs(m)) + seq!['>'] }
spec fn close_text(id: NameID) -> Seq<char> { if void_name(id) { if id == DOCTYPE_ID { seq!['\n'] } else { Seq::empty() } } else { seq!['<', '/'] + name_text(id) + seq!['>'] } }
/// What plain text has after the content of a tag.
spec fn plain_end(id: NameID) -> Seq<char> { if id == P_ID { seq!['\n', '\n'] } else if id == HR_ID { seq!['\n', '\u{2015}', '\n', '\n'] } else if block_name(id) { seq!['\n'] } else { Seq::empty() } }
/// What is written for a value: as HTML, or as plain text.
spec fn written(h: HTML, as_html: bool) -> Seq<char> decreases h, (match h { HTML::Sequence(s) => s@.len() + 1, _ => 0 }) {
    match h {
        HTML::Empty => Seq::empty(),
        HTML::Whitespace => seq![' '],
        HTML::RawNewline => seq!['\n'],
        HTML::Text(t) => if as_html { escaped(t@, false) } else { t@ },
        HTML::Tag(t) => if as_html { open_text(t.name_id, t.attributes) + written(t.content, true) + close_text(t.name_id) } else { written(t.content, false) + plain_end(t.name_id) },
        HTML::Sequence(s) => written_upto(h, s@.len() as int, as_html),
    }
}
spec fn written_upto(h: HTML, k: int, as_html: bool) -> Seq<char> decreases h, k {
    match h { HTML::Sequence(s) => if k <= 0 || k > s@.len() { Seq::empty() } else { written_upto(h, k - 1, as_html) + written(s@[k - 1], as_html) }, _ => Seq::empty() }
}
'''.replace('DOCTYPE_ID', '{nid("!DOCTYPE")}').replace('P_ID', '{nid("p")}').replace('HR_ID', '{nid("hr")}')
RI = "^impl < 'a , T : io : : Write > Renderer < 'a , T >$"


def renderer():
    u = Unit('renderer')
    types(u)
    import re
    u.text(STR_EQ + block_spec() + ESCAPED + re.sub(r'\{nid\("([^"]*)"\)\}', lambda m: str(nid(m[1])), SPEC) + WRITER)
    for n, s in (('is_block', 'block_name'), ('is_self_closing', 'void_name')):
        u.fn(TAGINFO, n).ensures(f'r == {s}(name_id)')
    f = u.fn(TEXT, 'encode_entities')
    f.sub('entity :: encode ( $x ) . into_iter ( ) . collect ( )', 'entity_encode($x)', 0)
    f.sub('entity :: $i:t :: ', '$t::', 0)
    f.ensures('r@ == escaped(s@, escape_quotes)', 'decode(r@) == s@', 'no_raw_amp(r@)', "forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]) == '&' || !special(r@[i], escape_quotes)")
    f.start('proof { lemma_escaped(s@, escape_quotes); }')
    u.item(REN, 'struct', 'Renderer', subs=[('T : io :: Write', ''), ('& \'a mut T', "&'a mut Writer")])
    u.default_subs = [('text :: $i:f', '$f'), ('taginfo :: $i:f', '$f'), ('io :: Result < ( ) >', 'IoResult')]
    u.text("impl<'a> Renderer<'a> {")
    f = u.fn(REN, 'new', impl=RI).sub('T >', '>', 0).sub("& 'a mut T", "&'a mut Writer", 0).sub("Renderer < 'a , >", "Renderer<'a>", 0)
    f.ensures('r.as_html == as_html', '*r.writer == *old(writer)', '*final(writer) == *final(r.writer)')
    SAME = ['*final(final(self).writer) == *final(old(self).writer)', 'final(self).as_html == old(self).as_html', 'final(self).string_pool == old(self).string_pool']
    f = u.fn(REN, 'render', impl=RI)
    expand_write(f)
    f.ensures('r is Ok ==> final(self).writer.text@ =~= old(self).writer.text@ + written(*html, old(self).as_html)', *SAME).decreases('*html, 1int')
    f.loop(0, it='it', invariant=['*final(self.writer) == *final(old(self).writer)', 'self.as_html == old(self).as_html', 'self.string_pool == old(self).string_pool', '*html matches HTML::Sequence(q) && q == *seq && it.seq() =~= q@.map_values(|h: HTML| &h)', 'self.writer.text@ =~= old(self).writer.text@ + written_upto(*html, it.index@ as int, self.as_html)'])
    f.loop_start(0, 'proof { assert(decreases_to!(*html => seq@[it.index@ as int])); }')
    f = u.fn(REN, 'render_tag', impl=RI)
    expand_write(f)
    f.sub('for ( & k , v ) in $x . iter ( ) {', 'let items = attr_items(&$x); let ghost items_ = items; for (k, v) in items { let k = *k;', 0)
    f.sub('self . string_pool . get ( $x ) . replacen ( $y )', 'replace_first(self.string_pool.get($x), $y)', 0)
    f.sub("self . string_pool . get ( $x ) . replace ( $y )", 'replace_char(self.string_pool.get($x), $y)', 0)
    f.ensures('r is Ok ==> final(self).writer.text@ =~= old(self).writer.text@ + written(HTML::Tag(Rc::new(*tag)), old(self).as_html)', *SAME).decreases('*tag, 0int')
    f.loop(0, it='it', invariant=['*final(self.writer) == *final(old(self).writer)', 'self.as_html == old(self).as_html', 'self.string_pool == old(self).string_pool', 'items_@.len() == attrs(tag.attributes).len()', 'it.seq() == items_@', 'forall|i: int| 0 <= i < items_@.len() ==> *(#[trigger] items_@[i]).0 == attrs(tag.attributes)[i].0 && *items_@[i].1 == attrs(tag.attributes)[i].1', "self.writer.text@ =~= old(self).writer.text@ + seq!['<'] + name_text(tag.name_id) + attrs_text(attrs(tag.attributes).take(it.index@ as int))"])
    f.loop_start(0, 'proof { let a = attrs(tag.attributes); let n = it.index@ as int; assert(a.take(n + 1).drop_last() =~= a.take(n)); assert(a.take(n + 1).last() == a[n]); reveal_strlit("-"); }')
    f.start('proof { let a = attrs(tag.attributes); assert(a.take(0) =~= Seq::empty()); assert(a.take(a.len() as int) =~= a); }')
    # what a Context renders, and the function escape_html
    u.text(r'''} struct Context { string_pool: StringPool }
struct Compiler { ctx: Context }
struct Err { e: u64 }
type PapyriResult<T> = Result<T, Err>;
impl Writer {
    #[verifier::external_body]
    fn new() -> (r: Writer) ensures r.text@.len() == 0 { unimplemented!() }
}
/// Writing to memory does not fail.
#[verifier::external_body]
fn unfailing(r: IoResult) ensures r is Ok { unimplemented!() }
#[verifier::external_body]
fn as_text(w: Writer) -> (r: String) ensures r@ == w.text@ { unimplemented!() }
#[verifier::external_body]
fn rc_of(s: Rc<str>) -> (r: Rc<str>) ensures r@ == s@ { s }
impl Context {''')
    f = u.fn(REN, 'render', impl='^impl Context$').sub('< T : io :: Write >', ' ', 0).sub('& mut T', '&mut Writer', 0)
    f.sub('Renderer :: new ( $x ) . render ( html )', '{ let mut renderer = Renderer::new($x); renderer.render(html) }', 0)
    f.ensures('r is Ok ==> final(writer).text@ =~= old(writer).text@ + written(*html, as_html)')
    u.text('} impl HTML {')
    f = u.fn(H, 'text', impl='^impl HTML$')
    f.sub('< T : AsRef < str > + Into < RcStr > > ( s : T )', '(s: Rc<str>)', 1).sub('s . into ( )', 'rc_of(s)', 0).sub('s . as_ref ( )', '&*s', 0)
    f.ensures('written(r, true) == escaped(s@, false)', 'written(r, false) == s@')
    f.start(r'''proof { reveal_strlit(""); reveal_strlit(" "); reveal_strlit("\\n"); assert(" "@ =~= seq![' ']); assert("\\n"@ =~= seq!['\\n']); assert(""@ =~= Seq::empty()); reveal_with_fuel(escaped, 3); assert(seq![' '].skip(1) =~= Seq::empty()); assert(seq!['\\n'].skip(1) =~= Seq::empty()); assert(escaped(""@, false) =~= Seq::empty()); assert(escaped(" "@, false) =~= seq![' ']); assert(escaped("\\n"@, false) =~= seq!['\\n']); }'''.replace('\\\\n', '\\n'))
    u.text('} impl Compiler {')
    f = u.fn('src/compiler/native.rs', 'escape_html_impl', impl="^impl < 'a > Compiler < 'a >$")
    f.sub('Vec :: new ( )', 'Writer::new()', 0).sub('self . ctx . render ( $x ) . unwrap ( ) ;', 'unfailing(self.ctx.render($x));', 0).sub('String :: from_utf8 ( s ) . unwrap ( )', 'as_text(s)', 0)
    f.ensures('r@ =~= written(h, true)', 'final(self).ctx == old(self).ctx')
    u.text('}')
    f = u.native('STR', 'ESCAPE_HTML', 'STR: content RcStr', 'compiler: &mut Compiler, STR: Rc<str>', 'String').sub('STR . into ( )', 'HTML::text(STR)', 0)
    f.ensures('r matches Ok(s) && s@ == escaped(STR@, false) && decode(s@) == STR@').start('proof { lemma_escaped(STR@, false); }')
    f = u.native('HTML', 'ESCAPE_HTML', 'HTML: content HTML', 'compiler: &mut Compiler, HTML: HTML', 'String')
    f.ensures('r matches Ok(s) && s@ == written(HTML, true)')
    return u


UNITS = [renderer]

"""C05: interned names are in bijection with strings."""
from vx import Unit, File, AnchorLost, flat, lex, match_close
from contracts.libstr import STR_EQ

P = 'src/utils/string_pool.rs'
K = 'src/utils/const_strs.rs'

MACRO = '''macro_rules! const_strs {
    ($($name: ident = $val: expr,)*) => {
        pub(crate) static CONST_STRS: &'static [&'static str] = &[
            $($val,)*
        ];
        pub(crate) mod str_ids {
            #[repr(u32)]
            #[allow(non_camel_case_types, clippy::upper_case_acronyms)]
            enum ConstStr {
                $($name),*
            }
            use super::NameID;
            $(
                #[doc = concat!("The ID of the interned string `\\"", $val, "\\"`.")]
                pub(crate) const $name: NameID = NameID::of(ConstStr::$name as u32);
            )*
        }
    }
}'''


def const_strs():
    """The names and texts of `const_strs!`, whose definition must be the one
    whose expansion is known here."""
    fl = File.get(K)
    i = next(k for k, t in enumerate(fl.toks) if t.s == 'macro_rules')
    e = match_close(fl.toks, i + 3)
    if flat(fl.toks[i:e + 1]) != flat(lex(MACRO)):
        raise AnchorLost(f'{K}: the macro const_strs is not the known one')
    t = fl.toks
    j = next(k for k in range(e + 1, len(t)) if t[k].s == 'const_strs')
    end = match_close(t, j + 2)
    out, j = [], j + 3
    while j < end:
        if not (t[j].k == 'id' and t[j + 1].s == '=' and t[j + 2].k == 'str' and t[j + 3].s == ',') or '\\' in t[j + 2].s:
            raise AnchorLost(f'{K}: entry {flat(t[j:j + 4])}')
        out.append((t[j].s, t[j + 2].s))
        j += 4
    return out


def trie(entries, k=0):
    """An expression for the position of a text among different texts of the
    same length, which looks at one character after the other."""
    if len(entries) == 1 or k == len(entries[0][0]):
        return str(entries[0][1])
    groups = {}
    for e in entries:
        groups.setdefault(e[0][k], []).append(e)
    return ' else '.join(f"if s[{k}] == {char(c)} {{ {trie(g, k + 1)} }}" for c, g in groups.items()) + ' else { -1 }'


def char(c):
    return "'\\''" if c == "'" else f"'{c}'"


SPEC = r'''
use std::rc::Rc;
#[verifier::external_body]
#[derive(Clone, Copy)]
struct NonMaxU32 { v: u32 }
impl NonMaxU32 {
    uninterp spec fn v(&self) -> u32;
    #[verifier::external_body]
    fn new(v: u32) -> (r: Option<NonMaxU32>) ensures v == u32::MAX ==> r is None, v < u32::MAX ==> (r matches Some(x) && x.v() == v) { unimplemented!() }
    #[verifier::external_body]
    fn get(&self) -> (r: u32) ensures r == self.v() { unimplemented!() }
}
/// Derived: equal numbers.
#[verifier::external_body]
proof fn axiom_num(a: NonMaxU32, b: NonMaxU32) ensures (a == b) == (a.v() == b.v()) {}
#[verifier::external_body]
fn name_eq(a: NameID, b: NameID) -> (r: bool) ensures r == (a.0.v() == b.0.v()) { unimplemented!() }
spec fn num(n: NameID) -> int { n.0.v() as int }
/// IndexSet<Rc<str>>: its strings in the order of their first insertion.
#[verifier::external_body]
struct IndexSet { x: u64 }
spec fn distinct(s: Seq<Seq<char>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
#[verifier::external_body]
proof fn axiom_set(s: &IndexSet) ensures distinct(s@) {}
impl IndexSet {
    uninterp spec fn view(&self) -> Seq<Seq<char>>;
    #[verifier::external_body]
    fn get_index_of(&self, s: &str) -> (r: Option<usize>) ensures r matches Some(i) ==> i < self@.len() && self@[i as int] == s@, r is None ==> !self@.contains(s@) { unimplemented!() }
    #[verifier::external_body]
    fn insert_full(&mut self, s: Rc<str>) -> (r: (usize, bool)) ensures
        r.1 == !old(self)@.contains(s@), r.1 ==> final(self)@ == old(self)@.push(s@) && r.0 == old(self)@.len(),
        !r.1 ==> final(self)@ == old(self)@ && r.0 < old(self)@.len() && old(self)@[r.0 as int] == s@ { unimplemented!() }
    #[verifier::external_body]
    fn get_index(&self, i: usize) -> (r: Option<&Rc<str>>) ensures i < self@.len() ==> (r matches Some(s) && (**s)@ == self@[i as int]), i >= self@.len() ==> r is None { unimplemented!() }
    /// FromIterator: for distinct strings.
    #[verifier::external_body]
    fn from_strs(v: &[&'static str]) -> (r: IndexSet) ensures distinct(texts(v@)) ==> r@ == texts(v@) { unimplemented!() }
}
spec fn texts(v: Seq<&'static str>) -> Seq<Seq<char>> { v.map_values(|s: &'static str| s@) }
/// str::to_lowercase
uninterp spec fn lowercase(s: Seq<char>) -> Seq<char>;
#[verifier::external_body]
fn to_lowercase(s: &str) -> (r: Rc<str>) ensures r@ == lowercase(s@) { unimplemented!() }
#[verifier::external_body]
fn rc_as_str<'a>(s: &'a Rc<str>) -> (r: &'a str) ensures r@ == s@ { s }
#[verifier::external_body]
fn clone_rc(s: &Rc<str>) -> (r: Rc<str>) ensures r@ == s@ { s.clone() }
#[verifier::external_body]
fn ice<T>(e: &str) -> (r: T) requires false { unimplemented!() }
/// Whatever is interned between them, two strings get the same identifier
/// exactly when they are equal.
proof fn lemma_bijection(a: Seq<Seq<char>>, b: Seq<Seq<char>>, i: int, j: int)
    requires distinct(b), a.is_prefix_of(b), 0 <= i < a.len(), 0 <= j < b.len(),
    ensures (i == j) == (a[i] == b[j]), b[i] == a[i],
{
    assert(a[i] == b[i]);
    if i < j { assert(b[i] != b[j]); } else if j < i { assert(b[j] != b[i]); }
}
'''


def names():
    u = Unit('names')
    pairs = const_strs()
    vals = [v for _, v in pairs]
    n = len(pairs)
    lit = lambda v: 'seq![' + ', '.join(char(c) for c in v[1:-1]) + ']'
    u.text(SPEC)
    u.item(P, 'struct', 'NameID', attrs='#[derive(Clone, Copy)]')
    u.item(P, 'struct', 'StringPool', subs=[('IndexSet < Rc < str > , fxhash :: FxBuildHasher >', 'IndexSet')])
    # distinct texts: each has its own position
    u.text('''
/// The text of a constant.
spec fn text_of(i: int) -> Seq<char> {
''' + '    ' + ' else '.join(f'if i == {i} {{ {lit(v)} }}' for i, v in enumerate(vals)) + ' else { seq![] }\n}\n')

    by_len = {}
    for i, v in enumerate(vals):
        by_len.setdefault(len(v) - 2, []).append((v[1:-1], i))
    u.text('/// The position of a text among the constants.\nspec fn place(s: Seq<char>) -> int {\n    ' + ' else '.join(f'if s.len() == {k} {{ {trie(g)} }}' for k, g in by_len.items()) + ' else { -1 }\n}\n')
    u.text(f'''
proof fn lemma_place(i: int)
    requires 0 <= i < {n},
    ensures place(text_of(i)) == i,
{{
''' + '\n'.join(f'    if i == {i} {{ assert(place({lit(v)}) == {i}); return; }}' for i, v in enumerate(vals)) + f'''
}}
/// The predefined names are different.
proof fn lemma_const_strs_distinct()
    ensures distinct(Seq::new({n}, |i: int| text_of(i))),
{{
    let s = Seq::new({n}, |i: int| text_of(i));
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies #[trigger] s[i] != #[trigger] s[j] by {{ lemma_place(i); lemma_place(j); }}
}}
/// The literals of CONST_STRS, as text_of gives them.
#[verifier::external_body]
fn const_strs() -> (r: Vec<&'static str>) ensures texts(r@) =~= Seq::new({n}, |i: int| text_of(i)) {{ vec![{', '.join(vals)}] }}
''')
    u.text('impl NameID {')
    f = u.fn(P, 'of', impl='^impl NameID$')
    f.sub('panic ! ( )', 'return ice("")', 0)
    f.requires('id < u32::MAX').ensures('r.0.v() == id')
    f = u.fn(P, 'is_anonymous', impl='^impl NameID$')
    f.sub('self == str_ids :: $i:x', 'name_eq(self, str_ids_$x())', 0)
    f.ensures('r == (num(self) == 0)')
    u.text('}')
    u.text('\n'.join(f'fn str_ids_{a}() -> (r: NameID) ensures num(r) == {i}, text_of(num(r)) == {lit(v)} {{ NameID::of({i}) }}' for i, (a, v) in enumerate(pairs)))
    # the texts which the names of the constants stand for
    u.text('proof fn lemma_names() ensures ' + ', '.join(f'text_of({i}) == {lit(chr(34) + ("<anonymous>" if a == "ANONYMOUS" else "!DOCTYPE" if a == "_DOCTYPE" else a.lower()) + chr(34))}' for i, (a, v) in enumerate(pairs)) + ' {}')
    u.text('impl StringPool {')
    I = '^impl StringPool$'
    f = u.fn(P, 'new', impl=I)
    f.sub('let strings = CONST_STRS . iter ( ) . copied ( ) . map ( Rc :: from ) ;', 'let strings = const_strs();', 1)
    f.sub('IndexSet :: from_iter ( strings )', 'IndexSet::from_strs(strings.as_slice())', 1)
    f.start('proof { lemma_const_strs_distinct(); lemma_names(); }')
    f.before('StringPool ( IndexSet', f'proof {{ assert(texts(strings@) =~= Seq::new({n}, |i: int| text_of(i))); }}', 0)
    f.ensures(f'r.0@ =~= Seq::new({n}, |i: int| text_of(i))', 'distinct(r.0@)')
    f = u.fn(P, 'insert', impl=I)
    f.sub('insert < T > ( & mut self , s : T ) -> NameID where T : Into < Rc < str >> + AsRef < str >', 'insert(&mut self, s: Rc<str>) -> NameID', 0)
    f.sub('insert < T > ( & mut self , s : T ) -> NameID where T : Into < Rc < str > > + AsRef < str >', 'insert(&mut self, s: Rc<str>) -> NameID', 0)
    f.sub('s . as_ref ( )', 'rc_as_str(&s)', 0).sub('s . into ( )', 's', 0)
    f.start('proof { axiom_set(&self.0); if self.0@.contains(s@) { let k = choose|k: int| 0 <= k < self.0@.len() && self.0@[k] == s@; } }')
    f.requires('old(self).0@.len() < u32::MAX')
    INS = lambda t: ['old(self).0@.is_prefix_of(final(self).0@)', f'0 <= num(r) < final(self).0@.len() && final(self).0@[num(r)] == {t}', 'distinct(final(self).0@)',
              f'forall|i: int| 0 <= i < old(self).0@.len() && old(self).0@[i] == {t} ==> num(r) == i',
              f'final(self).0@ =~= (if old(self).0@.contains({t}) {{ old(self).0@ }} else {{ old(self).0@.push({t}) }})']
    f.ensures(*INS('s@'))
    f = u.fn(P, 'insert_lowercase', impl=I)
    f.sub('insert_lowercase < T > ( & mut self , s : T ) -> NameID where T : AsRef < str >', 'insert_lowercase(&mut self, s: &str) -> NameID', 0)
    f.sub('s . as_ref ( ) . to_lowercase ( )', 'to_lowercase(s)', 0)
    f.requires('old(self).0@.len() < u32::MAX').ensures(*INS('lowercase(s@)'))
    f = u.fn(P, 'get_id_if_present', impl=I)
    f.sub('. map ( | $i:x | $y )', '.map(|$x: usize| -> (r: NameID) requires $x < u32::MAX ensures num(r) == $x { $y })', 0)
    f.requires('self.0@.len() <= u32::MAX').ensures('r matches Some(n) ==> 0 <= num(n) < self.0@.len() && self.0@[num(n)] == s@', 'r is None ==> !self.0@.contains(s@)')
    f = u.fn(P, 'get', impl=I)
    f.sub('self . 0 . get_index ( id ) . unwrap_or_else ( || errors :: ice ( $m ) ) . clone ( )', 'clone_rc(match self.0.get_index(id) { Some(found) => found, None => ice("") })', 1)
    f.requires('id.0.v() < self.0@.len()').ensures('r@ == self.0@[id.0.v() as int]')
    u.text('}')
    return u

UNITS = [names]

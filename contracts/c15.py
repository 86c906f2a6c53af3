"""C15: unique IDs are distinct lowercase identifiers."""
from vx import Unit
from contracts.libident import identifiers, TEXT

SPEC = r'''
/// deunicode: some string.
#[verifier::external_body]
fn deunicode(s: &str) -> String { unimplemented!() }
/// IndexSet<Rc<str>>: a set of strings.
struct IdSet { ids: Ghost<Set<Seq<char>>>, x: u64 }
impl IdSet {
    #[verifier::external_body]
    fn insert(&mut self, s: Rc<str>) -> (r: bool) ensures r == !old(self).ids@.contains(s@), final(self).ids@ == old(self).ids@.insert(s@) { unimplemented!() }
    #[verifier::external_body]
    fn contains(&self, s: &str) -> (r: bool) ensures r == self.ids@.contains(s@) { unimplemented!() }
    #[verifier::external_body]
    fn clear(&mut self) ensures final(self).ids@ == Set::<Seq<char>>::empty() { unimplemented!() }
    #[verifier::external_body]
    fn new() -> (r: IdSet) ensures r.ids@ == Set::<Seq<char>>::empty() { unimplemented!() }
}
spec fn numbered(b: Seq<char>, n: nat) -> Seq<char> { b.push('_') + dec(n) }
/// The number at the end of a string.
spec fn number_of(s: Seq<char>) -> nat decreases s.len() {
    if s.len() > 0 && is_num(s.last()) { number_of(s.drop_last()) * 10 + (s.last() as nat - 48) as nat } else { 0 }
}
spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_num(#[trigger] s[i]) }
spec fn nines(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == '9' }
/// The string without the nines at its end.
spec fn trim9(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && s.last() == '9' { trim9(s.drop_last()) } else { s } }
proof fn lemma_dec(n: nat)
    ensures digits(dec(n)), dec(n).len() > 0, n < 10 ==> dec(n).len() == 1,
    decreases n,
{ if n >= 10 { lemma_dec(n / 10); } }
proof fn lemma_number(b: Seq<char>, n: nat)
    ensures number_of(numbered(b, n)) == n,
    decreases n,
{
    let s = numbered(b, n);
    if n < 10 {
        assert(s.drop_last() =~= b.push('_'));
        assert(number_of(b.push('_')) == 0);
        assert(s.last() == digit(n as int));
    } else {
        lemma_number(b, n / 10);
        assert(s.drop_last() =~= numbered(b, n / 10));
        assert(s.last() == digit((n % 10) as int));
    }
}
/// One more digit only after all nines.
proof fn lemma_grow(n: nat)
    ensures dec(n + 1).len() <= dec(n).len() + 1, !nines(dec(n)) ==> dec(n + 1).len() == dec(n).len(),
    decreases n,
{
    if n >= 10 {
        lemma_grow(n / 10);
        if n % 10 == 9 {
            assert((n + 1) / 10 == n / 10 + 1);
            if !nines(dec(n)) {
                let d = dec(n);
                let i = choose|i: int| 0 <= i < d.len() && d[i] != '9';
                assert(d.last() == digit(9));
                assert(d[d.len() - 1] == '9');
                assert(dec(n / 10)[i] == d[i]);
            }
        } else {
            assert((n + 1) / 10 == n / 10);
        }
    } else if n == 9 {
        assert(dec(9) =~= seq!['9']);
        assert(dec(10) =~= dec(1).push('0'));
    }
}
proof fn lemma_trim(b: Seq<char>, d: Seq<char>)
    requires digits(d),
    ensures ({ let t = trim9(b.push('_') + d); (t.len() > 0 && t.last() == '_') == nines(d) }),
    decreases d.len(),
{
    let s = b.push('_') + d;
    if d.len() == 0 {
        assert(s =~= b.push('_'));
    } else {
        assert(s.last() == d.last());
        let e = d.drop_last();
        assert forall|i: int| 0 <= i < e.len() implies is_num(#[trigger] e[i]) by { assert(d[i] == e[i]); }
        lemma_trim(b, e);
        assert(s.drop_last() =~= b.push('_') + e);
        if d.last() == '9' {
            assert(nines(d) == nines(e)) by {
                if nines(e) { assert forall|i: int| 0 <= i < d.len() implies #[trigger] d[i] == '9' by { if i < e.len() { assert(e[i] == d[i]); } } }
                if nines(d) { assert forall|i: int| 0 <= i < e.len() implies #[trigger] e[i] == '9' by { assert(e[i] == d[i]); } }
            }
        } else {
            assert(!nines(d)) by { assert(d[d.len() - 1] != '9'); }
            assert(trim9(s) == s);
        }
    }
}
/// format!("{b}_{n}")
#[verifier::external_body]
fn with_number(b: &str, n: i32) -> (r: String) requires n >= 0, ensures r@ == numbered(b@, n as nat) { format!("{b}_{n}") }
#[verifier::external_body]
fn trim_nines(s: &String) -> (r: &str) ensures r@ == trim9(s@) { s.trim_end_matches('9') }
/// A lowercase identifier.
spec fn good(s: Seq<char>) -> bool { ident(s) && lower(s) }
proof fn lemma_lower(s: Seq<char>)
    requires ident(s),
    ensures good(s.map_values(|c: char| lower_char(c))),
{}
proof fn lemma_ident_ascii(s: Seq<char>)
    requires ident(s) || (forall|i: int| 0 <= i < s.len() ==> cont(#[trigger] s[i])),
    ensures ascii(s), blen(s) == s.len(),
{ lemma_ascii_len(s); }
proof fn lemma_numbered(b: Seq<char>, n: nat)
    requires good(b),
    ensures good(numbered(b, n)), numbered(b, n).len() == b.len() + 1 + dec(n).len(), blen(numbered(b, n)) == numbered(b, n).len(),
{
    lemma_dec(n);
    let s = numbered(b, n);
    assert forall|i: int| 0 <= i < s.len() implies cont(#[trigger] s[i]) && !('A' <= s[i] && s[i] <= 'Z') by {
        if i < b.len() { assert(s[i] == b[i]); } else if i > b.len() { assert(s[i] == dec(n)[i - b.len() - 1]); }
    }
    assert(s[0] == b[0]);
    lemma_ascii_len(s);
}
proof fn lemma_prefix(b: Seq<char>, k: int)
    requires good(b), 1 <= k <= b.len(),
    ensures good(b.take(k)), blen(b.take(k)) == k,
{ lemma_ident_ascii(b.take(k)); }
/// The tried IDs are in use, and there is one for each number so far.
spec fn tried_ok(tried: Set<Seq<char>>, ids: Set<Seq<char>>, n: int) -> bool {
    &&& tried.finite() && tried.subset_of(ids) && tried.len() == n - 2
    &&& forall|t: Seq<char>| #[trigger] tried.contains(t) ==> number_of(t) < n
}
'''


def unique_ids():
    u = Unit('unique_ids')
    identifiers(u)
    u.text(SPEC)
    f = u.fn(TEXT, 'make_identifier')
    f.sub('deunicode :: deunicode ( s )', 'deunicode(s)', 0)
    f.sub('s . chars ( )', 'chars_of(string_str(&s))', 0).sub('"" . to_string ( )', 'empty_string()', 0)
    f.sub('id . push ( $x )', 'push_char(&mut id, $x)', 0).sub('id += $x ;', 'push_str(&mut id, $x);', 0).sub('id . ends_with ( $x )', 'ends_with_char(string_str(&id), $x)', 0).sub('id . len ( )', 'string_len(&id)', 0)
    f.sub('c . is_ascii_alphabetic ( )', 'is_ascii_alphabetic(c)', 0).sub('c . is_ascii_alphanumeric ( )', 'is_ascii_alphanumeric(c)', 0)
    f.sub('for $i:c in s_chars {', 'while let Some($c) = s_chars.next() {', 0)
    f.ensures('ident(r@)', 'max_len >= 1 ==> r@.len() <= max_len')
    f.loop(0, invariant=['ident(id@)', 'max_len >= 1 ==> id@.len() <= max_len'], decreases='s_chars.rest@.len()')
    f.loop_start(0, 'proof { lemma_ident_ascii(id@); reveal_strlit("_"); assert("_"@ =~= seq![\'_\']); }')
    u.text('struct UniqueIDGenerator { ids_used: IdSet }\nimpl UniqueIDGenerator {')
    I = '^impl UniqueIDGenerator$'
    f = u.fn(TEXT, 'new', impl=I)
    f.sub('IndexSet :: default ( )', 'IdSet::new()', 1)
    f.ensures('r.ids_used.ids@ == Set::<Seq<char>>::empty()')
    f = u.fn(TEXT, 'clear', impl=I)
    f.ensures('final(self).ids_used.ids@ == Set::<Seq<char>>::empty()')
    f = u.fn(TEXT, 'get_unique_id', impl=I)
    f.sub('id_base [ .. $a ] . to_string ( )', 'string_of(str_to(id_base, $a))', 0)
    f.sub('id_base . to_string ( )', 'string_of(id_base)', 0)
    f.sub('id . make_ascii_lowercase ( )', 'make_lower(&mut id)', 0)
    f.sub('& id_base [ .. $a ]', 'str_to(id_base, $a)', 0)
    f.sub('let id : Rc < str > = loop {', 'let mut found: Option<Rc<str>> = None; loop {', 1)
    f.sub('break Rc :: from ( id ) ;', 'found = Some(rc_str(id)); break;', 1)
    f.sub('self . ids_used . insert ( id . clone ( ) ) ; id', 'let id: Rc<str> = found.unwrap(); self.ids_used.insert(clone_rc(&id)); id', 1)
    f.sub('Rc :: from ( id )', 'rc_str(id)', 0).sub('id . clone ( )', 'clone_rc(&id)', 0).sub('id . as_ref ( )', 'rc_as_str(&id)', 0)
    f.sub('format ! ( "{id_base}_{counter}" )', 'with_number(id_base, counter)', 1)
    f.sub('id . as_str ( )', 'string_str(&id)', 0).sub("id . trim_end_matches ( '9' ) . ends_with ( '_' )", "ends_with_char(trim_nines(&id), '_')", 0)
    f.sub('id_base . len ( )', 'str_len(id_base)', 0).sub('id . len ( )', 'string_len(&id)', 0)
    f.requires('max_len >= 1', 'old(self).ids_used.ids@.finite()', 'old(self).ids_used.ids@.len() < i32::MAX - 2')
    f.start('''let ghost ids0 = self.ids_used.ids@; let ghost base0 = id_base@;
        proof { if ident(id_base@) { lemma_ident_ascii(id_base@); if id_base@.len() > max_len { lemma_ident_ascii(id_base@.take(max_len as int)); } } }''')
    f.before('make_lower ( & mut id )', 'let ghost mixed = id@; proof { assert(ident(mixed)); lemma_lower(mixed); }')
    f.after('make_lower ( & mut id ) ;', 'proof { assert(good(id@)); lemma_ident_ascii(id@); }')
    f.before('let mut id_base = $x ;', 'let ghost first = id@; proof { assert(ids0.insert(first) =~= ids0); }')
    f.after('let mut id_base = $x ;', 'proof { lemma_prefix(id_base@, if id_base@.len() + 2 > max_len && max_len >= 3 { max_len - 2 } else { id_base@.len() as int }); }')
    f.before('let mut found', 'let ghost mut tried = Set::<Seq<char>>::empty(); proof { lemma_dec(2); lemma_ident_ascii(id_base@); }')
    INV = ['old(self).ids_used.ids@ == ids0', 'ids0.finite()', 'ids0.len() < i32::MAX - 2', 'max_len >= 1', 'counter >= 2', 'good(first)', 'first.len() <= max_len', 'good(id_base@)', 'blen(id_base@) == id_base@.len()',
        'max_len >= 3 && id_base@.len() > 1 ==> id_base@.len() + 1 + dec(counter as nat).len() <= max_len']
    f.loop(0, except_break=['self.ids_used.ids@ == ids0', 'ids0.contains(first)', 'tried_ok(tried, ids0, counter as int)'],
        invariant=INV, ensures=['self.ids_used.ids@ == ids0', 'found matches Some(f) && good(f@) && !ids0.contains(f@) && (max_len >= 3 && f@.len() > max_len ==> f@[1] == \'_\')'], decreases='ids0.len() + 3 - counter')
    f.loop_start(0, 'proof { lemma_numbered(id_base@, counter as nat); lemma_number(id_base@, counter as nat); lemma_grow(counter as nat); lemma_dec(counter as nat); lemma_trim(id_base@, dec(counter as nat)); vstd::set_lib::lemma_len_subset(tried, ids0); }')
    f.before('counter += 1 ;', 'proof { let t = numbered(id_base@, counter as nat); assert(ids0.contains(t)); assert(!tried.contains(t)); tried = tried.insert(t); vstd::set_lib::lemma_len_subset(tried, ids0); lemma_prefix(id_base@, if id_base@.len() > 1 { id_base@.len() - 1 } else { 1 }); }')
    f.ensures('good(r@)', '!old(self).ids_used.ids@.contains(r@)', 'final(self).ids_used.ids@ == old(self).ids_used.ids@.insert(r@)')
    f.ensures('r@.len() <= max_len || (exists|c: Seq<char>| #[trigger] old(self).ids_used.ids@.contains(c) && good(c) && c.len() <= max_len)',
        'max_len >= 3 && r@.len() > max_len ==> r@[1] == \'_\'')
    u.text('''}
global size_of usize == 8;
struct Context { unique_ids: UniqueIDGenerator }
struct Compiler { ctx: Context }
type RcStr = Rc<str>;
type Int = i64;
#[verifier::external_body]
struct PapyriError { e: u64 }
type PapyriResult<T> = Result<T, PapyriError>;
#[verifier::external_body]
fn not_positive(n: Int) -> PapyriError { unimplemented!() }
''')
    f = u.native('STR', 'UNIQUE_ID', 'MAX_LENGTH: named Int = 128, BASE: content RcStr', 'compiler: &mut Compiler, MAX_LENGTH: Int, BASE: RcStr', 'RcStr')
    f.sub('let name = compiler . get_name ( str_ids :: MAX_LENGTH ) ; let e = errors :: RuntimeError :: ParamMustBePositive ( name , MAX_LENGTH ) ; return Err ( e . into ( ) ) ;', 'return Err(not_positive(MAX_LENGTH));', 0)
    f.sub('BASE . as_ref ( )', 'rc_as_str(&BASE)', 0)
    IDS, IDS1 = 'old(compiler).ctx.unique_ids.ids_used.ids@', 'final(compiler).ctx.unique_ids.ids_used.ids@'
    f.requires(f'{IDS}.finite()', f'{IDS}.len() < i32::MAX - 2')
    f.ensures(f'r matches Ok(id) ==> MAX_LENGTH > 0 && good(id@) && !{IDS}.contains(id@) && {IDS1} == {IDS}.insert(id@)', f'r is Err ==> MAX_LENGTH <= 0 && {IDS1} == {IDS}')
    return u

UNITS = [unique_ids]

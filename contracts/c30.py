"""C30: truth, text, dict and regular-expression functions return what they
say, and attributes and indices resolve as they are written."""
from vx import Unit
from contracts.libhtml import LEAVES_VALUE, nid
from contracts.libtype import type_fns
from contracts.libvalue import world, VAL
from contracts.libident import TEXT
from contracts.libstr import BLEN

REGEX = 'src/compiler/regex_value.rs'
NAMES = 'src/compiler/names.rs'
AST = 'src/parser/ast.rs'
COMP = r"^impl < 'a > Compiler < 'a >$"

TEXTS = r'''
/// Text operations of std, of which only what is said here is assumed.
#[verifier::external_body]
fn text_ends_with(a: &RcStr, b: &RcStr) -> (r: bool) ensures r == (b@.len() <= a@.len() && a@.skip(a@.len() - b@.len()) == b@) { unimplemented!() }
#[verifier::external_body]
fn text_starts_with(a: &RcStr, b: &RcStr) -> (r: bool) ensures r == (b@.len() <= a@.len() && a@.take(b@.len() as int) == b@) { unimplemented!() }
#[verifier::external_body]
fn text_is_empty(a: &RcStr) -> (r: bool) ensures r == (a@.len() == 0) { unimplemented!() }
#[verifier::external_body]
fn text_len(a: &RcStr) -> (r: usize) ensures r as nat == blen(a@), r <= isize::MAX { unimplemented!() }
#[verifier::external_body]
fn text_of(a: &RcStr) -> (r: &str) ensures r@ == a@ { unimplemented!() }
uninterp spec fn std_lowercase(s: Seq<char>) -> Seq<char>;
uninterp spec fn std_uppercase(s: Seq<char>) -> Seq<char>;
uninterp spec fn std_trim(s: Seq<char>) -> Seq<char>;
uninterp spec fn std_split(s: Seq<char>, sep: Seq<char>) -> Seq<Seq<char>>;
#[verifier::external_body]
fn text_lowercase(a: &RcStr) -> (r: String) ensures r@ == std_lowercase(a@) { unimplemented!() }
#[verifier::external_body]
fn text_uppercase(a: &RcStr) -> (r: String) ensures r@ == std_uppercase(a@) { unimplemented!() }
#[verifier::external_body]
fn text_trim(a: &RcStr) -> (r: &str) ensures r@ == std_trim(a@) { unimplemented!() }
spec fn views(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
#[verifier::external_body]
fn text_split<'a>(a: &'a str, b: &str) -> (r: Vec<&'a str>) ensures views(r@) == std_split(a@, b@) { unimplemented!() }
/// From<&str> for Value
#[verifier::external_body]
fn str_value(s: &str) -> (r: Value) ensures is_text(r, s@) { unimplemented!() }
spec fn is_text(v: Value, s: Seq<char>) -> bool { v matches Value::Str(t) && t@ == s }
spec fn all_text(v: Seq<Value>, s: Seq<Seq<char>>) -> bool { v.len() == s.len() && forall|i: int| 0 <= i < v.len() ==> is_text(#[trigger] v[i], s[i]) }
'''

NATIVE = r'''
#[verifier::external_body]
struct PapyriError { e: u64 }
type PapyriResult<T> = Result<T, PapyriError>;
#[verifier::external_body]
fn some_error() -> PapyriError { unimplemented!() }
/// The text of a pooled name; equal names have equal texts (C05).
uninterp spec fn name_text(id: NameID) -> Seq<char>;
uninterp spec fn pooled(id: NameID) -> bool;
struct Compiler { x: u64 }
impl Compiler {
    /// Proved in C05.
    #[verifier::external_body]
    fn get_name(&self, id: NameID) -> (r: RcStr) requires pooled(id) ensures r@ == name_text(id) { unimplemented!() }
    #[verifier::external_body]
    fn get_id_if_present(&self, s: &str) -> (r: Option<NameID>) ensures r matches Some(id) ==> pooled(id) && name_text(id) == s@ && (forall|j: NameID| pooled(j) && #[trigger] name_text(j) == s@ ==> j == id), r is None ==> forall|id: NameID| pooled(id) ==> #[trigger] name_text(id) != s@ { unimplemented!() }
    #[verifier::external_body]
    fn pool_insert(&mut self, s: &str) -> (r: NameID) ensures pooled(r), name_text(r) == s@ { unimplemented!() }
}
/// The keys of a dict are different names.
spec fn wf_dict(d: Dict) -> bool {
    &&& d.keys@.len() == d.items@.len()
    &&& forall|i: int| 0 <= i < d.keys@.len() ==> pooled(#[trigger] d.keys@[i])
    &&& forall|i: int, j: int| 0 <= i < j < d.keys@.len() ==> #[trigger] name_text(d.keys@[i]) != #[trigger] name_text(d.keys@[j])
}
impl Dict {
    /// IndexMap
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self.keys@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.keys@.len(), r <= isize::MAX { unimplemented!() }
    #[verifier::external_body]
    fn key_at(&self, i: usize) -> (r: &NameID) requires i < self.keys@.len() ensures *r == self.keys@[i as int] { unimplemented!() }
    #[verifier::external_body]
    fn value_at(&self, i: usize) -> (r: &Value) requires i < self.items@.len() ensures *r == self.items@[i as int] { unimplemented!() }
    #[verifier::external_body]
    fn get(&self, id: &NameID) -> (r: Option<&Value>) ensures
        r matches Some(v) ==> exists|i: int| 0 <= i < self.keys@.len() && #[trigger] self.keys@[i] == *id && *v == self.items@[i],
        r is None ==> !self.keys@.contains(*id),
    { unimplemented!() }
}
impl List {
    /// Proved in C12.
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r as int == self.items@.len(), r <= u32::MAX { unimplemented!() }
    #[verifier::external_body]
    fn is_empty(&self) -> (r: bool) ensures r == (self.items@.len() == 0) { unimplemented!() }
}
fn text_value(s: RcStr) -> (r: Value) ensures is_text(r, s@) { Value::Str(s) }
#[verifier::external_body]
fn pair_value(a: Value, v: Value) -> (r: Value) ensures r matches Value::List(l) && l.items@ =~= seq![a, v] { unimplemented!() }
spec fn is_white(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\u{c}' || c == '\r' }
spec fn white_text(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> is_white(#[trigger] s[i]) }
/// char::is_ascii_whitespace
fn is_ascii_white(c: char) -> (r: bool) ensures r == is_white(c) { c == ' ' || c == '\t' || c == '\n' || c == '\u{c}' || c == '\r' }
/// The characters of a text.
#[verifier::external_body]
fn chars_of(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
spec fn truth(v: Value) -> bool {
    match v {
        Value::Bool(b) => b,
        Value::Int(i) => i != 0,
        Value::Str(s) => s@.len() > 0,
        Value::HTML(h) => h !is Empty,
        Value::List(l) => l.items@.len() > 0,
        Value::Dict(d) => d.keys@.len() > 0,
        Value::Func(_) => true,
        Value::Regex(_) => true,
    }
}
/// The value of the entry with this name.
spec fn entry(d: Dict, s: Seq<char>, v: Value) -> bool { exists|i: int| 0 <= i < d.keys@.len() && name_text(#[trigger] d.keys@[i]) == s && d.items@[i] == v }
spec fn no_entry(d: Dict, s: Seq<char>) -> bool { forall|i: int| 0 <= i < d.keys@.len() ==> name_text(#[trigger] d.keys@[i]) != s }
spec fn is_item(v: Value, d: Dict, i: int) -> bool { v matches Value::List(l) && l.items@.len() == 2 && is_text(l.items@[0], name_text(d.keys@[i])) && l.items@[1] == d.items@[i] }
spec fn is_node(v: Value, h: HTML) -> bool { match h { HTML::Text(t) => is_text(v, t@), HTML::Whitespace => is_text(v, seq![' ']), HTML::RawNewline => is_text(v, seq!['\n']), _ => v == Value::HTML(h) } }
'''


def plain():
    u = Unit('plain_functions')
    world(u)
    u.text(LEAVES_VALUE + BLEN + TEXTS + NATIVE)
    f = u.fn(TEXT, 'is_whitespace')
    f.sub('s . chars ( ) . all ( | $i:c | $b )', '{ let items = chars_of(s); let mut all = true; let mut index: usize = 0; while index < items.len() { let $c = items[index]; index = index + 1; if !($b) { all = false; break; } } all }', 1)
    f.sub('c . is_ascii_whitespace ( )', 'is_ascii_white(c)', 0)
    f.ensures('r == white_text(s@)')
    f.loop(0, invariant=['items@ == s@', '0 <= index <= items@.len()', 'all ==> forall|i: int| 0 <= i < index ==> is_white(#[trigger] s@[i])', '!all ==> exists|i: int| 0 <= i < s@.len() && !is_white(#[trigger] s@[i])'], ensures=['all == white_text(s@)'], decreases='items@.len() - index')
    f = u.native('BOOL', 'AND', 'A: positional bool, B: positional bool', 'A: bool, B: bool', 'bool')
    f.sub('A & B', 'A && B', 0).ensures('r matches Ok(b) && b == (A && B)')
    f = u.native('BOOL', 'OR', 'A: positional bool, B: positional bool', 'A: bool, B: bool', 'bool')
    f.sub('A | B', 'A || B', 0).ensures('r matches Ok(b) && b == (A || B)')
    f = u.native('BOOL', 'NEGATE', 'PARAM: content bool', 'PARAM: bool', 'bool')
    f.ensures('r matches Ok(b) && b == !PARAM')
    f = u.native('BOOL', 'FROM', 'PARAM: content Value', 'PARAM: Value', 'bool')
    f.sub('Value :: Str ( s ) => ! s . is_empty ( )', 'Value::Str(s) => !text_is_empty(&s)', 0)
    f.ensures('r matches Ok(b) && b == truth(PARAM)')
    for name, fn in (('ENDS_WITH', 'text_ends_with'), ('STARTS_WITH', 'text_starts_with')):
        f = u.native('STR', name, 'A: positional RcStr, B: positional RcStr', 'A: RcStr, B: RcStr', 'bool')
        f.sub(f'$i:a . {name.lower()} ( $i:b . as_ref ( ) )', f'{fn}(&$a, &$b)', 0)
        f.ensures({'ENDS_WITH': 'r matches Ok(b) && b == (B@.len() <= A@.len() && A@.skip(A@.len() - B@.len()) == B@)', 'STARTS_WITH': 'r matches Ok(b) && b == (B@.len() <= A@.len() && A@.take(B@.len() as int) == B@)'}[name])
    f = u.native('STR', 'IS_EMPTY', 'STR: content RcStr', 'STR: RcStr', 'bool')
    f.sub('STR . is_empty ( )', 'text_is_empty(&STR)', 0).ensures('r matches Ok(b) && b == (STR@.len() == 0)')
    f = u.native('STR', 'IS_WHITESPACE', 'STR: content RcStr', 'STR: RcStr', 'bool')
    f.sub('text :: is_whitespace ( STR . as_ref ( ) )', 'is_whitespace(text_of(&STR))', 0).ensures('r matches Ok(b) && b == white_text(STR@)')
    f = u.native('STR', 'LEN', 'STR: content RcStr', 'STR: RcStr', 'Int')
    f.sub('STR . len ( )', 'text_len(&STR)', 0).ensures('r matches Ok(n) && n == blen(STR@)')
    f = u.native('STR', 'FROM', 'PARAM: content RcStr', 'PARAM: RcStr', 'RcStr')
    f.ensures('r matches Ok(s) && s@ == PARAM@')
    for name, std in (('LOWER', 'lowercase'), ('UPPER', 'uppercase')):
        f = u.native('STR', name, 'STR: content RcStr', 'STR: RcStr', 'String')
        f.sub('STR . to_lowercase ( )', 'text_lowercase(&STR)', 0).sub('STR . to_uppercase ( )', 'text_uppercase(&STR)', 0)
        f.ensures(f'r matches Ok(s) && s@ == std_{std}(STR@)')
    f = u.native('STR', 'TRIM', 'STR: content RcStr', 'STR: RcStr', 'Value', 'str_value')
    f.sub('STR . trim ( )', 'text_trim(&STR)', 0)
    f.ensures('r matches Ok(v) && is_text(v, std_trim(STR@))')
    f = u.native('STR', 'SPLIT', 'SEP: positional RcStr, STR: content RcStr', 'SEP: RcStr, STR: RcStr', 'Vec<Value>')
    f.sub('$i:a . as_ref ( ) . split ( $i:b . as_ref ( ) ) . map ( Value :: from ) . collect :: < Vec < Value > > ( )', '{ let parts = text_split(text_of(&$a), text_of(&$b)); let mut out = Vec::new(); let mut index: usize = 0; while index < parts.len() { out.push(str_value(parts[index])); index = index + 1; } out }', 0)
    f.ensures('r matches Ok(v) && all_text(v@, std_split(STR@, SEP@))')
    f.loop(0, invariant=['0 <= index <= parts@.len()', 'out@.len() == index', 'forall|i: int| 0 <= i < index ==> is_text(#[trigger] out@[i], parts@[i]@)', 'views(parts@) == std_split(STR@, SEP@)'], decreases='parts@.len() - index')
    # dicts
    D = 'DICT: content RcDict'
    MAP = '{ let mut out = Vec::new(); let mut index: usize = 0; while index < DICT.len() { %s index = index + 1; } out }'
    f = u.native('DICT', 'GET', 'KEY: positional RcStr, DICT: content RcDict', 'compiler: &Compiler, KEY: RcStr, DICT: &Dict', 'Value')
    f.sub('compiler . ctx . string_pool . get_id_if_present ( KEY . as_ref ( ) ) . and_then ( | $i:k | $b )', '(match compiler.get_id_if_present(text_of(&KEY)) { Some($k) => $b, None => None })', 1)
    f.sub('let e = errors :: NameError :: NoSuchAttribute ( $x ) ; return Err ( e . into ( ) ) ;', 'return Err(some_error());', 1).sub('v . clone ( )', 'clone_value(v)', 0)
    f.requires('wf_dict(*DICT)').ensures('r matches Ok(v) ==> entry(*DICT, KEY@, v)', 'r is Err ==> no_entry(*DICT, KEY@)')
    f = u.native('DICT', 'IS_EMPTY', D, 'DICT: &Dict', 'bool')
    f.requires('wf_dict(*DICT)').ensures('r matches Ok(b) && b == (DICT.items@.len() == 0)')
    f = u.native('DICT', 'LEN', D, 'DICT: &Dict', 'Int')
    f.requires('wf_dict(*DICT)').ensures('r matches Ok(n) && n == DICT.items@.len()')
    f = u.native('DICT', 'ITEMS', D, 'compiler: &Compiler, DICT: &Dict', 'Vec<Value>')
    f.sub('DICT . iter ( ) . map ( | ( & $i:k , $i:v ) | [ $a , $b ] . into ( ) ) . collect :: < Vec < Value > > ( )', MAP % 'let $k = *DICT.key_at(index); let $v = DICT.value_at(index); out.push(pair_value($a, $b));', 1)
    f.sub('compiler . get_name ( $x ) . into ( )', 'text_value(compiler.get_name($x))', 0).sub('v . clone ( )', 'clone_value(v)', 0)
    f.requires('wf_dict(*DICT)').ensures('r matches Ok(v) && v@.len() == DICT.items@.len() && forall|i: int| 0 <= i < v@.len() ==> is_item(#[trigger] v@[i], *DICT, i)')
    f.loop(0, invariant=['wf_dict(*DICT)', 'index <= DICT.keys@.len()', 'out@.len() == index', 'forall|i: int| 0 <= i < index ==> is_item(#[trigger] out@[i], *DICT, i)'], decreases='DICT.keys@.len() - index')
    f = u.native('DICT', 'KEYS', D, 'compiler: &Compiler, DICT: &Dict', 'Vec<Value>')
    f.sub('DICT . keys ( ) . copied ( ) . map ( | $i:k | $b ) . collect :: < Vec < Value > > ( )', MAP % 'let $k = *DICT.key_at(index); out.push($b);', 1)
    f.sub('compiler . get_name ( $x ) . into ( )', 'text_value(compiler.get_name($x))', 0)
    f.requires('wf_dict(*DICT)').ensures('r matches Ok(v) && v@.len() == DICT.keys@.len() && forall|i: int| 0 <= i < v@.len() ==> is_text(#[trigger] v@[i], name_text(DICT.keys@[i]))')
    f.loop(0, invariant=['wf_dict(*DICT)', 'index <= DICT.keys@.len()', 'out@.len() == index', 'forall|i: int| 0 <= i < index ==> is_text(#[trigger] out@[i], name_text(DICT.keys@[i]))'], decreases='DICT.keys@.len() - index')
    f = u.native('DICT', 'VALUES', D, 'DICT: &Dict', 'Vec<Value>')
    f.sub('DICT . values ( ) . cloned ( ) . collect :: < Vec < Value > > ( )', MAP % 'out.push(clone_value(DICT.value_at(index)));', 1)
    f.requires('wf_dict(*DICT)').ensures('r matches Ok(v) && v@ =~= DICT.items@')
    f.loop(0, invariant=['wf_dict(*DICT)', 'index <= DICT.keys@.len()', 'out@ =~= DICT.items@.take(index as int)'], decreases='DICT.keys@.len() - index')
    f = u.native('DICT', 'NEW', 'KWARGS: named_spread RcDict', 'KWARGS: RcDict', 'RcDict')
    f.ensures('r matches Ok(d) && d == KWARGS')
    # lists and HTML
    f = u.native('LIST', 'IS_EMPTY', 'LIST: content List', 'LIST: List', 'bool')
    f.ensures('r matches Ok(b) && b == (LIST.items@.len() == 0)')
    f = u.native('LIST', 'LEN', 'LIST: content List', 'LIST: List', 'Int')
    f.ensures('r matches Ok(n) && n == LIST.items@.len()')
    f = u.native('HTML', 'IS_EMPTY', 'HTML: content HTML', 'HTML: HTML', 'bool')
    f.ensures('r matches Ok(b) && b == (HTML is Empty)')
    return u


RSPEC = r'''
#[verifier::external_body]
struct Regex { x: u64 }
/// The names of its groups, of which the first is the whole match.
uninterp spec fn group_names(r: Regex) -> Seq<Option<Seq<char>>>;
/// The groups of each match in a text, from left to right.
uninterp spec fn matches_in(r: Regex, s: Seq<char>) -> Seq<Seq<Option<Seq<char>>>>;
uninterp spec fn split_by(r: Regex, s: Seq<char>) -> Seq<Seq<char>>;
uninterp spec fn regex_of(s: Seq<char>) -> Option<Regex>;
/// What the regex crate says.
spec fn sound(r: Regex) -> bool {
    &&& group_names(r).len() >= 1
    &&& forall|s: Seq<char>, i: int| 0 <= i < matches_in(r, s).len() ==> (#[trigger] matches_in(r, s)[i]).len() == group_names(r).len() && matches_in(r, s)[i][0] is Some
    &&& forall|i: int, j: int| 0 <= i < j < group_names(r).len() && group_names(r)[i] is Some && group_names(r)[j] is Some ==> #[trigger] group_names(r)[i] != #[trigger] group_names(r)[j]
}
struct Captures { groups: Ghost<Seq<Option<Seq<char>>>>, x: u64 }
struct Match { text: Ghost<Seq<char>>, x: u64 }
impl Match {
    #[verifier::external_body]
    fn as_str(&self) -> (r: &str) ensures r@ == self.text@ { unimplemented!() }
}
spec fn is_group(m: Option<Match>, g: Option<Seq<char>>) -> bool { match m { Some(s) => g == Some(s.text@), None => g is None } }
impl Captures {
    #[verifier::external_body]
    fn get(&self, i: usize) -> (r: Option<Match>) ensures i < self.groups@.len() ==> is_group(r, self.groups@[i as int]), i >= self.groups@.len() ==> r is None { unimplemented!() }
    #[verifier::external_body]
    fn len(&self) -> (r: usize) ensures r == self.groups@.len() { unimplemented!() }
}
spec fn groups_of(v: Seq<Captures>) -> Seq<Seq<Option<Seq<char>>>> { v.map_values(|c: Captures| c.groups@) }
spec fn name_views(v: Seq<Option<&str>>) -> Seq<Option<Seq<char>>> { v.map_values(|n: Option<&str>| match n { Some(s) => Some(s@), None => None::<Seq<char>> }) }
impl Regex {
    #[verifier::external_body]
    fn new(s: &str) -> (r: PapyriResult<Regex>) ensures r matches Ok(x) ==> sound(x) && regex_of(s@) == Some(x), r is Err ==> regex_of(s@) is None { unimplemented!() }
    #[verifier::external_body]
    fn captures_len(&self) -> (r: usize) ensures r == group_names(*self).len() { unimplemented!() }
    #[verifier::external_body]
    fn capture_names_from(&self, k: usize) -> (r: Vec<Option<&str>>) ensures k <= group_names(*self).len() ==> name_views(r@) == group_names(*self).skip(k as int) { unimplemented!() }
    #[verifier::external_body]
    fn captures(&self, s: &str) -> (r: Option<Captures>) requires sound(*self) ensures matches_in(*self, s@).len() == 0 ==> r is None, matches_in(*self, s@).len() > 0 ==> (r matches Some(c) && c.groups@ == matches_in(*self, s@)[0]) { unimplemented!() }
    #[verifier::external_body]
    fn captures_all(&self, s: &str) -> (r: Vec<Captures>) ensures groups_of(r@) == matches_in(*self, s@) { unimplemented!() }
    #[verifier::external_body]
    fn is_match(&self, s: &str) -> (r: bool) ensures r == (matches_in(*self, s@).len() > 0) { unimplemented!() }
    #[verifier::external_body]
    fn count_matches(&self, s: &str) -> (r: usize) ensures r == matches_in(*self, s@).len() { unimplemented!() }
    #[verifier::external_body]
    fn split_text<'a>(&self, s: &'a str) -> (r: Vec<&'a str>) ensures views(r@) == split_by(*self, s@) { unimplemented!() }
}
fn none_value() -> (r: Value) ensures is_none(r) { Value::HTML(HTML::Empty) }
#[verifier::external_body]
fn list_value(v: Vec<Value>) -> (r: Value) ensures r matches Value::List(l) && l.items@ == v@ { unimplemented!() }
/// Dict::from_iter of names zipped with values: an entry for each pair, of
/// which the names are different.
#[verifier::external_body]
fn dict_value(names: &[NameID], v: Vec<Value>) -> (r: Value)
    requires names@.len() == v@.len(), different(names@),
    ensures r matches Value::Dict(d) && d.keys@ == names@ && d.items@ == v@,
{ unimplemented!() }
spec fn different(s: Seq<NameID>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] s[i] != #[trigger] s[j] }
/// The text of a group, or none if it took no part in the match.
spec fn shows_group(v: Value, g: Option<Seq<char>>) -> bool { match g { Some(s) => is_text(v, s), None => is_none(v) } }
spec fn unnamed(n: Seq<Option<Seq<char>>>) -> bool { forall|i: int| 1 <= i < n.len() ==> #[trigger] n[i] is None }
spec fn named(n: Seq<Option<Seq<char>>>) -> bool { forall|i: int| 1 <= i < n.len() ==> #[trigger] n[i] is Some }
/// What a match is returned as: its text if there are no groups; the text and
/// the groups if they have no names; the groups by their names.
spec fn shows_match(r: Regex, g: Seq<Option<Seq<char>>>, v: Value) -> bool {
    let n = group_names(r);
    if n.len() == 1 {
        is_text(v, g[0]->0)
    } else if unnamed(n) {
        v matches Value::List(l) && l.items@.len() == g.len() && forall|i: int| 0 <= i < g.len() ==> shows_group(#[trigger] l.items@[i], g[i])
    } else {
        v matches Value::Dict(d) && d.keys@.len() == n.len() - 1 && d.items@.len() == n.len() - 1
            && (forall|i: int| 0 <= i < n.len() - 1 ==> n[i + 1] == Some(name_text(#[trigger] d.keys@[i])))
            && (forall|i: int| 0 <= i < n.len() - 1 ==> shows_group(#[trigger] d.items@[i], g[i + 1]))
    }
}
spec fn alpha(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || c == '_' }
spec fn name_chars(s: Seq<char>) -> bool { s.len() > 0 && alpha(s[0]) && forall|i: int| 0 <= i < s.len() ==> alpha(#[trigger] s[i]) || ('0' <= s[i] && s[i] <= '9') }
/// Proved in C16.
#[verifier::external_body]
fn is_identifier(s: &str) -> (r: bool) ensures r == name_chars(s@) { unimplemented!() }
spec fn kind_of(r: Regex, k: RegexKind) -> bool {
    let n = group_names(r);
    match k {
        RegexKind::Simple => n.len() == 1,
        RegexKind::NumberedGroups => n.len() > 1 && unnamed(n),
        RegexKind::NamedGroups(ids) => n.len() > 1 && ids@.len() == n.len() - 1 && forall|i: int| 0 <= i < ids@.len() ==> n[i + 1] == Some(name_text(#[trigger] ids@[i])),
    }
}
spec fn wf_regex(r: RegexValue) -> bool { sound(r.regex) && kind_of(r.regex, r.kind) }
/// Of the groups either all or none have names, which are identifiers.
spec fn legal_groups(n: Seq<Option<Seq<char>>>) -> bool { unnamed(n) || (forall|i: int| 1 <= i < n.len() ==> (#[trigger] n[i] matches Some(s) && name_chars(s))) }
/// Vec::into_boxed_slice
#[verifier::external_body]
fn boxed(v: Vec<NameID>) -> (r: Box<[NameID]>) ensures r@ == v@ { v.into_boxed_slice() }
proof fn lemma_skipped(v: Seq<Option<&str>>, n: Seq<Option<Seq<char>>>)
    requires n.len() >= 1, name_views(v) == n.skip(1),
    ensures v.len() == n.len() - 1,
        forall|i: int| 0 <= i < v.len() ==> (#[trigger] v[i] is Some) == (n[i + 1] is Some) && (v[i] matches Some(s) ==> n[i + 1] == Some(s@)),
        unnamed(n) == (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] is None),
        named(n) == (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] is Some),
{
    assert(name_views(v).len() == v.len());
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i] is Some) == (n[i + 1] is Some) && (v[i] matches Some(s) ==> n[i + 1] == Some(s@)) by {
        assert(name_views(v)[i] == n.skip(1)[i]);
    }
    if forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] is None { assert forall|i: int| 1 <= i < n.len() implies #[trigger] n[i] is None by { assert(v[i - 1] is None); } }
    if forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] is Some { assert forall|i: int| 1 <= i < n.len() implies #[trigger] n[i] is Some by { assert(v[i - 1] is Some); } }
}
proof fn lemma_different(r: Regex, ids: Seq<NameID>)
    requires sound(r), ids.len() == group_names(r).len() - 1, forall|i: int| 0 <= i < ids.len() ==> group_names(r)[i + 1] == Some(name_text(#[trigger] ids[i])),
    ensures different(ids),
{
    assert forall|i: int, j: int| 0 <= i < j < ids.len() implies #[trigger] ids[i] != #[trigger] ids[j] by {
        let k = i + 1; let l = j + 1; let a = ids[i]; let b = ids[j];
        assert(group_names(r)[k] == Some(name_text(a)) && group_names(r)[l] == Some(name_text(b)));
        assert(group_names(r)[k] != group_names(r)[l]);
    }
}
'''


def regex():
    u = Unit('regular_expressions')
    world(u)
    u.text(LEAVES_VALUE + BLEN + TEXTS + NATIVE)
    u.item(REGEX, 'enum', 'RegexKind')
    u.item(REGEX, 'struct', 'RegexValue', subs=[('regex :: Regex', 'Regex')])
    u.text(RSPEC + 'impl RegexKind {')
    f = u.fn(REGEX, 'captures_to_value', impl='^impl RegexKind$')
    f.sub('regex :: Captures', 'Captures', 0)
    f.sub('m . get ( 0 ) . map_or ( $d , | $i:s | $e , )', 'match m.get(0) { Some($s) => $e, None => $d }', 1)
    LOOP = '{ let mut out: Vec<Value> = Vec::new(); let mut index: usize = %s; while index < m.len() { let $g = m.get(index); out.push($e); index = index + 1; } out }'
    f.sub('m . iter ( ) . map ( | $i:g | $e ) . collect :: < Vec < _ > > ( ) . into ( )', 'list_value(' + LOOP % '0' + ')', 1)
    f.sub('let v = m . iter ( ) . skip ( $n ) . map ( | $i:g | $e ) ;', 'let v = ' + LOOP % '$n' + ';', 1)
    f.sub('Dict :: from_iter ( $i:n . iter ( ) . copied ( ) . zip ( v ) ) . into ( )', 'dict_value(&*$n, v)', 1)
    f.sub('g . map_or ( Value :: UNIT , | $i:s | $e )', '(match g { Some($s) => $e, None => none_value() })', 0)
    f.sub('s . as_str ( ) . into ( )', 'str_value(s.as_str())', 0).sub('Value :: UNIT', 'none_value()', 0)
    f.attr('#[verifier::spinoff_prover]')
    f.requires('exists|x: Regex| #[trigger] sound(x) && kind_of(x, *self) && m.groups@.len() == group_names(x).len() && m.groups@[0] is Some')
    f.ensures('forall|x: Regex| #[trigger] sound(x) && kind_of(x, *self) && m.groups@.len() == group_names(x).len() && m.groups@[0] is Some ==> shows_match(x, m.groups@, r)')
    f.loop(0, invariant=['index <= m.groups@.len()', 'out@.len() == index', 'forall|i: int| 0 <= i < index ==> shows_group(#[trigger] out@[i], m.groups@[i])'], decreases='m.groups@.len() - index')
    f.loop(1, invariant=['1 <= index <= m.groups@.len()', 'out@.len() == index - 1', 'forall|i: int| 0 <= i < index - 1 ==> shows_group(#[trigger] out@[i], m.groups@[i + 1])'], decreases='m.groups@.len() - index')
    f.start('proof { assert forall|x: Regex| #[trigger] sound(x) && kind_of(x, *self) implies (self matches RegexKind::NamedGroups(ids) ==> different(ids@) && !unnamed(group_names(x))) by { if let RegexKind::NamedGroups(ids) = self { lemma_different(x, ids@); assert(group_names(x)[1] == Some(name_text(ids@[0]))); } } }')
    u.text('} impl RegexValue {')
    I = '^impl RegexValue$'
    f = u.fn(REGEX, 'find', impl=I)
    f.sub('self . regex . captures ( s ) . map_or ( $d , | $i:m | $e , )', 'match self.regex.captures(s) { Some($m) => $e, None => $d }', 1).sub('Value :: UNIT', 'none_value()', 0)
    f.requires('wf_regex(*self)')
    f.ensures('matches_in(self.regex, s@).len() == 0 ==> is_none(r)', 'matches_in(self.regex, s@).len() > 0 ==> shows_match(self.regex, matches_in(self.regex, s@)[0], r)')
    f = u.fn(REGEX, 'find_all', impl=I)
    f.sub('self . regex . captures_iter ( s ) . map ( | $i:m | $e ) . collect ( )', '{ let items = self.regex.captures_all(s); let mut out = Vec::new(); for m_ref in items { let $m = m_ref; out.push($e); } out }', 1)
    f.requires('wf_regex(*self)')
    f.ensures('r@.len() == matches_in(self.regex, s@).len()', 'forall|i: int| 0 <= i < r@.len() ==> shows_match(self.regex, matches_in(self.regex, s@)[i], #[trigger] r@[i])')
    f.loop(0, it='it', invariant=['wf_regex(*self)', 'groups_of(it.seq()) == matches_in(self.regex, s@)', 'out@.len() == it.index@', 'forall|i: int| 0 <= i < it.index@ ==> shows_match(self.regex, matches_in(self.regex, s@)[i], #[trigger] out@[i])'])
    f.loop_start(0, 'proof { assert(groups_of(it.seq())[it.index@ as int] == m_ref.groups@); }')
    f = u.fn(REGEX, 'test', impl=I)
    f.requires('wf_regex(*self)').ensures('r == (matches_in(self.regex, s@).len() > 0)')
    f = u.fn(REGEX, 'count', impl=I)
    f.sub('self . regex . find_iter ( s ) . count ( )', 'self.regex.count_matches(s)', 1)
    f.requires('wf_regex(*self)').ensures('r == matches_in(self.regex, s@).len()')
    f = u.fn(REGEX, 'split', impl=I)
    f.sub('self . regex . split ( s ) . into_iter ( ) . map ( Value :: from ) . collect ( )', '{ let parts = self.regex.split_text(s); let mut out = Vec::new(); let mut index: usize = 0; while index < parts.len() { out.push(str_value(parts[index])); index = index + 1; } out }', 1)
    f.ensures('all_text(r@, split_by(self.regex, s@))')
    f.loop(0, invariant=['0 <= index <= parts@.len()', 'out@.len() == index', 'forall|i: int| 0 <= i < index ==> is_text(#[trigger] out@[i], parts@[i]@)', 'views(parts@) == split_by(self.regex, s@)'], decreases='parts@.len() - index')
    u.text('} impl Compiler {')
    f = u.fn(REGEX, 'compile_regex', impl=COMP)
    f.sub('PapyriResult < RcRegex >', 'PapyriResult<Rc<RegexValue>>', 0)
    f.sub('regex :: Regex :: new ( regex_str ) . map_err ( RuntimeError :: RegexSyntaxError ) ?', 'Regex::new(regex_str)?', 1)
    ALL = '({ let items = regex.capture_names_from($k); let mut all = true; let mut index: usize = 0; while index < items.len() { let $n = items[index]; index = index + 1; if !($p) { all = false; break; } } proof { lemma_skipped(items@, group_names(regex)); } all })'
    f.sub('regex . capture_names ( ) . skip ( $k ) . all ( | $i:n | $p )', ALL, 2)
    f.sub('for $i:name in regex . capture_names ( ) . skip ( $k ) {', 'for name_ref in regex.capture_names_from($k) { let $name = name_ref;', 1)
    f.sub('text :: is_identifier', 'is_identifier', 0).sub('self . ctx . string_pool . insert ( $x )', 'self.pool_insert($x)', 0)
    f.sub('let e = RuntimeError :: RegexInvalidGroupName ( $x ) ; return Err ( e . into ( ) ) ;', 'return Err(some_error());', 1)
    f.sub('let e = RuntimeError :: RegexMixedGroupKinds ; return Err ( e . into ( ) ) ;', 'return Err(some_error());', 1)
    f.sub('names . into_boxed_slice ( )', 'boxed(names)', 0)
    f.ensures('r matches Ok(v) ==> wf_regex(*v) && regex_of(regex_str@) == Some(v.regex) && legal_groups(group_names(v.regex))',
        'r is Err ==> regex_of(regex_str@) is None || (regex_of(regex_str@) matches Some(x) && !legal_groups(group_names(x)))')
    W = ['sound(regex)', 'name_views(items@) == group_names(regex).skip(1)', '0 <= index <= items@.len()']
    f.loop(0, invariant=W + ['all ==> forall|i: int| 0 <= i < index ==> #[trigger] items@[i] is None', '!all ==> exists|i: int| 0 <= i < items@.len() && #[trigger] items@[i] is Some'], ensures=['all == forall|i: int| 0 <= i < items@.len() ==> #[trigger] items@[i] is None'], decreases='items@.len() - index')
    f.loop(1, invariant=W + ['all ==> forall|i: int| 0 <= i < index ==> #[trigger] items@[i] is Some', '!all ==> exists|i: int| 0 <= i < items@.len() && #[trigger] items@[i] is None'], ensures=['all == forall|i: int| 0 <= i < items@.len() ==> #[trigger] items@[i] is Some'], decreases='items@.len() - index')
    f.loop(2, it='it', invariant=['sound(regex)', 'regex_of(regex_str@) == Some(regex)', 'group_names(regex).len() > 1', 'named(group_names(regex))', 'name_views(it.seq()) == group_names(regex).skip(1)', 'names@.len() == it.index@',
        'forall|i: int| 0 <= i < it.index@ ==> group_names(regex)[i + 1] == Some(name_text(#[trigger] names@[i])) && name_chars(name_text(names@[i]))'])
    f.loop_start(2, 'proof { lemma_skipped(it.seq(), group_names(regex)); assert(it.seq()[it.index@ as int] == name_ref); assert(group_names(regex)[it.index@ + 1] is Some); }')
    f.before('RegexKind :: NamedGroups ( boxed', 'proof { assert forall|i: int| 1 <= i < group_names(regex).len() implies (#[trigger] group_names(regex)[i] matches Some(s) && name_chars(s)) by { let k = i - 1; let a = names@[k]; assert(group_names(regex)[k + 1] == Some(name_text(a))); } }')
    u.text('}')
    return u


GROUPS = {
    'Bool': ('BOOL', {'and': 'p', 'or': 'p', 'negate': 'c'}),
    'Int': ('INT', {'add': 'p', 'negate': 'c'}),
    'Str': ('STR', {'ends_with': 'p', 'starts_with': 'p', 'escape_html': 'c', 'is_empty': 'c', 'is_whitespace': 'c', 'len': 'c', 'lower': 'c', 'split': 'c', 'trim': 'c', 'unique_id': 'c', 'upper': 'c'}),
    'Regex': ('REGEX', {'count': 'p', 'find': 'p', 'find_all': 'p', 'split': 'p', 'test': 'p'}),
    'Func': ('FUNCTION', {'bind': 'p', 'name': 'c'}),
    'HTML': ('HTML', {'escape_html': 'c', 'is_empty': 'c', 'is_whitespace': 'c'}),
    'List': ('LIST', {k: 'c' for k in 'all any contains enumerate filter find flat get is_empty join len map slice sorted'.split()}),
}
MACRO = 'src/compiler/native_gen.rs!native_defs(src/compiler/native.rs)'

ASPEC = r"""
struct Context { natives: NativeDefs }
struct AlreadyReported { e: u64 }
type Reported<T> = Result<T, AlreadyReported>;
uninterp spec fn positional(f: Func, v: Value) -> Option<Func>;
uninterp spec fn content(f: Func, v: Value) -> Option<Func>;
spec fn is_fn(r: PapyriResult<Func>, f: Option<Func>) -> bool { match f { Some(x) => r == PapyriResult::<Func>::Ok(x), None => r is Err } }
impl Func {
    /// Partial application: proved in C17.
    #[verifier::external_body]
    fn bind_positional(self, compiler: &mut Compiler, v: Value) -> (r: PapyriResult<Func>) ensures is_fn(r, positional(self, v)), same_world(*final(compiler), *old(compiler)) { unimplemented!() }
    #[verifier::external_body]
    fn bind_content(self, compiler: &mut Compiler, v: Value) -> (r: PapyriResult<Func>) ensures is_fn(r, content(self, v)), same_world(*final(compiler), *old(compiler)) { unimplemented!() }
}
#[verifier::external_body]
fn clone_func(f: &Func) -> (r: Func) ensures r == *f { unimplemented!() }
/// The variables, and the library. Reporting an error changes neither.
spec fn same_world(a: Compiler, b: Compiler) -> bool { a.vars == b.vars && a.ctx == b.ctx }
uninterp spec fn variable(vars: Ghost<int>, id: NameID) -> Option<Value>;
uninterp spec fn coerced(v: Value, t: Type) -> Option<Value>;
uninterp spec fn name_rc(id: NameID) -> RcStr;
spec fn is_value(r: PapyriResult<Value>, v: Option<Value>) -> bool { match v { Some(x) => r == PapyriResult::<Value>::Ok(x), None => r is Err } }
impl Compiler {
    /// Proved in C19.
    #[verifier::external_body]
    fn get_var(&mut self, id: NameID) -> (r: PapyriResult<Value>) ensures is_value(r, variable(old(self).vars, id)), same_world(*final(self), *old(self)) { unimplemented!() }
    /// Proved in C10.
    #[verifier::external_body]
    fn coerce(&mut self, v: Value, t: &Type) -> (r: PapyriResult<Value>) ensures is_value(r, coerced(v, *t)), r matches Ok(w) ==> accepts(*t, w), same_world(*final(self), *old(self)) { unimplemented!() }
    #[verifier::external_body]
    fn report(&mut self, e: PapyriError, r: SourceRange) -> (a: AlreadyReported) ensures same_world(*final(self), *old(self)) { unimplemented!() }
    /// Proved in C12.
    #[verifier::external_body]
    fn list_get(&mut self, l: List, i: Int) -> (r: PapyriResult<Value>) ensures is_value(r, item(l, i)), same_world(*final(self), *old(self)) { unimplemented!() }
    /// Proved in C05.
    #[verifier::external_body]
    fn get_name(&self, id: NameID) -> (r: RcStr) ensures r == name_rc(id) { unimplemented!() }
}
impl Name {
    #[verifier::external_body]
    fn range(&self) -> SourceRange { unimplemented!() }
}
impl Dict {
    /// IndexMap, whose keys are different.
    #[verifier::external_body]
    fn get(&self, id: &NameID) -> (r: Option<&Value>) ensures match entry_of(*self, *id) { Some(v) => r == Some(&v), None => r is None } { unimplemented!() }
}
impl Value {
    /// Proved in C10.
    #[verifier::external_body]
    fn is_unit(&self) -> (r: bool) ensures r == is_none(*self) { unimplemented!() }
}
/// Conversion of an error which was reported.
#[verifier::external_body]
fn unreported(r: Reported<Value>) -> (s: PapyriResult<Value>) ensures r matches Ok(v) ==> s == PapyriResult::<Value>::Ok(v), r is Err ==> s is Err { unimplemented!() }
/// expect_convert::<Option<List>>, which crashes on anything else.
#[verifier::external_body]
fn expect_list(v: Value) -> (r: Option<List>) requires is_none(v) || v is List ensures is_none(v) ==> r is None, v matches Value::List(l) ==> r == Some(l) { unimplemented!() }
fn text_value(s: RcStr) -> (r: Value) ensures r == Value::Str(s) { Value::Str(s) }
fn func_value(r: PapyriResult<Func>) -> (s: PapyriResult<Value>) ensures match r { Ok(f) => s == PapyriResult::<Value>::Ok(Value::Func(f)), Err(_) => s is Err } { match r { Ok(f) => Ok(Value::Func(f)), Err(e) => Err(e) } }
spec fn entry_of(d: Dict, id: NameID) -> Option<Value> { if d.keys@.contains(id) { Some(d.items@[d.keys@.index_of(id)]) } else { None } }
spec fn item(l: List, i: Int) -> Option<Value> {
    let n = l.items@.len();
    if 0 <= i < n { Some(l.items@[i as int]) } else if -n <= i < 0 { Some(l.items@[n + i]) } else { None }
}
spec fn none() -> Value { Value::HTML(HTML::Empty) }
/// The value of an attribute: none of none if it is written with `?::`; the
/// entry of a dict; the name of a tag; or the function of the value's type,
/// applied to the value.
spec fn attribute(n: NativeDefs, v: Value, coalescing: bool, id: NameID) -> Option<Value> {
    if is_none(v) && coalescing { Some(none()) }
    else if v is Dict && entry_of(*v->Dict_0, id) is Some { entry_of(*v->Dict_0, id) }
    else if id == TAG_NAME_ID && v is HTML && v->HTML_0 is Tag { Some(Value::Str(name_rc(v->HTML_0->Tag_0.name_id))) }
    else { match method(n, v, id) { Some(f) => Some(Value::Func(f)), None => None } }
}
spec fn list_hint(coalescing: bool) -> Type { if coalescing { optional(Type::List(Box::new(Type::Any))) } else { Type::List(Box::new(Type::Any)) } }
/// What a name stands for, or none if it is an error.
spec fn resolved(c: Compiler, n: Name, t: Type) -> Option<Value> decreases n {
    let v = match n {
        Name::Simple(s) => variable(c.vars, s.name_id),
        Name::Attr(a) => resolved_attr(c, *a),
        Name::Index(i) => resolved_index(c, *i),
    };
    match v { Some(x) => coerced(x, t), None => None }
}
spec fn resolved_attr(c: Compiler, a: AttrName) -> Option<Value> decreases a {
    match resolved(c, a.subject, Type::Any) { Some(v) => attribute(c.ctx.natives, v, a.is_coalescing, a.attr_name_id), None => None }
}
spec fn resolved_index(c: Compiler, i: IndexName) -> Option<Value> decreases i {
    match resolved(c, i.subject, list_hint(i.is_coalescing)) {
        Some(v) => if is_none(v) { Some(none()) } else if v is List { item(v->List_0, i.index) } else { None },
        None => None,
    }
}
proof fn lemma_hint(c: bool)
    ensures forall|v: Value| #[trigger] accepts(list_hint(c), v) ==> is_none(v) || v is List, forall|v: Value| !c && #[trigger] accepts(list_hint(c), v) ==> v is List,
{ reveal_with_fuel(accepts, 3); }
proof fn lemma_world(c: Compiler, d: Compiler, n: Name, t: Type)
    requires same_world(c, d),
    ensures resolved(c, n, t) == resolved(d, n, t),
    decreases n,
{
    match n { Name::Simple(_) => {}, Name::Attr(a) => { lemma_world(c, d, a.subject, Type::Any); }, Name::Index(i) => { lemma_world(c, d, i.subject, list_hint(i.is_coalescing)); } }
}
"""


def attributes():
    u = Unit('attributes')
    world(u)
    for g in [x for x, _ in GROUPS.values()] + ['DICT', 'FILE', 'NET']:
        u.item(MACRO, 'struct', f'native_cache::{g}', subs=[(f'struct {g} {{', f'struct {g}_functions {{')])
    u.item(MACRO, 'struct', 'native_cache::NativeDefs', subs=[(f'{g} : {g} ,', f'{g}: {g}_functions,') for g in [x for x, _ in GROUPS.values()] + ['DICT', 'FILE', 'NET']])
    for n in ('SimpleName', 'AttrName', 'IndexName'):
        u.item(AST, 'struct', n)
    u.item(AST, 'enum', 'Name')
    table = ''.join(f'        Value::{v}(_) => ' + ' '.join(f'if id == {nid(m)} {{ {"positional" if k == "p" else "content"}(n.{g}.{m.upper()}, v) }} else' for m, k in ms.items()) + ' { None },\n' for v, (g, ms) in GROUPS.items())
    native = NATIVE.split('struct Compiler {')[0]
    u.text('struct SourceRange { r: u64 }\nstruct Compiler { ctx: Context, vars: Ghost<int> }\n' + native + f'/// The functions of each type which are attributes of its values, by name.\nspec fn method(n: NativeDefs, v: Value, id: NameID) -> Option<Func> {{\n    match v {{\n{table}        _ => None,\n    }}\n}}\n' + ASPEC.replace('TAG_NAME_ID', str(nid('tag_name'))) + 'impl Type {')
    type_fns(u, ['list', 'option', 'option_if', 'unit_is_assignable'])
    u.text('} impl Compiler {')
    u.default_subs = [('crate :: errors ::', ''), ('crate :: compiler :: value ::', ''), ('crate :: compiler :: func ::', ''), ('crate :: utils ::', ''), ('errors ::', ''), ('ast ::', '')]
    f = u.fn(MACRO, 'evaluate_native_attr', impl=r"Compiler < 'a >$")
    f.sub('use $x ;', '', 0).sub('_cls . $i:m . clone ( )', 'clone_func(&_cls.$m)', 0)
    f.sub('PapyriResult :: Err ( NameError :: NoSuchAttribute ( $x ) . into ( ) )', 'Err(some_error())', 1)
    f.ensures('is_fn(r, method(old(self).ctx.natives, subject, attr_id))', 'same_world(*final(self), *old(self))')
    f = u.fn(NAMES, 'evaluate_attr', impl=COMP)
    f.sub('self . evaluate_name ( $x ) ?', 'unreported(self.evaluate_name($x))?', 0).sub('Value :: UNIT', 'Value::HTML(HTML::Empty)', 0).sub('v . clone ( )', 'clone_value(v)', 0)
    f.sub('Ok ( self . get_name ( $x ) . into ( ) )', 'Ok(text_value(self.get_name($x)))', 0).sub('self . evaluate_native_attr ( $x ) . map ( Value :: from )', 'func_value(self.evaluate_native_attr($x))', 0)
    f.sub('& Type :: Any', 'any_type()', 0)
    f.ensures('is_value(r, resolved_attr(*old(self), *attr))', 'same_world(*final(self), *old(self))').decreases('*attr')
    f = u.fn(NAMES, 'evaluate_index', impl=COMP)
    f.sub('Type :: Any . list ( )', 'any_value_type().list()', 0)
    f.sub('self . evaluate_name ( $x ) ? . expect_convert :: < Option < List > > ( )', 'expect_list(unreported(self.evaluate_name($x))?)', 1).sub('Value :: UNIT', 'Value::HTML(HTML::Empty)', 0)
    f.start('proof { lemma_hint(true); lemma_hint(false); assert(list_hint(index.is_coalescing) == (if index.is_coalescing { optional(Type::List(Box::new(Type::Any))) } else { Type::List(Box::new(Type::Any)) })); }')
    f.ensures('is_value(r, resolved_index(*old(self), *index))', 'same_world(*final(self), *old(self))').decreases('*index')
    f = u.fn(NAMES, 'evaluate_name', impl=COMP)
    f.sub('value . and_then ( | $i:v | $b ) . map_err ( | $i:e | $c )', 'let value = match value { Ok($v) => $b, Err(e) => Err(e) }; match value { Ok(v) => Ok(v), Err($e) => Err($c) }', 1)
    f.ensures('match resolved(*old(self), *name, *type_hint) { Some(v) => r == Reported::<Value>::Ok(v), None => r is Err }', 'r matches Ok(v) ==> accepts(*type_hint, v)', 'same_world(*final(self), *old(self))').decreases('*name')
    u.text('} #[verifier::external_body] fn any_type() -> (r: &\'static Type) ensures *r is Any { unimplemented!() }\nfn any_value_type() -> (r: Type) ensures r is Any { Type::Any }')
    return u


UNITS = [plain, regex, attributes]

"""C24: the text of a type denotes that type, and optional types are normal."""
from vx import Unit, AnchorLost, Raw, lex, match_close
from contracts.libtype import T, type_enum, type_fns
from contracts.libstr import STR_EQ

WRITE = r'''
/// A formatter, with the text which was written to it.
struct Formatter { text: Ghost<Seq<char>> }
struct FmtError { e: u8 }
type FmtResult = Result<(), FmtError>;
impl Formatter {
    #[verifier::external_body]
    fn write_str(&mut self, s: &str) -> (r: FmtResult)
        ensures r is Ok ==> final(self).text@ == old(self).text@ + s@,
    { unimplemented!() }
}
/// The tokens of a type annotation.
enum Word { Name(Seq<char>), Question, Space }
spec fn word_text(w: Word) -> Seq<char> { match w { Word::Name(s) => s, Word::Question => seq!['?'], Word::Space => seq![' '] } }
spec fn text_of(ws: Seq<Word>) -> Seq<char> decreases ws.len() {
    if ws.len() == 0 { Seq::empty() } else { text_of(ws.drop_last()) + word_text(ws.last()) }
}
/// How a type is written.
spec fn words(t: Type) -> Seq<Word> decreases t {
    match t {
        Type::Any => seq![Word::Name("any"@)], Type::Html => seq![Word::Name("html"@)], Type::Block => seq![Word::Name("block"@)],
        Type::Inline => seq![Word::Name("inline"@)], Type::Unit => seq![Word::Name("none"@)], Type::Bool => seq![Word::Name("bool"@)],
        Type::Int => seq![Word::Name("int"@)], Type::Str => seq![Word::Name("str"@)], Type::Function => seq![Word::Name("function"@)],
        Type::Regex => seq![Word::Name("regex"@)],
        Type::Dict(u) => words(*u).push(Word::Space).push(Word::Name("dict"@)),
        Type::List(u) => words(*u).push(Word::Space).push(Word::Name("list"@)),
        Type::Optional(u) => words(*u).push(Word::Question),
    }
}
spec fn show(t: Type) -> Seq<char> { text_of(words(t)) }
proof fn lemma_text_push(ws: Seq<Word>, w: Word) ensures text_of(ws.push(w)) =~= text_of(ws) + word_text(w) { assert(ws.push(w).drop_last() =~= ws); }
proof fn lemma_text_one(w: Word) ensures text_of(seq![w]) =~= word_text(w) { lemma_text_push(Seq::empty(), w); assert(Seq::<Word>::empty().push(w) =~= seq![w]); }
'''


def expand_write(f):
    """`write!(f, "{t} x")` is Display::fmt of t followed by write_str(" x")."""
    i = 0
    while i < len(f.toks):
        t = f.toks[i]
        if t.s == 'write' and f.toks[i + 1].s == '!' and f.toks[i + 2].s == '(':
            e = match_close(f.toks, i + 2)
            args = f.toks[i + 3:e]
            if not (len(args) == 3 and args[1].s == ',' and args[2].k == 'str'):
                raise AnchorLost('write! of an unexpected form')
            import re
            lit = args[2].s[1:-1]
            parts = re.split(r'(\{\w+\})', lit)
            if any('{' in p for p in parts[0::2]):
                raise AnchorLost('write! of an unexpected form')
            code = '{ ' + ' '.join((f'match {p[1:-1]}.fmt({args[0].s}) {{ Ok(_) => {{}}, Err(e) => return Err(e) }}' if p.startswith('{') else f'match {args[0].s}.write_str("{p}") {{ Ok(_) => {{}}, Err(e) => return Err(e) }}') for p in parts if p) + ' Ok(()) }'
            f.toks[i:e + 1] = lex(code)
            f.subs.append(('write!(f, "..{t}..")', 'fmt of t and write_str of the pieces', 1))
        i += 1


def types_():
    u = Unit('types')
    type_enum(u)
    u.text(STR_EQ + 'impl Type {')
    type_fns(u, ['dict', 'list', 'option', 'option_if', 'is_html', 'unit_is_assignable'])
    u.text('}')
    u.text(r'''
/// Making a type optional twice is the same as once.
fn optional_twice(t: Type) -> (r: Type)
    requires normal_type(t),
    ensures r == optional(t), normal_type(r), r matches Type::Optional(v) ==> *v !is Optional,
{ t.option().option() }
''' + WRITE + 'impl Type {')
    f = u.fn(T, 'fmt', impl='^impl std : : fmt : : Display for Type$')
    f.sub('std :: fmt :: Formatter < \'_ >', 'Formatter', 1).sub('std :: fmt :: Result', 'FmtResult', 1)
    expand_write(f)
    f.ensures('r is Ok ==> final(f).text@ =~= old(f).text@ + show(*self)').decreases('*self')
    f.start('''proof {
        reveal_strlit("?"); reveal_strlit(" dict"); reveal_strlit(" list"); reveal_strlit("dict"); reveal_strlit("list");
        assert("?"@ =~= seq!['?']); assert(" dict"@ =~= seq![' '] + "dict"@); assert(" list"@ =~= seq![' '] + "list"@);
        lemma_text_one(words(*self)[0]);
        match self {
            Type::Dict(u) => { lemma_text_push(words(**u), Word::Space); lemma_text_push(words(**u).push(Word::Space), Word::Name("dict"@)); }
            Type::List(u) => { lemma_text_push(words(**u), Word::Space); lemma_text_push(words(**u).push(Word::Space), Word::Name("list"@)); }
            Type::Optional(u) => { lemma_text_push(words(**u), Word::Question); }
            _ => { assert(words(*self) =~= seq![words(*self)[0]]); }
        }
    }''')
    u.text('}')
    return u


PARSER = r'''
#[derive(Clone, Copy)] struct SourceRange { start: u32, end: u32 }
#[derive(Clone, Copy, PartialEq, Eq, Structural)] enum TokenKind { Name, QuestionMark, Whitespace, Other }
#[derive(Clone, Copy)] struct Token { kind: TokenKind, range: SourceRange, w: Ghost<Word> }
enum SyntaxError { TokenInvalidPrimitiveType, TokenInvalidGroupType }
enum Warning { RedundantOptionType }
struct AlreadyReported { e: u8 }
type Reported<T> = Result<T, AlreadyReported>;
/// A parser reads words one after the other, and counts its reports.
struct Parser { rest: Ghost<Seq<Word>>, reports: Ghost<nat> }
spec fn kind_of(w: Word) -> TokenKind { match w { Word::Name(_) => TokenKind::Name, Word::Question => TokenKind::QuestionMark, Word::Space => TokenKind::Whitespace } }
spec fn unspaced(s: Seq<Word>) -> Seq<Word> decreases s.len() { if s.len() > 0 && s[0] is Space { unspaced(s.skip(1)) } else { s } }
impl Parser {
    #[verifier::external_body]
    fn skip_whitespace(&mut self) ensures final(self).rest@ == unspaced(old(self).rest@), final(self).reports@ == old(self).reports@ { }
    #[verifier::external_body]
    fn expect_poll_kind(&mut self, k: TokenKind) -> (r: Reported<Token>)
        ensures
            (old(self).rest@.len() > 0 && kind_of(old(self).rest@[0]) == k) ==> r is Ok && r->Ok_0.w@ == old(self).rest@[0] && r->Ok_0.kind == k && final(self).rest@ == old(self).rest@.skip(1) && final(self).reports@ == old(self).reports@,
            !(old(self).rest@.len() > 0 && kind_of(old(self).rest@[0]) == k) ==> r is Err && final(self).reports@ > old(self).reports@,
    { unimplemented!() }
    #[verifier::external_body]
    fn peek(&self) -> (r: Option<Token>)
        ensures self.rest@.len() == 0 ==> r is None, self.rest@.len() > 0 ==> r is Some && r->Some_0.w@ == self.rest@[0] && r->Some_0.kind == kind_of(self.rest@[0]),
    { unimplemented!() }
    #[verifier::external_body]
    fn poll(&mut self) -> (r: Option<Token>)
        ensures old(self).rest@.len() > 0 ==> final(self).rest@ == old(self).rest@.skip(1), final(self).reports@ == old(self).reports@, old(self).rest@.len() == 0 ==> final(self).rest@ == old(self).rest@,
    { unimplemented!() }
    #[verifier::external_body]
    fn tok_str(&self, t: Token) -> (r: &str) ensures r@ == word_text(t.w@) { unimplemented!() }
    #[verifier::external_body]
    fn report<E>(&mut self, e: E, r: SourceRange) ensures final(self).rest@ == old(self).rest@, final(self).reports@ == old(self).reports@ + 1 { }
'''

THEOREM = r'''
/// The last words of a written type which are still to be read, after the
/// type `done` has been read.
spec fn suffix(t: Type, done: Type) -> Option<Seq<Word>> decreases t {
    if t == done { Some(Seq::empty()) } else {
        match t {
            Type::Dict(u) => match suffix(*u, done) { Some(s) => Some(s.push(Word::Space).push(Word::Name("dict"@))), None => None },
            Type::List(u) => match suffix(*u, done) { Some(s) => Some(s.push(Word::Space).push(Word::Name("list"@))), None => None },
            Type::Optional(u) => match suffix(*u, done) { Some(s) => Some(s.push(Word::Question)), None => None },
            _ => None,
        }
    }
}
/// The innermost type, whose name is written first.
spec fn core(t: Type) -> Type decreases t { match t { Type::Dict(u) | Type::List(u) | Type::Optional(u) => core(*u), _ => t } }
spec fn depth(t: Type) -> nat decreases t { match t { Type::Dict(u) | Type::List(u) | Type::Optional(u) => depth(*u) + 1, _ => 0 } }
proof fn lemma_core(t: Type)
    ensures suffix(t, core(t)) is Some, words(t) =~= words(core(t)) + suffix(t, core(t))->Some_0, depth(core(t)) == 0, words(core(t)).len() == 1, normal_type(t) ==> normal_type(core(t)),
    decreases t,
{
    match t { Type::Dict(u) | Type::List(u) | Type::Optional(u) => { lemma_core(*u); lemma_depth(*u); lemma_depth(t); }, _ => {} }
}
proof fn lemma_depth(t: Type) ensures depth(core(t)) == 0, depth(core(t)) <= depth(t) decreases t { match t { Type::Dict(u) | Type::List(u) | Type::Optional(u) => { lemma_depth(*u); }, _ => {} } }
/// One step of reading: the next constructor around what was read.
spec fn next(t: Type, done: Type) -> Type decreases t {
    match t { Type::Dict(u) | Type::List(u) | Type::Optional(u) => if *u == done { t } else { next(*u, done) }, _ => t }
}
proof fn lemma_next(t: Type, done: Type)
    requires suffix(t, done) is Some, t != done, normal_type(t),
    ensures
        suffix(t, next(t, done)) is Some, normal_type(next(t, done)),
        next(t, done) == Type::Dict(Box::new(done)) ==> suffix(t, done)->Some_0 =~= seq![Word::Space, Word::Name("dict"@)] + suffix(t, next(t, done))->Some_0,
        next(t, done) == Type::List(Box::new(done)) ==> suffix(t, done)->Some_0 =~= seq![Word::Space, Word::Name("list"@)] + suffix(t, next(t, done))->Some_0,
        next(t, done) == Type::Optional(Box::new(done)) ==> suffix(t, done)->Some_0 =~= seq![Word::Question] + suffix(t, next(t, done))->Some_0,
        next(t, done) == Type::Dict(Box::new(done)) || next(t, done) == Type::List(Box::new(done)) || next(t, done) == Type::Optional(Box::new(done)),
        depth(next(t, done)) == depth(done) + 1, depth(next(t, done)) <= depth(t),
    decreases t,
{
    match t {
        Type::Dict(u) | Type::List(u) | Type::Optional(u) => {
            if *u == done {} else { lemma_next(*u, done); if next(t, done) == t { assert(depth(next(*u, done)) <= depth(*u)); } }
        },
        _ => {},
    }
}
proof fn lemma_names()
    ensures NAMES
{ REVEAL }
proof fn lemma_last(t: Type) ensures words(t).len() > 0, t is Dict ==> words(t).last() == Word::Name("dict"@) && words(t).len() > 1, t is List ==> words(t).last() == Word::Name("list"@) && words(t).len() > 1, t is Optional ==> words(t).last() is Question && words(t).len() > 1, !(t is Dict || t is List || t is Optional) ==> words(t).len() == 1 decreases t {
    match t { Type::Dict(u) | Type::List(u) | Type::Optional(u) => { lemma_last(*u); }, _ => {} }
}
/// Different types are written differently.
proof fn lemma_injective(a: Type, b: Type)
    requires words(a) == words(b),
    ensures a == b,
    decreases a,
{
    lemma_names(); lemma_last(a); lemma_last(b);
    match (a, b) {
        (Type::Dict(u), Type::Dict(v)) | (Type::List(u), Type::List(v)) => { assert(words(*u) =~= words(a).drop_last().drop_last()); assert(words(*v) =~= words(b).drop_last().drop_last()); lemma_injective(*u, *v); },
        (Type::Optional(u), Type::Optional(v)) => { assert(words(*u) =~= words(a).drop_last()); assert(words(*v) =~= words(b).drop_last()); lemma_injective(*u, *v); },
        _ => { assert(words(a)[0] == words(b)[0]); assert(words(a).last() == words(b).last()); },
    }
}
proof fn lemma_len(t: Type, done: Type) requires suffix(t, done) is Some ensures depth(done) <= depth(t), t == done <==> suffix(t, done)->Some_0.len() == 0, depth(done) == depth(t) ==> t == done decreases t {
    match t { Type::Dict(u) | Type::List(u) | Type::Optional(u) => { if t != done { lemma_len(*u, done); } }, _ => {} }
}
'''


WORDS = 'any html block inline none bool int str function regex dict list'.split()


def names(s):
    import itertools
    ne = ', '.join(f'"{a}"@ != "{b}"@' for a, b in itertools.combinations(WORDS + ['?'], 2))
    rev = ' '.join(f'reveal_strlit("{a}");' for a in WORDS + ['?'])
    # texts of the same length differ in a character
    diff = ''
    for a, b in itertools.combinations(WORDS, 2):
        if len(a) == len(b):
            k = next(i for i in range(len(a)) if a[i] != b[i])
            diff += f' assert("{a}"@[{k}] != "{b}"@[{k}]);'
    return s.replace('NAMES', ne + ', "?"@ =~= seq![\'?\'],').replace('REVEAL', rev + diff)


def parsing():
    u = Unit('parsing')
    type_enum(u)
    u.text(STR_EQ + 'impl Type {')
    type_fns(u, ['dict', 'list', 'option', 'unit_is_assignable'])
    u.text('}' + WRITE + names(THEOREM) + PARSER)
    f = u.fn(T, 'parse_type', impl="^impl < 'a > Parser < 'a >$")
    f.sub('while let Some ( group_tok ) = { self . skip_whitespace ( ) ; self . poll_if ( | _self , t | $c ) } $b',
          '''loop {
            self.skip_whitespace();
            let polled = match self.peek() { Some(t) => if $c { self.poll(); Some(t) } else { None }, None => None };
            match polled { None => break, Some(group_tok) => $b }
        }''', 1)
    f.attr('#[verifier::exec_allows_no_decreases_clause]')
    f.ensures('forall|t: Type| #![trigger words(t)] normal_type(t) && old(self).rest@ == words(t) ==> r is Ok && r->Ok_0.0 == t && final(self).reports@ == old(self).reports@')
    f.start('''let ghost good = exists|t: Type| #![trigger words(t)] normal_type(t) && self.rest@ == words(t);
        let ghost target = choose|t: Type| #![trigger words(t)] normal_type(t) && self.rest@ == words(t);
        let ghost reports = self.reports@;
        proof {
            lemma_names();
            lemma_core(target);
            assert forall|t: Type| #![trigger words(t)] good && words(t) == words(target) implies t == target by { lemma_injective(t, target); }
            if good { assert(self.rest@ =~= words(core(target)) + suffix(target, core(target))->Some_0); assert(self.rest@[0] == words(core(target))[0]); assert(self.rest@.skip(1) =~= suffix(target, core(target))->Some_0); }
        }''')
    f.loop(0, invariant=['good ==> normal_type(target) && normal_type(t) && suffix(target, t) is Some && self.rest@ =~= suffix(target, t)->Some_0 && self.reports@ == reports'],
        ensures=['good ==> t == target && self.reports@ == reports'])
    f.loop_start(0, '''proof { lemma_names();
            if good {
                lemma_len(target, t);
                if t != target {
                    lemma_next(target, t);
                    let rest = self.rest@; let more = suffix(target, next(target, t))->Some_0;
                    if rest[0] is Space { assert(unspaced(rest.skip(1)) == rest.skip(1)); assert(rest.skip(1).skip(1) =~= more); }
                    else { assert(rest.skip(1) =~= more); }
                } else { assert(self.rest@ =~= Seq::empty()); }
            }
        }''')
    u.text('}')
    return u

UNITS = [types_, parsing]

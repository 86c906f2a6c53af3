"""C01: tokenizing is total and the tokens tile the text."""
from vx import Unit
from contracts.liblex import *
from contracts import c02

SHIMS = r'''
#[derive(Clone, Copy)]
struct SourceFileID { n: u64 }
struct SourceFile { id: SourceFileID, x: u64 }
impl SourceFile { uninterp spec fn text(&self) -> Seq<char>; }
#[verifier::external_body]
fn text_of(f: &Rc<SourceFile>) -> (r: &str) ensures r@ == f.text() { unimplemented!() }
/// The reports, in order.
struct Diagnostics { log: Ghost<Seq<(SyntaxError, SourceRange)>>, x: u64 }
impl Diagnostics {
    #[verifier::external_body]
    fn report_static(&mut self, e: SyntaxError, src: Rc<SourceFile>, range: SourceRange) ensures final(self).log@ == old(self).log@.push((e, range)) { unimplemented!() }
}
#[verifier::external_body]
fn take_error(e: &mut Option<SyntaxError>) -> (r: Option<SyntaxError>) ensures r == *old(e), *final(e) is None { e.take() }
#[verifier::external_body]
fn ice(s: &str) requires false { unimplemented!() }
/// What C02 proves of it.
#[verifier::external_body]
fn next_token(src: &str, error: &mut Option<SyntaxError>) -> (r: (usize, TokenKind))
    requires src@.len() > 0
    ensures is_b(src@, r.0 as int), 0 < idx(src@, r.0 as int) == lex(src@).0, r.1 == lex(src@).1, *final(error) == (match lex(src@).2 { Some(e) => Some(e), None => *old(error) })
{ unimplemented!() }
'''

SPEC = r'''
spec fn dir_after(k: TokenKind) -> QuoteDir {
    match k { TokenKind::Equals | TokenKind::LBrace | TokenKind::LPar | TokenKind::LSqb | TokenKind::RAngle | TokenKind::Newline | TokenKind::Whitespace => QuoteDir::Left, _ => QuoteDir::Right }
}
spec fn ws(t: Token) -> bool { t.kind == TokenKind::Whitespace || t.kind == TokenKind::Newline }
spec fn quoted(k: TokenKind, d: QuoteDir) -> TokenKind { match k { TokenKind::Quote(q, _) => TokenKind::Quote(q, d), _ => k } }
spec fn begin(all: Seq<Token>, j: int) -> int { if j == 0 { 0 } else { all[j - 1].range.end as int } }
spec fn dir(all: Seq<Token>, j: int) -> QuoteDir { if j == 0 { QuoteDir::Left } else { dir_after(all[j - 1].kind) } }
spec fn at(s: Seq<char>, all: Seq<Token>, j: int) -> Lexeme { lex(s.skip(idx(s, begin(all, j)))) }
/// The j-th token starts where the one before ends, is not empty, ends at a character boundary, and is the token at the start of the rest of the text.
spec fn piece(s: Seq<char>, all: Seq<Token>, j: int) -> bool {
    let (b, e) = (all[j].range.start as int, all[j].range.end as int);
    b == begin(all, j) && b < e && is_b(s, b) && is_b(s, e) && idx(s, b) < idx(s, e) && idx(s, e) == idx(s, b) + at(s, all, j).0 && all[j].kind == quoted(at(s, all, j).1, dir(all, j))
}
spec fn pieces(s: Seq<char>, all: Seq<Token>) -> bool { forall|j: int| 0 <= j < all.len() ==> #[trigger] piece(s, all, j) }
spec fn tiles(s: Seq<char>, all: Seq<Token>) -> bool { pieces(s, all) && begin(all, all.len() as int) == blen(s) }
/// The errors of the tokens, each at its token.
spec fn errors(s: Seq<char>, all: Seq<Token>) -> Seq<(SyntaxError, SourceRange)> decreases all.len() {
    if all.len() == 0 { Seq::empty() } else { let rest = errors(s, all.drop_last()); match at(s, all, all.len() - 1).2 { Some(e) => rest.push((e, all.last().range)), None => rest } }
}
/// Without the comments (if so wanted), white space which meets white space is one token.
spec fn kept(all: Seq<Token>, strip: bool) -> Seq<Token> decreases all.len() {
    if all.len() == 0 { Seq::empty() } else {
        let rest = kept(all.drop_last(), strip);
        let t = all.last();
        if strip && t.kind == TokenKind::Comment { rest } else if rest.len() > 0 && ws(t) && ws(rest.last()) { if t.kind == TokenKind::Newline { rest.drop_last().push(t) } else { rest } } else { rest.push(t) }
    }
}
/// Two white space tokens are never adjacent.
proof fn lemma_not_adjacent(all: Seq<Token>, strip: bool, j: int) requires 0 <= j, j + 1 < kept(all, strip).len() ensures !(ws(kept(all, strip)[j]) && ws(kept(all, strip)[j + 1])) decreases all.len() {
    let rest = kept(all.drop_last(), strip);
    if j + 1 < rest.len() { lemma_not_adjacent(all.drop_last(), strip, j); }
}
/// White space and comments which contain a paragraph break leave a paragraph break.
spec fn has_break(all: Seq<Token>) -> bool decreases all.len() { all.len() > 0 && (all.last().kind == TokenKind::Newline || ((ws(all.last()) || all.last().kind == TokenKind::Comment) && has_break(all.drop_last()))) }
proof fn lemma_break(all: Seq<Token>) requires has_break(all) ensures kept(all, true).len() > 0, kept(all, true).last().kind == TokenKind::Newline decreases all.len() { if all.last().kind != TokenKind::Newline { lemma_break(all.drop_last()); } }
/// Only white space next to white space and comments are dropped.
proof fn lemma_kept_all(all: Seq<Token>) requires forall|j: int| 0 < j < all.len() ==> !(ws(#[trigger] all[j]) && ws(all[j - 1])) ensures kept(all, false) == all decreases all.len() {
    if all.len() > 0 { lemma_kept_all(all.drop_last()); assert(all.drop_last().push(all.last()) =~= all); } else { assert(kept(all, false) =~= all); }
}
proof fn lemma_run_end(s: Seq<char>, k: Class) ensures 0 <= run(s, k) <= s.len(), run(s, k) < s.len() ==> !within(k, s[run(s, k)]) decreases s.len() { if s.len() > 0 && within(k, s[0]) { lemma_run_end(s.skip(1), k); } }
proof fn lemma_ws_lex(s: Seq<char>) requires s.len() > 0, lex(s).1 == TokenKind::Whitespace || lex(s).1 == TokenKind::Newline ensures is_white(s[0]), lex(s).0 <= s.len(), lex(s).0 < s.len() ==> !is_white(s[lex(s).0]) { lemma_run_end(s.skip(1), Class::White); }
/// In a tiling two white space tokens are not adjacent.
proof fn lemma_ws_apart(s: Seq<char>, all: Seq<Token>, j: int) requires pieces(s, all), 0 < j < all.len() ensures !(ws(all[j]) && ws(all[j - 1])) {
    assert(piece(s, all, j)); assert(piece(s, all, j - 1));
    if ws(all[j]) && ws(all[j - 1]) {
        let a = s.skip(idx(s, begin(all, j - 1))); let b = s.skip(idx(s, begin(all, j)));
        bounds::lemma_b_range(s, all[j].range.end as int); bounds::lemma_b_range(s, all[j - 1].range.start as int);
        lemma_ws_lex(a); lemma_ws_lex(b);
        assert(b[0] == a[lex(a).0]);
    }
}
/// The pieces and their errors do not change when one is added.
proof fn lemma_add(s: Seq<char>, all: Seq<Token>, t: Token) requires pieces(s, all), piece(s, all.push(t), all.len() as int) ensures pieces(s, all.push(t)), all.push(t).drop_last() == all {
    assert(all.push(t).drop_last() =~= all);
    assert forall|j: int| 0 <= j < all.push(t).len() implies #[trigger] piece(s, all.push(t), j) by { if j < all.len() { assert(piece(s, all, j)); } }
}
'''


def tokenize():
    u = Unit('tokenize')
    kinds(u)
    u.text(LEX)
    u.item('src/utils/sourcefile.rs', 'struct', 'SourceRange', attrs='#[derive(Clone, Copy)]')
    u.item(TOKEN, 'struct', 'Token', attrs='#[derive(Clone, Copy)]')
    u.text('use std::rc::Rc;' + SHIMS + SPEC)
    u.text('impl Token {')
    u.fn(TOKEN, 'is_whitespace', impl='^impl Token$').ensures('r == ws(*self)')
    u.text('}')
    f = u.fn(TK, 'tokenize')
    f.sub('errors ::', '', 0).sub('& mut Diagnostics', '&mut Diagnostics', 0)
    f.sub('src . src . as_ref ( )', 'text_of(&src)', 0).sub('src_str . len ( )', 'str_len(src_str)', 0)
    f.sub('& src_str [ $a .. ]', 'tail(src_str, $a)', 0)
    f.sub('| $i:e | error_kind = Some ( $i:e2 )', '&mut error_kind', 1)
    f.sub('std :: mem :: take ( & mut error_kind )', 'take_error(&mut error_kind)', 0)
    f.sub('if let TokenKind :: Quote ( _ , ref mut $i:d ) = kind { * $i:d2 = $x ; }', 'if let TokenKind::Quote(q, _) = kind { kind = TokenKind::Quote(q, $x); }', 0)
    f.requires('blen(src.text()) < u32::MAX')
    f.ensures('exists|all: Seq<Token>| tiles(src.text(), all) && #[trigger] kept(all, strip_comments) == r@ && (!strip_comments ==> r@ == all) && final(diagnostics).log@ == old(diagnostics).log@ + errors(src.text(), all)')
    f.start('broadcast use bounds::group_bounds; let ghost s = src.text(); let ghost mut all: Seq<Token> = Seq::empty();')
    f.loop(0, invariant=['s == src.text() && src_str@ == s && blen(s) < u32::MAX', 'cur == begin(all, all.len() as int) && is_b(s, cur as int) && cur <= blen(s)', 'pieces(s, all)', 'quote_dir == dir(all, all.len() as int)', 'error_kind is None', 'tokens@ == kept(all, strip_comments)', 'diagnostics.log@ == old(diagnostics).log@ + errors(s, all)'], decreases='blen(s) - cur')
    f.before('if len == 0', 'proof { let t = s.skip(idx(s, cur as int)); assert(is_b(t, len as int)); bounds::lemma_b_range(t, len as int); bounds::lemma_b_add(s, cur as int, len as int); assert(is_b(s, cur + len)); assert(cur + len <= blen(s)); }')
    f.before('quote_dir = match kind', 'proof { assert(piece(s, all.push(tok), all.len() as int)); lemma_add(s, all, tok); all = all.push(tok); }')
    f.before('tokens }', 'proof { assert forall|j: int| 0 < j < all.len() implies !(ws(#[trigger] all[j]) && ws(all[j - 1])) by { lemma_ws_apart(s, all, j); } if !strip_comments { lemma_kept_all(all); } assert(tiles(s, all)); }')
    return u


UNITS = [tokenize] + c02.UNITS

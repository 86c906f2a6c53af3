"""`write!` and `writeln!`: the pieces of the literal and the arguments, one
after the other, to a writer which stops at the first error."""
import re
from vx import AnchorLost, lex, match_close

WRITER = r'''
/// What std writes for a text.
trait Shown { spec fn shown(&self) -> Seq<char>; }
impl Shown for str { spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for String { spec fn shown(&self) -> Seq<char> { self@ } }
impl Shown for Rc<str> { spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: Shown + ?Sized> Shown for &T { spec fn shown(&self) -> Seq<char> { (**self).shown() } }
struct IoError { e: u8 }
type IoResult = Result<(), IoError>;
/// An io::Write, with the text written to it so far.
struct Writer { text: Ghost<Seq<char>>, x: u64 }
impl Writer {
    #[verifier::external_body]
    fn put<T: Shown + ?Sized>(&mut self, t: &T) -> (r: IoResult) ensures r is Ok ==> final(self).text@ == old(self).text@ + t.shown() { unimplemented!() }
}
'''


def args_of(toks):
    out, cur, d = [], [], 0
    for t in toks:
        d += t.s in '([{' if len(t.s) == 1 else 0
        d -= t.s in ')]}' if len(t.s) == 1 else 0
        if t.s == ',' and d == 0:
            out.append(cur); cur = []
        else:
            cur.append(t)
    return out + [cur] if cur else out


def expand_write(f):
    i = 0
    while i < len(f.toks):
        t = f.toks[i]
        if t.s in ('write', 'writeln') and f.toks[i + 1].s == '!' and f.toks[i + 2].s == '(':
            e = match_close(f.toks, i + 2)
            args = [' '.join(x.s for x in a) for a in args_of(f.toks[i + 3:e])]
            lit, rest = '', []
            if len(args) > 1:
                if not (args[1].startswith('"') and args[1].endswith('"')):
                    raise AnchorLost('write! of an unexpected form')
                lit, rest = args[1][1:-1], args[2:]
            if t.s == 'writeln':
                lit += '\\n'
            lit = re.sub(r'\\u\{(\w+)\}', lambda m: chr(int(m[1], 16)), lit)
            parts = re.split(r'(\{\w*\})', lit)
            if any(c in p for p in parts[0::2] for c in '{}'):
                raise AnchorLost('write! of an unexpected form')
            code = 'Ok(())'
            n = 0
            exprs = []
            for k, p in enumerate(parts):
                if k % 2 == 0:
                    if p:
                        exprs.append(('"' + p + '"', True))
                elif p == '{}':
                    if n >= len(rest):
                        raise AnchorLost('write! of an unexpected form')
                    exprs.append(('&' + rest[n], False)); n += 1
                else:
                    exprs.append(('&' + p[1:-1], False))
            if n != len(rest):
                raise AnchorLost('write! of an unexpected form')
            for x, lit in reversed(exprs):
                code = ('{ proof { reveal_strlit(%s); } ' % x if lit else '{ ') + 'match %s.put(%s) { Ok(_) => %s, Err(e) => Err(e) } }' % (args[0], x, code)
            f.toks[i:e + 1] = lex('(' + code + ')')
            f.subs.append((t.s + '!(w, "..", x..)', 'put of the pieces and the arguments', 1))
        i += 1

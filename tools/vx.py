"""Mechanical extraction of functions from /repo into a Verus file.

Nothing here knows any property. A contract module (contracts/cNN.py) names
items of /repo; their text is taken from the current working tree on every run
and emitted with contracts, invariants and ghost code added. The executable
text is changed only by the substitutions a contract module declares, which are
recorded and end up in the evidence.
"""
import os, re

REPO = os.environ.get('VERIF_REPO', '/repo')


class AnchorLost(Exception):
    """The code no longer has the shape which a contract is attached to."""


# ---------------------------------------------------------------- lexing

class Tok:
    __slots__ = ('k', 's', 'ws', 'line')

    def __init__(self, k, s, ws, line=0):
        self.k, self.s, self.ws, self.line = k, s, ws, line

    def __repr__(self):
        return f'{self.k}:{self.s}'


_lex_re = re.compile(r'''
  (?P<ws>\s+)
| (?P<lc>//[^\n]*)
| (?P<bc>/\*)
| (?P<rstr>b?r(?P<h>\#*)"[\s\S]*?"(?P=h))
| (?P<str>b?"(?:[^"\\]|\\[\s\S])*")
| (?P<chr>b?'(?:[^'\\\n]|\\(?:u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.))')
| (?P<life>'[A-Za-z_]\w*)
| (?P<num>\d(?:[\w]|\.(?=\d))*)
| (?P<id>[A-Za-z_]\w*)
| (?P<p>[^\s\w])
''', re.X)


def lex(text):
    toks, i, ws, line = [], 0, '', 1
    while i < len(text):
        m = _lex_re.match(text, i)
        if not m:
            raise AnchorLost(f'cannot lex at {text[i:i+30]!r}')
        k = m.lastgroup if m.lastgroup != 'h' else 'rstr'
        if m.group('rstr'):
            k = 'rstr'
        s = m.group(0)
        if k == 'ws':
            ws += s
        elif k == 'lc':
            pass
        elif k == 'bc':
            depth, j = 1, i + 2
            while depth and j < len(text):
                if text.startswith('/*', j):
                    depth += 1; j += 2
                elif text.startswith('*/', j):
                    depth -= 1; j += 2
                else:
                    j += 1
            s = text[i:j]
            ws += ' '
        else:
            if k in ('rstr', 'str'):
                k = 'str'
            toks.append(Tok(k, s, ws, line))
            ws = ''
        line += s.count('\n')
        i += len(s)
    return toks


OPEN = {'(': ')', '[': ']', '{': '}'}
CLOSE = set(OPEN.values())


def match_close(toks, i):
    """Index of the bracket closing the one at i."""
    depth = 0
    for j in range(i, len(toks)):
        if toks[j].k == 'p':
            if toks[j].s in OPEN:
                depth += 1
            elif toks[j].s in CLOSE:
                depth -= 1
                if depth == 0:
                    return j
    raise AnchorLost('unbalanced brackets')


def text_of(toks):
    return ''.join(t.ws + t.s for t in toks)


def flat(toks):
    return ' '.join(t.s for t in toks)


# ---------------------------------------------------------------- patterns

def parse_pat(p):
    """A pattern is Rust text in which `$name` stands for a balanced, non-empty
    run of tokens, and `$name?` for a possibly empty one; `$i:name` stands for
    one identifier."""
    out, i = [], 0
    toks = lex(p)
    while i < len(toks):
        t = toks[i]
        if t.s == '$' and i + 1 < len(toks) and toks[i + 1].k == 'id' and toks[i + 1].ws == '':
            name = toks[i + 1].s
            i += 2
            ident = False
            if name == 'i' and i + 1 < len(toks) and toks[i].s == ':' and toks[i + 1].k == 'id':
                name = toks[i + 1].s
                ident = True
                i += 2
            opt = i < len(toks) and toks[i].s == '?' and toks[i].ws == ''
            if opt:
                i += 1
            out.append(('var', name, opt, ident))
        else:
            out.append(('tok', t.s))
            i += 1
    return out


def match_at(pat, toks, i, env=None, pi=0):
    """Matches pat[pi:] at toks[i:]; gives (end, env) or None."""
    env = dict(env or {})
    while pi < len(pat):
        p = pat[pi]
        if p[0] == 'tok':
            if i >= len(toks) or toks[i].s != p[1]:
                return None
            i += 1
            pi += 1
            continue
        _, name, opt, ident = p
        if ident:
            if i >= len(toks) or toks[i].k != 'id':
                return None
            if name in env:
                if flat(env[name]) != toks[i].s:
                    return None
            env[name] = [toks[i]]
            i += 1
            pi += 1
            continue
        j = i
        if name in env:
            n = len(env[name])
            if flat(toks[i:i + n]) != flat(env[name]):
                return None
            i += n
            pi += 1
            continue
        first = True
        while True:
            if (opt or not first):
                e2 = dict(env)
                e2[name] = toks[i:j]
                r = match_at(pat, toks, j, e2, pi + 1)
                if r:
                    return r
            first = False
            if j >= len(toks):
                return None
            if toks[j].k == 'p' and toks[j].s in OPEN:
                j = match_close(toks, j) + 1
            elif toks[j].k == 'p' and toks[j].s in CLOSE:
                return None
            elif toks[j].s == ';' and not name.startswith('body'):
                return None
            else:
                j += 1
    return i, env


def fill(repl, env, ws):
    def f(m):
        n = m.group(1)
        return text_of(env[n]).strip() if n in env else m.group(0)
    s = re.sub(r'\$([A-Za-z_]\w*)', f, repl)
    toks = lex(s)
    if toks:
        toks[0].ws = ws
    return toks


# ---------------------------------------------------------------- items

class File:
    cache = {}

    def __init__(self, path):
        self.path = path
        m = re.fullmatch(r'(\S+)!(\w+)\((\S+)\)', path)
        if m:
            # the expansion of a macro: DEFINITION!NAME(CALL)
            import macros
            self.toks = macros.expand(m.group(1), m.group(2), m.group(3))
            self.text = text_of(self.toks)
            return
        full = os.path.join(REPO, path)
        try:
            self.text = open(full, encoding='utf-8').read()
        except OSError as e:
            raise AnchorLost(f'{path}: {e}')
        self.toks = lex(self.text)

    @staticmethod
    def get(path):
        if path not in File.cache:
            File.cache[path] = File(path)
        return File.cache[path]

    def blocks(self, lo=0, hi=None):
        """Yields items between lo and hi: (kind, name-or-header, start, hdr_end, end)."""
        toks = self.toks
        hi = len(toks) if hi is None else hi
        i = lo
        while i < hi:
            t = toks[i]
            if t.s == '#' and i + 1 < hi and toks[i + 1].s in ('[', '!'):
                j = i + 1 if toks[i + 1].s == '[' else i + 2
                i = match_close(toks, j) + 1
                continue
            # visibility
            s = i
            if t.s == 'pub':
                i += 1
                if i < hi and toks[i].s == '(':
                    i = match_close(toks, i) + 1
                if i >= hi:
                    return
                t = toks[i]
            if t.s in ('const', 'static') and toks[i + 1].s == 'fn':
                i += 1
                t = toks[i]
            if t.s in ('fn', 'impl', 'struct', 'enum', 'mod', 'trait', 'const', 'static', 'use', 'type', 'macro_rules', 'unsafe', 'union') or (t.k == 'id' and i + 1 < hi and toks[i + 1].s == '!'):
                j = i
                depth = 0
                while j < hi:
                    x = toks[j].s
                    if toks[j].k == 'p' and x in ('(', '['):
                        j = match_close(toks, j) + 1
                        continue
                    if toks[j].k == 'p' and x == '{':
                        e = match_close(toks, j)
                        if t.s in ('const', 'static', 'use', 'type'):
                            j = e + 1
                            continue
                        break
                    if x == ';':
                        e = j
                        break
                    j += 1
                else:
                    return
                yield (t.s if t.s != 'macro_rules' else 'macro', i, j, e)
                i = e + 1
                if i < hi and toks[i].s == ';':
                    i += 1
                continue
            i += 1

    def find_fn(self, name, impl=None):
        """Finds a function; `impl` is a regex on the impl or macro header."""
        cands = []
        for kind, i, j, e in self.blocks():
            if kind == 'fn' and impl is None and self.toks[i + 1].s == name:
                cands.append((i, j, e))
            elif impl is not None and (kind == 'mod' if impl.startswith('^mod ') else kind not in ('fn', 'mod')) and self.toks[j].s == '{':
                hdr = flat(self.toks[i:j])
                if re.search(impl, hdr):
                    for k2, i2, j2, e2 in self.blocks(j + 1, e):
                        if k2 == 'fn' and self.toks[i2 + 1].s == name:
                            cands.append((i2, j2, e2))
        if len(cands) != 1:
            raise AnchorLost(f'{self.path}: {len(cands)} functions {name} (impl {impl})')
        return cands[0]

    def fn_names(self, impl=None):
        out = []
        for kind, i, j, e in self.blocks():
            if kind == 'fn' and impl is None:
                out.append(self.toks[i + 1].s)
            elif impl is not None and kind == 'impl' and re.search(impl, flat(self.toks[i:j])):
                out += [self.toks[i2 + 1].s for k2, i2, j2, e2 in self.blocks(j + 1, e) if k2 == 'fn']
        return out

    def find_item(self, kind, name):
        lo, hi, inner = 0, None, name.rpartition('::')
        if inner[0]:
            (lo, hi), = [(j + 1, e) for k, i, j, e in self.blocks() if k == 'mod' and self.toks[i + 1].s == inner[0]] or [(0, 0)]
        cands = [(i, j, e) for k, i, j, e in self.blocks(lo, hi) if k == kind and self.toks[i + 1].s == inner[2]]
        if len(cands) != 1:
            raise AnchorLost(f'{self.path}: {len(cands)} items {kind} {name}')
        return cands[0]


def strip_attrs(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == '#' and i + 1 < len(toks) and toks[i + 1].s == '[':
            i = match_close(toks, i + 1) + 1
            continue
        out.append(toks[i])
        i += 1
    return out


def strip_vis(toks):
    out, i = [], 0
    while i < len(toks):
        if toks[i].s == 'pub':
            i += 1
            if i < len(toks) and toks[i].s == '(' and toks[i + 1].s in ('crate', 'super', 'self', 'in'):
                i = match_close(toks, i) + 1
            continue
        out.append(toks[i])
        i += 1
    return out


class Raw(Tok):
    """Inserted ghost text."""
    def __init__(self, s):
        super().__init__('raw', s, '\n')


class Fn:
    def __init__(self, unit, path, name, impl=None, toks=None):
        self.unit, self.path, self.name, self.impl = unit, path, name, impl
        if toks is None:
            f = File.get(path)
            i, j, e = f.find_fn(name, impl)
            toks = f.toks[i:e + 1]
            self.line = toks[0].line
        else:
            self.line = 0
        self.toks = [Tok(t.k, t.s, t.ws, t.line) for t in strip_vis(strip_attrs(toks))]
        self.orig = flat(self.toks)
        self.retname = 'r'
        self.req, self.ens, self.decr, self.attrs, self.nounw = [], [], None, [], False
        self.loops = {}
        self.subs = []
        self.emit_name = name
        self.spec_params = None

    # -- contract pieces
    def ret(self, n): self.retname = n; return self
    def requires(self, *a): self.req += a; return self
    def ensures(self, *a): self.ens += a; return self
    def decreases(self, s): self.decr = s; return self
    def attr(self, s): self.attrs.append(s); return self
    def loop(self, n, invariant=(), decreases=None, it=None, ensures=(), except_break=()):
        if isinstance(invariant, str):
            invariant = [invariant]
        self.loops[n] = (list(invariant), decreases, it, list(ensures), list(except_break))
        return self

    # -- substitutions on the executable text
    def sub(self, pat, repl, n=None, why=None):
        """Replaces every match; `n` = required number of matches (None: at
        least one, 0: any number)."""
        p = parse_pat(pat)
        count = 0
        i = 0
        out = []
        toks = self.toks
        while i < len(toks):
            m = match_at(p, toks, i)
            if m and m[0] > i:
                new = fill(repl, m[1], toks[i].ws)
                # substitute inside captured parts too
                out += new
                i = m[0]
                count += 1
            else:
                out.append(toks[i])
                i += 1
        if (n is None and count == 0) or (n and count != n):
            raise AnchorLost(f'{self.path}::{self.name}: {count} matches of `{pat}`, expected {n or "some"}')
        self.toks = out
        if count:
            self.subs.append((pat, repl, count))
        return self

    def sub_rec(self, pat, repl, n=None):
        """Like sub, repeated until nothing matches (for nested expressions)."""
        self.sub(pat, repl, n)
        for _ in range(10):
            before = flat(self.toks)
            self.sub(pat, repl, 0)
            if flat(self.toks) == before:
                break
        return self

    def find(self, pat, nth=0):
        p = parse_pat(pat)
        hits = []
        for i in range(len(self.toks)):
            m = match_at(p, self.toks, i)
            if m:
                hits.append((i, m[0], m[1]))
        if len(hits) <= nth:
            raise AnchorLost(f'{self.path}::{self.name}: `{pat}` not found')
        return hits[nth]

    def cap(self, pat, var, nth=0):
        """The text captured by a pattern variable."""
        return text_of(self.find(pat, nth)[2][var]).strip()

    def before(self, pat, code, nth=0):
        i, _, _ = self.find(pat, nth)
        self.toks.insert(i, Raw(code)); return self

    def after(self, pat, code, nth=0):
        _, j, _ = self.find(pat, nth)
        self.toks.insert(j, Raw(code)); return self

    def body_open(self):
        for i, t in enumerate(self.toks):
            if t.k == 'p' and t.s in ('(', '['):
                continue
        depth = 0
        i = 0
        while i < len(self.toks):
            t = self.toks[i]
            if t.k == 'p' and t.s in ('(', '['):
                i = match_close(self.toks, i) + 1
                continue
            if t.k == 'p' and t.s == '{':
                return i
            i += 1
        raise AnchorLost('no body')

    def start(self, code):
        self.toks.insert(self.body_open() + 1, Raw(code)); return self

    def end(self, code):
        self.toks.insert(len(self.toks) - 1, Raw(code)); return self

    def loop_sites(self):
        """Indices of loop keywords in the body, with the index of the body brace."""
        out = []
        b = self.body_open()
        i = b
        while i < len(self.toks):
            t = self.toks[i]
            if t.k == 'id' and t.s in ('while', 'for', 'loop') and not (t.s == 'for' and i + 1 < len(self.toks) and self.toks[i + 1].s == '<'):
                j = i + 1
                while not (self.toks[j].k == 'p' and self.toks[j].s == '{'):
                    if self.toks[j].k == 'p' and self.toks[j].s in ('(', '['):
                        j = match_close(self.toks, j) + 1
                    else:
                        j += 1
                out.append((i, j))
            i += 1
        return out

    def loop_start(self, n, code):
        sites = self.loop_sites()
        if n >= len(sites):
            raise AnchorLost(f'{self.path}::{self.name}: no loop {n}')
        self.toks.insert(sites[n][1] + 1, Raw(code)); return self

    def loop_end(self, n, code):
        sites = self.loop_sites()
        if n >= len(sites):
            raise AnchorLost(f'{self.path}::{self.name}: no loop {n}')
        e = match_close(self.toks, sites[n][1])
        self.toks.insert(e, Raw(code)); return self

    def header(self):
        """Splits the header tokens into (before arrow, return type or None)."""
        b = self.body_open()
        h = self.toks[:b]
        i, arrow = 0, None
        while i < len(h):
            if h[i].s in ('(', '['):
                i = match_close(h, i) + 1
                continue
            if h[i].s == '-' and i + 1 < len(h) and h[i + 1].s == '>' and h[i + 1].ws == '':
                # an arrow before the parameters belongs to a bound
                arrow = i
            if h[i].s == 'where':
                break
            i += 1
        if arrow is not None:
            rest = h[arrow + 2:]
            w = next((k for k, t in enumerate(rest) if t.s == 'where'), len(rest))
            return h[:arrow], rest[:w], rest[w:]
        w = next((k for k, t in enumerate(h) if t.s == 'where'), len(h))
        return h[:w], None, h[w:]

    def emit(self, external=False, vacuity=False):
        sites = self.loop_sites()
        if not external and self.loops and set(self.loops) != set(range(len(sites))):
            raise AnchorLost(f'{self.path}::{self.name}: {len(sites)} loops, contract has {len(self.loops)}')
        if not external and not self.loops and sites and not getattr(self, 'uncontracted', False):
            raise AnchorLost(f'{self.path}::{self.name}: {len(sites)} loops without invariants')
        b = self.body_open()
        h, rt, where = self.header()
        out = []
        out += self.attrs
        hdr = text_of(h).strip()
        if self.emit_name != self.name:
            hdr = re.sub(r'\bfn\s+' + self.name + r'\b', 'fn ' + self.emit_name, hdr, count=1)
        if rt is not None:
            hdr += f' -> ({self.retname}: {text_of(rt).strip()})'
        if where:
            hdr += ' ' + text_of(where).strip()
        out.append(hdr)
        if self.req:
            out.append('    requires ' + ',\n        '.join(self.req) + ',')
        if self.ens:
            out.append('    ensures ' + ',\n        '.join(self.ens) + ',')
        if self.decr:
            out.append('    decreases ' + self.decr + ',')
        toks = list(self.toks[b:])
        # loops, from the last to the first so that indices stay valid
        for n in sorted(self.loops, reverse=True):
            inv, dec, it, ens, eb = self.loops[n]
            k, j = sites[n]
            k -= b; j -= b
            clause = ''
            if eb:
                clause += '\n invariant_except_break ' + ',\n   '.join(eb) + ','
            if inv:
                clause += '\n invariant ' + ',\n   '.join(inv) + ','
            if ens:
                clause += '\n ensures ' + ',\n   '.join(ens) + ','
            if dec:
                clause += '\n decreases ' + dec + ','
            ins = [Raw(clause + '\n')]
            if vacuity:
                toks.insert(j + 1, Raw('proof { assert(false); } /* VACUITY */'))
            toks[j:j] = ins
            if it and toks[k].s == 'for':
                q = k
                while toks[q].s != 'in' or toks[q].k != 'id':
                    q += 1
                toks.insert(q + 1, Raw(f' {it}: '))
        if vacuity:
            toks.insert(1, Raw('proof { assert(false); } /* VACUITY */'))
        out.append(text_of(toks).strip())
        return '\n'.join(out)

    def contract_only(self):
        """The function as its callers see it."""
        self.loops, self.attrs = {}, [a for a in self.attrs if 'exec_allows_no_decreases_clause' not in a] + ['#[verifier::external_body]']
        b = self.body_open()
        self.toks, self.decr = self.toks[:b] + lex('{ unimplemented!() }'), None
        return self.emit()

    def calls(self):
        """Names of functions and methods called in the body."""
        b = self.body_open()
        t = self.toks[b:]
        return {t[i].s for i in range(len(t) - 1) if t[i].k == 'id' and t[i + 1].s == '('}


class Unit:
    """One Verus file."""
    def __init__(self, name):
        self.name = name
        self.parts = []      # text, or a Fn, or ('item', text)
        self.fns = []
        self.items = []
        self.helpers = []    # uncontracted functions taken in automatically
        self.rlimit = 60
        self.vacuous_ok = set()
        self.header = '#![feature(allocator_api)]\n#![allow(unused_imports, unused_variables, dead_code, unused_mut)]\nuse vstd::prelude::*;\n'
        self.trusted = []
        self.default_subs = []   # applied to every function of the unit

    def text(self, s):
        self.parts.append(s)

    def fn(self, path, name, impl=None, place=True):
        f = Fn(self, path, name, impl)
        for p, r in self.default_subs:
            f.sub(p, r, 0)
        self.fns.append(f)
        if place:
            self.parts.append(f)
        return f

    def native(self, group, name, sig, params, ret, wrap='', path='src/compiler/native.rs'):
        """The body of a function of `native_defs!` as a function. `sig` is
        its parameter list there; `wrap` is what Value::from does to the body."""
        t = File.get(path).toks
        hits = []
        for i in range(len(t) - 3):
            if t[i].s == 'native_defs' and t[i + 1].s == '!' and t[i + 2].s == '{':
                lo, hi = i + 3, match_close(t, i + 2)
                if group:
                    for j in range(lo, hi):
                        if t[j].s == 'impl' and t[j + 1].s == group:
                            lo = next(k for k in range(j, hi) if t[k].s == '{')
                            hi = match_close(t, lo)
                            break
                    else:
                        raise AnchorLost(f'{path}: no native group {group}')
                j = lo + (1 if group else 0)
                while j < hi:
                    if t[j].s == 'fn' and t[j + 1].s == name:
                        hits.append(j)
                    if t[j].s in '({[' and t[j].k == 'p':
                        j = match_close(t, j)
                    j += 1
        if len(hits) != 1:
            raise AnchorLost(f'{path}: {len(hits)} native functions {group} {name}')
        j = hits[0] + 2
        e = match_close(t, j)
        if flat(t[j + 1:e]) != flat(lex(sig)):
            raise AnchorLost(f'{path}: parameters of {group} {name} are `{flat(t[j + 1:e])}`')
        k = next(q for q in range(e, len(t)) if t[q].s == '{')
        body = t[k:match_close(t, k) + 1]
        emit = f'native_{group}_{name}'.lower()
        f = Fn(self, path, emit, toks=lex(f'fn {emit}({params}) -> PapyriResult<{ret}> {{ let native_value = ') + list(body) + lex(f'; Ok({wrap}(native_value)) }}'))
        f.subs.append((f'native_defs! {group}::{name}({sig})', f'fn {emit}({params}) -> PapyriResult<{ret}>, result {wrap or "unchanged"}', 1))
        for p, r in self.default_subs:
            f.sub(p, r, 0)
        self.fns.append(f)
        self.parts.append(f)
        return f

    def item(self, path, kind, name, subs=(), place=True, attrs='', keep_derive=False):
        fl = File.get(path)
        i, j, e = fl.find_item(kind, name)
        toks = [Tok(t.k, t.s, t.ws, t.line) for t in fl.toks[i:e + 1]]
        if toks[-1].s == ')' or (kind == 'struct' and fl.toks[j].s == ';'):
            pass
        f = Fn.__new__(Fn)
        f.unit, f.path, f.name, f.subs = self, path, name, []
        f.toks = strip_attrs(strip_vis(toks))
        for p, r in subs:
            Fn.sub(f, p, r)
        self.items.append((path, kind, name, f.subs))
        s = (attrs + '\n' if attrs else '') + text_of(f.toks).strip()
        if place:
            self.parts.append(s)
        return s

    def source(self, vacuity=False):
        out = [self.header, 'verus! {']
        for p in self.parts:
            if isinstance(p, Fn):
                out.append(p.emit(vacuity=vacuity and p.name not in self.vacuous_ok))
            elif callable(p):
                out.append(p(vacuity))
            else:
                out.append(p)
        if vacuity:
            # one by one: none follows from another
            n = iter(range(10 ** 6))
            out = [re.sub(r'proof \{ assert\(false\); \} /\* VACUITY', lambda _: f'proof {{ if vacuity__({next(n)}) {{ assert(false); }} }} /* VACUITY', x) for x in out]
            out.append('uninterp spec fn vacuity__(n: int) -> bool;')
        out.append('} // verus!\nfn main() {}')
        # one private module: everything is visible everywhere
        return re.sub(r'\bpub (?=(?:open |closed |axiom |uninterp |const )*(?:spec|proof|fn|struct|enum|type|trait)\b)', '', '\n\n'.join(out).replace('pub open spec', 'spec').replace('pub closed spec', 'spec')) + '\n'

    def auto_helpers(self):
        """Functions of the same file which the extracted text calls, and
        which neither the contract module nor vstd declares, are taken in
        without a contract."""
        declared = set(re.findall(r'\bfn\s+(\w+)', '\n'.join(p for p in self.parts if isinstance(p, str))))
        declared |= {f.name for f in self.fns} | {f.emit_name for f in self.fns}
        todo = list(self.fns)
        while todo:
            f = todo.pop()
            if not f.path:
                continue
            names = set(File.get(f.path).fn_names())
            for c in sorted(f.calls()):
                if c in names and c not in declared:
                    g = Fn(self, f.path, c)
                    g.uncontracted = True
                    declared.add(c)
                    self.helpers.append(c)
                    self.parts.append(g)
                    todo.append(g)

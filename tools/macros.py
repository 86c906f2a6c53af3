"""Expands a macro_rules! macro: the tokens which rustc would compile for one
invocation. Understood: a single rule, the fragments ident, ty, expr, block and
tt, repetitions with a separator of one token or none, and $crate. Anything else
loses the anchor."""


def _cls():
    import vx
    return vx


def parse(toks, lo, hi):
    """A matcher or transcriber as a tree."""
    vx = _cls()
    out, i = [], lo
    while i < hi:
        t = toks[i]
        if t.s == '$' and t.k == 'p':
            n = toks[i + 1]
            if n.s == '(':
                e = vx.match_close(toks, i + 1)
                j = e + 1
                sep = None
                if toks[j].s not in ('*', '+', '?'):
                    sep = toks[j]
                    j += 1
                if toks[j].s not in ('*', '+', '?'):
                    raise vx.AnchorLost('macro: unexpected repetition')
                out.append(('rep', parse(toks, i + 2, e), sep, toks[j].s))
                i = j + 1
            elif n.k == 'id' and n.s == 'crate':
                out.append(('tok', vx.Tok('id', 'crate', t.ws, t.line)))
                i += 2
            elif n.k == 'id':
                if i + 3 < hi and toks[i + 2].s == ':' and toks[i + 2].ws == '' and toks[i + 3].k == 'id' and toks[i + 3].s in ('ident', 'ty', 'expr', 'block', 'tt'):
                    out.append(('var', n.s, toks[i + 3].s, t.ws))
                    i += 4
                else:
                    out.append(('var', n.s, None, t.ws))
                    i += 2
            else:
                raise vx.AnchorLost('macro: unexpected $')
        elif t.s in vx.OPEN and t.k == 'p':
            e = vx.match_close(toks, i)
            out.append(('group', t, parse(toks, i + 1, e), toks[e]))
            i = e + 1
        else:
            out.append(('tok', t))
            i += 1
    return out


def fragment(kind, toks, i, hi):
    """The end of a fragment at i, or None."""
    vx = _cls()
    if i >= hi:
        return None
    if kind == 'ident':
        return i + 1 if toks[i].k == 'id' else None
    if kind == 'block':
        return vx.match_close(toks, i) + 1 if toks[i].s == '{' else None
    if kind == 'tt':
        return vx.match_close(toks, i) + 1 if toks[i].s in vx.OPEN else i + 1
    depth, j = 0, i
    while j < hi:
        s = toks[j].s
        if kind == 'ty' and s == '<':
            depth += 1
        elif kind == 'ty' and s == '>':
            depth -= 1
        elif depth == 0 and (s == ',' or s == ';' or (kind == 'ty' and s in ('=', '{'))):
            break
        elif s in vx.OPEN and toks[j].k == 'p':
            j = vx.match_close(toks, j)
        j += 1
    return j if j > i else None


def match(pat, toks, i, hi):
    """(end, bindings) or None; the repetitions are greedy."""
    vx = _cls()
    env = {}
    for p in pat:
        if p[0] == 'tok':
            if i >= hi or toks[i].s != p[1].s:
                return None
            i += 1
        elif p[0] == 'var':
            e = fragment(p[2], toks, i, hi)
            if e is None:
                return None
            env[p[1]] = toks[i:e]
            i = e
        elif p[0] == 'group':
            if i >= hi or toks[i].s != p[1].s:
                return None
            e = vx.match_close(toks, i)
            m = match(p[2], toks, i + 1, e)
            if not m or m[0] != e:
                return None
            env.update(m[1])
            i = e + 1
        else:
            _, sub, sep, op = p
            each = []
            while True:
                j = i
                if each and sep is not None:
                    if j >= hi or toks[j].s != sep.s:
                        break
                    j += 1
                m = match(sub, toks, j, hi)
                if not m or m[0] == j:
                    break
                each.append(m[1])
                i = m[0]
                if op == '?':
                    break
            if op == '+' and not each:
                return None
            for v in names(sub):
                env[v] = [x[v] for x in each if v in x]
    return i, env


def names(tree):
    out = set()
    for p in tree:
        if p[0] == 'var':
            out.add(p[1])
        elif p[0] == 'group':
            out |= names(p[2])
        elif p[0] == 'rep':
            out |= names(p[1])
    return out


class Rep(list):
    pass


def write(tree, env, depth):
    """`depth` says how often each bound variable is repeated."""
    vx = _cls()
    out = []
    for p in tree:
        if p[0] == 'tok':
            out.append(p[1])
        elif p[0] == 'var':
            if p[1] not in env:
                raise vx.AnchorLost(f'macro: ${p[1]} is not bound')
            if depth[p[1]] != 0:
                raise vx.AnchorLost(f'macro: ${p[1]} is still repeated')
            v = env[p[1]]
            out.append(vx.Tok(v[0].k, v[0].s, p[3], v[0].line))
            out += v[1:]
        elif p[0] == 'group':
            out += [p[1]] + write(p[2], env, depth) + [p[3]]
        else:
            _, sub, sep, op = p
            drive = [v for v in names(sub) if depth.get(v, 0) > 0]
            if not drive:
                raise vx.AnchorLost('macro: a repetition without a variable')
            n = {len(env[v]) for v in drive}
            if len(n) != 1:
                raise vx.AnchorLost('macro: repetitions of different lengths')
            for k in range(n.pop()):
                if k and sep is not None:
                    out.append(sep)
                e2, d2 = dict(env), dict(depth)
                for v in drive:
                    e2[v], d2[v] = env[v][k], depth[v] - 1
                out += write(sub, e2, d2)
    return out


def depths(tree, d=0):
    out = {}
    for p in tree:
        if p[0] == 'var':
            out[p[1]] = d
        elif p[0] == 'group':
            out.update(depths(p[2], d))
        elif p[0] == 'rep':
            out.update(depths(p[1], d + 1))
    return out


def expand(def_path, name, call_path):
    vx = _cls()
    t = vx.File.get(def_path).toks
    at = [i for i in range(len(t) - 3) if t[i].s == 'macro_rules' and t[i + 1].s == '!' and t[i + 2].s == name]
    if len(at) != 1:
        raise vx.AnchorLost(f'{def_path}: {len(at)} definitions of {name}!')
    lo, hi = at[0] + 4, vx.match_close(t, at[0] + 3)
    a = lo
    b = vx.match_close(t, a)
    if flat_arrow(t, b + 1) is False:
        raise vx.AnchorLost('macro: no =>')
    c = b + 3
    d = vx.match_close(t, c)
    if d + 1 < hi and not (d + 2 == hi and t[d + 1].s == ';'):
        raise vx.AnchorLost('macro: several rules')
    u = vx.File.get(call_path).toks
    calls = [i for i in range(len(u) - 2) if u[i].s == name and u[i + 1].s == '!' and u[i + 2].s in vx.OPEN]
    if len(calls) != 1:
        raise vx.AnchorLost(f'{call_path}: {len(calls)} calls of {name}!')
    i = calls[0] + 2
    e = vx.match_close(u, i)
    pat = parse(t, a + 1, b)
    m = match(pat, u, i + 1, e)
    if not m or m[0] != e:
        raise vx.AnchorLost(f'{name}!: the call does not match the rule')
    out = []
    for x in write(parse(t, c + 1, d), m[1], depths(pat)):
        # tokens which came from different places must not run together
        glued = out and not x.ws and x.k in ('id', 'num') and out[-1].k in ('id', 'num')
        out.append(vx.Tok(x.k, x.s, ' ' if glued else x.ws, x.line))
    return out


def flat_arrow(t, i):
    return t[i].s == '=' and t[i + 1].s == '>'

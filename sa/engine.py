"""Guarded value summaries.

For one function the engine computes, by a single structured dataflow pass over
its syntax tree (no path is enumerated, nothing is executed, no solver is
called):
  * a value number (canonical term) for every expression: locals are
    propagated, sums and products are put in a normal form, pointers,
    references, copies and moves are transparent, trivial accessors and
    functions unknown to sa/known_functions.txt (freshly extracted helpers) are
    substituted;
  * for every effect (call, store, return, abort, scope end) the condition under
    which it is reached, as a canonical boolean function (ROBDD) over the
    function's atomic conditions, joined at merge points;
  * the loop domain it is repeated over (elements of a container, an integer
    range, or a general condition), in a form that does not depend on how the
    loop is spelled.
Rules in sa/rules compare those guarded effects with the property's table.
"""
import re, os, sys
from . import front
sys.setrecursionlimit(20000)

# ---------------------------------------------------------------- BDD
_uniq = {}
_nodes = [None, None]           # 0 = false, 1 = true
_atoms = []                     # index -> term
_atomix = {}
_itec = {}


def reset():
    _uniq.clear(); del _nodes[2:]; _atoms.clear(); _atomix.clear(); _itec.clear(); _rc.clear(); _canc.clear(); _hi.clear(); UNSIGNED_HINT.clear()


def _mk(v, lo, hi):
    if lo == hi:
        return lo
    k = (v, lo, hi)
    n = _uniq.get(k)
    if n is None:
        _nodes.append(k)
        n = len(_nodes) - 1
        _uniq[k] = n
    return n


def bite(f, g, h):
    if f == 1: return g
    if f == 0: return h
    if g == h: return g
    if g == 1 and h == 0: return f
    k = (f, g, h)
    r = _itec.get(k)
    if r is not None: return r
    v = min(_nodes[x][0] for x in (f, g, h) if x > 1)

    def co(x, b):
        if x > 1 and _nodes[x][0] == v:
            return _nodes[x][2 if b else 1]
        return x
    r = _mk(v, bite(co(f, 0), co(g, 0), co(h, 0)), bite(co(f, 1), co(g, 1), co(h, 1)))
    _itec[k] = r
    return r


def band(*fs):
    r = 1
    for f in fs: r = bite(r, f, 0)
    return r


def bor(*fs):
    r = 0
    for f in fs: r = bite(r, 1, f)
    return r


def bnot(f): return bite(f, 0, 1)


def bxor(f, g): return bite(f, bnot(g), g)


def bimp(f, g): return bite(f, g, 1)


def bvar(t):
    i = _atomix.get(t)
    if i is None:
        _atoms.append(t)
        i = len(_atoms) - 1
        _atomix[t] = i
    return _mk(i, 0, 1)


def bsupport(f, acc=None):
    seen = set(); out = set(); st = [f]
    while st:
        x = st.pop()
        if x < 2 or x in seen: continue
        seen.add(x)
        v, lo, hi = _nodes[x]
        out.add(v); st += [lo, hi]
    return out


def batoms(f): return [_atoms[i] for i in sorted(bsupport(f))]


def bexists(f, pred):
    """existentially quantify atoms for which pred(term) holds"""
    vs = {i for i in bsupport(f) if pred(_atoms[i])}
    memo = {}

    def go(x):
        if x < 2: return x
        if x in memo: return memo[x]
        v, lo, hi = _nodes[x]
        a, b = go(lo), go(hi)
        r = bor(a, b) if v in vs else bite(_mk(v, 0, 1), b, a)
        memo[x] = r
        return r
    return go(f)


def _cubes(f, lim=12):
    out = []

    def go(x, lits):
        if len(out) >= lim or x == 0: return
        if x == 1:
            out.append(list(lits)); return
        v, lo, hi = _nodes[x]
        go(hi, lits + [(v, True)]); go(lo, lits + [(v, False)])
    go(f, [])
    return out


def bstr(f, lim=8):
    if f == 1: return 'always'
    if f == 0: return 'never'
    cs = _cubes(f, lim + 1)
    s = ' | '.join(' & '.join(('' if b else '!') + show(_atoms[v]) for v, b in c) for c in cs[:lim])
    return s + (' | ...' if len(cs) > lim else '')


_canc = {}


def bcanon(f):
    """order-independent text of a boolean function (Shannon expansion with the
    atoms in the order of their text)"""
    if f == 1: return 'T'
    if f == 0: return 'F'
    r = _canc.get(f)
    if r is not None: return r
    sup = sorted(bsupport(f), key=lambda i: show(_atoms[i]))
    memo = {}

    def cof(x, v, b):
        if x < 2: return x
        k = (x, v, b)
        if k in memo: return memo[k]
        w, lo, hi = _nodes[x]
        if w > v: r = x
        elif w == v: r = hi if b else lo
        else: r = _mk(w, cof(lo, v, b), cof(hi, v, b))
        memo[k] = r
        return r
    sm = {}

    def go(x, i):
        if x < 2: return 'T' if x else 'F'
        k = (x, i)
        if k in sm: return sm[k]
        v = sup[i]
        a, b = cof(x, v, True), cof(x, v, False)
        if a == b: r = go(a, i + 1)
        else:
            t, e = go(a, i + 1), go(b, i + 1)
            s = show(_atoms[v])
            if t == 'T' and e == 'F': r = s
            elif t == 'F' and e == 'T': r = '!' + s
            elif e == 'F': r = s + '&' + t if '?' not in t and '|' not in t else s + '&(' + t + ')'
            elif t == 'F': r = '!' + s + '&' + e if '?' not in e and '|' not in e else '!' + s + '&(' + e + ')'
            elif t == 'T': r = '(' + s + '|' + e + ')'
            elif e == 'T': r = '(!' + s + '|' + t + ')'
            else: r = '(' + s + '?' + t + ':' + e + ')'
        sm[k] = r
        return r
    r = go(f, 0)
    if len(r) > 3000:
        import hashlib
        r = r[:1000] + '...' + hashlib.sha256(r.encode()).hexdigest()[:12]
    _canc[f] = r
    return r


def inner(s, i):
    """the text up to the parenthesis that closes the one before i"""
    d = 1
    for j in range(i, len(s)):
        if s[j] == '(': d += 1
        elif s[j] == ')':
            d -= 1
            if d == 0: return s[i:j]
    return s[i:]


def axioms(f):
    """consistency of the comparison atoms in f's support"""
    sup = [(_atoms[i], i) for i in bsupport(f)]
    ax = 1
    les = {}; lts = {}; eqs = {}
    for t, i in sup:
        n = _mk(i, 0, 1)
        if t[0] == 'le':           # x <= c
            les.setdefault(t[1], []).append((t[2], n))
        elif t[0] == '<':
            lts[(t[1], t[2])] = n
        elif t[0] == '==':
            eqs[(t[1], t[2])] = n
    for x, L in les.items():
        L.sort()
        for (c1, n1), (c2, n2) in zip(L, L[1:]):
            ax = band(ax, bimp(n1, n2))
        if nonneg(x):
            for c, n in L:
                if c < 0: ax = band(ax, bnot(n))
    for k, n in lts.items():
        if k in eqs: ax = band(ax, bnot(band(n, eqs[k])))
    # nothing is found in an empty container
    EX = {}
    for t, i in sup:
        if t[0] == 'exists' and t[1][0] == 'each': EX.setdefault('(%s.size()<=0)' % show(t[1][1]), []).append(_mk(i, 0, 1))
        elif t[0] == 'absent' and t[1].startswith('exists(each('):
            EX.setdefault('(%s.size()<=0)' % inner(t[1], len('exists(each(')), []).append(_mk(i, 0, 1))
    if EX:
        for t, i in sup:
            k = t[1] if t[0] == 'absent' else show(t) if t[0] == 'le' else None
            for n in EX.get(k, ()): ax = band(ax, bnot(band(n, _mk(i, 0, 1))))
    ax = band(ax, differences(sup))
    ax = band(ax, truth(sup))
    # what a search found was looked at
    for t, i in sup:
        if t[0] == 'found':
            for u, j in sup:
                if u == t[2] and u[0] == 'exists' and deref_elem(u[1], u[2]): ax = band(ax, bimp(_mk(j, 0, 1), _mk(i, 0, 1)))
    # linear equalities: two of them may imply a third
    vec = {}
    for t, i in sup:
        if t[0] == '==':
            d = dict(lin(add(t[1], t[2], -1)))
            vec[i] = d
    if 2 < len(vec) <= 14:
        def comb(a, b, s):
            r = dict(a)
            for k, c in b.items(): r[k] = r.get(k, 0) + s * c
            return {k: c for k, c in r.items() if c}

        def same(a, b):
            return a == b or a == {k: -c for k, c in b.items()}
        ks = sorted(vec)
        for x in range(len(ks)):
            for y in range(x):
                for sg in (1, -1):
                    v = comb(vec[ks[x]], vec[ks[y]], sg)
                    for z in ks:
                        if z != ks[x] and z != ks[y] and same(v, vec[z]):
                            ax = band(ax, bimp(band(_mk(ks[x], 0, 1), _mk(ks[y], 0, 1)), _mk(z, 0, 1)))
    # x == c1 and x == c2 for different symbolic constants (enumerators)
    byx = {}
    for (a, b), n in eqs.items():
        for x, c in ((a, b), (b, a)):
            if c[0] in ('int', 'const', 'str'): byx.setdefault(x, []).append((c, n))
    for x, L in byx.items():
        for i in range(len(L)):
            for j in range(i):
                if L[i][0] != L[j][0]: ax = band(ax, bnot(band(L[i][1], L[j][1])))
    return ax


_lt = re.compile(r'^\((.*)(==|<)(-?\d+)\)$')


def differences(sup):
    """thresholds of one difference of two integers, however each is written"""
    G = {}
    shift = False

    def canon(d):
        ks = sorted(d, key=show)
        if len(d) != 2 or d[ks[0]] != -d[ks[1]] or abs(d[ks[0]]) != 1: return None, 1
        return (ks[0], ks[1]), d[ks[0]]
    late = []
    for t, i in sup:
        if t[0] in ('<', '==') and t[1][0] != 'flt' and t[2][0] != 'flt':
            d = dict(lin(add(t[1], t[2], -1)))
            c = -d.pop(None, 0)
            k, sg = canon(d)
            if k is None: continue
            if c: shift = True
            G.setdefault(k, []).append((t[0], c, sg, i))
        elif t[0] == 'absent': late.append((t[1], i))
    if not G: return 1
    for a, i in late:
        m = _lt.match(a)
        if not m: continue
        for k in G:
            if show(unlin({k[0]: 1, k[1]: -1})) == m.group(1): G[k].append((m.group(2), int(m.group(3)), 1, i)); shift = True
            elif show(unlin({k[0]: -1, k[1]: 1})) == m.group(1): G[k].append((m.group(2), int(m.group(3)), -1, i)); shift = True
    for a, i in late:
        for k in G:
            for x, y, sg in ((k[0], k[1], 1), (k[1], k[0], -1)):
                for op in ('<', '=='):
                    if a == '(%s%s%s)' % (show(x), op, show(y)): G[k].append((op, 0, sg, i))
    if not shift: return 1
    ax = 1
    for k, L in G.items():
        if len(L) < 2: continue
        D = unlin({k[0]: 1, k[1]: -1})
        T = {}

        def le_(c):
            if c not in T: T[c] = bvar(('le', D, c))
            return T[c]
        for op, c, sg, i in L:
            n = _mk(i, 0, 1)
            if op == '==': f = band(le_(c * sg), bnot(le_(c * sg - 1)))
            else: f = le_(c - 1) if sg == 1 else bnot(le_(-c))
            ax = band(ax, bnot(bxor(n, f)))
        cs = sorted(T)
        for a, b in zip(cs, cs[1:]): ax = band(ax, bimp(T[a], T[b]))
    return ax


_le = re.compile(r'^\((.*)<=(-?\d+)\)$')


def truth(sup):
    """an integer used as a condition: true unless it is zero"""
    bare = {}; th = {}; term = {}
    for t, i in sup:
        if t[0] == 'le':
            x = show(t[1])
            th.setdefault(x, {})[t[2]] = i
            term[x] = t[1]
        elif t[0] == 'absent':
            m = _le.match(t[1])
            if m: th.setdefault(m.group(1), {})[int(m.group(2))] = i
            else: bare[t[1]] = i
        elif t[0] in ('call', 'mcall', 'fld', 'par', 'glob', 'init', 'op', 'ver', 'found', 'elem', 'lpar'):
            bare[show(t)] = i
            term[show(t)] = t
    ax = 1
    for x in bare:
        if x not in th or not (0 in th[x] or -1 in th[x]): continue
        T = term.get(x)
        if T is None: continue
        le = lambda c: _mk(th[x][c], 0, 1) if c in th[x] else bvar(('le', T, c))
        lo = 0 if nonneg(T) else le(-1)
        hi = le(0)
        ax = band(ax, bnot(bxor(_mk(bare[x], 0, 1), bnot(band(hi, bnot(lo))))))
        if lo: ax = band(ax, bimp(lo, hi))
    return ax


def deref_elem(dom, p):
    """a conjunction that reads through the element"""
    if dom[0] != 'each': return False
    C = _cubes(tb(p), 2)
    if len(C) != 1: return False
    el = ('elem', dom[1])
    return any(occurs(_atoms[v], lambda t: t[0] == 'fld' and t[1] == el or t[0] == 'mcall' and t[1] == el) for v, b in C[0])


def bequiv(f, g):
    d = bxor(f, g)
    if d == 0: return True
    return band(d, axioms(bor(d, 0))) == 0


def bimplies(f, g):
    d = band(f, bnot(g))
    if d == 0: return True
    return band(d, axioms(d)) == 0


def bdisjoint(f, g): return bimplies(f, bnot(g))


# ---------------------------------------------------------------- terms
_rc = {}
NONNEG = re.compile(r'(\.|::)(size|count|length|use_count)\(\)$')
UNSIGNED_HINT = set()


def nonneg(t):
    return bool(NONNEG.search(show(t))) or t in UNSIGNED_HINT or t[0] == 'idx' and t[1] == I(0)


def show(t):
    if not isinstance(t, tuple): return str(t)
    if not t: return '()'
    if not isinstance(t[0], str): return '(' + ','.join(show(x) for x in t) + ')'
    s = _rc.get(t)
    if s is None:
        s = _show(t)
        if len(s) > 4000: s = s[:4000] + '...'
        _rc[t] = s
    return s


def _show(t):
    k = t[0]
    if k == 'int': return str(t[1])
    if k == 'flt': return repr(t[1])
    if k == 'str': return '"%s"' % t[1]
    if k == 'const': return t[1].split('::')[-1] if False else t[1]
    if k == 'null': return 'null'
    if k == 'this': return 'this'
    if k == 'var': return t[1]
    if k == 'par': return '$%d' % t[1]
    if k == 'glob': return t[1]
    if k == 'fn': return '&' + t[1]
    if k == 'fld': return '%s.%s' % (show(t[1]), t[2])
    if k == 'ver': return show(t[1]) + "'" * t[2]
    if k == 'call':
        s = t[1] + (('<' + ','.join(t[4]) + '>') if len(t) > 4 and t[4] else '') + (('#%d' % t[3]) if t[3] else '')
        return s + '(' + ','.join(show(a) for a in t[2]) + ')'
    if k == 'mcall':
        s = t[2] + (('<' + ','.join(t[5]) + '>') if len(t) > 5 and t[5] else '') + (('#%d' % t[4]) if t[4] else '')
        return show(t[1]) + '.' + s + '(' + ','.join(show(a) for a in t[3]) + ')'
    if k == 'bdd': return '{' + bcanon(t[1]) + '}'
    if k == 'ite': return 'ite({' + bcanon(t[1]) + '},' + show(t[2]) + ',' + show(t[3]) + ')'
    if k == 'sum': return '(' + '+'.join((show(a) if c == 1 else '%d*%s' % (c, show(a))) if a else str(c) for a, c in t[1]) + ')'
    if k in ('op',): return '(' + (' %s ' % t[1]).join(show(a) for a in t[2]) + ')'
    if k == 'le': return '(%s<=%s)' % (show(t[1]), t[2])
    if k in ('<', '=='): return '(%s%s%s)' % (show(t[1]), k, show(t[2]))
    if k == 'has': return 'has(%s,%s)' % (show(t[1]), show(t[2]))
    if k == 'look': return '%s[%s]' % (show(t[1]), show(t[2]))
    if k == 'elem': return 'elem(%s)' % show(t[1])
    if k == 'idx': return 'i[%s..%s)' % (show(t[1]), show(t[2]))
    if k == 'phi': return 'phi' + ("'" * t[1] if t[1] < 20 else 'd' * (t[1] - 19)) + ('' if not t[2] else str(t[2]) if isinstance(t[2], int) else '@') + '(' + show(t[3] if isinstance(t[2], int) else t[2]) + ')'
    if k == 'mu':
        # the iterations, unless what is computed names them
        d = t[3]
        if d[0] == 'each' and occurs(t[2], lambda x: x == ('elem', d[1])) or d[0] == 'range' and occurs(t[2], lambda x: x[0] == 'idx' and x[1:] == d[1:]) or d[0] not in ('each', 'range', 'while'): return 'mu(%s,%s)' % (show(t[1]), show(t[2]))
        return 'mu(%s,%s;%s)' % (show(t[1]), show(t[2]), show(d))
    if k == 'exists': return 'exists(%s:%s)' % (show(t[1]), show(t[2]))
    if k == 'lam': return 'lam'
    if k == 'deferred': return 'deferred(%s)' % t[1]
    if k == 'exception': return 'exception' + (str(t[2]) if t[2] else '')
    if k == 'init': return t[1] + '{' + ','.join(show(a) for a in t[2]) + '}'
    if k == 'cast': return t[1] + '(' + show(t[2]) + ')'
    if k == 'find': return 'find(%s,%s)' % (show(t[1]), show(t[2]))
    if k == 'end': return 'end(%s)' % show(t[1])
    if k == 'begin': return 'begin(%s)' % show(t[1])
    return k + '(' + ','.join(show(x) for x in t[1:]) + ')'


def subst(t, a, b):
    if t == a: return b
    if not isinstance(t, tuple) or not t: return t
    if t[0] in ('bdd',):
        return tb2t(bsubst(t[1], a, b))
    if t[0] == 'ite':
        return mkite(bsubst(t[1], a, b), subst(t[2], a, b), subst(t[3], a, b))
    if t[0] == 'sum':
        r = I(0)
        for k, n in t[1]: r = add(r, mul(I(n), I(1) if k is None else subst(k, a, b)))
        return r
    return tuple(subst(x, a, b) if isinstance(x, tuple) else x for x in t)


def bsubst(f, a, b):
    memo = {}

    def go(x):
        if x < 2: return x
        if x in memo: return memo[x]
        v, lo, hi = _nodes[x]
        at = _atoms[v]
        na = subst(at, a, b)
        n = _mk(v, 0, 1) if na == at else tb(na)
        r = bite(n, go(hi), go(lo))
        memo[x] = r
        return r
    return go(f)


def occurs(t, p):
    """does a subterm satisfy p?"""
    if not isinstance(t, tuple): return False
    if t and isinstance(t[0], str) and p(t): return True
    if t and t[0] == 'bdd': return any(occurs(x, p) for x in batoms(t[1]))
    if t and t[0] == 'ite':
        return any(occurs(x, p) for x in batoms(t[1])) or occurs(t[2], p) or occurs(t[3], p)
    return any(occurs(x, p) for x in t if isinstance(x, tuple))


def I(n): return ('int', n)


TRUE, FALSE = I(1), I(0)


def ival(t):
    if t[0] == 'int': return t[1]
    if t[0] == 'const' and isinstance(t[2], int): return t[2]
    return None


def mkite(g, a, b):
    if a == b: return a
    if g == 1: return a
    if g == 0: return b
    if isboolean(a) and isboolean(b):
        return tb2t(bite(g, tb(a), tb(b)))
    # one normal form: disjoint conditions per value, values in the order of their text
    L = leaves(a, g) + leaves(b, bnot(g))
    m = {}
    for v, c in L: m[v] = bor(m.get(v, 0), c)
    for v in [v for v in m if v[0] == 'mu' and len(v) == 4 and v[3][0] == 'each' and v[1] in m]:
        # a loop over an empty container changes nothing
        if v[1] in m and bimplies(m[v[1]], bvar(('le', ('mcall', v[3][1], 'size', (), 0, ()), 0))):
            m[v] = bor(m[v], m.pop(v[1]))
    if len(m) == 1: return next(iter(m))
    if len(m) > 10: return ('ite', g, a, b)
    vs = sorted(m, key=show)
    r = vs[-1]
    for v in reversed(vs[:-1]): r = ('ite', m[v], v, r)
    return r


def hasite(t):
    r = _hi.get(t)
    if r is None:
        r = t[:1] == ('ite',) or t[:1] == ('sum',) and any(k is not None and k[0] == 'bdd' for k, n in t[1]) or (t[:1] != ('bdd',) and any(hasite(x) for x in t if isinstance(x, tuple)))
        _hi[t] = r
    return r


_hi = {}


def restrict(t, c):
    """the value of t where the condition c holds"""
    if not hasite(t): return t
    if t[0] == 'ite':
        if bimplies(c, t[1]): return restrict(t[2], c)
        if bimplies(c, bnot(t[1])): return restrict(t[3], c)
        return mkite(t[1], restrict(t[2], band(c, t[1])), restrict(t[3], band(c, bnot(t[1]))))
    if t[0] == 'sum':
        r = I(0)
        for k, n in t[1]:
            if k is not None and k[0] == 'bdd': k = I(1) if bimplies(c, k[1]) else I(0) if bimplies(c, bnot(k[1])) else k
            r = add(r, mul(I(n), I(1) if k is None else restrict(k, c)))
        return r
    if t[0] == 'mu': return t
    return tuple(restrict(x, c) if isinstance(x, tuple) else x for x in t)


def gate(t):
    """the condition of the first gated operand inside a term"""
    if not hasite(t) or t[0] in ('mu', 'bdd'): return None
    if t[0] == 'ite': return t[1]
    for x in t:
        if isinstance(x, tuple):
            if t[0] == 'sum' and x is t[1]:
                for k, n in x:
                    c = (k[1] if k[0] == 'bdd' else gate(k)) if k is not None else None
                    if c is not None: return c
                continue
            c = gate(x)
            if c is not None: return c
    return None


def hoist(t, g, lim=12):
    """(value, condition) pairs of a term with gated operands anywhere; None: too many"""
    out, st = [], [(t, g)]
    while st:
        t, g = st.pop()
        if g == 0: continue
        t = restrict(t, g)
        c = gate(t)
        if c is None:
            out.append((t, g))
            if len(out) > lim: return None
            continue
        if len(st) > 64: return None
        st += [(t, band(g, bnot(c))), (t, band(g, c))]
    return out


def leaves(t, g, lim=16):
    """(value, condition) pairs of a gated value"""
    if t[0] == 'ite':
        return leaves(t[2], band(g, t[1]), lim) + leaves(t[3], band(g, bnot(t[1])), lim)
    return [(t, g)] if g != 0 else []


BOOLKINDS = {'bdd', 'has', 'le', '<', '==', 'exists'}


def isboolean(t):
    return t[0] in BOOLKINDS or (t[0] == 'int' and t[1] in (0, 1) and (len(t) > 2 or True))


def tb2t(f):
    if f == 1: return TRUE
    if f == 0: return FALSE
    v, lo, hi = _nodes[f]
    if lo == 0 and hi == 1 and _atoms[v][0] not in ('le', '<', '=='): return _atoms[v]
    return ('bdd', f)


def tb(t):
    k = t[0]
    if k == 'bdd': return t[1]
    v = ival(t)
    if v is not None: return 1 if v else 0
    if k == 'null': return 0
    if k == 'ite': return bite(t[1], tb(t[2]), tb(t[3]))
    if k in ('new', 'lam', 'str', 'fn'): return 1
    if k == 'sum':
        return bnot(tb(cmp_('==', t, I(0))))
    return bvar(t)


def lin(t):
    """term -> {term-or-None: coeff}"""
    v = ival(t)
    if v is not None and t[0] == 'int': return {None: v}
    if t[0] == 'sum': return dict(t[1])
    if t[0] == 'bdd': return {t: 1}
    return {t: 1}


def unlin(d):
    d = {k: c for k, c in d.items() if c}
    if not d: return I(0)
    if len(d) == 1:
        (k, c), = d.items()
        if k is None: return I(c)
        if c == 1: return k
    return ('sum', tuple(sorted(d.items(), key=lambda kc: ('' if kc[0] is None else show(kc[0]), kc[1]))))


def add(a, b, s=1):
    if a[0] == 'flt' or b[0] == 'flt': return ('op', '+' if s == 1 else '-', (a, b))
    if a[0] == 'str' or b[0] == 'str': return ('op', '+', (a, b))
    d = dict(lin(a))
    for k, c in lin(b).items(): d[k] = d.get(k, 0) + s * c
    return unlin(d)


def mul(a, b):
    va, vb = ival(a), ival(b)
    if va is not None and vb is not None: return I(va * vb)
    if va is not None: return unlin({k: c * va for k, c in lin(b).items()})
    if vb is not None: return unlin({k: c * vb for k, c in lin(a).items()})
    return ('op', '*', tuple(sorted((a, b), key=show)))


def unver(t):
    while t[0] == 'ver': t = t[1]
    return t


def flat(args):
    """constructor arguments of the element that a container call creates"""
    if len(args) == 1 and args[0][0] == 'init': return tuple(args[0][2])
    if len(args) == 1 and args[0][0] == 'tup': return flatp(args[0][1])
    if len(args) == 1 and args[0][0] == 'call' and args[0][1] == 'std::make_pair': return flatp(args[0][2])
    if len(args) == 3 and show(args[0]) == 'std::piecewise_construct':
        r = ()
        for x in args[1:]:
            if x[0] == 'tup': r += tuple(x[1])
            elif x[0] == 'call' and x[1] in ('std::forward_as_tuple', 'std::make_tuple', 'std::tie'): r += tuple(x[2])
            else: r += (x,)
        return flatp(r)
    return flatp(args)


def flatp(args):
    if len(args) == 2 and args[1][0] == 'init': return (args[0],) + tuple(args[1][2])
    if len(args) == 2 and args[0][0] == 'init' and len(args[0][2]) == 1: return (args[0][2][0], args[1])
    return tuple(args)


ADDERS = {'emplace', 'insert', 'erase', 'push_back', 'emplace_back', 'push_front', 'emplace_front', 'push', 'try_emplace'}
ASSOC = re.compile(r'^std::(unordered_)?(multi)?(map|set)\b')


def container(n, o, args):
    """one name for the ways to add an element to or remove one from a container:
    (name, arguments, atom that makes the call a no-op, value of the atom then)"""
    if n.rsplit('::', 1)[-1] in ('emplace', 'emplace_back') and len(args) == 3 and args[0] == ('glob', 'std::piecewise_construct'):
        tp = [x[2] if x[0] == 'call' and x[1] == 'std::forward_as_tuple' else x[2] if x[0] == 'init' and len(x[2]) == 1 else None for x in args[1:]]
        if all(x is not None and len(x) == 1 for x in tp): args = tuple(x[0] for x in tp)
        elif '::' not in n: return None
    if n == 'erase' and len(args) == 1 and args[0][0] == 'find' and unver(args[0][1]) == unver(o): return 'remove', (args[0][2],), ('has', o, args[0][2]), True
    if n == 'erase' and len(args) == 1 and (args[0][0] in ('par', 'fld', 'var', 'int', 'call', 'ver') or args[0][0] in ('op', 'sum') and not occurs(args[0], lambda t: t[0] in ('begin', 'end', 'find', 'elem', 'idx', 'phi', 'mu', 'ite', 'stale', 'undef', 'lpar', 'mcall'))): return 'remove', args, ('has', o, args[0]), True
    if n in ('push_back', 'emplace_back', 'push_front', 'emplace_front'): return 'append' if n.endswith('back') else 'prepend', flat(args), None, None
    if n == 'emplace' and len(args) == 2: return 'emplace', args, None, None
    m = re.match(r'^std::(?:__\w+::)?(\w+)::(\w+)$', n)
    if not m: return None
    c, f = m.groups()
    if f in ('push_back', 'emplace_back'): return 'append', flat(args), None, None
    if f in ('push_front', 'emplace_front'): return 'prepend', flat(args), None, None
    if f == 'emplace' and c in ('queue', 'stack', 'priority_queue'): return 'push', flat(args), None, None
    if f == 'push': return 'push', flat(args), None, None
    if c in ('map', 'unordered_map', 'set', 'unordered_set') and args:
        if f in ('insert', 'emplace', 'try_emplace') and (args[0][0] not in ('begin', 'end', 'find', 'elem') or args[0][0] == 'elem' and (len(args) == 1 or f != 'insert')):
            a = flat(args)
            if a: return 'insert', a, ('has', o, a[0]), False
        if f == 'erase' and len(args) == 1:
            if args[0][0] == 'find' and unver(args[0][1]) == unver(o): return 'remove', (args[0][2],), ('has', o, args[0][2]), True
            if args[0][0] not in ('begin', 'elem', 'ite', 'mu', 'idx', 'phi', 'mcall'): return 'remove', args, ('has', o, args[0]), True
    return None


def cofactor(f, atom, val):
    v = _atomix.get(atom)
    if v is None: return f
    memo = {}

    def go(x):
        if x < 2: return x
        if x not in memo:
            w, lo, hi = _nodes[x]
            memo[x] = (hi if val else lo) if w == v else _mk(w, go(lo), go(hi))
        return memo[x]
    return go(f)


def cmp_(op, a, b):
    """canonical comparison -> term"""
    if a[0] == 'ite' and op in ('==', '!=', '<', '>', '<=', '>='):
        return tb2t(bite(a[1], tb(cmp_(op, a[2], b)), tb(cmp_(op, a[3], b))))
    if b[0] == 'ite':
        return tb2t(bite(b[1], tb(cmp_(op, a, b[2])), tb(cmp_(op, a, b[3]))))
    if op == '!=': return tb2t(bnot(tb(cmp_('==', a, b))))
    if op == '>': return cmp_('<', b, a)
    if op == '>=': return tb2t(bnot(tb(cmp_('<', a, b))))
    if op == '<=': return tb2t(bnot(tb(cmp_('<', b, a))))
    if a == b: return TRUE if op == '==' else FALSE
    # container emptiness, membership
    for x, y in ((a, b), (b, a)):
        if op == '==' and x[0] == 'find' and y[0] == 'end' and unver(x[1]) == unver(y[1]):
            return tb2t(bnot(bvar(('has', x[1], x[2]))))
        if op == '==' and x[0] == 'elem' and y[0] == 'mcall' and y[2] == 'data' and not y[3] and unver(y[1]) == unver(x[1]):
            # the address of an element and of the first
            return cmp_('==', ('idx', I(0), ('mcall', x[1], 'size', (), 0, ())), I(0))
        if op == '==' and y[0] == 'null': return tb2t(bnot(tb(x)))
        if x[0] == 'found' and ((x[1][0] == 'range' and y == x[1][2]) or (x[1][0] == 'each' and y[0] == 'end' and unver(y[1]) == unver(x[1][1])) or (x[1][0] == 'each' and y == ('mcall', x[1][1], 'size', (), 0, ()))):
            return FALSE if (op == '==' or x is b) else TRUE
    if op == '==' and a[0] in ('bdd', 'has', 'exists') or b[0] in ('bdd', 'has', 'exists'):
        if op == '==': return tb2t(bnot(bxor(tb(a), tb(b))))
    va, vb = ival(a), ival(b)
    if va is not None and vb is not None:
        return TRUE if (va < vb if op == '<' else va == vb) else FALSE
    # symbolic constants stay symbolic for == (enumerators)
    if op == '==':
        for x, y in ((a, b), (b, a)):
            if y[0] == 'str' and y[1] == '': return cmp_('==', ('mcall', x, 'size', (), 0, ()), I(0))
        if a[0] == 'str' or b[0] == 'str' or a[0] == 'const' or b[0] == 'const' or a[0] == 'flt' or b[0] == 'flt':
            x, y = sorted((a, b), key=show)
            return ('bdd', bvar(('==', x, y)))
        d = lin(add(a, b, -1))
        if None in d and len(d) == 1: return FALSE
        c = -d.pop(None, 0)
        ks = sorted(d, key=show)
        if not ks: return TRUE if c == 0 else FALSE
        for k in ks:
            # what was found lies before the end
            if k[0] == 'found' and k[1][0] == 'range':
                z = dict(lin(add(k, k[1][2], -1)))
                zc = -z.pop(None, 0)
                if zc == c and z == d or zc == -c and {x: -v for x, v in z.items()} == d: return FALSE
        if len(d) == 1:
            k = ks[0]
            if abs(d[k]) == 1:
                x, cc = k, c * d[k]
                f = band(le(x, cc), bnot(le(x, cc - 1)))
                return tb2t(f)
        if len(d) == 2 and c == 0 and d[ks[0]] == -d[ks[1]]:
            return ('bdd', bvar(('==', ks[0], ks[1])))
        if d[ks[0]] < 0: d = {k: -v for k, v in d.items()}; c = -c
        return ('bdd', bvar(('==', unlin(d), I(c))))
    # <
    if a[0] in ('flt', 'str') or b[0] in ('flt', 'str'):
        return ('bdd', bvar(('<', a, b)))
    d = lin(add(a, b, -1))          # a - b < 0
    c = d.pop(None, 0)
    ks = sorted(d, key=show)
    if not ks: return TRUE if c < 0 else FALSE
    if len(d) == 1:
        k = ks[0]
        if d[k] == 1: return tb2t(le(k, -c - 1))             # k + c < 0
        if d[k] == -1: return tb2t(bnot(le(k, c)))            # -k + c < 0
    if len(d) == 2 and d[ks[0]] == -d[ks[1]] and abs(d[ks[0]]) == 1 and c in (0, -1, 1):
        x, y = ks
        lt, eq = bvar(('<', x, y)), bvar(('==', x, y))
        if c == 0:
            return tb2t(lt if d[x] == 1 else band(bnot(lt), bnot(eq)))
        if c == -1:   # a-b-1<0  <=> a<=b
            return tb2t(bor(lt, eq) if d[x] == 1 else bnot(lt))
    return ('bdd', bvar(('<', unlin(d), I(-c))))


def le(x, c):
    if nonneg(x) and c < 0: return 0
    if x[0] in ('has', 'exists', 'bdd'): return 0 if c < 0 else 1 if c > 0 else bnot(tb(x))
    return bvar(('le', x, c))


# ---------------------------------------------------------------- summaries
class Ev:
    __slots__ = ('kind', 'guard', 'name', 'obj', 'args', 'val', 'path', 'line', 'ctx', 'ix', 'fn', 'ta', 'key', 'extra', 'g0', 'noop')

    def __init__(s, **k):
        for a in Ev.__slots__: setattr(s, a, k.get(a))

    def __repr__(s):
        c = '/'.join(show(x) for x in s.ctx)
        if s.kind == 'call':
            b = ((show(s.obj) + '.') if s.obj else '') + s.name + (('<%s>' % ','.join(s.ta)) if s.ta else '') + '(' + ', '.join(show(a) for a in s.args) + ')'
        elif s.kind == 'store': b = show(s.path) + ' := ' + show(s.val)
        elif s.kind in ('ret', 'throw'): b = s.kind + ' ' + (show(s.val) if s.val else '')
        else: b = s.kind + ' ' + str(s.name or '')
        return '%4s [%s] %s%s' % (s.line, bstr(s.guard), ('<%s> ' % c) if c else '', b)


CONSTM = {'size', 'empty', 'find', 'count', 'begin', 'end', 'at', 'get', 'front', 'back', 'top', 'c_str', 'data',
          'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend', 'value', 'has_value', 'length', 'str', 'first', 'second', 'upper_bound',
          'lower_bound', 'substr', 'compare', 'load', 'use_count', 'max_size', 'capacity', 'isNull', 'key_comp'}
TRANSP_FN = {'std::move', 'std::forward', 'std::ref', 'std::cref', 'std::addressof', 'std::as_const',
             'std::move_if_noexcept', 'static_pointer_cast'}
ASSERTS = re.compile(r'^vt(Assert|_debug_print|_print|Warn|_trace|_type_print|_option|_concept)')
ABORTS = re.compile(r'^vtAbort')
PUREFN = re.compile(r'^std::(min|max|abs|numeric_limits|make_pair|make_tuple|get|tie|begin|end|ceil|floor|sqrt|pow|log|log2|string|to_string|distance|next|prev)\b')

_known = None
_kpure = None
_pnames = None


def known_pure():
    """effect-free queries: computed once from their bodies, frozen"""
    global _kpure
    if _kpure is None:
        _kpure = set(open(front.VERIF + '/sa/pure_functions.txt').read().split('\n'))
    return _kpure


def pure_names():
    """short names that only effect-free functions of the library carry"""
    global _pnames
    if _pnames is None:
        _pnames = set(open(front.VERIF + '/sa/pure_names.txt').read().split('\n'))
    return _pnames


def known():
    global _known
    if _known is None:
        _known = set(open(front.VERIF + '/sa/known_functions.txt').read().split('\n'))
    return _known


_members = None


def members():
    """fields of its own object that a method may write and read: computed once, frozen"""
    global _members
    if _members is None:
        _members = {}
        for l in open(front.VERIF + '/sa/members.txt'):
            q, w, r = l.rsplit(' ', 2)
            r = r.strip()
            _members[q] = (() if w == '-' else tuple(w.split(',')), () if r == '-' else tuple(r.split(',')))
    return _members


_mshort = None


def member(n):
    """the entry for a called method; a call in a template has only the short name"""
    M = members()
    if n in M: return M[n]
    if '::' in n: return None
    global _mshort
    if _mshort is None:
        _mshort = {}
        for q, v in M.items():
            if q.startswith('std::'): continue
            _mshort.setdefault(q.split('::')[-1], []).append(v)
    c = _mshort.get(n)
    if not c or len(c) > 3: return None
    return (tuple(sorted({x for w, r in c for x in w})), tuple(sorted({x for w, r in c for x in r})))


def okey(o):
    """the object a term stands for, whichever way it was reached"""
    while o[0] == 'ver': o = o[1]
    if o[0] in ('find', 'fnd'): return ('look', unver(o[1]), o[2])
    return o


class Lim(Exception):
    pass


def acts(ret, name):
    """a constant method that returns nothing, a message on its way or something made is called for what it does"""
    return ret == 'void' or 'PendingSend' in (ret or '') or re.match(r'(make|create|register|insert|destroy)', name)


SCALAR = re.compile(r'^(const )?(bool|double|float|uint\d+_t|int\d+_t|size_t|(unsigned |signed )?(char|short|int|long|long long)|unsigned)$')


ALGOS = ('std::for_each', 'std::any_of', 'std::all_of', 'std::none_of', 'std::find_if', 'std::count_if', 'std::find', 'std::count', 'std::accumulate')


class Interp:
    def __init__(self, facts, inline=(), keep=(), raii=None, depth=8, pure=(), trivial=True, lamctx=True):
        self.F = facts
        self.inline = [re.compile(x) for x in inline]
        self.keep = [re.compile(x) for x in keep]
        self.raii = re.compile(raii) if raii else None
        self.pure = [re.compile(x) for x in pure]
        self.maxdepth = depth
        self.trivial = trivial
        self.events = []
        self.env = {}
        self.alias = {}
        self.mem = {}
        self.vers = {}
        self.bools = set()    # locals of type bool
        self.rv = set()       # locals that are references or iterators
        self.occ = {}
        self.ctx = ()
        self.live = 1
        self.guard = 1
        self.loops = []
        self.stack = []
        self.lams = {}
        self.imprecise = []
        self.fn = None
        self.rets = None
        self.nlam = 0
        self.this = ('this',)
        self.thisrec = None
        self.inlined = set()

    # -- guards
    def g(self): return band(self.guard, self.live)

    def ev(self, kind, line, **k):
        g = self.g()
        if g == 0: return None
        e = Ev(kind=kind, guard=g, line=line, ctx=self.ctx, ix=len(self.events), fn=self.fn['q'] if self.fn else None, **k)
        self.events.append(e)
        return e

    # -- memory
    def load(self, path):
        if path in self.mem: return self.mem[path]
        b = self.vers.get(path)
        if b: return ('ver', path, b)
        return path

    def store(self, path, val, line):
        g = self.g()
        rest = g
        for e in reversed(self.events):
            # overwritten before anything could see it
            if e.kind == 'store' and e.ctx == self.ctx:
                if e.path == path: e.guard = band(e.guard, bnot(rest))
            elif e.kind == 'assert' or e.kind == 'ret' and e.name > len(self.stack): continue
            elif e.ctx != self.ctx: break
            else:
                rest = band(rest, bnot(e.guard))
                if rest == 0: break
        old = self.load(path)
        e = self.ev('store', line, path=path, val=val)
        if e is not None: e.noop = self.unchanged(old, val)
        self.mem[path] = mkite(self.g(), val, old) if self.g() != 1 else val
        # stores to an object forget what is known of its parts
        for p in list(self.mem):
            if p != path and self.sub(p, path): del self.mem[p]; self.bump(p)

    def unchanged(self, old, val):
        """when storing this value changes nothing"""
        if old == val: return 1
        if old[0] not in ('fld', 'look', 'elem', 'glob', 'ver') or val[0] == 'flt': return 0
        v = ival(val)
        n = tb(cmp_('==', old, val))
        if v == 0 or val[0] == 'null': return bor(n, bnot(tb(old)))
        if v == 1 and self.boolval: return bor(n, tb(old))
        return n

    boolval = False

    def sub(self, p, base):
        while isinstance(p, tuple) and p and p[0] in ('fld', 'look', 'elem', 'ver'):
            p = p[1]
            if p == base: return True
        return False

    def bump(self, path):
        self.vers[path] = self.vers.get(path, 0) + 1
        self.mem.pop(path, None)

    # -- lvalues
    def lval(self, e):
        """('v', id) for a local, ('p', path) for memory"""
        k = e[0]
        if k == 'var':
            i = self.res(e[2])
            a = self.alias.get(i)
            if a is not None: return a
            return ('v', i)
        if k in ('fld', 'dfld'):
            return ('p', self.fld(self.ev_(e[1]), e[2]))
        if k == 'un' and e[1] in ('*',):
            t = self.ev_(e[2]); return ('p', self.deref(t))
        if k == 'op' and e[1] in ('*', '->') and len(e[2]) == 1:
            return ('p', self.deref(self.ev_(e[2][0])))
        if k in ('sub',) or (k == 'op' and e[1] == '[]'):
            b, i = (e[1], e[2]) if k == 'sub' else e[2]
            return ('p', self.opidx(e[4] if k == 'op' else None, self.ev_(b), self.ev_(i)))
        if k == 'glob': return ('p', ('glob', e[1]))
        if k == 'cast': return self.lval(e[3])
        if k == 'copy': return self.lval(e[2])
        if k == 'inc' and e[1] == 'pre':
            self.ev_(e); return self.lval(e[3])
        if k == 'asg':
            self.ev_(e); return self.lval(e[2])
        if k == 'cond':
            c = tb(self.ev_(e[1]))
            sv = self.guard
            self.guard = band(sv, c); a = self.lval(e[2])
            self.guard = band(sv, bnot(c)); b = self.lval(e[3])
            self.guard = sv
            return ('c', c, a, b)
        return ('p', self.ev_(e))

    def res(self, i):
        return i + self.idbase

    idbase = 0

    def raw(self, path): return path

    def fld(self, b, n):
        if b[0] in ('mcall', 'sum', 'begin'): b = self.deref(b)
        if b[0] == 'ite' and all(v[0] in ('find', 'insres') for v, g in leaves(b, 1)):
            return mkite(b[1], self.fld(b[2], n), self.fld(b[3], n))
        if b[0] == 'insres':
            # result of inserting a key: (element, was it absent before)
            if n == 'second': return tb2t(bnot(bvar(('has', b[1], b[2]))))
            if n == 'first': return ('find', b[1], b[2])
        if b[0] == 'find':
            # an element of an associative container keeps its identity while it is there
            el = ('look', self.unver(b[1]), b[2])
            if n == 'second': return el
            if n == 'first': return b[2]
            return ('fld', el, n)
        if b[0] == 'tup':
            if n == 'first': return b[1][0]
            if n == 'second' and len(b[1]) > 1: return b[1][1]
        return ('fld', b, n)

    def deref(self, t):
        """what an iterator points to"""
        if t[0] == 'find': return ('fnd', t[1], t[2])
        if t[0] == 'mcall' and t[2] in ('rbegin', 'crbegin') and not t[3]: return ('mcall', t[1], 'back', (), 0, ())
        if t[0] == 'sum' and len(t[1]) == 2 and dict(t[1]).get(None) == -1:
            x = next(k for k, n in t[1] if k is not None)
            if x[0] == 'end' and dict(t[1])[x] == 1: return ('mcall', x[1], 'back', (), 0, ())
        if t[0] == 'begin': return ('mcall', t[1], 'front', (), 0, ())
        return t

    def look(self, b, i):
        if b[0] == 'init' and i[0] == 'int' and i[1] < len(b[2]): return b[2][i[1]]
        if i[0] == 'idx' and i[1] == I(0):
            hi = i[2]
            if hi[0] == 'mcall' and hi[2] == 'size' and self.unver(hi[1]) == self.unver(b): return ('elem', b)
        if i[0] == 'sum' and len(i[1]) == 2:
            d = dict(i[1])
            if d.get(None) == -1 and any(k is not None and n == 1 and k[0] == 'mcall' and k[2] == 'size' and self.unver(k[1]) == self.unver(b) for k, n in i[1]):
                return ('mcall', b, 'back', (), 0, ())
        return ('look', b, i)

    def opidx(self, q, b, i):
        return self.look(self.unver(b) if q and 'map' in q else b, i)

    def unver(self, t):
        while t[0] == 'ver': t = t[1]
        return t

    # -- expressions
    def ev_(self, e):
        if e is None: return ('none',)
        k = e[0]
        m = getattr(self, 'x_' + (k if k.isidentifier() else 'unk'), None)
        if m: return m(e)
        return self.x_unk(e)

    def x_unk(self, e):
        for a in e[2] if len(e) > 2 and isinstance(e[2], list) else []:
            if isinstance(a, list): self.ev_(a)
        return ('opaque', str(e[1]) if len(e) > 1 else e[0])

    def x_int(self, e): return ('int', e[1])
    def x_bool(self, e): return TRUE if e[1] else FALSE
    def x_flt(self, e): return ('flt', e[1])
    def x_str(self, e): return ('str', e[1])
    def x_null(self, e): return ('null',)
    def x_this(self, e): return self.this
    def x_const(self, e): return ('const', e[1], e[2])
    def x_glob(self, e): return self.load(('glob', e[1]))
    def x_fn(self, e): return ('fn', e[2] + (('<%s>' % ','.join(e[3])) if e[3] else ''), e[1])
    def x_fldref(self, e): return ('fn', e[1])
    def x_tparm(self, e): return self.tenv.get(e[1], ('tparm', e[1]))
    def x_ref(self, e): return ('glob', e[1])
    def x_name(self, e): return ('name', e[1] + (('<%s>' % ','.join(e[2])) if e[2] else ''))
    def x_opaque(self, e): return ('opaque', '')
    def x_typeid(self, e): return ('opaque', 'typeid')
    def x_defarg(self, e): return self.ev_(e[1])
    def x_sizeofpack(self, e): return ('sizeofpack', e[1])
    def x_stmtexpr(self, e): self.st(e[1]); return ('opaque', 'stmtexpr')

    def x_sizeof(self, e):
        return ('sizeof', e[1])

    def x_var(self, e):
        i = self.res(e[2])
        a = self.alias.get(i)
        if a is not None:
            if a[0] == 'v': return self.env.get(a[1], ('var', e[1]))
            return self.rd(a)
        if i in self.env: return self.env[i]
        return ('var', e[1])

    def x_fld(self, e):
        p = self.fld(self.ev_(e[1]), e[2])
        v = self.load(p)
        if len(e) > 3 and (e[3], e[2]) in self.F.unsigned_fields():
            UNSIGNED_HINT.add(p)
            W = [v]
            while W:
                x = W.pop()
                if x[0] == 'ite': W += x[2:4]
                elif x[0] in ('ver', 'phi', 'mu', 'mcall', 'call'): UNSIGNED_HINT.add(x)
        return v
    def x_dfld(self, e): return self.load(self.fld(self.ev_(e[1]), e[2]))
    def x_copy(self, e): return self.ev_(e[2])

    def x_cast(self, e):
        v = self.ev_(e[3])
        if e[1] == 'trunc' or (e[1] in ('static', 'cast') and len(e) > 4 and e[4]):
            return v if not getattr(self, 'keepcasts', False) else ('cast', e[2], v)
        if e[1] == 'dynamic': return ('cast', 'dyn<' + e[2] + '>', v)
        return v

    def x_un(self, e):
        op = e[1]
        v = self.ev_(e[2])
        if op == '!': return tb2t(bnot(tb(v)))
        if op == '*': return self.load(self.deref(v))
        if op == '&': return v
        if op == '-': return mul(I(-1), v) if v[0] != 'flt' else ('flt', -v[1])
        if op == '+': return v
        if op == '~':
            return ('op', '~', (v,))
        return ('op', op, (v,))

    def arith(self, op, a, b):
        if op == '+': return add(a, b)
        if op == '-': return add(a, b, -1)
        if op == '*': return mul(a, b)
        va, vb = ival(a), ival(b)
        if op in ('&', '|', '^'):
            if va is not None and vb is not None:
                return I({'&': va & vb, '|': va | vb, '^': va ^ vb}[op])
            xs = []
            for x in (a, b):
                if x[0] == 'op' and x[1] == op: xs += list(x[2])
                else: xs.append(x)
            return ('op', op, tuple(sorted(xs, key=show)))
        if op == '<<' and va is not None and vb is not None and 0 <= vb < 64: return I(va << vb)
        if op == '>>' and va is not None and vb is not None and 0 <= vb < 64: return I(va >> vb)
        if op == '/' and va is not None and vb: return I(va // vb) if va >= 0 and vb > 0 else ('op', op, (a, b))
        return ('op', op, (a, b))

    def x_bin(self, e):
        op = e[1]
        if op == '&&':
            a = tb(self.ev_(e[2]))
            s = self.guard; self.guard = band(s, a)
            n = len(self.events)
            b = tb(self.ev_(e[3]))
            self.guard = s
            return tb2t(band(a, b))
        if op == '||':
            a = tb(self.ev_(e[2]))
            s = self.guard; self.guard = band(s, bnot(a))
            b = tb(self.ev_(e[3]))
            self.guard = s
            return tb2t(bor(a, b))
        a, b = self.ev_(e[2]), self.ev_(e[3])
        return self.binop(op, a, b)

    def binop(self, op, a, b):
        if op in ('==', '!=', '<', '>', '<=', '>='): return cmp_(op, a, b)
        if op in ('&', '|') and isboolean(a) and isboolean(b) and not (a[0] == 'int' and b[0] == 'int'):
            return tb2t(band(tb(a), tb(b)) if op == '&' else bor(tb(a), tb(b)))
        return self.arith(op, a, b)

    def x_cond(self, e):
        c = tb(self.ev_(e[1]))
        s = self.guard
        occ0 = dict(self.occ)
        self.guard = band(s, c); a = self.ev_(e[2])
        occA, self.occ = self.occ, occ0
        self.guard = band(s, bnot(c)); b = self.ev_(e[3])
        self.guard = s
        self.occ = {k: max(occA.get(k, 0), self.occ.get(k, 0)) for k in set(occA) | set(self.occ)}
        return mkite(c, a, b)

    def x_comma(self, e):
        self.ev_(e[1]); return self.ev_(e[2])

    def x_sub(self, e):
        return self.load(self.look(self.ev_(e[1]), self.ev_(e[2])))

    def x_throw(self, e):
        v = self.ev_(e[1]) if e[1] else None
        self.ev('throw', e[2], val=v)
        self.kill(self.g())
        return ('opaque', 'throw')

    def x_asg(self, e):
        op = e[1]
        # reference evaluation order is irrelevant for the effects kept here
        v = self.ev_(e[3])
        lv = self.lval(e[2])
        if op != '=':
            old = self.rd(lv)
            if op in ('|=', '&=') and lv[0] == 'v' and lv[1] in self.bools: v = tb2t((bor if op == '|=' else band)(tb(old), tb(v)))
            else: v = self.binop(op[:-1], old, v)
        self.boolval = e[3][0] == 'bool'
        self.wr(lv, v, e[4])
        self.boolval = False
        return v

    def rd(self, lv):
        if lv[0] == 'v': return self.env.get(lv[1], ('undef',))
        if lv[0] == 'c': return mkite(lv[1], self.rd(lv[2]), self.rd(lv[3]))
        return self.load(lv[1])

    def wr(self, lv, v, line):
        if lv[0] == 'c':
            sg = self.guard
            for x, c in ((lv[2], lv[1]), (lv[3], bnot(lv[1]))):
                self.guard = band(sg, c)
                if x[0] == 'v': self.env[x[1]] = mkite(c, v, self.env.get(x[1], ('undef',)))
                else: self.wr(x, restrict(v, c), line)
            self.guard = sg
            return
        if lv[0] == 'v':
            i = lv[1]
            old = self.env.get(i, ('undef',))
            # within a straight-line region the merge happens at the join
            g = self.vguard.get(i, 1)
            self.env[i] = v if self.live == 1 or self.skipmerge(i) else mkite(self.live, v, old)
        else:
            self.store(lv[1], v, line)

    vguard = {}

    def skipmerge(self, i): return True

    def x_inc(self, e):
        lv = self.lval(e[3])
        old = self.rd(lv)
        new = add(old, I(1 if e[2] == '+' else -1))
        self.wr(lv, new, e[4])
        return old if e[1] == 'post' else new

    def x_lam(self, e):
        self.nlam += 1
        n = self.nlam
        env = dict(self.env); alias = dict(self.alias)
        for c in e[2]:
            if c[0] == 'this': continue
            i = self.res(c[1])
            if c[3] is not None: env[i] = self.ev_(c[3]); alias.pop(i, None)
        self.lams[n] = (e, env, alias, self.idbase, self.this, self.fn)
        return ('lam', n)

    def x_ilist(self, e):
        if not e[2] and SCALAR.match(short(e[1])): return I(0)
        if not e[2] and short(e[1]) in ('std::nullptr_t', 'nullptr_t'): return ('null',)
        if len(e[2]) == 1 and SCALAR.match(short(e[1])): return self.ev_(e[2][0])
        return ('init', short(e[1]), tuple(self.ev_(a) for a in e[2]))

    def x_plist(self, e):
        if len(e[1]) == 1: return self.ev_(e[1][0])
        return ('init', '', tuple(self.ev_(a) for a in e[1]))

    def x_new(self, e):
        a = self.ev_(e[2]) if e[2] else None
        for p in e[3]: self.ev_(p)
        t = ('new', short(e[1]), a if a else ('none',), self.occn(('new', e[1], a)))
        self.ev('call', e[5], name='new', args=((a,) if a else ()), ta=(short(e[1]),), val=t)
        return t

    def x_del(self, e):
        v = self.ev_(e[1])
        self.ev('call', e[3], name='delete', args=(v,))
        return ('none',)

    def x_pack(self, e): return self.ev_(e[1])

    def x_fold(self, e):
        return ('fold', e[2], self.ev_(e[1]))

    def x_ctor(self, e):
        args = tuple(self.ev_(a) for a in e[2])
        t = re.sub(r'^const ', '', e[1])
        st = short(t)
        if len(args) == 1 and (args[0][0] in ('init',)) and ('vector' in st or 'set' in st or 'map' in st or 'function' in st): return args[0]
        if len(args) == 1 and re.match(r'^(std::function|std::unique_ptr|std::shared_ptr|ActionType|std::optional)\b', st): return args[0]
        if len(args) == 1 and args[0][0] == 'lam': return args[0]
        if st.startswith(('std::basic_string<char>', 'std::string', 'std::basic_string_view<char>')) and args and args[0][0] == 'str' and (len(args) == 1 or args[1:] == (('init', 'std::allocator<char>', ()),)): return args[0]
        if t.startswith(('std::pair', 'std::tuple')) and args: return ('tup', args)
        if len(args) == 1 and re.search(r'(iterator|MsgSharedPtr|StrongType|Strong<|strong::)', t): return args[0]
        if SCALAR.match(st):
            return args[0] if args else I(0)
        # user-visible constructor of a vt type: an effect (RAII guards etc.)
        self.ev('call', e[5], name=(e[4] or t) + '::ctor', args=args, key=e[3], ta=())
        if len(args) == 1 and not e[3] and '::' not in t: return args[0]
        return ('init', st, args)

    # -- calls
    def occn(self, k):
        n = self.occ.get(k, 0)
        self.occ[k] = n + 1
        return n

    def args_(self, a): return tuple(self.ev_(x) for x in a)

    def x_op(self, e):
        op, a, key, q, ln = e[1], e[2], e[3], e[4], e[5]
        if op in ('->', '*') and len(a) == 1:
            v = self.ev_(a[0])
            return self.load(self.deref(v)) if op == '*' else v
        if op == '[]': return self.load(self.opidx(q, self.ev_(a[0]), self.ev_(a[1])))
        if op == '=':
            v = self.ev_(a[1]); lv = self.lval(a[0]); self.wr(lv, v, ln); return v
        if op in ('+=', '-=', '|=', '&=', '^=', '*=', '/=') and len(a) == 2:
            v = self.ev_(a[1]); lv = self.lval(a[0]); nv = self.binop(op[:-1], self.rd(lv), v); self.wr(lv, nv, ln); return nv
        if op in ('++', '--'):
            return self.x_inc(['inc', 'pre' if len(a) == 1 else 'post', op[0], a[0], ln])
        if op in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '*', '/', '%', '&', '|', '^') and len(a) == 2:
            return self.binop(op, self.ev_(a[0]), self.ev_(a[1]))
        if op in ('&&', '||'): return self.x_bin(['bin', op, a[0], a[1]])
        if op == '!': return self.x_un(['un', '!', a[0]])
        if op == '()':
            f = self.ev_(a[0])
            if f[0] == 'lam': return self.applylam(f, [self.ev_(x) for x in a[1:]], a[1:])
            return self.mk('operator()', f, self.args_(a[1:]), ln, key=key, q=q)
        if op == '<<' or op == '>>':
            return ('op', op, (self.ev_(a[0]), self.ev_(a[1])))
        args = self.args_(a)
        return self.mk('operator' + op, None, args, ln, key=key, q=q)

    def x_icall(self, e):
        f = self.ev_(e[1])
        if f[0] == 'lam': return self.applylam(f, [self.ev_(x) for x in e[2]], e[2])
        if f[0] == 'fn' and len(f) > 2:
            return self.x_call(['call', f[2], f[1], e[2], e[3], []])
        return self.mk('operator()', f, self.args_(e[2]), e[3])

    def x_call(self, e):
        key, q, a, ln, ta = e[1], e[2], e[3], e[4], e[5]
        if q in TRANSP_FN and a: return self.ev_(a[0])
        if q in ('std::next', 'std::prev') and a:
            x = self.ev_(a[0]); d = self.ev_(a[1]) if len(a) > 1 and a[1][0] != 'defarg' else I(1)
            return add(x, d, 1 if q == 'std::next' else -1)
        if q == 'std::advance' and len(a) == 2:
            lv = self.lval(a[0]); self.wr(lv, add(self.rd(lv), self.ev_(a[1])), ln); return ('none',)
        if q in ALGOS:
            r = self.algo(q, a, ln)
            if r is not None: return r
        if q in ('std::begin', 'std::cbegin') and len(a) == 1: return ('begin', self.ev_(a[0]))
        if q in ('std::end', 'std::cend') and len(a) == 1: return ('end', self.ev_(a[0]))
        if q == 'std::get' and ta and len(a) == 1:
            b = self.ev_(a[0])
            if ta[0].isdigit():
                if b[0] == 'tup' and int(ta[0]) < len(b[1]): return b[1][int(ta[0])]
                return self.load(('fld', b, {'0': 'first', '1': 'second'}.get(ta[0], ta[0])))
        if q in ('std::make_pair', 'std::make_tuple'): return ('tup', self.args_(a))
        if q in ('std::swap',) and len(a) == 2:
            l1, l2 = self.lval(a[0]), self.lval(a[1])
            v1, v2 = self.rd(l1), self.rd(l2)
            self.wr(l1, v2, ln); self.wr(l2, v1, ln)
            return ('none',)
        if q == 'std::exchange' and len(a) == 2:
            l1 = self.lval(a[0]); v1 = self.rd(l1); nv = self.ev_(a[1])
            self.boolval = a[1][0] == 'bool'
            self.wr(l1, nv, ln)
            self.boolval = False
            return v1
        return self.invoke(key, q, None, a, ln, ta, False)

    def x_ucall(self, e):
        q, a, ln, ta, cand = e[1], e[2], e[3], e[4], e[5]
        if q in TRANSP_FN and a: return self.ev_(a[0])
        if q in ('std::next', 'std::prev') and a:
            x = self.ev_(a[0]); d = self.ev_(a[1]) if len(a) > 1 and a[1][0] != 'defarg' else I(1)
            return add(x, d, 1 if q == 'std::next' else -1)
        if q in ('std::begin', 'std::cbegin', 'begin', 'cbegin') and len(a) == 1: return ('begin', self.ev_(a[0]))
        if q in ('std::end', 'std::cend', 'end', 'cend') and len(a) == 1: return ('end', self.ev_(a[0]))
        if q in ('std::make_pair', 'std::make_tuple', 'std::make_unique', 'std::make_shared') and q.startswith(('std::make_p', 'std::make_t')): return ('tup', self.args_(a))
        if q in ALGOS:
            r = self.algo(q, a, ln)
            if r is not None: return r
        if q == 'std::get' and ta and len(a) == 1 and ta[0].isdigit():
            b = self.ev_(a[0])
            if b[0] == 'tup' and int(ta[0]) < len(b[1]): return b[1][int(ta[0])]
            return self.load(('fld', b, {'0': 'first', '1': 'second'}.get(ta[0], ta[0])))
        key = None
        if len(cand) == 1: key = cand[0]
        elif len(cand) > 1:
            c2 = [c for c in cand if c in self.F.funcs and len(self.F.funcs[c]['params']) == len(a)]
            if len(c2) == 1: key = c2[0]
        qq = q
        if key and key in self.F.funcs: qq = self.F.funcs[key]['q']
        elif cand: qq = cand[0].split('@')[0]
        return self.invoke(key, qq, None, a, ln, ta, False)

    def x_dcall(self, e):
        ob, n, a, ln, ta = e[1], e[2], e[3], e[4], e[5]
        cand = e[6] if len(e) > 6 else []
        o = self.ev_(ob) if ob else self.this
        if n in ('begin', 'cbegin') and not a: return ('begin', o)
        if n in ('end', 'cend') and not a: return ('end', o)
        key = None
        if len(cand) == 1: key = cand[0]
        elif len(cand) > 1:
            c2 = [c for c in cand if c in self.F.funcs and len(self.F.funcs[c]['params']) == len(a)]
            if len(c2) == 1: key = c2[0]
        q = self.F.funcs[key]['q'] if key and key in self.F.funcs else (cand[0].split('@')[0] if cand else n)
        return self.invoke(key, q, o, a, ln, ta, False, ob)

    def x_mcall(self, e):
        ob, key, q, a, ln, virt, ta = e[1], e[2], e[3], e[4], e[5], e[6], e[7]
        o = self.ev_(ob)
        return self.invoke(key, q, o, a, ln, ta, virt, ob)

    def algo(self, q, a, ln):
        """std algorithms with a lambda are loops over their range."""
        n = q[5:]
        if n in ('for_each', 'any_of', 'all_of', 'none_of', 'count_if', 'find_if', 'find', 'count', 'accumulate') and len(a) in (3, 4):
            n0, occ0 = len(self.events), dict(self.occ)
            b, en, f = self.ev_(a[0]), self.ev_(a[1]), self.ev_(a[-1])
            full = b[0] == 'begin' and en[0] == 'end' and b[1] == en[1]
            off = None
            if not full and not occurs(b, lambda t: t[0] in ('begin', 'end')) and not occurs(en, lambda t: t[0] in ('begin', 'end')) and lin(en).get(b) == 1 and b != en: off = add(en, b, -1)
            if (off is not None or full or (b[0] == 'op' or b[0] == 'begin' or en[0] == 'end') and b != en) and (f[0] == 'lam' or n in ('find', 'count', 'accumulate')) and (len(a) == 3) == (n != 'accumulate' or f[0] != 'lam'):
                dom = ('each', b[1]) if full else ('range', b, en)
                el = ('elem', b[1]) if full else ('idx', b, en)
                fin = ('end', b[1]) if full else en
                if off is not None:
                    dom = ('range', I(0), off)
                    el = self.load(self.look(b, ('idx', I(0), off)))
                sg, sl, sc = self.guard, self.live, self.ctx
                if n == 'for_each':
                    self.loop(dom, lambda: self.applylam(f, [el], None, loop=True), ln, lams=[f])
                    return ('none',)
                if n == 'accumulate':
                    init = self.ev_(a[2])
                    new = self.applylam(f, [('rec',), el], None) if f[0] == 'lam' else add(('rec',), el)
                    return self.mu(init, new, dom)
                p = tb(self.applylam(f, [el], None)) if n[-1] == 'f' else tb(cmp_('==', el, f))
                if n in ('count', 'count_if'): return self.mu(I(0), mkite(p, add(('rec',), I(1)), ('rec',)), dom)
                if n in ('find', 'find_if'):
                    ex = self.exists(dom, p)
                    return mkite(ex, ('found', dom, tb2t(ex)) if off is None else add(b, ('found', dom, tb2t(ex))), fin)
                if n == 'any_of': return tb2t(self.exists(dom, p))
                if n == 'none_of': return tb2t(bnot(self.exists(dom, p)))
                if n == 'all_of': return tb2t(bnot(self.exists(dom, bnot(p))))
                return ('call', n, (dom, tb2t(p)), 0, ())
            del self.events[n0:]
            self.occ = occ0
        return None

    def exists(self, dom, p):
        if p == 0: return 0
        return bvar(('exists', dom, tb2t(p)))

    def should_inline(self, f, q, virt):
        if any(k.search(q) for k in self.keep): return False
        if len(self.stack) >= self.maxdepth or any(s['key'] == f['key'] for s in self.stack): return False
        if virt and len(self.F.byq.get(q, [])) == 0: return False
        if any(k.search(q) for k in self.inline): return True
        if virt: return False
        if q not in known(): return True
        return self.trivial and fid(f) in trivial_names()

    def invoke(self, key, q, o, a, ln, ta, virt, obexpr=None):
        f = self.F.funcs.get(key) if key else None
        name = q
        short_n = q.split('::')[-1]
        if o is not None:
            # smart pointers and optionals are transparent
            if short_n in ('get', 'value') and not a and (q.startswith('std::') or 'MsgSharedPtr' in q or 'MsgPtr' in q or f is None): return o
            if short_n in ('begin', 'cbegin') and not a: return ('begin', o)
            if short_n in ('end', 'cend') and not a: return ('end', o)
            if q == 'vt::sched::Queue::empty': return cmp_('==', self.size(o), I(0))  # its own check ties the two together
            if q.startswith('std::') or f is None:
                if short_n == 'empty' and not a: return cmp_('==', self.size(o), I(0))
                if short_n in ('size', 'length') and not a: return self.size(o)
                if short_n == 'find' and len(a) == 1: return ('find', o, self.ev_(a[0]))
                if short_n in ('count', 'contains') and len(a) == 1: return tb2t(bvar(('has', o, self.ev_(a[0]))))
                if short_n == 'at' and len(a) == 1: return self.load(self.look(o, self.ev_(a[0])))
                if short_n == 'has_value' and not a: return tb2t(tb(o))
                if short_n.startswith('operator bool'): return o
                if short_n in ('load',) and not a: return o
            if f is None and short_n.startswith('operator ') and not a: return o
            if short_n.startswith('operator bool') or (short_n == 'get' and not a and f is None): return o
        if f is not None and f.get('body') is not None and self.should_inline(f, q, virt):
            return self.inline_call(f, o, a, ln, self.tas(ta))
        args = self.args_(a)
        return self.mk(q, o, args, ln, key=key, q=q, ta=ta, f=f, obexpr=obexpr)

    def size(self, o):
        return ('mcall', o, 'size', (), 0, ())

    def mk(self, name, o, args, ln, key=None, q=None, ta=(), f=None, obexpr=None):
        n = (q or name)
        if o is not None: o = self.deref(o)
        if o is not None and n.startswith('std::') and n.endswith('::reserve'): return ('none',)
        if o is not None and len(args) == 2 and re.match(r'(std::(__\w+::)?(unordered_)?map::)?insert_or_assign$', n):
            self.store(self.look(self.unver(o), args[0]), args[1], ln)
            return ('none',)
        if o is not None and n.startswith('std::vector') and n.endswith('::insert') and len(args) == 3 and args[0] == ('end', o) and args[1][0] == 'begin' and args[2] == ('end', args[1][1]):
            # one by one
            sc, self.ctx = self.ctx, self.ctx + (('each', args[1][1]),)
            self.mk('std::vector::push_back', o, (('elem', args[1][1]),), ln)
            self.ctx = sc
            return ('none',)
        if o is not None and not args and n.startswith('std::basic_string') and n.endswith('::clear'):
            self.store(self.raw(o), ('str', ''), ln)
            return ('none',)
        ta = self.tas(ta)
        sn = n.split('::')[-1]
        pure = PUREFN.match(n) or n in known_pure() or any(p.search(n) for p in self.pure)
        if o is not None and sn in CONSTM: pure = True
        if f is None and not args and (key is None) and '::' not in n and n in pure_names(): pure = True
        if f is not None and f.get('const') and f.get('kind') == 'method' and not acts(f.get('ret'), sn): pure = True
        if f is None and key is None and o is not None and '::' not in n and n in self.F.const_methods(): pure = True
        base = (n if not (o is not None) else sn)
        if any(x[0] == 'lam' for x in args) and not PUREFN.match(n): pure = False
        if pure:
            t = ('mcall', o, base, args, 0, tuple(ta or ())) if o is not None else ('call', n, args, 0, tuple(ta or ()))
            if UNSIGNED.match(f.get('ret') or '') if f is not None else isinstance(key, str) and key in self.F.unsigned_methods(): UNSIGNED_HINT.add(t)
            mm = member(n) if o is not None else None
            if mm:
                ok = okey(o)
                nv = sum(self.vers.get(('fld', ok, x), 0) for x in mm[1])
                if nv: t = ('ver', t, nv)
            if isinstance(ln, int): self.ev('call', ln, name=n, obj=o, args=args, ta=tuple(ta or ()), val=t, key=key, extra='pure')
            return t
        if n in ('std::min', 'min') and len(args) == 2: return ('call', 'min', tuple(sorted(args, key=show)), 0, ())
        if n in ('std::max', 'max') and len(args) == 2: return ('call', 'max', tuple(sorted(args, key=show)), 0, ())
        if o is not None and n in ADDERS and unver(o)[0] == 'fld':
            fk = self.F.fieldkind(unver(o)[2])
            if fk: n = 'std::%s::%s' % (fk, n)
        cc = container(n, o, args) if o is not None else None
        if cc and args and args[0][0] == 'find' and cc[0] == 'remove':
            # by iterator: only of an element that is there
            self.ev('unsafe', ln, name=cc[0], obj=o, args=cc[1][:1])
            u = self.events[-1] if self.events and self.events[-1].kind == 'unsafe' else None
            if u is not None: u.guard = cofactor(u.guard, cc[2], False)
        if cc:
            nm, ca, atom, val = cc
            k = (nm, o, ca, ())
            cnt = self.occn(k)
            full = n.rsplit('::', 1)[0] + '::' + nm if '::' in n else nm
            t = ('mcall', o, nm, ca, cnt, ())
            e = self.ev('call', ln, name=full, obj=o, args=ca, ta=(), val=t, key=key)
            if e is not None and atom is not None: e.g0 = e.guard; e.guard = cofactor(e.guard, atom, val)
            p = self.unver(o)
            self.invalidate('std::x::' + nm if 'vector' not in n else 'std::vector::' + nm, o, ca)
            if nm == 'insert':
                t = ('insres', o, ca[0])
            if p[0] in ('fld', 'look', 'elem', 'glob'): self.bump(p)
            for x in ca:
                if x[0] == 'lam': self.deferred(x, full, t)
            return t
        k = (n, o, args, tuple(ta or ()))
        # repeated reads of singletons and the like are one value
        cnt = 0 if re.match(r'^vt::the[A-Z]', n) else self.occn(k)
        t = ('mcall', o, base, args, cnt, tuple(ta or ())) if o is not None else ('call', n, args, cnt, tuple(ta or ()))
        if UNSIGNED.match(f.get('ret') or '') if f is not None else isinstance(key, str) and key in self.F.unsigned_methods(): UNSIGNED_HINT.add(t)
        if re.match(r'^vt::the[A-Z]\w*$', n): return t
        self.ev('call', ln, name=n, obj=o, args=args, ta=tuple(ta or ()), val=t, key=key)
        if o is not None and sn not in CONSTM:
            # a mutating call on an object of library type
            p = self.unver(o)
            if p[0] in ('fld', 'look', 'elem', 'glob'): self.bump(p)
            self.invalidate(n, o, args)
        mm = member(n) if o is not None else None
        if mm:
            ok = okey(o)
            for x in mm[0]:
                px = ('fld', ok, x)
                self.bump(px)
                for p in list(self.mem):
                    if p != px and self.sub(p, px): del self.mem[p]; self.bump(p)
        for x in args:
            if x[0] == 'lam': self.deferred(x, n, t)
            elif x[0] == 'init':
                for y in x[2]:
                    if y[0] == 'lam': self.deferred(y, n, t)
        return t

    def invalidate(self, n, o, args):
        """references and iterators into a container end with the element"""
        if not self.rv: return
        f = n.split('::')[-1]
        P = self.unver(o)
        vec = 'vector' in n or 'deque' in n
        if f not in ('clear', 'pop_back', 'pop_front', 'pop', 'erase', 'remove') and not (vec and f in ('append', 'prepend', 'resize', 'insert', 'emplace')): return

        def hit(t, top=True):
            if not isinstance(t, tuple) or not t: return False
            k = t[0]
            if k in ('fld', 'ver'): return hit(t[1], False)
            if k == 'ite': return hit(t[2], top) or hit(t[3], top)
            if f in ('erase', 'remove') and not vec:
                if args and t == args[0]: return k in ('find', 'fnd', 'found', 'begin', 'phi', 'idx', 'mcall', 'ite', 'mu') or k in ('elem', 'look') and unver(t[1]) == P
                return k in ('find', 'fnd', 'look') and args and unver(t[1]) == P and (t[2] == args[0] or t == args[0])
            if k in ('find', 'fnd', 'look', 'elem', 'begin'): 
                if unver(t[1]) == P: return f in ('clear',) or vec and f not in ('pop_back',) or (f == 'pop_front' and k == 'begin')
                return hit(t[1], False)
            if k == 'mcall' and t[1] is not None and not t[3]:
                if unver(t[1]) == P: return t[2] in {'pop_back': ('back', 'rbegin', 'crbegin'), 'pop_front': ('front',), 'pop': ('front', 'top', 'back')}.get(f, ('front', 'back', 'top', 'rbegin', 'crbegin'))
                return hit(t[1], False)
            return False
        for i in self.rv:
            v = self.env.get(i)
            a = self.alias.get(i)
            if a is not None and a[0] == 'p' and a[1][0] != 'stale' and hit(a[1]):
                self.alias[i] = ('p', ('stale', a[1]))
            elif a is None and v is not None and v[0] != 'stale' and hit(v): self.env[i] = ('stale', v)

    def deferred(self, lam, n, callterm):
        """the body of a lambda handed to a call: its effects, in their own context"""
        if len(self.ctx) > 7: return
        e, env, alias, idb, this, fn = self.lams[lam[1]]
        sv = (dict(self.env), dict(self.alias), dict(self.mem), dict(self.vers), self.ctx, self.live, self.guard, self.idbase, self.this, self.rets, self.loops)
        sv_ex, self.exits = self.exits, []
        self.env = dict(env); self.alias = dict(alias); self.idbase = idb; self.this = this
        for c in e[2]:
            if c[0] != 'this' and c[2] and c[3] is None and self.res(c[1]) in sv[0]: self.env[self.res(c[1])] = sv[0][self.res(c[1])]
        if n.startswith('std::') and callterm[0] == 'mcall': n = n.rsplit('::', 1)[-1]
        self.ctx = self.ctx + (('deferred', n, lam[1]),)
        self.rets = []
        self.loops = []
        self.live = band(self.live, self.guard) if False else self.live
        for j, p in enumerate(e[3]): self.env[self.res(p[1])] = ('lpar', j); self.alias.pop(self.res(p[1]), None)
        live0 = self.live
        outer = sv[0]
        chg = {}
        for i in sorted(self.assigned([e[4]])[0]):
            if i in outer and i in self.env and not (self.alias.get(i)):
                ph = ('phi', 20 + len([c for c in sv[4] if c[0] == 'deferred']), len(chg), outer[i])
                chg[i] = ph
                self.env[i] = ph
        self.st(e[4])
        if self.exits: self.rejoin(self.exits, self.ctx, self.guard, live0, fall=self.g())
        for i, ph in chg.items():
            new = self.env.get(i)
            if new is not None and new != ph: sv[0][i] = self.mu(outer[i], subst(new, ph, ('rec',)), ('deferred', n, 0))
        (self.env, self.alias, self.mem, self.vers, self.ctx, self.live, self.guard, self.idbase, self.this, self.rets, self.loops) = sv
        self.exits = sv_ex

    def applylam(self, lam, args, exprs, loop=False):
        e, env, alias, idb, this, fn = self.lams[lam[1]]
        if len(self.stack) > self.maxdepth: return ('opaque', 'deep')
        self.stack.append({'key': 'lam%d' % lam[1]})
        sv_id, sv_this, sv_rets, sv_live, sv_loops, sv_guard = self.idbase, self.this, self.rets, self.live, self.loops, self.guard
        sv_ex = self.exits
        self.idbase = idb; self.this = this; self.rets = []; self.loops = []; self.exits = []
        self.guard = band(self.guard, self.live); self.live = 1
        ab0, self.aborted = self.aborted, 0
        for c in e[2]:
            i = self.res(c[1]) if c[0] != 'this' else None
            if i is not None and (c[3] is not None or not c[2]):
                # by-value captures have the value at creation
                if i in env and c[3] is not None: self.env[i] = env[i]
        for j, p in enumerate(e[3]):
            self.env[self.res(p[1])] = args[j] if j < len(args) else ('undef',)
            self.alias.pop(self.res(p[1]), None)
            if j < len(args) and '&' in p[2] and args[j][0] in ('fld', 'look', 'elem', 'glob'): self.alias[self.res(p[1])] = ('p', args[j])
        self.st(e[4])
        if self.exits: self.rejoin(self.exits, self.ctx, self.guard, 1, fall=band(self.guard, self.live))
        self.exits = sv_ex
        r = self.merge_rets()
        self.idbase, self.this, self.rets, self.live, self.loops, self.guard = sv_id, sv_this, sv_rets, sv_live, sv_loops, sv_guard
        if self.aborted: self.live = band(self.live, bnot(self.aborted))
        self.aborted = bor(ab0, self.aborted)
        self.stack.pop()
        return r

    def merge_rets(self):
        r = ('none',)
        for g, v in reversed(self.rets):
            r = mkite(g, v, r) if r != ('none',) else v
        return r

    nid = [0]

    def inline_call(self, f, o, a, ln, ta=()):
        self.inlined.add(f['q'])
        vals = []
        for j, p in enumerate(f['params']):
            if j < len(a):
                x = a[j]
                lv = None
                if p[2].rstrip().endswith('&') and not p[2].startswith('const') and ' const &' not in p[2] and x[0] in ('var', 'fld', 'dfld', 'sub', 'op', 'un'):
                    if x[0] == 'var' or x[0] in ('fld', 'dfld', 'sub') or (x[0] == 'op' and x[1] in ('[]', '*', '->')) or (x[0] == 'un' and x[1] == '*'):
                        lv = self.lval(x)
                vals.append((lv, self.ev_(x) if lv is None else self.rd(lv)))
            else:
                vals.append((None, self.ev_(p[3]) if p[3] else ('undef',)))
        sv = (self.idbase, self.this, self.rets, self.live, self.loops, self.fn, self.guard, self.tenv, self.tnames)
        Interp.nid[0] += 1
        self.idbase = Interp.nid[0] * 100000
        if o is not None and f['kind'] in ('method', 'ctor') and not f.get('static'): self.this = o
        if f.get('tps'):
            self.tenv, self.tnames = dict(self.tenv), dict(self.tnames)
            for j, tn in enumerate(f['tps']):
                if j < len(ta) and re.match(r'^-?\d+$', ta[j]): self.tenv[tn] = I(int(ta[j])); self.tnames[tn] = ta[j]
                elif j < len(ta): self.tenv.pop(tn, None); self.tnames[tn] = ta[j]
                else: self.tenv.pop(tn, None); self.tnames.pop(tn, None)
        self.stack.append(f)
        self.fn = f
        self.rets = []
        self.loops = []
        sv_ex, self.exits = self.exits, []
        self.guard = band(self.guard, self.live)
        self.live = 1
        ab0, self.aborted = self.aborted, 0
        for (lv, v), p in zip(vals, f['params']):
            i = self.res(p[1])
            if lv is not None:
                self.alias[i] = lv
            elif p[2].rstrip().endswith('&') and v[0] in ('fld', 'look', 'elem', 'glob'):
                self.alias[i] = ('p', v)
            self.env[i] = v
        self.st(f['body'])
        if self.exits: self.rejoin(self.exits, self.ctx, self.guard, 1, fall=band(self.guard, self.live))
        self.exits = sv_ex
        r = self.merge_rets()
        self.stack.pop()
        (self.idbase, self.this, self.rets, live0, self.loops, self.fn, self.guard, self.tenv, self.tnames) = sv
        # a callee that aborts ends the caller; a return does not
        self.live = band(live0, bnot(self.aborted)) if self.aborted else live0
        self.aborted = bor(ab0, self.aborted)
        return r

    aborted = 0
    tenv = {}
    tnames = {}

    def tas(self, ta):
        return tuple(self.tnames.get(x, x) for x in (ta or ()))

    # -- statements
    def st(self, s):
        if s is None: return
        k = s[0]
        getattr(self, 's_' + k, self.s_unk)(s)

    def s_unk(self, s):
        self.imprecise.append(s[2] if len(s) > 2 else s[0])
        if len(s) > 3 and isinstance(s[3], list):
            for c in s[3]: self.st(c)

    def s_nop(self, s): pass
    def s_expr(self, s):
        e = s[2]
        if isinstance(e, list) and e and e[0] == 'bin' and e[1] == '|':
            # serializer | a | b ...: each operand is one serialized item
            items = []
            while isinstance(e, list) and e[0] == 'bin' and e[1] == '|':
                items.append(e[3]); e = e[2]
            base = self.ev_(e)
            for x in reversed(items):
                v = self.ev_(x)
                self.ev('call', s[1], name='serialize-item', obj=base, args=(v,))
            return
        v = self.ev_(e)
        if isinstance(e, list) and e and e[0] == 'op' and e[1] == '[]' and re.match(r'std::(unordered_)?map\b', e[4] or '') and v[0] in ('look', 'ver'):
            # only for the element to be there
            v = self.unver(v)
            if v[0] == 'look': self.mk('std::map::try_emplace', v[1], (v[2],), s[1], q='std::map::try_emplace')

    def s_macro(self, s):
        m = s[2]
        if ABORTS.match(m):
            if m.startswith('vtAbortIf'):
                c = self.find_if(s[3])
                if c is not None:
                    g = tb(self.ev_(c))
                    sg = self.guard; self.guard = band(sg, g)
                    self.ev('abort', s[1], name=m)
                    self.guard = sg
                    self.kill(band(self.g(), g))
                    return
            self.ev('abort', s[1], name=m)
            self.kill(self.g())
            return
        if m.startswith('vtAssert'):
            self.asserts = getattr(self, 'asserts', [])
            c = self.find_if(s[3])
            if c is not None: self.ev('assert', s[1], name=m, extra=c)
            return
        if ASSERTS.match(m): return
        self.st(s[3])

    def find_if(self, s):
        """condition of the first if inside a macro body"""
        if isinstance(s, list):
            if s and s[0] == 'if': return s[4]
            for x in s:
                r = self.find_if(x) if isinstance(x, list) else None
                if r is not None: return r
        return None

    def kill(self, g):
        self.live = band(self.live, bnot(g))
        self.aborted = bor(self.aborted, g)

    def s_blk(self, s):
        mark = len(self.events)
        sc = []
        svs = getattr(self, 'scope', None)
        self.scope = sc
        for c in s[2]: self.st(c)
        for (n, ty, g, v) in reversed(sc):
            e = Ev(kind='dtor', guard=g, line=s[3], ctx=self.ctx, ix=len(self.events), name=ty, val=v, fn=self.fn['q'] if self.fn else None)
            self.events.append(e)
        self.scope = svs

    def s_decl(self, s):
        for d in s[2]:
            if d[0] == '$decomp':
                v = self.ev_(d[3])
                for j, (n, i) in enumerate(d[2]):
                    x = ('fld', v, ('first', 'second')[j] if j < 2 else str(j))
                    if v[0] == 'tup' and j < len(v[1]): x = v[1][j]
                    self.env[self.res(i)] = x
                    if '&' in d[4]: self.alias[self.res(i)] = ('p', x)
                continue
            n, i, ty, init, extra = d[0], d[1], d[2], d[3], d[4]
            i = self.res(i)
            self.alias.pop(i, None)
            if ty in ('bool', 'const bool'): self.bools.add(i)
            isref = ty.rstrip().endswith('&') or (len(d) > 6 and d[6].rstrip().endswith('&'))
            if isref or 'terator' in ty or (len(d) > 6 and isinstance(d[6], str) and 'terator' in d[6]): self.rv.add(i)
            if init is None:
                self.env[i] = ('undef',)
            elif isref:
                x = init
                if x[0] in ('var', 'fld', 'dfld', 'sub', 'glob', 'cond') or (x[0] == 'op' and x[1] in ('[]', '*', '->')) or (x[0] == 'un' and x[1] == '*'):
                    lv = self.lval(x)
                    self.alias[i] = lv
                    self.env[i] = self.rd(lv)
                else:
                    v = self.ev_(x)
                    self.env[i] = v
                    if v[0] in ('fld', 'look', 'elem', 'glob'): self.alias[i] = ('p', v)
            else:
                if init[0] == 'plist': init = ['ctor', ty, init[1], None, ty, s[1]]
                v = self.ev_(init)
                if v[0] == 'init' and v[2] == () : v = ('local', short(ty), self.occn(('local', ty)))
                self.env[i] = v
            if self.raii and self.raii.search(ty) and getattr(self, 'scope', None) is not None:
                self.scope.append((n, ty, self.g(), self.env[i]))

    def branch(self, c, fa, fb):
        """run fa under c, fb under not c, join"""
        sg = self.guard
        env0, mem0, vers0, alias0 = dict(self.env), dict(self.mem), dict(self.vers), dict(self.alias)
        live0 = self.live
        self.guard = band(sg, c)
        occ0 = dict(self.occ)
        if c != 0 and self.g() != 0 and fa: fa()
        occA, self.occ = self.occ, occ0
        envA, memA, versA, liveA, aliasA = self.env, self.mem, self.vers, self.live, self.alias
        self.env, self.mem, self.vers, self.alias = dict(env0), dict(mem0), dict(vers0), dict(alias0)
        self.live = live0
        self.guard = band(sg, bnot(c))
        if c != 1 and self.g() != 0 and fb: fb()
        envB, memB, versB, liveB = self.env, self.mem, self.vers, self.live
        self.guard = sg
        self.live = bite(c, liveA, liveB)
        # where one side cannot continue, the other side's values survive
        deadA = band(sg, c, liveA) == 0
        deadB = band(sg, bnot(c), liveB) == 0
        env = {}
        for i in set(envA) | set(envB):
            a, b = envA.get(i, ('undef',)), envB.get(i, ('undef',))
            if a == b: env[i] = a
            elif deadA and not deadB: env[i] = b
            elif deadB and not deadA: env[i] = a
            else:
                env[i] = mkite(c, a, b)
        self.env = env
        mem = {}
        for p in set(memA) | set(memB):
            a, b = memA.get(p, p), memB.get(p, p)
            if deadA and not deadB: mem[p] = b
            elif deadB and not deadA: mem[p] = a
            else: mem[p] = mkite(c, a, b) if a != b else a
        self.mem = {p: v for p, v in mem.items() if v != p}
        if deadA and not deadB: self.vers = versB
        elif deadB and not deadA: self.vers = versA
        else: self.vers = {p: max(versA.get(p, 0), versB.get(p, 0)) for p in set(versA) | set(versB)}
        occB = self.occ
        if deadA and not deadB: self.occ = occB
        elif deadB and not deadA: self.occ = occA
        else: self.occ = {k: max(occA.get(k, 0), occB.get(k, 0)) for k in set(occA) | set(occB)}
        aliasB = self.alias
        self.alias = {**aliasB, **aliasA} if deadB and not deadA else {**aliasA, **aliasB}
        if not deadA and not deadB:
            for i, a in aliasA.items():
                if a[0] == 'p' and a[1][0] == 'stale': self.alias[i] = a

    def s_if(self, s):
        if s[2]: self.st(s[2])
        if s[3]: self.s_decl(['decl', s[1], [s[3]]])
        c = tb(self.ev_(s[4]))
        self.branch(c, (lambda: self.st(s[5])) if s[5] else None, (lambda: self.st(s[6])) if s[6] else None)

    def s_ret(self, s):
        v = self.ev_(s[2]) if s[2] else ('none',)
        self.ev('ret', s[1], val=v, name=len(self.stack))
        if self.rets is not None: self.rets.append((self.retg(), v))
        # leave the function (and, inside a loop, remember it)
        g = self.g()
        for l in self.loops: l['ret'] = bor(l['ret'], g)
        if self.exits is not None: self.snap(self.exits)
        self.live = band(self.live, bnot(self.guard))

    def retg(self): return self.g()

    exits = None

    def snap(self, to):
        """the state on a path that leaves here"""
        g = self.g()
        if g != 0: to.append((g, self.ctx, dict(self.env), dict(self.mem), dict(self.vers), dict(self.occ)))

    def rejoin(self, snaps, ctx, sg, sl, ids=None, fall=None):
        """paths that left earlier arrive here as well"""
        for g, cx, env, mem, vers, occ in reversed(snaps):
            if cx != ctx: continue
            c = self.gproj(g, sg, sl)
            if c == 0: continue
            for i in list(self.env):
                if i not in env: continue
                a, b = env[i], self.env[i]
                if a != b: self.env[i] = a if fall == 0 else mkite(c, a, b)
            if fall == 0: m = dict(mem)
            else:
                m = {}
                for p in set(mem) | set(self.mem):
                    a, b = mem.get(p, p), self.mem.get(p, p)
                    m[p] = a if a == b else mkite(c, a, b)
            self.mem = {p: v for p, v in m.items() if v != p}
            if fall == 0: self.vers, self.occ = dict(vers), dict(occ)
            else:
                self.vers = {p: max(vers.get(p, 0), self.vers.get(p, 0)) for p in set(vers) | set(self.vers)}
                self.occ = {k: max(occ.get(k, 0), self.occ.get(k, 0)) for k in set(occ) | set(self.occ)}
            fall = None

    def s_break(self, s):
        if self.loops:
            self.loops[-1]['brk'] = bor(self.loops[-1]['brk'], self.g())
            self.snap(self.loops[-1].setdefault('brks', []))
        self.live = band(self.live, bnot(self.guard))

    def s_cont(self, s):
        if self.loops:
            L = next((l for l in reversed(self.loops) if not l.get('switch')), None)
            if L is not None:
                L['cont'] = bor(L['cont'], self.g())
                self.snap(L.setdefault('conts', []))
                if L is not self.loops[-1]: self.loops[-1]['cont'] = bor(self.loops[-1].get('cont', 0), 0)
        self.live = band(self.live, bnot(self.guard))

    def assigned(self, body, lams=()):
        """ids of variables and paths written in a loop body"""
        vs, ps = set(), []
        seen = set()

        def lam(v):
            if v[1] in seen: return
            seen.add(v[1])
            sv, self.idbase = self.idbase, self.lams[v[1]][3]
            n = len(ps)
            go(self.lams[v[1]][0][4])
            # paths of another scope are not resolved here
            del ps[n:]
            self.idbase = sv

        def root(x):
            while isinstance(x, list):
                if x[0] == 'var': return x
                return None
            return None

        def go(x):
            if not isinstance(x, list): return
            if len(x) == 3 and x[0] == 'var' and isinstance(x[2], int):
                v = self.env.get(self.res(x[2]))
                if v is not None and v[0] == 'lam': lam(v)
            if x and x[0] == 'asg':
                if x[2][0] == 'var': vs.add(self.res(x[2][2]))
                else: ps.append(x[2])
            elif x and x[0] == 'inc':
                if x[3][0] == 'var': vs.add(self.res(x[3][2]))
                else: ps.append(x[3])
            elif x and x[0] == 'op' and x[1] in ('=', '+=', '-=', '++', '--', '|=', '&=', '*=', '/='):
                if x[2] and x[2][0][0] == 'var': vs.add(self.res(x[2][0][2]))
                elif x[2]: ps.append(x[2][0])
            for y in x: go(y)
        go(body)
        for f in lams: lam(f)
        return vs, ps

    def loop(self, dom, body, line, cond=None, bind=None, once=False, inc=None, lams=()):
        L = {'brk': 0, 'ret': 0, 'cont': 0, 'outer': [l['ret'] for l in self.loops]}
        mark = len(self.events)
        vs, ps = self.assigned([body, inc, cond], lams)
        saved = {}
        pths = {}
        n = len([c for c in self.ctx if c[0] != 'deferred'])
        phis = {}
        used = {}
        for i in sorted(vs):
            a = self.alias.get(i)
            if a is not None:
                if a[0] == 'p':
                    pths[a[1]] = self.load(a[1]); continue
                if a[0] == 'c': continue
                i = a[1]
            if i in self.env and i not in saved:
                o = saved[i] = self.env[i]
                used[o] = used.get(o, -1) + 1
                phis[i] = self.env[i] = ('phi', n, used[o], o)
        for p in ps:
            se, sg = self.events, self.guard
            self.events = []
            try: lv = self.lval(p)
            finally: self.events = se
            if lv[0] == 'p' and not occurs(lv[1], lambda t: t[0] in ('undef',)):
                pths[lv[1]] = self.load(lv[1])
        for p, v in pths.items():
            self.mem[p] = ('phi', n, p, p)
        if bind: bind()
        sg, sl, sc = self.guard, self.live, self.ctx
        c = 1
        self.loops.append(L)
        if cond is not None:
            if dom is None:
                c = tb(self.ev_(cond))
                dom = ('while', tb2t(c))
                self.guard = band(self.guard, c)
            else:
                pass
        self.ctx = self.ctx + (dom,)
        live0 = self.live
        ab0 = self.aborted
        if callable(body): body()
        else: self.st(body)
        self.aborted = ab0
        if L.get('conts'): self.rejoin(L['conts'], self.ctx, self.guard, live0, fall=band(self.guard, self.live))
        self.live = bor(self.live, L['cont'])
        if inc is not None and not once: self.ev_(inc)
        self.loops.pop()
        if L['brk']:
            self.events.append(Ev(kind='break', guard=L['brk'], line=line, ctx=self.ctx, ix=len(self.events), fn=self.fn['q'] if self.fn else None))
        self.ctx = sc
        self.guard = sg
        self.live = live0
        mine = sc + (dom,)
        if dom[0] == 'while' and L['brk'] and not L['ret']:
            # a break before anything else happens is part of the condition
            b = L['brk']
            E = [e for e in self.events[mark:] if e.ctx[:len(mine)] == mine]
            if all(e.kind == 'break' and e.ctx == mine or e.kind == 'assert' or e.kind == 'ret' and e.name != len(self.stack) or e.kind == 'call' and e.extra == 'pure' or band(e.guard, b) == 0 for e in E) \
               and all(cx == mine and all(env.get(i) in (None, phis[i]) for i in saved) and all(mem.get(p, p) == ('phi', n, p, p) for p in pths) for g, cx, env, mem, vers, occ in L.get('brks', [])):
                nd = ('while', tb2t(band(tb(dom[1]), bnot(self.gproj(b, sg, sl)))))
                k = len(sc)
                for e in E:
                    if e.kind == 'break' and e.ctx == mine: e.guard = 0
                    e.ctx = e.ctx[:k] + (nd,) + e.ctx[k + 1:]
                L['brk'] = 0; L['brks'] = []
                dom = nd
        ends, pends = {i: self.env.get(i) for i in saved}, {p: self.load(p) for p in pths}
        for i, old in saved.items():
            new = self.env.get(i)
            ph = phis[i]
            if new == ph: self.env[i] = old
            else: self.env[i] = self.mu(old, subst(new, ph, ('rec',)) if new is not None else ('undef',), dom)
        for p, old in pths.items():
            new = self.load(p)
            ph = ('phi', n, p, p)
            if new == ph:
                self.mem.pop(p, None)
                if old != p: self.mem[p] = old
            else: self.mem[p] = self.mu(old, subst(new, ph, ('rec',)), dom)
        for g, cx, env, mem, vers, occ in reversed(L.get('brks', [])):
            # what a path that breaks out has computed
            if cx != sc + (dom,): continue
            ex = self.exists(dom, self.gproj(g, sg, sl))
            def at(v):
                v = subst(v, ('elem', dom[1]), ('found', dom, tb2t(ex))) if dom[0] == 'each' else v
                return subst(v, ('idx',) + dom[1:], ('found', dom, tb2t(ex))) if dom[0] == 'range' else v
            for i in saved:
                v = env.get(i)
                if v is None or v == phis[i] or v == ends.get(i): continue
                self.env[i] = mkite(ex, subst(at(v), phis[i], ('rec',)), self.env[i])
            for p in pths:
                ph = ('phi', n, p, p)
                v = mem.get(p, p)
                if v == ph or v == pends.get(p): continue
                self.mem[p] = mkite(ex, subst(at(v), ph, ('rec',)), self.mem.get(p, p))
        mine = self.ctx + (dom,)
        lifted = False
        if dom[0] in ('each', 'range'):
            E = [e for e in self.events[mark:] if e.ctx[:len(mine)] == mine]
            R = [e for e in E if e.kind == 'ret' and e.name == len(self.stack)]
            same = R and R[0].val is not None and len({e.val for e in R}) == 1 and all(e.ctx == mine for e in R) and not occurs(R[0].val, lambda t: t[0] in ('elem', 'idx', 'phi', 'rec', 'undef', 'ver')) and not any(occurs(a, lambda t: t[0] in ('phi', 'rec')) for e in R for a in batoms(e.guard))
            lifted = self.lift(L, dom, E, mine, sc, sg, sl, line)
            if lifted: same = False
            E = [e for e in self.events[mark:] if e.ctx[:len(mine)] == mine]
            if all(e.kind in ('ret', 'break', 'assert') or e.kind == 'call' and e.extra == 'pure' for e in E):
                # it only looks for something: stopping early makes no difference
                flags = [v for v in list(self.env.values()) + list(self.mem.values()) if v[0] in ('mu', 'found') and v[-1] == dom]
                if not flags:
                    for e in E:
                        if e.kind == 'break': e.guard = 0
            if same:
                # the same value whichever iteration returns it
                g = 0
                for e in R: g = bor(g, e.guard)
                for e in R[1:]: e.guard = 0
                R[0].guard = band(sg, sl, self.exists(dom, self.gproj(g, sg, sl)))
                R[0].ctx = sc
        if L['ret']:
            # after the loop: no iteration returned
            r = L['ret']
            ex = self.exists(dom, self.gproj(r, sg, sl))
            self.live = band(self.live, bnot(band(sg, ex)))
            # return values recorded inside the loop hold if some iteration returned
            if self.rets:
                fixed = []
                for g, v in self.rets:
                    if isinstance(lifted, dict) and g in lifted: fixed.append((lifted[g][0], lifted[g][1](v)))
                    elif band(g, bnot(r)) == 0 and not any(t[0] == 'exists' for t in batoms(g)):
                        fixed.append((band(sg, sl, self.exists(dom, self.gproj(g, sg, sl))), v))
                    else: fixed.append((g, v))
                self.rets = fixed
            for l in self.loops: l['ret'] = bor(l['ret'], 0)
        return L

    def lift(self, L, dom, E, mine, sc, sg, sl, line):
        """what happens in the iteration that leaves the loop, and only there, is
        the same as doing it after the loop with the element it stopped at"""
        X = bor(L['brk'], L['ret'])
        if X == 0 or L['brk'] and L['ret'] or self.deferred_depth: return False
        Xi = self.gproj(X, sg, sl)
        cubes = _cubes(Xi, 2)
        ex = self.exists(dom, Xi)
        fnd = ('found', dom, tb2t(ex))
        el = ('elem', dom[1]) if dom[0] == 'each' else ('idx',) + dom[1:]

        def cond(g):
            """the condition beyond the exit itself"""
            gi = self.gproj(g, sg, sl)
            if bequiv(gi, Xi): return 1
            if len(cubes) != 1 or not bimplies(gi, Xi): return None
            for v, b in cubes[0]: gi = self.cof(gi, v, b)
            return gi
        at = lambda t: subst(t, el, fnd) if isinstance(t, tuple) else t
        R = [e for e in E if e.kind == 'ret' and e.name == len(self.stack)]
        if L['ret']:
            if any(cond(e.guard) is None or e.ctx != mine for e in R): return False
        done = {}
        for e in E:
            if e.kind == 'break' or e.guard == 0 or not e.ctx: continue
            h = cond(e.guard)
            if h is None: continue
            og = e.guard
            e.guard = band(sg, sl, ex, bsubst(h, el, fnd) if h > 1 else h)
            e.ctx = sc + tuple(at(c) for c in e.ctx[len(mine):])
            e.obj, e.val, e.path = at(e.obj), at(e.val), at(e.path)
            if e.args is not None: e.args = tuple(at(a) for a in e.args)
            done[og] = e.guard, at
        if L['ret']:
            self.events.append(Ev(kind='break', guard=L['ret'], line=line, ctx=mine, ix=len(self.events), fn=self.fn['q'] if self.fn else None))
            o = band(sg, sl, ex)
            for l, r0 in zip(self.loops, L['outer']): l['ret'] = bor(r0, o)
        return done or True

    deferred_depth = 0

    def mu(self, old, new, dom):
        """a value carried around a loop: a flag is an `exists`, a sum starts at its start"""
        carried = lambda t: t[0] in ('rec', 'phi', 'undef')
        varies = lambda t: t[0] in ('elem', 'idx', 'phi', 'rec', 'undef', 'ver', 'stale')
        REC = ('rec',)
        if dom[0] in ('each', 'range'):
            if new[0] == 'ite':
                L = leaves(new, 1)
                K = [(v, g) for v, g in L if v != REC]
                if len(L) == 2 and len(K) == 1 and not occurs(K[0][0], varies) and not any(occurs(a, carried) for a in batoms(K[0][1])):
                    return mkite(self.exists(dom, K[0][1]), K[0][0], old)
            if new[0] == 'bdd':
                f1, f0 = cofactor(new[1], REC, True), cofactor(new[1], REC, False)
                if not any(occurs(a, carried) for f in (f0, f1) for a in batoms(f)):
                    if f1 == 1: return tb2t(bor(tb(old), self.exists(dom, f0)))
                    if f0 == 0: return tb2t(band(tb(old), bnot(self.exists(dom, bnot(f1)))))
        L = leaves(new, 1)
        if old != I(0) and old[0] not in ('flt', 'str', 'undef', 'ite', 'bdd') and all(v == REC or v[0] == 'sum' and dict(v[1]).get(REC) == 1 for v, g in L) and any(v != REC for v, g in L):
            if ival(old) is not None or old[0] in ('sum', 'mcall', 'call', 'fld', 'par'): return add(old, ('mu', I(0), new, dom))
        return ('mu', old, new, dom)

    def gproj(self, g, outer_guard, outer_live):
        """iteration condition without the conditions already true outside"""
        o = band(outer_guard, outer_live)
        if o == 1: return g
        # cofactor by outer when outer is a cube of literals
        for c in _cubes(o, 2)[:1]:
            if len(_cubes(o, 2)) == 1:
                x = g
                for v, b in c:
                    x = self.cof(x, v, b)
                return x
        return g

    def cof(self, f, v, b):
        if f < 2: return f
        w, lo, hi = _nodes[f]
        if w > v: return f
        if w == v: return hi if b else lo
        return _mk(w, self.cof(lo, v, b), self.cof(hi, v, b))

    def s_rfor(self, s):
        v, rng, body = s[2], s[3], s[4]
        d = self.ev_(rng)
        dom = ('each', d)
        x = d
        while x[0] == 'ctor' and len(x) > 2 and isinstance(x[2], tuple) and len(x[2]) == 1 and 'initializer_list' in str(x[1]): x = x[2][0]
        if x[0] == 'init' and 0 < len(x[2]) <= 6 and re.search(r'\[\d+\]$|initializer_list', x[1]) and not has(body, 'break') and not has(body, 'cont'):
            for one in x[2]:
                bind_one(self, v, one)
                self.st(body)
            return

        def bind():
            el = ('elem', d)
            if v[0] == '$decomp':
                for j, (n, i) in enumerate(v[2]):
                    x = ('fld', el, ('first', 'second')[j] if j < 2 else str(j))
                    self.env[self.res(i)] = x
                    if '&' in v[4]: self.alias[self.res(i)] = ('p', x)
            else:
                self.env[self.res(v[1])] = el
                self.alias.pop(self.res(v[1]), None)
                if '&' in v[2] : self.alias[self.res(v[1])] = ('p', el)
        self.loop(dom, body, s[1], bind=bind)

    def s_for(self, s):
        init, cond, inc, body = s[2], s[3], s[4], s[5]
        if init: self.st(init)
        # the loop variable
        lv = None
        if init and init[0] == 'decl' and len(init[2]) >= 1 and init[2][0][0] != '$decomp':
            lv = init[2][0][1]
        elif inc and inc[0] == 'inc' and inc[3][0] == 'var': lv = inc[3][2]
        elif inc and inc[0] == 'op' and inc[1] == '++' and inc[2][0][0] == 'var': lv = inc[2][0][2]
        r = self.domain(lv, cond, inc, body) if lv is not None else None
        if r is None and lv is not None:
            a, b2 = leftmost(cond, body, s[1])
            if a is not None:
                r = self.domain(lv, a, inc, b2)
                if r: body = b2
        if r:
            dom, val, hi = r
            i = self.res(lv)

            def bind(): self.env[i] = val
            L = self.loop(dom, body, s[1], bind=bind, once=True)
            self.after(i, dom, hi, L)
        elif lv is not None and inc and inc[0] == 'inc' and inc[2] == '-' and cond and cond[0] == 'bin' and cond[1] in ('>', '!=') and cond[3] == ['int', 0] \
                and cond[2][0] == 'var' and cond[2][2] == lv == inc[3][2] and not mentions(body, lv):
            self.countdown(lv, I(0), body, s[1])
        else:
            self.loop(None, *head(cond if cond else ['bool', True], body, s[1]), inc=inc)

    def countdown(self, lv, fin, body, line):
        i = self.res(lv)
        n = self.env.get(i, ('opaque', ''))
        dom = ('range', I(0), n)
        L = self.loop(dom, body, line, once=True)
        self.after(i, dom, fin, L)

    def after(self, i, dom, hi, L):
        """the loop variable after the loop: the bound, or where it stopped"""
        self.env[i] = hi
        if L['brk']:
            ex = self.exists(dom, self.gproj(L['brk'], self.guard, self.live))
            self.env[i] = mkite(ex, ('found', dom, tb2t(ex)), hi)

    def domain(self, lv, cond, inc, body):
        """recognise `for (i = lo; i < hi; ++i)` and iterator loops"""
        if cond is None: return None
        # unit step?
        if not (isinstance(inc, list) and ((inc[0] == 'inc' and inc[2] == '+' and inc[3][0] == 'var' and inc[3][2] == lv) or
                                           (inc[0] == 'op' and inc[1] == '++' and inc[2][0][0] == 'var' and inc[2][0][2] == lv) or
                                           (inc[0] == 'asg' and inc[1] == '+=' and inc[2][0] == 'var' and inc[2][2] == lv and inc[3] == ['int', 1]))):
            return None
        vs, _ = self.assigned(body)
        if self.res(lv) in vs: return None
        c = cond
        neg = False
        while c[0] == 'un' and c[1] == '!' or c[0] == 'op' and c[1] == '!':
            neg = not neg; c = c[2] if c[0] == 'un' else c[2][0]
        if c[0] in ('bin', 'op') and neg:
            no = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}.get(c[1])
            if no is None: return None
            c = [c[0], no] + c[2:]
        if c[0] == 'bin': op, a, b = c[1], c[2], c[3]
        elif c[0] == 'op' and len(c[2]) == 2: op, (a, b) = c[1], c[2]
        else: return None
        if b[0] == 'var' and b[2] == lv: a, b = b, a; op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
        if not (a[0] == 'var' and a[2] == lv): return None
        se = self.events; self.events = []
        try: lo = self.env.get(self.res(lv)); hi = self.ev_(b)
        finally: self.events = se
        if lo is None: return None
        if lo[0] == 'begin' and hi[0] == 'end' and op == '!=' and self.unver(lo[1]) == self.unver(hi[1]):
            return ('each', lo[1]), ('elem', lo[1]), hi
        if op == '<=': hi = add(hi, I(1)); op = '<'
        if op in ('<', '!='):
            if lo == I(0) and hi[0] == 'mcall' and hi[2] == 'size':
                # C[i] below becomes elem(C); the index itself stays an index
                return ('each', hi[1]), ('idx', lo, hi), hi
            return ('range', lo, hi), ('idx', lo, hi), hi
        return None

    def s_while(self, s):
        cv, cond, body = s[2], s[3], s[4]
        # while (n-- > 0) with n otherwise unused: n times
        if cv is None:
            c0 = cond[2] if cond[0] == 'bin' and cond[1] in ('>', '!=') and cond[3] == ['int', 0] else cond
            if c0[0] == 'inc' and c0[1] == 'post' and c0[2] == '-' and c0[3][0] == 'var' and not mentions(body, c0[3][2]):
                self.countdown(c0[3][2], I(-1), body, s[1]); return
        # while (i < n) { ...; i++; } with the increment last is a range loop
        if body and body[0] == 'blk' and body[2] and cv is None:
            last = body[2][-1]
            if last and last[0] == 'expr' and last[2] and last[2][0] in ('inc', 'op', 'asg'):
                inc = last[2]
                x = inc[3] if inc[0] == 'inc' else (inc[2][0] if inc[0] == 'op' and inc[2] else inc[2])
                if isinstance(x, list) and x and x[0] == 'var' and not has(body, 'cont'):
                    b2 = ['blk', body[1], body[2][:-1], body[3]]
                    r = self.domain(x[2], cond, inc, b2)
                    if r is None:
                        a, b3 = leftmost(cond, b2, s[1])
                        if a is not None:
                            r = self.domain(x[2], a, inc, b3)
                            if r: b2 = b3
                    if r:
                        dom, val, hi = r
                        i = self.res(x[2])

                        def bind(): self.env[i] = val
                        L = self.loop(dom, b2, s[1], bind=bind, once=True)
                        self.after(i, dom, hi, L)
                        return
        if cv:
            body = ['blk', s[1], [['decl', s[1], [cv]], ['if', s[1], None, None, cond, body, ['break', s[1]], False]], s[1]]
            self.loop(None, body, s[1], cond=['bool', True])
            return
        self.loop(None, *head(cond, body, s[1]))

    def s_do(self, s):
        if s[3] and s[3][0] == 'bool' and s[3][1]: return self.s_while(['while', s[1], None, s[3], s[2]])
        # body at least once, then again while cond: effects are listed once in a loop context
        se, L0 = self.ctx, None
        self.loop(('do', ('opaque', '')), s[2], s[1])
        self.events, keep = self.events, None
        c = tb(self.ev_(s[3]))
        self.ev('dowhile', s[1], val=tb2t(c))

    def s_switch(self, s):
        v = self.ev_(s[2])
        body = s[3]
        stm = body[2] if body and body[0] == 'blk' else [body]
        # flatten nested case labels
        flat = []

        def fl(x):
            labs = []
            while x and x[0] in ('case', 'default'):
                labs.append(x[2] if x[0] == 'case' else None)
                x = x[3] if x[0] == 'case' else x[2]
            flat.append((labs, x))
        for x in stm: fl(x)
        allc = 0
        conds = []
        for labs, x in flat:
            c = 0
            for l in labs:
                if l is not None:
                    c = bor(c, tb(cmp_('==', v, self.ev_(l))))
            allc = bor(allc, c)
            conds.append(c)
        L = {'brk': 0, 'ret': 0, 'cont': 0, 'switch': True}
        self.loops.append(L)
        sg, sl = self.guard, self.live
        entered = 0
        dead = 0
        for (labs, x), c in zip(flat, conds):
            if any(l is None for l in labs): c = bor(c, bnot(allc))
            entered = bor(entered, c)
            run = band(entered, bnot(L['brk']), bnot(L['ret']))
            if x is None: continue
            self.branch(run, lambda: self.st(x), None)
        self.loops.pop()
        self.guard = sg
        if L.get('brks'): self.rejoin(L['brks'], self.ctx, sg, sl, fall=band(sg, self.live))
        # break leaves the switch only
        self.live = bor(self.live, band(sl, L['brk']))
        self.switches = getattr(self, 'switches', []) + [(s[1], v, [l for ls, _ in flat for l in ls])]

    def s_case(self, s): self.st(s[3])
    def s_default(self, s): self.st(s[2])

    def s_try(self, s):
        ab0, live0 = self.aborted, self.live
        self.aborted = 0
        self.st(s[2])
        # what the body throws arrives at the handlers
        self.live = bor(self.live, band(live0, self.aborted))
        self.aborted = ab0
        for h in s[3]:
            c = bvar(('exception', 0, self.occn('exception')))
            self.branch(c, lambda: self.st(h), None)

    # -- entry
    def run(self, f):
        self.fn = f
        self.stack = [f]
        self.rets = []
        for j, p in enumerate(f['params']):
            i = self.res(p[1])
            self.env[i] = ('par', j)
            if UNSIGNED.match(p[2]): UNSIGNED_HINT.add(('par', j))
            if p[2].rstrip().endswith('&'): self.alias[i] = ('p', ('par', j))
        for k, n, e, w, ln in f.get('inits', []):
            v = self.ev_(e) if e else ('none',)
            if k == 'm':
                self.ev('store', ln or f['line'], path=('fld', ('this',), n), val=v, extra='init')
                self.mem[('fld', ('this',), n)] = v
            else:
                self.ev('call', ln or f['line'], name='base:' + short(n), args=(v,), ta=())
        self.st(f['body'])
        return self


def bind_one(I_, v, el):
    if v[0] == '$decomp':
        for j, (n, i) in enumerate(v[2]): I_.env[I_.res(i)] = ('fld', el, ('first', 'second')[j] if j < 2 else str(j))
    else:
        I_.env[I_.res(v[1])] = el
        I_.alias.pop(I_.res(v[1]), None)


def plain(s): return s[2] if s and s[0] == 'blk' else [s] if s else []


def negation(c): return c[2] if c[0] == 'un' and c[1] == '!' else ['un', '!', c]


def conj(a, b): return b if a[0] == 'bool' and a[1] else ['bin', '&&', a, b]


def head(cond, body, line):
    """leaving at the top of the body is part of the condition:
    while (c) { if (x) break; B } and while (c) { if (y) { A } else break; B }"""
    while body and body[0] == 'blk' and body[2]:
        f = body[2][0]
        if f and f[0] == 'blk' and len(body[2]) == 1: body = f; continue
        if not f or f[0] != 'if' or f[2] or f[3]: break
        a, b = plain(f[5]), plain(f[6])
        if len(a) == 1 and a[0] and a[0][0] == 'break': c, rest = negation(f[4]), b
        elif len(b) == 1 and b[0] and b[0][0] == 'break': c, rest = f[4], a
        else: break
        cond = conj(cond, c)
        body = ['blk', body[1], rest + body[2][1:], body[3]]
    return body, line, cond


def leftmost(cond, body, line):
    """while (a && b) B as while (a) { if (!b) break; B }"""
    if not cond or cond[0] != 'bin' or cond[1] != '&&': return None, None
    a, rest = cond[2], cond[3]
    while a[0] == 'bin' and a[1] == '&&': a, rest = a[2], ['bin', '&&', a[3], rest]
    return a, ['blk', line, [['if', line, None, None, negation(rest), ['break', line], None, False]] + (body[2] if body and body[0] == 'blk' else [body] if body else []), line]


def mentions(b, v):
    return isinstance(b, list) and (len(b) > 2 and b[0] == 'var' and b[2] == v or any(mentions(x, v) for x in b))


def has(b, k):
    if not isinstance(b, list): return False
    if b and b[0] == k: return True
    return any(has(x, k) for x in b)


def short(t):
    t = re.sub(r'\b(class|struct|enum) ', '', t)
    return t


UNSIGNED = re.compile(r'^(const )?(unsigned\b.*|std::size_t|size_t|uint\d+_t|std::uint\d+_t)( &)?$')
_triv = None


def trivial_names():
    """accessors: always substituted, whatever they look like today"""
    global _triv
    if _triv is None:
        _triv = set(open(front.VERIF + '/sa/trivial_functions.txt').read().split('\n'))
    return _triv


def fid(f): return '%s/%d' % (f['q'], len(f['params']))


def istrivial(f):
    """an accessor: one return statement without nested effects"""
    b = f.get('body')
    if not b or b[0] != 'blk' or f.get('kind') not in ('method', 'func'): return False
    st = [x for x in b[2] if x and x[0] != 'nop' and not (x[0] == 'macro' and x[2].startswith(('vtAssert', 'vt_debug')))]
    if len(st) != 1 or st[0][0] != 'ret' or st[0][2] is None: return False

    def ok(e):
        if not isinstance(e, list): return True
        if e and e[0] in ('asg', 'inc', 'new', 'del', 'lam', 'throw'): return False
        return all(ok(x) for x in e)

    def ncalls(e):
        if not isinstance(e, list): return 0
        return (1 if e and e[0] in ('call', 'mcall', 'dcall', 'ucall', 'icall') else 0) + sum(ncalls(x) for x in e)
    return ok(st[0][2]) and ncalls(st[0][2]) <= 1


class Summary:
    def __init__(self, facts, f, **k):
        self.f = f
        self.I = Interp(facts, **k).run(f)
        self.events = self.I.events
        self.file, self.q = f['file'], f['q']

    def dump(self):
        for e in self.events: print(e)


def summarize(facts, q, n=None, sig=None, **k):
    f = q if isinstance(q, dict) else facts.fn(q, n, sig)
    return Summary(facts, f, **k)

"""Which effects of a function may not change places.

Two effects of one function are ordered when they interfere: one may write what
the other reads or writes, or both are visible outside the process.  What a
callee may read and write (fields, globals; transitively, over the resolved call
graph of every translation unit) is computed once, when the tables are
generated; the pairs that must stay in order are part of the table."""
import os, re, pickle
from . import front, engine
from .engine import show, band

DB = front.BUILD + '/modref.pkl'
CONSTM = engine.CONSTM


class Sum:
    __slots__ = ('T', 'W', 'X', 'C', 'K')

    def __init__(s): s.T, s.W, s.X, s.C, s.K = set(), set(), False, set(), False


VALUE = re.compile(r'^(?!.*(\*|&|auto|Ptr|_ptr|[Ii]ter))')


def islocal(F, e, locs):
    """part of a local object (not reached through a pointer or reference)"""
    while isinstance(e, list) and e:
        if e[0] == 'var': return e[2] in locs
        if e[0] != 'fld' or len(e) < 4: return False
        b = e[1]
        if isinstance(b, list) and b and b[0] == 'fld':
            ty = F.ftypes.get((b[3] if len(b) > 3 else '', b[2]))
            if ty is None or not VALUE.match(ty): return False
        e = b
    return False


def localsof(f):
    """ids of local objects held by value"""
    out = {p[1] for p in f['params'] if len(p) > 2 and VALUE.match(p[2])}
    def w(x):
        if not isinstance(x, list) or not x: return
        if x[0] == 'decl' and len(x) > 2 and isinstance(x[2], list):
            for d in x[2]:
                if isinstance(d, list) and d and d[0] != '$decomp' and VALUE.match(d[2]) and not (len(d) > 6 and isinstance(d[6], str) and not VALUE.match(d[6])): out.add(d[1])
        for y in x:
            if isinstance(y, list): w(y)
    w(f['body'])
    return out


def root_(e):
    """field (or global) an lvalue expression belongs to"""
    out = set()
    while isinstance(e, list) and e:
        k = e[0]
        if k in ('fld', 'dfld'):
            out.add(e[2]); e = e[1]
            if e and e[0] in ('fld', 'dfld', 'sub', 'op'): continue
            return out
        if k == 'glob': out.add('g:' + e[1]); return out
        if k == 'sub': e = e[1]; continue
        if k == 'op': e = e[2][0] if e[2] else None; continue
        if k in ('un', 'cast', 'copy'): e = e[3] if k == 'cast' else e[2]; continue
        if k == 'mcall' and e[3].startswith('std::'): e = e[1]; continue
        if k == 'dcall' and e[2] in CONSTM: e = e[1]; continue
        return out
    return out


def direct(F, f):
    s = Sum()
    locs = localsof(f)

    def root(e): return set() if islocal(F, e, locs) else root_(e)

    def callee(key, q, cand, nargs, virt):
        if isinstance(key, str) and key in F.funcs and F.funcs[key].get('body') is not None:
            s.C.add(key)
            if virt:
                sn = q.split('::')[-1]
                for g in F.byshort.get(sn, ()):
                    if g.get('virt') and len(g['params']) == nargs: s.C.add(g['key'])
            return True
        if virt and isinstance(q, str):
            L = [g for g in F.byshort.get(q.split('::')[-1], ()) if g.get('virt') and len(g['params']) == nargs]
            for g in L: s.C.add(g['key'])
            return bool(L)
        if cand:
            ok = False
            for c in cand:
                if c in F.funcs and len(F.funcs[c]['params']) >= nargs: s.C.add(c); ok = True
            return ok
        return False

    def walk(e):
        if not isinstance(e, list) or not e: return
        k = e[0]
        if k == 'macro' and re.match(r'vt(Assert|_debug|Warn|Abort|_print)', str(e[2])): return
        try: visit(k, e)
        except (TypeError, IndexError, AttributeError): pass   # a name list, not an expression
        for x in e[1:]:
            if isinstance(x, list): walk(x) if x and isinstance(x[0], str) else [walk(y) for y in x if isinstance(y, list)]

    def visit(k, e):
        if k in ('fld', 'dfld'):
            if not islocal(F, e, locs): s.T.add(e[2])
        elif k == 'glob': s.T.add('g:' + e[1])
        elif k == 'asg': s.W |= root(e[2])
        elif k == 'inc': s.W |= root(e[3])
        elif k == 'un' and e[1] == '&' and e[2]: s.W |= root(e[2])
        elif k == 'del': s.W |= root(e[1])
        elif k == 'op' and e[1] in ('=', '+=', '-=', '++', '--', '|=', '&=', '<<', '>>', '|') and e[2]: s.W |= root(e[2][0])
        if k == 'call':
            if not callee(e[1], e[2], None, len(e[3]), False):
                if e[2].startswith('std::'):
                    if not re.match(r'std::(min|max|make_|begin|end|get|forward|tie|to_string|operator|find|count|any_of|all_of|none_of)', e[2]):
                        for a in e[3]: s.W |= root(a)
                elif e[2].split('::')[0] not in ('fmt', 'checkpoint', 'CLI', 'nlohmann', '__builtin_expect') and not e[2].startswith('__builtin'):
                    if not NOX.match(e[2]): s.X = True
                    for a in e[3]: s.W |= root(a)
        elif k == 'mcall':
            if not callee(e[2], e[3], None, len(e[4]), e[6]):
                if e[3].split('::')[-1] not in CONSTM: s.W |= root(e[1])
        elif k == 'dcall':
            if not callee(None, e[2], e[6] if len(e) > 6 else None, len(e[3]), False):
                L = [g for g in F.byshort.get(e[2], ()) if len(g['params']) == len(e[3])]
                if e[2] in CONSTM: pass
                elif 0 < len(L) <= 6:
                    for g in L: s.C.add(g['key'])
                else: s.W |= root(e[1])
        elif k == 'ucall':
            callee(None, e[1], e[5] if len(e) > 5 else None, len(e[2]), False)
        elif k == 'icall': s.X = s.K = True
        elif k == 'op' and e[1] == '()': s.X = s.K = True; callee(e[3], e[4] or '', None, len(e[2]) - 1, False)
        elif k == 'op' and len(e) > 3 and e[3]: callee(e[3], e[4] or '', None, len(e[2]) - 1, False)
        elif k == 'ctor' and e[3]: callee(e[3], e[4] or '', None, len(e[2]), False)

    walk(f['body'])
    for x in f.get('inits') or []:
        if isinstance(x, list): walk(x); [walk(y) for y in x if isinstance(y, list)]
    s.T |= s.W
    return s


def build():
    F = front.load(front.all_tus(), 'full')
    F.byshort = {}
    F.ftypes = {(q, f[0]): f[2] or f[1] for q, r in F.recs.items() for f in r.get('fields', ())}
    for f in F.funcs.values():
        if f.get('body') is not None: F.byshort.setdefault(f['q'].split('::')[-1], []).append(f)
    S = {k: direct(F, f) for k, f in F.funcs.items() if f.get('body') is not None}
    # closure (fixpoint over the call graph)
    pred = {}
    for k, s in S.items():
        for c in s.C: pred.setdefault(c, set()).add(k)
    work = list(S)
    inw = set(work)
    while work:
        k = work.pop(); inw.discard(k)
        s = S[k]
        for p in pred.get(k, ()):
            t = S[p]
            n = (len(t.T), len(t.W), t.X)
            t.T |= s.T; t.W |= s.W; t.X = t.X or s.X
            if (len(t.T), len(t.W), t.X) != n and p not in inw: work.append(p); inw.add(p)
    byq, bys = {}, {}
    for k, s in S.items():
        q = F.funcs[k]['q']
        for m, kk in ((byq, q), (bys, q.split('::')[-1])):
            o = m.setdefault(kk, [set(), set(), False, 0, False])
            o[0] |= s.T; o[1] |= s.W; o[2] = o[2] or s.X; o[3] += 1; o[4] = o[4] or s.K
    bys = {k: v for k, v in bys.items() if v[3] <= 6}
    virt = {}
    for f in F.funcs.values():
        if f.get('virt') and f.get('body') is not None:
            s = S[f['key']]
            o = virt.setdefault((f['q'].split('::')[-1], len(f['params'])), [set(), set(), False, 0, False])
            o[0] |= s.T; o[1] |= s.W; o[2] = o[2] or s.X; o[4] = o[4] or s.K
    os.makedirs(front.BUILD, exist_ok=True)
    pickle.dump((byq, bys, virt), open(DB, 'wb'))


_db = None


def db():
    global _db
    if _db is None:
        if not os.path.exists(DB): build()
        _db = pickle.load(open(DB, 'rb'))
    return _db


def names(t, acc=None):
    """fields and globals a term mentions"""
    if acc is None: acc = set()
    if not isinstance(t, tuple) or not t: return acc
    if t[0] == 'fld': acc.add(t[2])
    elif t[0] == 'glob': acc.add('g:' + t[1])
    for x in t[1:]:
        if isinstance(x, tuple): names(x, acc)
    return acc


def proot(t):
    """(path text of the object written, names of the fields on the way)"""
    t0 = t
    ns = set()
    while isinstance(t, tuple) and t:
        if t[0] == 'ver': t = t[1]
        elif t[0] == 'fld': ns.add(t[2]); t0 = t; break
        elif t[0] in ('look', 'elem', 'find', 'fnd', 'begin', 'end', 'insres'): t = t[1]
        elif t[0] == 'glob': ns.add('g:' + t[1]); t0 = t; break
        elif t[0] == 'mcall' and t[1] is not None and t[2] in CONSTM: t = t[1]
        else: t0 = t; break
    return show(unver(t0)), ns


def unver(t):
    while isinstance(t, tuple) and t and t[0] == 'ver': t = t[1]
    return t


NOX = re.compile(r'^(__\w+|fflush|memcpy|memset|sqrt|free|malloc|MPI_(Comm_rank|Comm_size|Wtime|Initialized|Get_version|Error_string)|vt::the\w+|str\w+|is(digit|space|alpha)|round|ceil|floor|log|pow|fprintf|snprintf|get\w+|time|localtime|sbrk|mallinfo|sysconf|ioctl|to_engineering_string|vt::debug::\w+|_U\w+|_Exit|raise|abort|exit|YAML::\w+|nlohmann::.*|drand48)$')
LOCAL = ('local', 'init', 'new', 'var', 'par', 'call', 'mcall', 'elem')


class Eff:
    __slots__ = ('P', 'wr', 'T', 'W', 'X', 'direct', 'roots', 'ser', 'K')


def eff(e):
    """what the event may touch"""
    o = Eff()
    o.K = False
    o.P, o.wr, o.T, o.W, o.X, o.direct, o.roots, o.ser = None, False, set(), set(), False, True, set(), False
    if e.kind == 'store':
        o.P, o.W = proot(e.path); o.T = set(o.W); o.wr = True
        o.roots.add(o.P)
        return o
    if e.kind == 'dtor':
        n = str(e.name)
        q, s, v = db()
        d = next((q[k] for k in q if '::~' in k and k.split('::')[-1][1:].split('<')[0] == n.split('<')[0].split('::')[-1]), None)
        o.direct = False
        if d: o.T, o.W, o.X = set(d[0]), set(d[1]), d[2]
        else: o.X = True
        return o
    if e.kind != 'call': return None
    n = e.name or ''
    sn = n.split('::')[-1]
    for a in e.args or ():
        if isinstance(a, tuple) and a and a[0] in ('local', 'new', 'par', 'fld', 'ver', 'look', 'init', 'mcall', 'call', 'glob'): o.roots.add(proot(a)[0])
    if e.obj is not None: o.roots.add(proot(e.obj)[0])
    if sn == 'serialize-item' or re.match(r'(add_(flag|option)|YAML::|vt::CLI::|vt::arguments::add\w+Args)', n) or '::CLI::' in n: o.ser = True
    if e.obj is not None and (n.startswith('std::') or ('::' not in n and sn in ('append', 'prepend', 'insert', 'erase', 'remove', 'clear', 'push', 'pop', 'push_back', 'emplace', 'emplace_back', 'reset', 'resize', 'reserve'))):
        if sn.startswith('operator()'): o.X = o.K = True; o.direct = False
        o.P, w = proot(e.obj); o.T = set(w)
        o.wr = sn not in CONSTM
        if o.wr: o.W = set(w)
        return o
    q, s, v = db()
    o.direct = False
    d = q.get(n) or (s.get(sn) if '::' not in n else None)
    vd = v.get((sn, len(e.args or ()))) if e.obj is not None and e.key is None or (d is None) else None
    if d is None and vd: d = vd
    o.P = proot(e.obj)[0] if e.obj is not None else None
    if d is None:
        if sn in ('(*)', '', 'operator()', 'undef'): o.K = o.X = True; return o
        if n.startswith('base:'): o.direct = True; o.T = set(); return o
        if n in ('delete',):
            for a in e.args: o.W |= proot(a)[1]
            o.T = set(o.W); o.wr = True
            o.P = proot(e.args[0])[0] if e.args else None
            return o
        o.X = not n.startswith(('std::', 'CLI', 'add_')) and not NOX.match(n)
        for a in list(e.args or ()):
            o.W |= proot(a)[1]
        o.T = set(o.W); o.wr = True
        return o
    o.T, o.W, o.X, o.K = d[0], d[1], d[2], d[4]
    o.wr = bool(d[1])
    return o


COMMON = {'first', 'second', 'get', 'size', 'value'}


def interfere(a, b):
    if a is None or b is None or (a.ser and b.ser): return False
    if a.X and b.X: return True
    # unknown code runs: it may look at anything that outlives the function
    if (a.K and (b.W - COMMON)) or (b.K and (a.W - COMMON)): return True
    if a.direct and b.direct:
        if a.P is None or b.P is None or not (a.wr or b.wr): return False
        x, y = sorted((a.P, b.P), key=len)
        return y == x or y.startswith((x + '.', x + '['))
    if (set(a.W) & b.T) - COMMON or (set(b.W) & a.T) - COMMON: return True
    # an object built up here and handed on
    for x, y in ((a, b), (b, a)):
        if x.P is not None and x.wr and x.P in y.roots and x.P not in ('this',): return True
    return False


def dctx(e): return tuple(c for c in e.ctx if c[0] == 'deferred')


def relation(A, B):
    """-1: every A before every B they share a path with; 1: after; 0: mixed or unrelated"""
    r = None
    for x in A:
        for y in B:
            if dctx(x) != dctx(y) or band(x.guard if x.g0 is None else x.g0, y.guard if y.g0 is None else y.g0) == 0 or x.ix == y.ix: continue
            z = -1 if x.ix < y.ix else 1
            if r is None: r = z
            elif r != z: return 0
    return r or 0


def hidden(a, b):
    """in a constructor: a part of the new object, and a call that is not given the object"""
    return a is not None and b is not None and a.direct and not b.direct and (a.P or '').startswith('this') and not (b.P or '').startswith('this') and not any(r.startswith('this') for r in b.roots)


def pairs(keys, effs, ctor=False):
    """keys: effect texts (table order); effs: text -> (guard, twice, events)"""
    E = {}
    for k in keys:
        L = effs[k][2]
        E[k] = None if L[0].kind in ('ret', 'throw', 'break', 'dowhile', 'abort', 'unsafe') else [eff(e) for e in L]
    out = []
    for i, a in enumerate(keys):
        if E[a] is None: continue
        for j in range(i + 1, len(keys)):
            b = keys[j]
            if E[b] is None: continue
            r = relation(effs[a][2], effs[b][2])
            if r and any(interfere(x, y) and not (ctor and (hidden(x, y) or hidden(y, x))) for x in E[a] for y in E[b]): out.append([i, j] if r < 0 else [j, i])
    return out


def check(keys, P, effs):
    bad = []
    for i, j in P:
        a, b = keys[i], keys[j]
        if a not in effs or b not in effs: continue
        if relation(effs[a][2], effs[b][2]) > 0:
            bad.append((a, b))
    return bad


# ---- fields of its own object that a method writes and reads (frozen: sa/members.txt)
def ownfield(e):
    """the field of *this an lvalue expression belongs to"""
    last = None
    while isinstance(e, list) and e:
        k = e[0]
        if k == 'this': return last
        if k in ('fld', 'dfld'):
            last = e[2]; e = e[1]; continue
        if k == 'sub': e = e[1]; continue
        if k == 'op': e = e[2][0] if e[2] else None; continue
        if k in ('un', 'cast', 'copy'): e = e[3] if k == 'cast' else e[2]; continue
        if k == 'mcall' and e[3].startswith('std::'): e = e[1]; continue
        if k == 'dcall' and e[2] in CONSTM: e = e[1]; continue
        return None
    return None


def own(F, f):
    W, T, C = set(), set(), set()

    def w(e):
        x = ownfield(e)
        if x: W.add(x)

    def cands(key, cand, n):
        if isinstance(key, str) and key in F.funcs: C.add(key)
        for c in cand or ():
            if c in F.funcs and len(F.funcs[c]['params']) == n: C.add(c)

    def walk(e):
        if not isinstance(e, list) or not e: return
        k = e[0]
        if k == 'macro' and re.match(r'vt(Assert|_debug|Warn|Abort|_print)', str(e[2])): return
        try:
            if k in ('fld', 'dfld') and isinstance(e[1], list) and e[1] and e[1][0] == 'this': T.add(e[2])
            elif k == 'asg': w(e[2])
            elif k == 'inc': w(e[3])
            elif k == 'un' and e[1] == '&': pass
            elif k == 'del': w(e[1])
            elif k == 'op' and e[1] in ('=', '+=', '-=', '++', '--', '|=', '&=') and e[2]: w(e[2][0])
            if k == 'mcall':
                if isinstance(e[1], list) and e[1] and e[1][0] == 'this': cands(e[2], None, len(e[4]))
                elif e[3].split('::')[-1] not in CONSTM and not (e[2] in F.funcs and F.funcs[e[2]].get('const')) and e[3].startswith('std::'): w(e[1])
            elif k == 'dcall':
                if e[1] is None or (isinstance(e[1], list) and e[1] and e[1][0] == 'this'): cands(None, e[6] if len(e) > 6 else None, len(e[3]))
                elif e[2] in MUTN: w(e[1])
            elif k == 'ucall': cands(None, e[5] if len(e) > 5 else None, len(e[2]))
        except (TypeError, IndexError, AttributeError): pass
        for x in e[1:]:
            if isinstance(x, list): walk(x) if x and isinstance(x[0], str) else [walk(y) for y in x if isinstance(y, list)]
    walk(f['body'])
    return W, T | W, C


MUTN = {'push_back', 'emplace_back', 'push_front', 'pop_back', 'pop_front', 'push', 'pop', 'emplace', 'insert', 'erase', 'clear', 'resize', 'reset', 'swap', 'assign', 'splice', 'store', 'fetch_add', 'emplace_front'}


def build_members():
    F = front.load(front.all_tus(), 'full')
    S = {}
    for k, f in F.funcs.items():
        if f.get('body') is not None and f.get('kind') == 'method' and not f.get('static'): S[k] = own(F, f)
    ch = True
    while ch:
        ch = False
        for k, (W, T, C) in S.items():
            for c in C:
                if c in S:
                    a, b = len(W), len(T)
                    W |= S[c][0]; T |= S[c][1]
                    if (len(W), len(T)) != (a, b): ch = True
    M = {}
    for k, (W, T, C) in S.items():
        o = M.setdefault(F.funcs[k]['q'], [set(), set()])
        o[0] |= W
        # a method that hands out a reference or pointer names an object: the same one whenever it is asked
        r = F.funcs[k].get('ret') or ''
        if not (r.endswith('*') or r.endswith('&') and 'const' not in r): o[1] |= T
    with open(front.VERIF + '/sa/members.txt', 'w') as fh:
        for q in sorted(M):
            W, T = M[q]
            if W or T: fh.write('%s %s %s\n' % (q, ','.join(sorted(W)) or '-', ','.join(sorted(T)) or '-'))


if __name__ == '__main__':
    build_members()

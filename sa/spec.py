"""Guarded-effect tables: what a property requires of a function, compared with
the function's summary (sa/engine.py) computed from the current source."""
import json, os, re, hashlib, time
from . import front, engine
from .engine import show, band, bor, bnot, bvar, bequiv, bstr, bcanon, bimplies

TABLES = front.VERIF + '/sa/tables'

# effects that are never part of a property: printing, formatting, assertions'
# message building, message-pointer adaptors, plain value construction
IGNORE = [r'^call [^(]*(::|\b)(std::cout|std::cerr)\b', r'^call [^(]*(MsgPtrThief|MsgThief)::ctor', r'^call base:std::', r'^call std::[\w:]*(::ctor|::basic_)',
          r'^call [^(]*\bDiagnostic', r'^call [^(]*::(ctor)\(', r'EpochLabel::setLabel\(']
IGNNAME = re.compile(r'^std::(basic_)?(string|ostream|istream|stringstream|ios|setw|setprecision)\b|^std::operator<<|^std::\w*stream|^fmt::|^vt::debug|::debug::|printf|^vt::output|'
                     r'^std::(forward|get|make_tuple|forward_as_tuple|tie|to_string|make_unique|make_shared|inserter|back_inserter|move)$|^vt::error::(displayLoc|assertOut\w*|warning\w*|checkAssert\w*|display)$|DiagnosticValue|meter::\w+::\w+$')
IGNOBJ = re.compile(r'^(local\()?std::(basic_)?(string|ostream|istream|\w*stream)')
_ign = [re.compile(x) for x in IGNORE]


def evtext(e):
    if e.kind == 'call':
        n = e.name
        o = ''
        if e.obj is not None:
            o = show(e.obj) + '.'
            if n.startswith('std::'): n = n.rsplit('::', 1)[-1]
        return 'call ' + o + n + (('<%s>' % ','.join(e.ta)) if e.ta else '') + '(' + ', '.join(show(a) for a in e.args) + ')'
    if e.kind == 'store': return 'store ' + show(e.path) + ' := ' + show(e.val)
    if e.kind == 'ret': return 'ret ' + show(e.val)
    if e.kind == 'throw': return 'throw'
    if e.kind == 'break': return 'break'
    if e.kind == 'dtor': return 'scope-end ' + str(e.name)
    if e.kind == 'dowhile': return 'dowhile ' + show(e.val)
    if e.kind == 'unsafe': return 'unsafe %s.%s(find(%s))' % (show(e.obj), e.name, show(e.args[0]))
    return e.kind + ' ' + str(e.name or '')


def narrow(e, c=1):
    """the effect with its operands reduced under its own condition"""
    g = band(e.guard, c)
    x = engine.Ev(kind=e.kind, name=e.name, ta=e.ta, guard=g, ctx=e.ctx, ix=e.ix, fn=e.fn, line=e.line, key=e.key, extra=e.extra, noop=e.noop)
    r = lambda t: engine.restrict(t, g) if isinstance(t, tuple) else t
    x.obj, x.val, x.path = r(e.obj), r(e.val), r(e.path)
    x.args = tuple(r(a) for a in e.args) if e.args is not None else None
    return x


def split(e, t, truth=False):
    """an effect with a gated operand is one effect per operand value"""
    e = narrow(e)
    t = evtext(e)
    if e.kind == 'ret':
        H = engine.hoist(e.val, e.guard)
        if H is None: return [(t, e.guard)]
        out = []
        for v, g in H:
            if truth or v[0] in engine.BOOLKINDS:
                b = engine.tb(v)
                out += [('ret 1', band(g, b)), ('ret 0', band(g, bnot(b)))]
            else: out.append(('ret ' + show(v), g))
        return [x for x in out if x[1] != 0]
    if e.kind == 'store' and engine.hasite(e.val):
        H = engine.hoist(e.val, e.guard)
        if H: return [('store ' + show(e.path) + ' := ' + show(v), g) for v, g in H if not (e.noop and bimplies(g, e.noop))]
    if e.kind == 'call' and (e.args or e.obj is not None):
        H = engine.hoist(('opnds', e.obj or ('none',), e.args or ()), e.guard, 24)
        if H and (len(H) > 1 or H[0][0][2] != (e.args or ())):
            return [(evtext(engine.Ev(kind='call', name=e.name, obj=e.obj and v[1], args=v[2], ta=e.ta, guard=g, ctx=e.ctx)), g) for v, g in H]
    return [(t, e.guard)]


def asstore(e):
    """adding a key that is not there is assigning to its element"""
    if e.kind != 'call' or e.obj is None or len(e.args or ()) != 2 or not re.match(r'std::(__\w+::)?(unordered_)?map::insert$', e.name or ''): return e
    x = engine.Ev(kind='store', path=('look', engine.unver(e.obj), e.args[0]), val=e.args[1], line=e.line, ctx=e.ctx, ix=e.ix, fn=e.fn, extra='insert')
    x.guard = band(e.guard if e.g0 is None else e.g0, bnot(engine.bvar(('has', e.obj, e.args[0]))))
    return x


def ctxtext(e): return ''.join('<%s> ' % show(c) for c in e.ctx)


def fixctx(t): return t


class Fn:
    """One function and the effects of it a property depends on."""

    def __init__(self, q, why, n=None, sig=None, only=None, drop=(), order=(), inline=(), keep=(), raii=None,
                 ctors=(), rets=True, tag='', asserts=False, aborts=False, cfg=None, pure=(), stores=True):
        self.q, self.why, self.n, self.sig = q, why, n, sig
        self.only = [re.compile(x) for x in only] if only else None
        self.drop = [re.compile(x) for x in drop]
        self.order = order
        self.inline, self.keep, self.raii = list(inline), list(keep), raii
        self.ctors = [re.compile(x) for x in ctors]
        self.rets = rets
        self.stores = stores
        self.tag = tag
        self.aborts = aborts
        self.cfg = cfg
        self.pure = list(pure)
        self.key = q + ('/%d' % n if n is not None else '') + (('~' + sig) if sig else '') + (('@' + tag) if tag else '')

    def relevant(self, e, t):
        if e.guard == 0: return False
        if e.kind == 'assert': return False
        if e.kind == 'abort': return self.aborts
        if e.kind == 'call' and e.extra == 'pure': return False
        if e.kind == 'ret':
            if not self.rets: return False
            if any(c[0] == 'deferred' for c in e.ctx):
                pass
            elif e.name != 1: return False
            if e.val == ('none',): return False
        if e.kind == 'store' and not self.stores: return False
        if e.kind == 'dowhile': pass
        if any(d.search(t) for d in self.drop): return False
        if any(c.search(t) for c in self.ctors): return True
        if self.only is not None: return any(o.search(t) for o in self.only)
        if any(i.search(t) for i in _ign): return False
        if e.kind == 'call' and (IGNNAME.search(e.name) or (e.obj is not None and IGNOBJ.search(show(e.obj)))): return False
        return True

    def locate(self, F):
        """the function; a changed parameter list does not lose it, None if it is gone"""
        L = F.byq.get(self.q, [])
        for n, sig in ((self.n, self.sig), (self.n, None), (None, None)):
            M = [f for f in L if (n is None or len(f['params']) == n) and (sig is None or re.search(sig, f['sig']) or re.search(sig, fullsig(f)))]
            if len(M) == 1: return M[0]
            if len(M) > 1: return None
        return None

    def summary(self, F, deep=False):
        f = self.locate(F)
        inl = list(self.inline)
        if deep: inl = inl + deep_inl(F, f)
        return engine.summarize(F, f, inline=inl, keep=self.keep, raii=self.raii, pure=self.pure)

    def effects(self, F, deep=False):
        """-> {identity: (guard, guard-of-twice, [events])}"""
        S = self.summary(F, deep)
        out = {}
        for e in S.events:
            if self.stores: e = asstore(e)
            t = evtext(e)
            if e.kind == 'ret' and S.f['ret'] == 'void' and not any(c[0] == 'deferred' for c in e.ctx): continue
            if not self.relevant(e, t): continue
            for c in e.ctx:
                # in a loop over a container it is not empty
                if c[0] == 'each':
                    if e.g0 is None: e.g0 = e.guard
                    e.guard = engine.cofactor(e.guard, ('le', ('mcall', c[1], 'size', (), 0, ()), 0), False)
            for t, eg in split(e, t, S.f['ret'] == 'bool' and not any(c[0] == 'deferred' for c in e.ctx)):
                k = ctxtext(e) + t
                g, tw, L = out.get(k, (0, 0, []))
                out[k] = (bor(g, eg), bor(tw, band(g, eg)), L + [e])
        return S, out


def fullsig(f): return 'template <%s> %s' % (f.get('tpk', ''), f['sig'])


class Grp:
    """All functions matching a name pattern; the members are fixed when the
    table is generated (functions without a relevant effect are left out)."""

    def __init__(self, rx, why, skip=None, file=None, **kw):
        self.rx, self.why, self.kw = re.compile(rx), why, kw
        self.skip = re.compile(skip) if skip else None
        self.file = re.compile(file) if file else None
        self.kw_by = {}

    def match(self, f):
        return bool(self.rx.search(f['q'])) and not (self.skip and self.skip.search(f['q'])) and not (self.file and not self.file.search(f['file']))

    def expand(self, F):
        out = []
        for q, L in sorted(F.byq.items()):
            L2 = [f for f in L if self.match(f) and f.get('body') is not None]
            for f in L2:
                if len(L) == 1: out.append(Fn(q, self.why, **self.kw)); continue
                same = [g for g in L if len(g['params']) == len(f['params'])]
                if len(same) == 1: out.append(Fn(q, self.why, n=len(f['params']), **self.kw)); continue
                sig = '^' + re.escape(f['sig']) + '$'
                if len([g for g in same if g['sig'] == f['sig']]) > 1:
                    sig = '^' + re.escape(fullsig(f)) + '$'
                    if len([g for g in same if fullsig(g) == fullsig(f)]) > 1: continue
                out.append(Fn(q, self.why, n=len(f['params']), sig=sig, **self.kw))
        return out

    def frozen(self, T):
        return [Fn(e['q'], self.why, n=e.get('n'), sig=e.get('sig'), **self.kw) for k, e in sorted(T.items()) if k[0] != '@' and e.get('grp') == self.rx.pattern]


def deep_inl(F, f):
    """second policy: every non-virtual callee defined in the same file"""
    return ['^' + re.escape(q) + '$' for q, L in F.byq.items() if len(L) <= 4 and q != f['q'] and all(x['file'] == f['file'] and not x.get('virt') for x in L)]


# ---- guards <-> json
def gjson(f):
    """BDD as [root, {node: [atom text, lo, hi]}]"""
    nodes = {}
    st = [f]
    while st:
        x = st.pop()
        if x < 2 or str(x) in nodes: continue
        v, lo, hi = engine._nodes[x]
        nodes[str(x)] = [show(engine._atoms[v]), lo, hi]
        st += [lo, hi]
    # renumber canonically enough to be stable
    order = {}

    def num(x):
        if x < 2: return x
        if x not in order:
            order[x] = None
            v, lo, hi = engine._nodes[x]
            num(lo); num(hi)
            order[x] = len([1 for y in order.values() if y is not None]) + 2
        return order[x]
    r = num(f)
    return [r, {str(order[int(k)]): [a, num(lo), num(hi)] for k, (a, lo, hi) in nodes.items()}]


def gload(j, atoms):
    """rebuild against the atoms of the current summary (text -> term)"""
    root, nodes = j
    memo = {0: 0, 1: 1}

    def go(x):
        if x in memo: return memo[x]
        a, lo, hi = nodes[str(x)]
        t = atoms.get(a)
        v = bvar(t if t is not None else parse_atom(a, atoms))
        r = engine.bite(v, go(hi), go(lo))
        memo[x] = r
        return r
    return go(root)


_pa = re.compile(r'^\((.*)<=(-?\d+)\)$')


def parse_atom(a, atoms):
    m = _pa.match(a)
    if m:
        for s, t in atoms.items():
            if t[0] == 'le' and show(t[1]) == m.group(1): return ('le', t[1], int(m.group(2)))
    if a.startswith('found('):
        for s, t in atoms.items():
            if t[0] == 'exists' and a == 'found(%s,%s)' % (show(t[1]), s): return ('found', t[1], t)
    return ('absent', a)


def atom_universe():
    return {show(t): t for t in engine._atoms}


class Slow(Exception):
    pass


START = time.time()


def limited(sec, f, *a):
    """f within a time limit: substituted bodies can grow exponentially"""
    import signal
    def late(*_): raise Slow('more than %d s' % sec)
    old = signal.signal(signal.SIGALRM, late)
    signal.alarm(sec)
    try: return f(*a)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)


def tpath(pid): return '%s/%s.json' % (TABLES, pid)


def generate(pid, F, fns, base=None):
    """Write the table of a property from the tree at hand (done once, on the
    tree the entries were confirmed on by reading)."""
    old = json.load(open(tpath(pid))) if os.path.exists(tpath(pid)) else {}
    T = {}
    B = [json.load(open(tpath(b))) for b in base if os.path.exists(tpath(b))] if base else None       # another configuration: only what differs from this one
    work = []
    names = set()
    for fn in fns:
        if not isinstance(fn, Grp) and base is None: names.add(fn.key); work.append((fn, None))
    for fn in fns:
        if isinstance(fn, Grp): work += [(x, fn.rx.pattern) for x in fn.expand(F) if x.key not in names]
    for fn, grp in work:
        engine.reset()
        ent = {}
        if fn.locate(F) is None: raise front.AnalysisError('no such function: ' + fn.key)
        evs = [ctxtext(e) + evtext(e) for e in fn.summary(F).events]
        for a, b in fn.order:
            if not any(re.search(a, t) for t in evs) or not any(re.search(b, t) for t in evs): raise front.AnalysisError('ordering rule of %s has no instance: %s / %s' % (fn.key, a, b))
        engine.reset()
        for pol in ('shallow', 'deep'):
            try: S, eff = limited(25, fn.effects, F, True) if pol == 'deep' else fn.effects(F, False)
            except Slow:
                print('   not substituted, takes too long:', fn.key)
                ent['deep'] = ent['shallow']; ent['order_deep'] = []
                continue
            keys = sorted(eff)
            from . import order
            ent['order_' + pol] = order.pairs(keys, eff, S.f.get('kind') == 'ctor')
            ent[pol] = [{'effect': k, 'when': bcanon(g), 'guard': gjson(g), 'twice': gjson(tw)} for k, (g, tw, L) in sorted(eff.items())]
            engine.reset()
        if grp and not ent['shallow']: continue
        if len(json.dumps(ent['shallow'])) > 400000: print('   left out, summary too large:', fn.key); continue
        if ent['deep'] == ent['shallow'] or len(json.dumps(ent['deep'])) > 700000: ent['deep'] = None; ent['order_deep'] = []
        for o in ('order_shallow', 'order_deep'):
            if not ent[o]: del ent[o]
            else: ent[o] = ' '.join('%d<%d' % (i, j) for i, j in ent[o])
        T[fn.key] = {'why': fn.why, 'cfg': F.cfg, **ent}
        if grp: T[fn.key].update(grp=grp, q=fn.q, **({'n': fn.n} if fn.n is not None else {}), **({'sig': fn.sig} if fn.sig else {}))
    from . import data
    for fn in fns:
        if isinstance(fn, Grp) and fn.file and getattr(fn, 'data', False):
            D = data.collect(F, fn.file, fn.skip)
            if D: T['@data'] = {**T.get('@data', {}), **D}
    os.makedirs(TABLES, exist_ok=True)
    if base:
        T = {k: v for k, v in T.items() if k != '@data' and {x: y for x, y in v.items() if x != 'cfg'} not in [{x: y for x, y in b.get(k, {}).items() if x != 'cfg'} for b in B]}
        if not T:
            if os.path.exists(tpath(pid)): os.remove(tpath(pid))
            return T
    json.dump(T, open(tpath(pid), 'w'), indent=1, sort_keys=True)
    return T


class Violation:
    def __init__(self, rule, where, what, detail=''):
        self.rule, self.where, self.what, self.detail = rule, where, what, detail

    def __str__(self): return '%s: [%s] %s%s' % (self.where, self.rule, self.what, ('\n    ' + self.detail) if self.detail else '')


def compare(fn, F, T, deep):
    pol = 'deep' if deep and T.get('deep') else 'shallow'
    engine.reset()
    S, eff = fn.effects(F, pol == 'deep')
    f = S.f
    where = '%s:%d %s' % (f['file'], f['line'], f['q'])
    # universe must exist before tables are loaded
    atoms = atom_universe()
    bad = []
    exp, names = {}, []
    for e in T[pol]:
        exp[e['effect']] = e, gload(e['guard'], atoms), gload(e['twice'], atoms)
    # an operand under the condition that it equals another may be named by either
    names = {k: k for k in exp}
    for k in [k for k in eff if k not in exp]:
        ag, atw, L = eff[k]
        for a in renamed(k, ag):
            if a in exp:
                o = eff.get(a, (0, 0, []))
                eff[a] = bor(o[0], ag), bor(bor(o[1], atw), band(o[0], ag)), o[2] + L
                del eff[k]
                break
    for k in [k for k in exp if k not in eff]:
        e, g, tw = exp[k]
        for a in renamed(k, g):
            if a in eff:
                o = exp.get(a, (dict(e, effect=a), 0, 0))
                exp[a] = dict(o[0], when=o[0]['when'] + ' | ' + e['when']), bor(o[1], g), bor(bor(o[2], tw), band(o[1], g))
                names[k] = a
                del exp[k]
                break
    # what an effect is where two of its operands are equal
    for k in [k for k in exp if k not in eff]:
        e, g, tw = exp[k]
        for x in [x for x in eff if x != k and head(x) == head(k) and band(eff[x][0], g) != 0]:
            if any(k == y for y in equated(x, eff[x], g)):
                ag, atw, L = eff[x]
                m = band(ag, g)
                eff[k] = m, band(atw, g), L
                eff[x] = band(ag, bnot(g)), band(atw, bnot(g)), L
                if eff[x][0] == 0: del eff[x]
                break
    for x in [x for x in eff if x not in exp]:
        for k in [k for k in eff if k in exp and head(x) == head(k)]:
            if any(x == y for y in equated(k, eff[k], eff[x][0])):
                o, n = eff[k], eff[x]
                eff[k] = bor(o[0], n[0]), bor(bor(o[1], n[1]), band(o[0], n[0])), o[2] + n[2]
                del eff[x]
                break
    for k, (e, g, tw) in exp.items():
        if re.match(r'^(<.*?> )*unsafe ', k) and (k not in eff or bimplies(eff[k][0], g)): continue
        if k not in eff:
            alt = [x for x in eff if x not in exp and head(x) == head(k)]
            d = 'required when: ' + e['when'][:600]
            if alt: d += '\n    found instead: ' + ' | '.join(a[:300] for a in alt[:3])
            bad.append(Violation(fn.key, where, 'required effect is missing: ' + k[:500], d))
            continue
        ag, atw, L = eff[k]
        dc = 1
        for x in L: dc = band(dc, x.noop or 0)
        if dc not in (0, 1) and bequiv(bor(ag, dc), bor(g, dc)): ag, atw = g, tw
        if not bequiv(ag, g):
            bad.append(Violation(fn.key, '%s:%s %s' % (f['file'], L[0].line, f['q']), 'effect happens under the wrong condition: ' + k[:400],
                                 'required when: %s\n    happens when:  %s' % (e['when'][:700], bcanon(ag)[:700])))
        elif not bequiv(atw, tw):
            bad.append(Violation(fn.key, '%s:%s %s' % (f['file'], L[0].line, f['q']), 'effect is repeated (or no longer repeated): ' + k[:400],
                                 'twice when: %s' % bcanon(atw)[:500]))
    for k, (ag, atw, L) in eff.items():
        if k not in exp:
            bad.append(Violation(fn.key, '%s:%s %s' % (f['file'], L[0].line, f['q']), 'effect the property does not allow: ' + k[:500],
                                 'happens when: ' + bcanon(ag)[:500]))
    # effects that interfere keep their order
    op = T.get('order_' + pol)
    if op and not bad:
        from . import order
        for a, b in order.check([names[e['effect']] for e in T[pol]], [tuple(map(int, x.split('<'))) for x in op.split()], eff):
            bad.append(Violation(fn.key, '%s:%s %s' % (f['file'], eff[b][2][0].line, f['q']), 'order broken: %s must come before %s' % (a[:300], b[:300]),
                                 'the two interfere: one may write what the other reads or writes, or both are visible outside'))
    # ordering
    flat = [(ctxtext(e) + evtext(e), e) for e in S.events if fn.relevant(e, evtext(e))]
    for a, b in fn.order:
        ra, rb = re.compile(a), re.compile(b)
        A = [e for t, e in flat if ra.search(t)]
        B = [e for t, e in flat if rb.search(t)]
        if not A or not B:
            continue
        for x in A:
            for y in B:
                if x.ix > y.ix and band(x.guard, y.guard) != 0:
                    bad.append(Violation(fn.key, '%s:%s %s' % (f['file'], y.line, f['q']),
                                         'order broken: %s must precede %s' % (evtext(x)[:200], evtext(y)[:200])))
    return S, eff, bad


def sides(a):
    """the two sides of (x==y)"""
    if not (a.startswith('(') and a.endswith(')')): return None
    d = 0
    for i in range(1, len(a) - 2):
        c = a[i]
        if c in '([{': d += 1
        elif c in ')]}': d -= 1
        elif d == 0 and a.startswith('==', i): return a[1:i], a[i + 2:-1]
    return None


def renamed(k, g):
    out = []
    if g == 0: return out
    for t in engine.batoms(g):
        if t[0] not in ('==', 'absent') or not bimplies(g, bvar(t)): continue
        s = sides(show(t) if t[0] == '==' else t[1])
        if not s: continue
        for x, y in (s, s[::-1]):
            if len(x) > 2 and x in k: out.append(k.replace(x, y))
            elif x in k: out += [k[:m.start()] + y + k[m.end():] for m in re.finditer(r'(?<![\w.$])' + re.escape(x) + r'(?![\w.])', k)]
    return [x for x in out if head(x) == head(k)]


def equated(k, v, g):
    """what the effect k reads like under g, with the sides of the equalities that g implies exchanged"""
    out = []
    if g == 0 or 'ret ' not in k and 'store ' not in k: return out
    for t in engine.batoms(g):
        if t[0] not in ('==', 'absent') or not bimplies(g, bvar(t)): continue
        s = sides(t[1]) if t[0] == 'absent' else t[1:3]
        if not s: continue
        for e in v[2]:
            if not isinstance(e.val, tuple): continue
            n = narrow(e, v[0])
            b = evtext(n)
            if not k.endswith(b): continue
            for x, y in (s, s[::-1]):
                if t[0] == 'absent':
                    W = {}
                    engine.occurs(n.val, lambda z: W.setdefault(show(z), z) and False)
                    if x not in W or y not in W: continue
                    x, y = W[x], W[y]
                n = narrow(e, band(v[0], g) or v[0])
                n.val = engine.subst(n.val, x, y)
                out.append(k[:len(k) - len(b)] + evtext(n))
    return out


def head(k):
    m = re.match(r'((?:<.*?> )*\w+ )(.*)', k)
    t = m.group(2) if m else k
    if ' := ' in t: return t.split(' := ')[0]
    return re.sub(r'\(.*', '', t)[:120]


def check_tables(pid, F, fns, ev):
    T = json.load(open(tpath(pid)))
    viol = []
    nob = 0
    work = []
    if '@data' in T:
        from . import data
        for fn in fns:
            if isinstance(fn, Grp) and getattr(fn, 'data', False): viol += data.check(F, fn.file, T['@data'], ev, pid)
    for fn in fns: work += fn.frozen(T) if isinstance(fn, Grp) else [fn]
    for fn in work:
        if fn.key not in T: raise front.AnalysisError('no table for %s in %s' % (fn.key, tpath(pid)))
        f = fn.locate(F)
        if f is None or f.get('body') is None:
            # merged into its callers, or renamed: its callers' summaries carry its effects
            ev['functions'].append({'fn': fn.key, 'at': 'gone', 'effects_compared': 0, 'policy': 'absent', 'violations': 0})
            ev['absent'] = ev.get('absent', 0) + 1
            continue
        try: S, eff, bad = limited(150, compare, fn, F, T[fn.key], False)
        except front.AnalysisError: raise
        except Exception as x:
            ev['functions'].append({'fn': fn.key, 'at': '%s:%d' % (f['file'], f['line']), 'effects_compared': 0, 'policy': 'undecided: %r' % (x,), 'violations': 0})
            ev['undecided'] = ev.get('undecided', 0) + 1
            continue
        n1 = len(T[fn.key]['shallow']) + len(fn.order)
        if not T[fn.key]['shallow']: raise front.AnalysisError('empty table for %s' % fn.key)
        pol = 'shallow'
        if bad and T[fn.key].get('deep') is not None:
            # same effects once all helpers of the file are substituted?
            # (past the limit the difference found above stands)
            try: S2, eff2, bad2 = limited(max(5, min(60, int(420 - time.time() + START))), compare, fn, F, T[fn.key], True)
            except Exception: bad2 = bad
            if not bad2: bad = []; pol = 'deep'
        nob += n1
        ev['functions'].append({'fn': fn.key, 'at': '%s:%d' % (S.f['file'], S.f['line']), 'effects_compared': n1,
                                'inlined': sorted(S.I.inlined)[:12], 'policy': pol, 'violations': len(bad),
                                'imprecise': [str(x) for x in S.I.imprecise][:5]})
        viol += bad
    n = len(work)
    if ev.get('undecided', 0) + ev.get('absent', 0) > max(2, n // 3): raise front.AnalysisError('%d of %d functions cannot be analysed' % (ev.get('undecided', 0) + ev.get('absent', 0), n))
    ev['obligations'] = ev.get('obligations', 0) + nob
    return viol

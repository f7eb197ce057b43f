"""Data rules: what a type's fields start as and how wide they are, the values of
named constants and enumerators, default arguments.

A change of one of these has no function body to show up in.  Compared by folded
value, so spelling does not matter; a field initialised by every constructor
instead of in the class is the same."""
import re
from . import engine, front
from .engine import show
from .spec import Violation

WIDTH = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32, 'unsigned int': 32,
         'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64, 'float': 132, 'double': 164}


def width(t): return WIDTH.get(re.sub(r'^(const|volatile|mutable) ', '', t or ''))


class Fold(engine.Interp):
    """evaluates initialisers; constants of the library are folded through"""
    seen = ()

    def x_glob(self, e):
        v = self.F.vars.get(e[1])
        if v and v.get('constexpr') and v.get('init') is not None and e[1] not in self.seen:
            s = self.seen
            self.seen = s + (e[1],)
            try: return self.ev_(v['init'])
            finally: self.seen = s
        return ('glob', e[1])

    def x_const(self, e): return ('int', e[2]) if isinstance(e[2], int) else ('const', e[1], e[2])
    x_ref = x_glob


def text(F, e):
    if e is None: return None
    try:
        I = Fold(F)
        t = I.ev_(e)
        if engine.occurs(t, lambda x: x[0] in ('lam', 'new', 'opaque', 'undef', 'phi')): return '?'
        s = show(t)
        return '0' if s in ('null', '()') else s
    except Exception:
        return '?'


def records(F, rx): return {q: r for q, r in F.recs.items() if rx.search(r['file']) and 'lambda' not in q and '(anonymous' not in q}


def collect(F, rx, fskip=None):
    D = {}
    for q, r in sorted(records(F, rx).items()):
        for f in r.get('fields', ()):
            t = text(F, f[4]) if f[3] else None
            w = f[5] if isinstance(f[5], int) else width(f[2])
            if t not in (None, '?') or w: D['field %s::%s' % (q, f[0])] = {'init': t if t != '?' else None, 'w': w}
    for q, v in sorted(F.vars.items()):
        if rx.search(v['file']) and v.get('constexpr') and v.get('init') is not None:
            t = text(F, v['init'])
            if t not in ('?', None) and len(t) < 200 and 'str' not in q: D['const ' + q] = {'v': t}
    for q, e in sorted(F.enums.items()):
        if rx.search(e['file']) and '(' not in q:
            for n, v in e['consts']: D['enum %s::%s' % (q, n)] = {'v': str(v)}
            D['enumtype ' + q] = {'w': width(e.get('under'))}
    for q, L in sorted(F.byq.items()):
        if len(L) != 1 or not rx.search(L[0]['file']) or (fskip and fskip.search(q)): continue
        for i, p in enumerate(L[0]['params']):
            if len(p) > 3 and p[3]:
                t = text(F, p[3])
                if t not in ('?', None) and len(t) < 200: D['default %s#%d' % (q, i)] = {'v': t}
    return D


def ctor_inits(F, q, f):
    """does every constructor with a body set field f?"""
    n = q.split('::')[-1]
    C = F.byq.get(q + '::' + n, [])
    if not C: return False
    for c in C:
        ini = {x[1]: x for x in c.get('inits', []) if x[0] == 'm'}
        if f in ini: continue
        if any(x[0] != 'm' and x[1].split('::')[-1] == n for x in c.get('inits', [])): continue   # delegating
        b = repr(c.get('body'))
        if "'%s'" % f not in b: return False
    return True


def check(F, rx, T, ev, pid):
    C = collect(F, rx)
    bad = []
    n = 0
    for k, e in T.items():
        kind, q = k.split(' ', 1)
        c = C.get(k)
        if kind == 'field':
            rq, f = q.rsplit('::', 1)
            r = F.recs.get(rq)
            fl = next((x for x in r.get('fields', ()) if x[0] == f), None) if r else None
            if fl is None: continue                 # renamed or gone
            n += 1
            where = '%s:%s' % (r['file'], fl[6])
            ini = text(F, fl[4]) if fl[3] else None
            if e.get('init') is not None and ini not in ('?', e['init']):
                if ini is not None: bad.append(Violation('data', where, '%s starts as %s, must start as %s' % (q, ini, e['init'])))
                elif not ctor_inits(F, rq, f): bad.append(Violation('data', where, '%s is no longer initialised (must start as %s)' % (q, e['init'])))
            w = fl[5] if isinstance(fl[5], int) else width(fl[2])
            if e.get('w') and w and w < e['w']: bad.append(Violation('data', where, '%s narrowed from %d to %d bits' % (q, e['w'], w)))
        elif kind == 'enumtype':
            if c and e.get('w') and c.get('w') and c['w'] < e['w']: bad.append(Violation('data', q, 'enumeration narrowed'))
            n += 1
        elif c is not None:
            n += 1
            if c['v'] != e['v'] and c['v'] != '?':
                what = {'const': 'constant', 'enum': 'enumerator', 'default': 'default argument'}[kind]
                v = F.vars.get(q) or {}
                bad.append(Violation('data', '%s:%s' % (v.get('file', ''), v.get('line', '')), '%s %s is %s, must be %s' % (what, q, c['v'], e['v'])))
    ev['obligations'] = ev.get('obligations', 0) + n
    ev['rules'].append('data: %d initial values, widths, constants, enumerators and default arguments of the files %s' % (n, rx.pattern))
    return bad

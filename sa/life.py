"""A closure that outlives the call it is made in must own what it uses.

Actions, triggers, hooks and continuations are kept and run later, from another
handler, when the frame that made them is gone.  Over the resolved syntax tree:
which parameters of function type are kept is computed from the bodies of the
functions (stored in a field or a container, returned, captured by another
closure that is kept, passed on to a parameter that is kept); a closure given to
such a parameter captures nothing local by reference, and no raw pointer to the
message the handler was given (the runtime drops it when the handler returns)."""
import re
from .front import AnalysisError
from .spec import Violation

THROUGH = re.compile(r'^(std::(move|forward|ref|function.*|make_tuple|make_pair|make_shared|make_unique)|move|forward)$')
STORES = re.compile(r'(^|::)(push_back|emplace_back|push|emplace|insert|push_front|emplace_front|insert_or_assign|try_emplace)$')
# kept, where the body is not among the sources analysed.  Not makeFunc: a callback may be sent before its maker returns
KEEP = re.compile(r'(^|::)(attachAction|addAction\w*|enqueue\w*|registerTrigger\w*|registerContinuationT?|recvDataMsg\w*|requestGetData|getDataIntoBuf|insertPendingEntityAction|getLocation|readyAction|addCleanupAction|registerHook\w+|deferWithEpoch)$')
NOW = re.compile(r'^std::(find_if|sort|for_each|visit|apply|max_element|min_element|accumulate|transform|any_of|all_of|none_of|count_if|remove_if|stable_sort|partial_sort|generate|copy_if|partition|invoke)\b')
MSG = re.compile(r'^(const )?[\w:<>, ]*(Msg|Message)\w*(<.*>)?( const)? ?\*$')


# parameters no closure can be given to
NOTFN = re.compile(r'^(const )?(unsigned|int|short|long|bool|float|double|char|std::(size_t|u?int\d+_t|byte|string)|\w*(TagType|NodeType|EpochType|PriorityType|ByteType|CountType|IDType))\b|\*( const)?$|MsgSharedPtr|MsgPtr')


class Life:
    def __init__(self, F):
        self.F = F
        self.memo = {}
        self.bys = {}
        for k, f in F.funcs.items():
            if f.get('body') is not None: self.bys.setdefault(f['q'].split('::')[-1].split('<')[0], []).append(k)

    def callees(self, n, cand, nargs):
        F = self.F
        c = [x for x in cand if isinstance(x, str) and x in F.funcs and F.funcs[x].get('body') is not None]
        if c: return [x for x in c if len(F.funcs[x]['params']) >= nargs]
        if isinstance(n, str):
            L = [x for x in self.bys.get(n.split('::')[-1].split('<')[0], ()) if len(F.funcs[x]['params']) >= nargs and ('::' not in n or F.funcs[x]['q'] == n)]
            if 0 < len(L) <= 6: return L
        return []

    def occ(self, f, vid=None, lams=False):
        """(node, ancestors) of every use of a variable, or of every closure"""
        out = []
        def walk(e, anc):
            if not isinstance(e, list) or not e: return
            if isinstance(e[0], str):
                if e[0] == 'macro' and re.match(r'vt(Assert|_debug|Warn|_print)', str(e[2])): return
                if vid is not None and e[0] == 'var' and len(e) > 2 and e[2] == vid: out.append((e, anc))
                if e[0] == 'lam':
                    if lams: out.append((e, anc))
                    if vid is not None and any(c[1] == vid for c in e[2]): out.append((e, anc))
                a2 = anc + (e,)
                if e[0] == 'decl':
                    for d in e[2]:
                        if isinstance(d, list):
                            for x in d[3:]: walk(x, a2)
                elif e[0] == 'lam':
                    for c in e[2]: walk(c[3], a2)
                    for x in e[3:]: walk(x, a2)
                else:
                    for x in e[1:]: walk(x, a2)
            else:
                for x in e: walk(x, anc)
        walk(f['body'], ())
        return out

    def inits(self, f, vid):
        def has(e):
            if not isinstance(e, list) or not e: return False
            if e[0] == 'var' and len(e) > 2 and e[2] == vid: return True
            return any(has(x) for x in e)
        return any(has(x[2]) for x in f.get('inits') or () if isinstance(x, list) and len(x) > 2 and x[0] == 'm')

    def kept(self, key, i):
        """is the i-th parameter kept beyond the call: None or how"""
        if (key, i) in self.memo: return self.memo[key, i]
        self.memo[key, i] = None
        f = self.F.funcs[key]
        if i >= len(f['params']): return None
        vid = f['params'][i][1]
        r = None
        if NOTFN.search(str(f['params'][i][2])): return None
        if self.inits(f, vid): r = [f['q']]
        else: r = self.var_kept(f, vid, set())
        self.memo[key, i] = r
        return r

    def var_kept(self, f, vid, seen):
        if vid in seen: return None
        for e, anc in self.occ(f, vid=vid):
            r = self.place(f, e, anc, seen | {vid})
            if r: return r
        return None

    def place(self, f, e, anc, seen=frozenset()):
        """is the value of e, found under anc, kept beyond the function"""
        seen = set(seen)
        child = e
        for p in reversed(anc):
            k = p[0]
            if k in ('cast', 'copy', 'plist', 'cond', 'initlist', 'paren', 'init', 'defarg', 'new', 'tmp'): child = p; continue
            if k == 'ctor':
                if str(p[1]).startswith(('std::function', 'std::tuple', 'std::pair', 'std::unique_ptr', 'std::shared_ptr')) or len(p[2]) == 1 and str(p[1]) in ('auto',): child = p; continue
                cs = self.callees(None, [p[3]] if len(p) > 3 else [], len(p[2]))
                for c in cs:
                    i = next((j for j, a in enumerate(p[2]) if a is child), None)
                    if i is not None and self.kept(c, i): break
                else:
                    if cs: return None
                child = p; continue              # part of an object: follow it
            if k in ('call', 'mcall', 'dcall', 'ucall'):
                if k == 'mcall': obj, n, args, cand = p[1], p[3], p[4], [p[2]]
                elif k == 'call': obj, n, args, cand = None, p[2], p[3], [p[1]]
                elif k == 'dcall': obj, n, args, cand = p[1], p[2], p[3], p[6] if len(p) > 6 and isinstance(p[6], list) else []
                else: obj, n, args, cand = None, p[1], p[2], p[5] if len(p) > 5 and isinstance(p[5], list) else []
                i = next((j for j, a in enumerate(args) if a is child), None)
                if i is None: return None          # the object of the call
                if isinstance(n, str):
                    if THROUGH.match(n): child = p; continue
                    if NOW.match(n): return None
                    if STORES.search(n) and not self.callees(n, cand, len(args)):
                        return [f['q']] if self.outlives(f, obj) else None
                cs = self.callees(n, cand, len(args))
                for c in cs:
                    r = self.kept(c, i)
                    if r: return [f['q']] + r
                if isinstance(n, str) and KEEP.search(n) and not cs: return [f['q'], n]
                return None
            if k == 'decl':
                for d in p[2]:
                    if isinstance(d, list) and len(d) > 3 and d[3] is child:
                        return self.var_kept(f, d[1], seen)
                return None
            if k == 'asg':
                if p[3] is not child and (len(p) < 5 or p[4] is not child): return None
                lhs = p[2]
                if isinstance(lhs, list) and lhs and lhs[0] == 'var': return self.var_kept(f, lhs[2], seen)
                return [f['q']] if self.outlives(f, lhs) else None
            if k == 'op' and p[1] == '=' and len(p[2]) == 2 and p[2][1] is child:
                lhs = p[2][0]
                if lhs and lhs[0] == 'var': return self.var_kept(f, lhs[2], seen)
                return [f['q']] if self.outlives(f, lhs) else None
            if k == 'op' and p[1] == '()':
                i = next((j for j, a in enumerate(p[2]) if a is child), None)
                return None
            if k == 'ret':
                return [f['q']]
            if k == 'lam':
                # used inside a closure: the closure itself is one of the uses
                return None
            return None
        return None

    def outlives(self, f, e):
        """does what e belongs to outlive the call: a field of this, a global, something reached through a pointer"""
        while isinstance(e, list) and e:
            k = e[0]
            if k in ('this', 'glob', 'un'): return True
            if k in ('fld', 'dfld', 'sub'): e = e[1]; continue
            if k in ('mcall', 'dcall'): e = e[1]; continue
            if k == 'call': return True
            if k == 'op': e = e[2][0] if e[2] else None; continue
            if k in ('cast',): e = e[3]; continue
            if k == 'copy': e = e[2]; continue
            if k == 'var':
                for p in f['params']:
                    if p[1] == e[2]: return True
                return False
            return False
        return False


def locals_of(f):
    out = {}
    for p in f['params']: out[p[1]] = (p[0], p[2], 'p')
    def w(x):
        if not isinstance(x, list) or not x: return
        if x[0] == 'decl' and len(x) > 2 and isinstance(x[2], list):
            for d in x[2]:
                if isinstance(d, list) and len(d) > 4 and d[0] != '$decomp': out[d[1]] = (d[0], d[2], d[4])
        for y in x:
            if isinstance(y, list): w(y)
    w(f['body'])
    return out


def used(e):
    if not isinstance(e, list) or not e: return
    if e[0] == 'macro' and re.match(r'vt(Assert|_debug|Warn|_print)', str(e[2])): return
    if e[0] == 'var' and len(e) > 2: yield e
    for x in e:
        if isinstance(x, list): yield from used(x)


def inside(e):
    """variables a closure declares"""
    for p in e[3]:
        if isinstance(p, list) and len(p) > 1: yield p[1]
    def w(x):
        if not isinstance(x, list) or not x: return
        if x[0] == 'decl' and len(x) > 2 and isinstance(x[2], list):
            for d in x[2]:
                if isinstance(d, list) and len(d) > 1:
                    if d[0] == '$decomp':
                        for y in d[1:]: yield from (z for z in flat(y) if isinstance(z, int))
                    else: yield d[1]
        if x[0] == 'lam':
            for p in x[3]:
                if isinstance(p, list) and len(p) > 1: yield p[1]
        for y in x:
            if isinstance(y, list): yield from w(y)
    yield from w(e[4])


def flat(x):
    if isinstance(x, list):
        for y in x: yield from flat(y)
    else: yield x


def closures(own=r'.', floor=1):
    def rule(F, ev, tier):
        L = Life(F)
        own_ = re.compile(own)
        out, n, nk = [], 0, 0
        for f in F.funcs.values():
            if f.get('body') is None or not own_.search(f['file']): continue
            lams = L.occ(f, lams=True)
            if not lams: continue
            loc = locals_of(f)
            for e, anc in lams:
                n += 1
                r = L.place(f, e, anc)
                if not r: continue
                nk += 1
                caps = list(e[2])
                if len(e) > 6 and e[6]:           # a default: what the body uses (a template does not list it)
                    have = {c[1] for c in caps} | {x for x in inside(e)}
                    for v in used(e[4]):
                        if v[2] in loc and v[2] not in have: have.add(v[2]); caps.append([v[1], v[2], e[6] == '&', None])
                for c in caps:
                    nm, vid, ref = c[0], c[1], c[2]
                    if nm == 'this' or vid not in loc: continue
                    t = str(loc[vid][1])
                    if ref and 'static' not in str(loc[vid][2]):
                        what = 'a closure that is kept captures the local %s by reference' % nm
                    elif loc[vid][2] == 'p' and MSG.match(t):
                        what = 'a closure that is kept captures %s, the raw message of the handler' % nm
                    else: continue
                    out.append(Violation('closures that are kept own what they use', '%s:%s %s' % (f['file'], e[1], f['q']), what, 'kept by ' + ' -> '.join(r)))
        ev['obligations'] += nk
        ev['rules'].append('closures: %d made, %d kept beyond the call that makes them; captures of each checked' % (n, nk))
        return out
    return rule

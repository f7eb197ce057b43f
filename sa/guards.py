"""Calls into the message library happen inside a guard, and guards do not nest.

The wrappers generated from vt/pmpi abort a program that calls into MPI from a
handler without a ScopedMPIAccess alive, and making one while another is alive
aborts too.  So, over the resolved syntax tree:
 - a call of a guarded MPI function lies in the scope of a guard, or in a
   function (or a lambda run in place) that is only called from such scopes, or
   in the start and the end of the runtime, when no handler runs;
 - nothing called in the scope of a guard makes a guard itself or runs the
   scheduler (which asserts that no guard is alive)."""
import re
from .front import AnalysisError
from .spec import Violation
from . import order

GUARD = 'ScopedMPIAccess'
LOCK = re.compile(r'\bLockMPI\b(?!.*(ptr|\*|&))')
# what the wrapper generator leaves alone
UNGUARDED = re.compile(r'MPI_(Comm_get_\w+|Comm_rank|Comm_size|Get_(?!accumulate)\w+|Wtime|Wtick|Aint_\w+|Initialized|Finalized|Error_string)$')
# lambdas given to these run at once, with a guard alive (ScopeImpl::action below)
UNDER = re.compile(r'::mpiCollective(Wait|Async)$')
# runs before the first handler or after the last one
OUTSIDE = re.compile(r"^vt::runtime::Runtime::|^vt::runtime::mpiErrorHandler$|^vt::ctx::Context::~?Context$|^vt::rdma::LockMPI::")
RUNS = re.compile(r'^vt::sched::Scheduler::(runWorkUnit|runSchedulerOnceImpl|runSchedulerWhile|scheduler|progressMsgOnlyImpl|progressImpl)$|^vt::(runScheduler\w*|theSched\(\)->\w+)$')


class Site:
    __slots__ = ('f', 'line', 'name', 'guard', 'lam', 'cand', 'arg')

    def __init__(self, f, line, name, guard, lam, cand, arg=None):
        self.f, self.line, self.name, self.guard, self.lam, self.cand, self.arg = f, line, name, guard, lam, cand, arg


def sites(f):
    """every call of a function with: is a guard alive there, and is it in a lambda that is not run in place"""
    out = []
    # lambdas kept in a variable that is only ever called: they run where they are called
    local, uses, callee = {}, {}, {}

    def scan(e):
        if not isinstance(e, list) or not e: return
        if e[0] == 'decl' and len(e) > 2 and isinstance(e[2], list):
            for d in e[2]:
                if isinstance(d, list) and len(d) > 3 and isinstance(d[3], list) and d[3] and d[3][0] == 'lam': local[d[1]] = d[3]
        if e[0] == 'var' and len(e) > 2 and not isinstance(e[2], list): uses[e[2]] = uses.get(e[2], 0) + 1
        c = e[2][0] if e[0] == 'op' and len(e) > 2 and e[1] == '()' and isinstance(e[2], list) and e[2] else e[1] if e[0] == 'icall' and len(e) > 1 else None
        if isinstance(c, list) and c and c[0] == 'var' and len(c) > 2: callee[c[2]] = callee.get(c[2], 0) + 1
        if e[0] == 'lam':
            # what it captures is named in the list of captures, which is not a use
            scan(e[4])
            return
        for x in e: scan(x)
    scan(f['body'])
    local = {i: l for i, l in local.items() if uses.get(i, 0) and uses.get(i) == callee.get(i)}
    going = []

    def walk(e, g, lam, sink):
        if not isinstance(e, list) or not e: return
        if not isinstance(e[0], str):
            for x in e: walk(x, g, lam, sink)
            return
        k = e[0]
        if k == 'macro' and re.match(r'vt(Assert|_debug|Warn|Abort|_print)', str(e[2])): return
        if k == 'blk':
            gg = g
            for x in e[2]:
                if isinstance(x, list) and x and x[0] == 'decl' and any(isinstance(d, list) and len(d) > 2 and GUARD in str(d[2]) for d in x[2]):
                    out.append(Site(f, x[1], GUARD, gg, lam, ())); gg = True
                else: walk(x, gg, lam, None)
            return
        if k == 'decl':
            for d in e[2]:
                if isinstance(d, list) and len(d) > 3:
                    if LOCK.search(str(d[2])):
                        a = d[3][2] if isinstance(d[3], list) and d[3] and d[3][0] == 'ctor' else []
                        v = a[3] if len(a) > 3 else None
                        if isinstance(v, list) and v and v[0] == 'defarg': v = v[1]
                        out.append(Site(f, e[1], 'LockMPI', g, lam, (), v[1] if isinstance(v, list) and v and v[0] == 'bool' else True))
                    if len(d) > 3 and d[1] in local and d[3] is local[d[1]]: continue
                    walk(d[3], g, lam, None)
            return
        c = e[2][0] if k == 'op' and len(e) > 2 and e[1] == '()' and isinstance(e[2], list) and e[2] else e[1] if k == 'icall' and len(e) > 1 else None
        if isinstance(c, list) and len(c) > 2 and c[0] == 'var' and c[2] in local:
            if c[2] not in going:
                going.append(c[2])
                walk(local[c[2]][4], g, lam, None)
                going.pop()
            for x in e[2][1:] if k == 'op' else e[2] if isinstance(e[2], list) else []: walk(x, g, lam, None)
            return
        if k == 'lam':
            inplace = bool(sink) and bool(UNDER.search(sink))
            # a local lambda keeps the state it is made in only if it is run there; take neither for granted
            walk(e[4], inplace, lam if inplace else lam + (e[1],), None)
            return
        n = ln = None; cand = ()
        if k == 'mcall':
            n, ln, cand = e[3], e[5], (e[2],)
        elif k == 'call': n, ln, cand = e[2], e[4], (e[1],)
        elif k == 'dcall': n, ln, cand = e[2], e[4], tuple(e[6]) if len(e) > 6 and isinstance(e[6], list) else ()
        elif k == 'ucall': n, ln, cand = e[1], e[3], tuple(e[5]) if len(e) > 5 and isinstance(e[5], list) else ()
        elif k == 'icall' or k == 'op' and e[1] == '()': n, ln = '()', f['line']
        if isinstance(n, str): out.append(Site(f, ln, n, g, lam, tuple(c for c in cand if isinstance(c, str))))
        for x in e[1:]: walk(x, g, lam, n if isinstance(n, str) else sink)
    walk(f['body'], False, (), None)
    return out


def guards(own=r'.', floor=1):
    """the rule, for the files matching own"""
    def rule(F, ev, tier):
        S = {k: sites(f) for k, f in F.funcs.items() if f.get('body') is not None}
        if not any(s.name == GUARD for L in S.values() for s in L): raise AnalysisError('no guard is visible in the sources analysed')
        # the two collective entry points run what they are given under a guard
        called, calls = {}, {}
        bys = {}
        for k, f in F.funcs.items(): bys.setdefault(f['q'].split('::')[-1], []).append(k)
        for k, L in S.items():
            for s in L:
                c = [x for x in s.cand if x in S]
                if not c and s.name and '::' not in s.name and not s.name.startswith('MPI_'):
                    c = [x for x in bys.get(s.name, ()) if x in S]
                    if len(c) > 4: c = []
                for x in c: called.setdefault(x, []).append(s)
                calls[id(s)] = c
        out, n, na = [], 0, 0
        own_ = re.compile(own)

        def bad(s, what, happens):
            out.append(Violation('calls into the message library are guarded', '%s:%s %s' % (s.f['file'], s.line, s.f['q']), what, happens))

        def unguarded(s):
            """how a call can be made without a guard, or None"""
            if s.guard or OUTSIDE.search(s.f['q']): return None
            work, seen, held = [(s, [s.f['q']])], set(), False
            while work:
                c, path = work.pop()
                if c.lam: return path             # run later, from a handler
                k = c.f['key']
                if k in seen: continue
                seen.add(k)
                up = [x for x in called.get(k, ()) if x.f['key'] != k]
                if not up: return path
                for x in up:
                    if x.guard or OUTSIDE.search(x.f['q']): held = True
                    else: work.append((x, [x.f['q']] + path))
            return None if held else [s.f['q']]

        for k, L in S.items():
            for s in L:
                need = s.name.startswith('MPI_') and not UNGUARDED.match(s.name) or s.name == 'LockMPI' and s.arg is False
                if not need and s.name == '()' and s.f['q'].startswith('vt::collective::CollectiveAlg::') and not s.lam: need = True; na += 1
                if not need or not own_.search(s.f['file']): continue
                n += 1
                p = unguarded(s)
                if p: bad(s, '%s without a guard' % (s.name if s.name != '()' else 'the action of a planned collective runs'), 'reached by ' + ' -> '.join(p))
        # what makes a guard, transitively (not through lambdas, which run at another time)
        opens = {}
        for k, L in S.items():
            for s in L:
                if not s.lam and not s.f['q'].startswith('vt::rdma::LockMPI::') and (s.name == GUARD or s.name == 'LockMPI' and s.arg is not False): opens.setdefault(k, [F.funcs[k]['q']])
            if RUNS.search(F.funcs[k]['q']): opens.setdefault(k, [F.funcs[k]['q']])
        work = list(opens)
        while work:
            k = work.pop()
            for s in called.get(k, ()):
                j = s.f['key']
                if s.lam or j in opens: continue
                opens[j] = [F.funcs[j]['q']] + opens[k]; work.append(j)
        m = 0
        for k, L in S.items():
            for s in L:
                if not s.guard or not own_.search(s.f['file']): continue
                m += 1
                if s.name == GUARD or s.name == 'LockMPI' and s.arg is not False:
                    bad(s, '%s made while a guard is alive' % s.name, 'guards do not nest')
                for c in calls.get(id(s), ()):
                    if c in opens: bad(s, '%s called while a guard is alive' % s.name, 'makes a guard or runs the scheduler: ' + ' -> '.join(opens[c])); break
        if na == 0 and any(f['q'] == 'vt::collective::CollectiveAlg::runCollective' for f in F.funcs.values()): raise AnalysisError('planned collectives are not run by CollectiveAlg')
        if n < floor: raise AnalysisError('only %d guarded calls into the message library found' % n)
        ev['obligations'] += n + m
        ev['rules'].append('MPI guards: %d calls into the message library guarded, %d calls made under a guard open none' % (n, m))
        return out
    return rule

"""The wrappers generated from vt/pmpi stand between the program and the message
library.  The generator is run on the current sources and what it writes is
compiled and summarised like any other code; each wrapper must
 - call the function it stands for, once, with its own arguments in order, on
   every path that does not abort, and return what that returned;
 - abort exactly when calls are not allowed, unless it is one of the calls that
   are always allowed, which never abort;
 - log under its own event, registered under its own name."""
import os, re
from . import front, engine, spec
from .front import AnalysisError
from .spec import Violation

TUS = ['gen:mpiwrap', 'vt/pmpi/pmpi_component.cc', 'vt/runtime/mpi_access.cc']
LIST = os.path.dirname(os.path.abspath(__file__)) + '/mpi_wrapped.txt'
# usable anywhere
FREE = re.compile(r'MPI_(Comm_get_\w+|Comm_rank|Comm_size|Get_(?!accumulate$)\w+)$')
UNLOGGED = {'MPI_Init', 'MPI_Finalize', 'MPI_Abort', 'MPI_Comm_rank', 'MPI_Comm_size', 'MPI_Get_count'}


def ret(F, q):
    """what a function without effects returns, as a boolean function"""
    S = engine.summarize(F, q)
    R = [e for e in S.events if e.kind == 'ret' and e.fn in (None, S.f) or e.kind == 'ret' and not e.ctx]
    if not R: raise AnalysisError(q + ' returns nothing')
    return engine.tb(R[-1].val)


def one(F, cfg, ev):
    out = []
    W = sorted(f['q'] for f in F.funcs.values() if f['q'].startswith('MPI_') and f.get('body') is not None and f['file'].endswith('mpiwrap.cc'))
    want = [l.strip() for l in open(LIST) if l.strip()]

    def bad(n, what, d=''): out.append(Violation('MPI calls of the program are checked and passed on', 'generate_mpi_wrappers.pl (%s configuration) %s' % (cfg, n), what, d))
    for n in want:
        ev['obligations'] += 1
        if n not in W: bad(n, 'is not wrapped: a call of it from a handler is not noticed')
    used = {}
    for n in W:
        ev['obligations'] += 4
        engine.reset()
        allowed = ret(F, 'vt::runtime::ScopedMPIAccess::mpiCallsAllowed')
        S = engine.summarize(F, n)
        E = S.events
        np = len(S.f['params'])
        call = [e for e in E if e.kind == 'call' and e.name and re.match(r'P?MPI_', e.name)]
        ab = engine.bor(*[e.guard for e in E if e.kind == 'abort']) if any(e.kind == 'abort' for e in E) else 0
        if len(call) != 1 or call[0].name != 'P' + n or call[0].ctx: bad(n, 'does not call P%s once: %s' % (n, ', '.join(spec.ctxtext(e) + spec.evtext(e) for e in call) or 'no call')); continue
        c = call[0]
        a = [engine.show(x) for x in c.args]
        if a != ['$%d' % i for i in range(np)]: bad(n, 'does not pass its arguments on in order', 'P%s(%s)' % (n, ', '.join(a)))
        if not engine.bequiv(c.guard, engine.bnot(ab)): bad(n, 'does not call P%s on every path that does not abort' % n, engine.bstr(c.guard))
        if FREE.match(n):
            if ab != 0: bad(n, 'aborts, but may be called anywhere', engine.bstr(ab))
        elif not engine.bequiv(ab, engine.bnot(allowed)): bad(n, 'does not abort exactly when calls into the library are not allowed', 'aborts when: ' + engine.bstr(ab))
        if S.f['ret'] != 'void':
            t = 'P%s(%s)' % (n, ','.join('$%d' % i for i in range(np)))
            R = [e for e in E if e.kind == 'ret' and e.val is not None and 'PMPI_' in engine.show(e.val)]
            if len(R) != 1 or engine.show(R[0].val) != t or not engine.bequiv(R[0].guard, c.guard): bad(n, 'does not return what P%s returned' % n)
        log = [e for e in E if e.kind == 'call' and 'TraceScopedEvent' in (e.name or '')]
        if cfg == 'full':
            if n in UNLOGGED or not log:
                if bool(log) == (n in UNLOGGED): bad(n, 'is logged' if log else 'is not logged')
            else:
                used[n] = 1
                should = ret(F, 'vt::pmpi::PMPIComponent::shouldLogCall')
                A = log[0].args[0] if log[0].args else None
                ok = len(log) == 1 and A is not None and engine.bequiv(log[0].guard, c.guard)
                if ok:
                    lv = engine.leaves(A, 1)
                    on = engine.bor(*[g for v, g in lv if engine.show(v) == 'event_' + n])
                    off = engine.bor(*[g for v, g in lv if engine.show(v).endswith('no_user_event_id')])
                    ok = len(lv) == 2 and engine.bequiv(on, should) and engine.bequiv(off, engine.bnot(should))
                if not ok: bad(n, 'does not log its own event when calls are logged', ', '.join(spec.evtext(e) for e in log))
                elif E.index(log[0]) > E.index(c): bad(n, 'starts its event after the call')
    engine.reset()
    if cfg == 'full':
        R = engine.summarize(F, 'vt::pmpi::PMPIComponent::registerEventHandlers')
        reg = {}
        for e in R.events:
            if e.kind == 'store' and engine.show(e.path).startswith('event_'): reg.setdefault(engine.show(e.path)[6:], []).append(e)
        for n in used:
            ev['obligations'] += 1
            r = reg.get(n, [])
            if len(r) != 1 or not engine.bequiv(r[0].guard, 1) or r[0].ctx or not re.search(r'registerUserEventColl\([^"]*"_%s"' % n, engine.show(r[0].val)):
                bad(n, 'its event is not registered once under its name', ', '.join(spec.evtext(e) for e in r) or 'not registered')
    ev['functions'] += [{'fn': n, 'configuration': cfg} for n in W]
    return out


def wrappers(F, ev, tier):
    out = []
    for cfg in ('full', 'default'):
        out += one(front.load(TUS, cfg), cfg, ev)
    engine.reset()
    ev['rules'].append('%d generated wrappers: each passes its own call on unchanged, aborts exactly when calls are not allowed' % (len(ev['functions'])))
    return out

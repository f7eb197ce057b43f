"""One-sided memory."""
from ..prop import mod, Prop
from ..spec import Fn, Grp, Violation
from ..front import AnalysisError
from .. import order
from ..guards import guards


def reach(F, starts):
    """functions reachable over resolved calls, and the fields they touch"""
    seen, todo, touched = set(), [f['key'] for f in starts], set()
    while todo:
        k = todo.pop()
        if k in seen: continue
        seen.add(k)
        s = order.direct(F, F.funcs[k])
        touched |= s.T
        todo += list(s.C)
    return seen, touched


def deferred_requests(F, ev, tier):
    """A request kept because no function is registered yet must be served by
    the registration: the queue it is kept in is touched on the paths from there."""
    out = []
    S = 'vt::rdma::State::'
    for reg, req, queue in (('setRDMAGetFn', 'getData', 'pending_tag_gets'), ('setRDMAPutFn', 'putData', 'pending_tag_puts')):
        regs = [f for f in F.funcs.values() if f['q'] == S + reg and f.get('body') is not None]
        reqs = [f for f in F.funcs.values() if f['q'] == S + req and f.get('body') is not None]
        if not regs or not reqs: raise AnalysisError('no %s%s / %s' % (S, reg, req))
        ev['obligations'] += 1
        ev['rules'].append('a queue filled by %s is drained by %s: %s' % (req, reg, queue))
        if queue not in reach(F, reqs)[1]: continue       # nothing is kept
        fs, touched = reach(F, regs)
        if queue not in touched:
            f = regs[0]
            out.append(Violation('requests kept for later are served', '%s:%d %s' % (f['file'], f['line'], f['q']),
                                 '%s is filled by %s and never served by %s' % (queue, req, reg), '%d function(s) reachable' % len(fs)))
    return out


mod('R01', ['vt/rdma/rdma.cc', 'vt/rdma/rdma_handle.cc', 'vt/rdma/state/rdma_state.cc', 'vt/rdma/channel/rdma_channel.cc', 'vt/rdma/group/rdma_group.cc', 'vt/rdma/collection/rdma_collection.cc'],
    r'^vt/rdma/', 'gets and puts complete', custom=[deferred_requests, guards('^vt/rdma/', 10)])
mod('R02', ['vt/rdmahandle/manager.cc', 'vt/rdmahandle/request_holder.cc', 'vt/vrt/collection/balance/rotatelb/rotatelb.cc'],
    r'^vt/rdmahandle', 'handles address their window', custom=[guards('^vt/rdmahandle/', 10)])

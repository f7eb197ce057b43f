"""Runtime, components, options, traces."""
from ..prop import mod, Prop
from ..spec import Fn, Grp
from ..guards import guards
from ..life import closures
from ..wrappers import wrappers, TUS as WRAPPER_TUS
from .. import front

mod('N01', ['vt/runtime/component/component_pack.cc', 'vt/runtime/component/diagnostic_value.cc', 'vt/runtime/component/diagnostic_enum_format.cc', 'vt/runtime/component/diagnostic.cc', 'vt/runtime/runtime.cc', 'vt/runtime/component/component_reduce.cc'],
    r'^vt/runtime/component', 'components start in order')
mod('N02', ['vt/runtime/runtime.cc', 'vt/runtime/runtime_get.cc', 'vt/runtime/mpi_access.cc', 'vt/runtime/runtime_diagnostics.cc', 'vt/runtime/runtime_banner.cc', 'vt/collective/startup.cc',
            # every file that calls into the message library
            'vt/collective/collective_alg.cc', 'vt/event/event_record.cc', 'vt/group/collective/group_info_collective.cc', 'vt/messaging/active.cc', 'vt/timing/timing.cc',
            'vt/vrt/collection/balance/temperedlb/temperedlb.cc', 'vt/rdmahandle/manager.cc', 'vt/rdmahandle/request_holder.cc', 'vt/rdma/channel/rdma_channel.cc', 'vt/rdma/rdma.cc',
            'vt/utils/mpi_limits/mpi_max_tag.cc', 'vt/context/context.cc', 'vt/scheduler/scheduler.cc'],
    r'^vt/runtime/[^/]*$', 'the runtime starts and stops', custom=[guards('.', 50)])
mod('N03', WRAPPER_TUS, r'^vt/pmpi/', 'what the generated wrappers rely on', custom=[wrappers])
mod('A01', ['vt/configs/arguments/args.cc', 'vt/collective/startup.cc'],
    r'^vt/configs/arguments', 'options mean what they say')
mod('A02', ['vt/configs/debug/debug_print.cc', 'vt/configs/error/pretty_print_message.cc', 'vt/configs/error/stack_out.cc', 'vt/epoch/epoch_window.cc'],
    r'^vt/configs/(error|debug|types)', 'errors and assertions')
mod('X01', ['vt/trace/trace.cc', 'vt/trace/trace_lite.cc', 'vt/trace/trace_user_event.cc', 'vt/trace/trace_event.cc', 'vt/trace/trace_user.cc', 'vt/trace/trace_registry.cc', 'vt/trace/trace_containers.cc'],
    r'^vt/trace', 'trace records', trace=True)
mod('D01', ['vt/metrics/perf_data.cc'],
    r'^vt/metrics', 'performance counters')
mod('T09', ['vt/termination/graph/epoch_graph.cc', 'vt/termination/termination.cc', 'vt/termination/epoch_guard.cc', 'vt/collective/basic.cc', 'vt/termination/epoch_label.cc', 'vt/termination/epoch_tags.cc'],
    r'^vt/termination/(graph|epoch_(guard|label|tags|rel))|^vt/collective/basic', 'epoch graph', fns=[Grp('^vt::term::TerminationDetector::(TerminationDetector|countsConstant|buildLocalGraphHandler|epochGraphBuiltHandler|getNumTerminatedCollectiveEpochs|getNumUnits|hangCheckHandler|makeGraph|resetGlobalTerm|start\\w*|getEpoch\\w+|hangDetect\\w+|is(DS|Rooted)|setEpoch\\w*|kill\\w*|progress\\w*)$', 'the graph of live epochs')])


def kept_closures(F, ev, tier):
    from ..front import AnalysisError
    r = closures('.')(F, ev, tier)
    if ev['obligations'] < 60: raise AnalysisError('only %d kept closures found' % ev['obligations'])
    return r


Prop('X02', front.all_tus(), custom=[kept_closures], technique='escape analysis of closures over the resolved syntax tree: kept function parameters by interprocedural fixpoint, captures of kept closures checked',
     note='Every closure of the library is classified as run within the call that makes it or kept; the captures of each kept one are checked.')

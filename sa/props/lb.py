"""Load balancing."""
from ..prop import mod, Prop
from ..spec import Fn, Grp

mod('B01', ['vt/vrt/collection/balance/node_lb_data.cc', 'vt/vrt/collection/balance/lb_common.cc', 'vt/vrt/collection/balance/lb_data_holder.cc', 'vt/vrt/collection/balance/lb_invoke/lb_manager.cc', 'vt/vrt/collection/balance/lb_type.cc', 'vt/vrt/collection/balance/col_lb_data.cc'],
    r'^vt/vrt/collection/balance/(node_lb_data|col_lb_data|lb_common|lb_data_holder|lb_comm|lb_type|stats_msg|phase_msg)', 'measured loads are kept and written')
mod('B02', ['vt/vrt/collection/balance/lb_invoke/lb_manager.cc', 'vt/vrt/collection/balance/hierarchicallb/hierlb.cc', 'vt/vrt/collection/balance/greedylb/greedylb.cc', 'vt/vrt/collection/balance/baselb/baselb.cc', 'vt/vrt/collection/balance/randomlb/randomlb.cc', 'vt/vrt/collection/balance/testserializationlb/testserializationlb.cc', 'vt/vrt/collection/balance/rotatelb/rotatelb.cc', 'vt/vrt/collection/balance/baselb/load_sampler.cc', 'vt/vrt/collection/balance/offlinelb/offlinelb.cc'],
    r'^vt/vrt/collection/balance/(baselb|greedylb|hierarchicallb|randomlb|rotatelb|offlinelb|testserial|lb_args_enum)', 'a strategy moves each object at most once')
mod('B03', ['vt/vrt/collection/balance/temperedlb/temperedlb.cc', 'vt/vrt/collection/balance/temperedwmin/temperedwmin.cc'],
    r'^vt/vrt/collection/balance/tempered', 'transfers keep the load accounts')
mod('B04', ['vt/vrt/collection/balance/model/composed_model.cc', 'vt/vrt/collection/balance/model/raw_data.cc', 'vt/vrt/collection/balance/model/per_collection.cc', 'vt/vrt/collection/balance/model/proposed_reassignment.cc', 'vt/vrt/collection/balance/model/naive_persistence.cc', 'vt/vrt/collection/balance/model/comm_overhead.cc', 'vt/vrt/collection/balance/model/persistence_median_last_n.cc', 'vt/vrt/collection/balance/model/select_subphases.cc', 'vt/vrt/collection/balance/model/weighted_messages.cc', 'vt/vrt/collection/balance/model/linear_model.cc', 'vt/vrt/collection/balance/model/multiple_phases.cc', 'vt/vrt/collection/balance/model/norm.cc', 'vt/vrt/collection/balance/model/weighted_communication_volume.cc', 'vt/vrt/collection/balance/lb_invoke/lb_manager.cc'],
    r'^vt/vrt/collection/balance/model', 'a model answers from the data')
mod('B05', ['vt/vrt/collection/balance/lb_invoke/lb_manager.cc'],
    r'^vt/vrt/collection/balance/lb_invoke', 'the balancer runs and the moves are made')
mod('B06', ['vt/vrt/collection/balance/workload_replay.cc', 'vt/vrt/collection/balance/lb_data_restart_reader.cc', 'vt/vrt/collection/balance/read_lb.cc'],
    r'^vt/vrt/collection/balance/(lb_data_restart|workload|read_lb)', 'recorded data and specs are followed')
mod('F01', ['vt/phase/phase_manager.cc'],
    r'^vt/phase', 'phase hooks run in order')

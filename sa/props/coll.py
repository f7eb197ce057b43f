"""Trees, barriers, reductions, groups, object groups."""
from ..prop import mod, Prop
from ..spec import Fn, Grp

mod('K01', ['vt/collective/tree/tree.cc', 'vt/collective/startup.cc', 'vt/collective/collective_ops.cc'],
    r'^vt/collective/(tree|collective_ops|startup)', 'every node has one place in the tree')
mod('K02', ['vt/collective/barrier/barrier.cc'],
    r'^vt/collective/barrier', 'a barrier releases when all arrived')
mod('K03', ['vt/collective/reduce/reduce_manager.cc', 'vt/collective/reduce/reduce_state_holder.cc', 'vt/collective/reduce/reduce.cc', 'vt/runtime/component/diagnostic_value.cc'],
    r'^vt/collective/reduce', 'a reduction combines each contribution once')
mod('K04', ['vt/collective/collective_alg.cc', 'vt/collective/collective_scope.cc', 'vt/collective/scatter/scatter.cc'],
    r'^vt/collective/(scatter|collective_alg|collective_scope)', 'scatter and scopes')
mod('G01', ['vt/group/region/group_list.cc', 'vt/group/region/group_range.cc', 'vt/group/region/group_shallow_list.cc'],
    r'^vt/group/region', 'a region holds exactly its nodes')
mod('G02', ['vt/group/id/group_id.cc'],
    r'^vt/group/id', 'a group id carries its parts')
mod('G03', ['vt/group/collective/group_info_collective.cc', 'vt/group/group_manager.cc', 'vt/group/global/group_default.cc', 'vt/group/group_info.cc', 'vt/group/rooted/group_info_rooted.cc', 'vt/group/collective/group_collective_util.cc', 'vt/group/collective/group_collective_finished.cc', 'vt/group/group_manager_active_attorney.cc'],
    r'^vt/group/(?!region|id/)', 'a group message reaches exactly its members')
mod('O01', ['vt/objgroup/manager.cc', 'vt/runtime/runtime.cc'],
    r'^vt/objgroup/(?!proxy)', 'an object group instance is found by its proxy')
mod('O02', ['vt/rdmahandle/manager.cc', 'vt/objgroup/proxy/proxy_bits.cc'],
    r'^vt/objgroup/proxy', 'a proxy sends where it says')
mod('L01', ['vt/topos/location/manager.cc', 'vt/runtime/runtime.cc'],
    r'^vt/topos/location', 'an entity is found where it is')
mod('L02', ['vt/vrt/collection/balance/rotatelb/rotatelb.cc', 'vt/topos/mapping/seed/seed.cc'],
    r'^vt/topos/(index|mapping)', 'every index is mapped to one node')

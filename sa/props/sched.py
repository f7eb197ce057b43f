"""Scheduler, threads, priorities, time triggers and pools."""
from ..prop import mod, Prop
from ..spec import Fn, Grp

mod('S01', ['vt/scheduler/scheduler.cc', 'vt/scheduler/base_unit.cc'],
    r'^vt/scheduler/(scheduler|base_unit|queue|prioritized|work|base|runnable)', 'work in the queue runs once')
mod('S02', ['vt/scheduler/thread_action.cc', 'vt/scheduler/thread_manager.cc', 'vt/scheduler/suspended_units.cc'],
    r'^vt/scheduler/(thread|suspended)', 'a suspended handler resumes once')
mod('S03', ['vt/scheduler/base_unit.cc', 'vt/scheduler/priority_manip.cc'],
    r'^vt/scheduler/priority', 'a priority keeps its levels')
mod('F02', ['vt/timetrigger/time_trigger_manager.cc', 'vt/runtime/runtime.cc'],
    r'^vt/timetrigger', 'a trigger fires on time')
mod('P01', ['vt/pool/pool.cc', 'vt/runnable/runnable.cc', 'vt/pool/header/pool_header.cc'],
    r'^vt/pool', 'memory goes back where it came from')
mod('E01', ['vt/event/event.cc', 'vt/event/event_record.cc', 'vt/event/event_id.cc', 'vt/event/event_holder.cc', 'vt/runtime/runtime.cc'],
    r'^vt/event', 'an event completes when all of it has')
mod('Y01', ['vt/elm/elm_lb_data.cc', 'vt/elm/elm_id_bits.cc', 'vt/elm/elm_id.cc', 'vt/vrt/collection/balance/lb_invoke/lb_manager.cc', 'vt/timing/timing.cc'],
    r'^vt/(timing|elm)', 'times and element ids keep their parts')

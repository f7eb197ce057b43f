"""Sending, receiving and describing messages."""
from ..prop import mod, Prop
from ..spec import Fn, Grp

mod('C01', ['vt/runnable/runnable.cc', 'vt/context/runnable_context/lb_data.cc', 'vt/context/context.cc', 'vt/context/runnable_context/trace.cc', 'vt/context/runnable_context/td.cc', 'vt/context/runnable_context/collection.cc', 'vt/context/runnable_context/set_context.cc', 'vt/context/context_attorney.cc'],
    r'^vt/(context|runnable)/', 'a handler runs inside the contexts of its message')
mod('M01', ['vt/messaging/pending_send.cc', 'vt/topos/location/manager.cc'],
    r'^vt/messaging/(pending_send|collection_chain|dependent_send|task_collective|send_info|param_msg)', 'a pending send is sent once')
mod('M02', ['vt/pool/pool.cc'],
    r'^vt/messaging/envelope', 'the envelope says what the message is')
mod('M03', ['vt/scheduler/base_unit.cc'],
    r'^vt/messaging/message', 'a message lives as long as it is referenced')
mod('M04', ['vt/messaging/active.cc'],
    r'^vt/messaging/(active|listener)', 'a message reaches its handler once')
mod('M05', ['vt/messaging/async_op.cc', 'vt/messaging/async_op_wrapper.cc'],
    r'^vt/messaging/(request_holder|irecv|async)', 'an asynchronous operation completes once')
mod('M06', ['vt/scheduler/base_unit.cc'],
    r'^vt/serialization', 'a serialized message arrives as it was sent')
mod('H01', ['vt/runtime/runtime_get.cc', 'vt/handler/handler.cc', 'vt/registry/auto/auto_registry.cc'],
    r'^vt/(handler|registry|activefn)', 'a handler id names one function')

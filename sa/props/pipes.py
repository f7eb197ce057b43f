"""Callbacks and pipes."""
from ..prop import mod, Prop
from ..spec import Fn, Grp

mod('Q01', ['vt/pipe/pipe_manager_base.cc', 'vt/pipe/state/pipe_state.cc', 'vt/pipe/id/pipe_id.cc', 'vt/pipe/pipe_manager.cc'],
    r'^vt/pipe/(?!callback)', 'a callback is delivered')
mod('Q02', ['vt/vrt/collection/balance/hierarchicallb/hierlb.cc', 'vt/pipe/callback/cb_union/cb_raw_base.cc', 'vt/pipe/callback/handler_send/callback_send_tl.cc', 'vt/pipe/callback/handler_bcast/callback_bcast_tl.cc', 'vt/pipe/callback/anon/callback_anon_tl.cc'],
    r'^vt/pipe/callback', 'a callback is triggered with its target')

"""Collections."""
from ..prop import mod, Prop
from ..spec import Fn, Grp

mod('V01', ['vt/vrt/collection/manager.cc'],
    r'^vt/vrt/(collection/manager)', 'collection life cycle and delivery')
mod('V02', ['vt/vrt/collection/types/migratable.cc', 'vt/vrt/collection/holders/typeless_holder.cc', 'vt/vrt/collection/types/storage/storable.cc'],
    r'^vt/vrt/collection/(holders|types|messages|listener|migrate|insert|destroy|dispatch|active|defaults|gettable|rdmaable|mapped|staged)', 'elements are held by one node')
mod('V03', ['vt/vrt/collection/balance/rotatelb/rotatelb.cc', 'vt/vrt/collection/proxy_builder/elm_proxy_builder.cc'],
    r'^vt/vrt/collection/(param|collection_builder|collection_info|collection_directory|proxy_traits|proxy_builder|reducable|broadcast|send|invoke)', 'construction parameters and proxies')
mod('V04', ['vt/vrt/context/context_vrtmanager.cc', 'vt/vrt/proxy/proxy_bits.cc', 'vt/vrt/collection/balance/rotatelb/rotatelb.cc', 'vt/vrt/context/context_vrtinfo.cc', 'vt/vrt/proxy/collection_proxy_untyped.cc', 'vt/vrt/context/context_vrt_attorney.cc'],
    r'^vt/vrt/(context|base|proxy)', 'virtual contexts and proxies')

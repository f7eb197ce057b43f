"""Utilities the runtime relies on."""
from ..prop import mod, Prop
from ..spec import Fn, Grp

mod('Z01', ['vt/epoch/epoch_manip.cc', 'vt/scheduler/priority_manip.cc'], r'^vt/utils/bits/', 'a field of a packed word')
mod('Z02', ['vt/vrt/collection/balance/node_lb_data.cc','vt/vrt/collection/manager.cc','vt/scheduler/scheduler.cc'], r'^vt/utils/(container|ptr|strong|hash|static_checks)', 'small containers and wrappers')
mod('Z03', ['vt/utils/json/decompression_input_container.cc', 'vt/utils/json/json_reader.cc', 'vt/utils/compress/compressor.cc','vt/vrt/collection/balance/node_lb_data.cc','vt/utils/compress/decompressor.cc'][:4], r'^vt/utils/(json|compress)', 'what is written can be read back')
mod('Z04', ['vt/runtime/component/diagnostic.cc', 'vt/vrt/collection/balance/model/linear_model.cc'], r'^vt/utils/(adt/histogram|stats)', 'approximations keep their bounds', skip='dump$|buildContainerString')
mod('Z05', ['vt/utils/memory/memory_units.cc', 'vt/utils/memory/memory_usage.cc', 'vt/utils/file_spec/spec.cc', 'vt/utils/mpi_limits/mpi_max_tag.cc', 'vt/utils/demangle/demangle.cc'], r'^vt/utils/(memory|file_spec|mpi_limits|demangle)', 'small services', trace=True)

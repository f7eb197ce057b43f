"""Epoch identifiers and the record of which epochs have terminated."""
from ..prop import mod, Prop
from ..spec import Fn, Grp

mod('T06', ['vt/epoch/epoch_manip.cc'], r'^vt/epoch/(epoch_manip|epoch_type|epoch\.h)', 'an epoch id carries its kind, node and sequence', skip=None)
mod('T07', ['vt/epoch/epoch_window.cc'], r'^vt/(epoch/epoch_window|termination/interval|utils/adt/ranged)', 'the set of terminated epochs is exact', skip='dumpState')

"""Distributed termination detection: wave (4-counter), Dijkstra-Scholten,
dependencies between epochs, resolution of epochs."""
from ..spec import Fn, Grp
from ..prop import Prop, data
from ..engine import *

TD = 'vt::term::TerminationDetector::'
TS = 'vt::term::TermState::'
DS = 'vt::term::ds::TermDS::'
SD = 'vt::term::ds::StateDS::'
ED = 'vt::term::EpochDependency::'
GET = [r'^vt::term::TerminationDetector::(findOrCreateState|getDSTerm|getEpochDep)$']   # get-or-create lookups


def fns(cls, why, *names, **kw):
    return [Fn(cls + n if isinstance(n, str) else cls + n[0], why, n=None if isinstance(n, str) else n[1], **kw) for n in names]



Prop('T01', ['vt/termination/termination.cc', 'vt/termination/term_state.cc'],
     fns(TD, 'wave step', 'propagateEpochHandler', 'propagateEpochExternalState', 'propagateEpochExternal', 'propagateEpoch',
         'epochContinueHandler', 'epochContinue', 'maybePropagate', 'epochTerminatedHandler', 'setLocalTerminated', pure=GET) +
     fns(TD, 'counters move up by exactly the units reported', 'produceConsumeState', 'produceConsume', 'produce', 'consume', pure=GET) +
     [Grp('^vt::term::TermState::', 'when a node may report', skip='serialize|operator='),
      Grp('^vt::term::TermCounterMsg::', 'counter message'), data(r'^vt/termination/term_(state|common|msgs)')])

Prop('T03', ['vt/termination/termination.cc', 'vt/termination/term_action.cc'],
     fns(TD, 'resolution of an epoch', 'epochTerminated', 'cleanupEpoch', 'updateResolvedEpochs', 'inquireTerminated', 'replyTerminated',
         'inquireEpochTerminated', 'replyEpochTerminated', 'testEpochTerminated', 'isEpochTerminated', 'finishNoActivateEpoch', 'finishedEpoch', 'freeEpoch', 'activateEpoch', pure=GET) +
     [Grp('^vt::term::TermAction::', 'actions run once, at termination', skip='ActionMsg|getCurrentEpoch'),
      Grp('^vt::term::CallableHolder::', 'a callable is invoked when asked'), Grp('^vt::term::(TermMsg|TermTerminatedMsg|TermTerminatedReplyMsg)::', 'messages of the protocol'), data(r'^vt/termination/(term_action|termination)\.')])

Prop('T04', ['vt/termination/dijkstra-scholten/ds.cc', 'vt/termination/dijkstra-scholten/comm.cc'],
     [Grp('^vt::term::ds::', 'diffusing computation', pure=GET), data(r'^vt/termination/dijkstra')])

Prop('T05', ['vt/termination/termination.cc', 'vt/termination/epoch_dependency.cc'],
     fns(TD, 'dependencies hold a unit', 'addDependency', 'addLocalDependency', 'releaseLocalDependency', 'addEpochStateDependency', 'removeEpochStateDependency',
         'enableTD', 'disableTD', pure=GET) +
     fns(TD, 'the dependency record of an epoch', 'getEpochDep') +
     fns(TD, 'a terminated epoch releases its parents', 'epochTerminated', pure=GET, only=[r'EpochDependency'], order=[(r'EpochDependency::clearSuccessors', r'updateResolved')][:0]) +
     [Grp('^vt::term::EpochDependency::', 'successor set'), data(r'^vt/termination/epoch_dep')])

Prop('T08', ['vt/termination/termination.cc'],
     fns(TD, 'a new epoch starts with one unit that only its finish consumes', 'makeEpochRootedWave', 'initializeRootedWaveEpoch', 'makeEpochRootedDS', 'initializeRootedDSEpoch',
         'initializeRootedEpoch', ('makeEpochRooted', 2), ('makeEpochRooted', 3), ('makeEpochCollective', 1), ('makeEpochCollective', 2), 'initializeCollectiveEpoch', 'makeEpoch',
         'makeRootedHan', 'makeRootedHandler', 'setupNewEpoch', 'activateEpoch', 'finishedEpoch', 'finishNoActivateEpoch', 'produceOnGlobal', 'consumeOnGlobal', pure=GET) +
     fns(TD, 'lookup creates the record once', 'findOrCreateState', 'getDSTerm') +
     fns(TD, 'epoch scopes nest', 'pushEpoch', 'popEpoch', 'pushEpochFast', 'popEpochFast', 'getEpoch') +
     [Grp('^vt::term::EpochStack::', 'epoch scopes nest')])

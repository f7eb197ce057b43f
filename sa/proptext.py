"""The properties, as they are written to properties.jsonl."""
TEXT = []
NOTAPP = {}


def P(id, title, statement, over, qtext, why, files, mech=(), note=None):
    TEXT.append(dict(id=id, title=title, statement=statement, over=over.split(), qtext=qtext, why=why,
                     files=[f if f.startswith(('src/', 'lib/')) else 'src/vt/' + f for f in files.split()], mech=mech, note=note))


def NA(id, reason): NOTAPP[id] = reason


P('T01', 'An epoch is declared terminated only when all of its messages are processed',
  'Collective and rooted (wave) epochs are declared terminated if and only if every unit of work produced in them on any node has been consumed and two consecutive global counts agree; no count is lost, doubled or carried between epochs and a node reports only when it and all its children are ready.',
  'schedules histories', 'every order in which nodes send, receive, go idle and report, every tree shape and every number of waves',
  'The termination tests need several ranks and sample a few schedules; the counters must balance in all of them.',
  'termination/termination.cc termination/term_state.cc termination/term_state.h')
P('T03', 'Termination of an epoch runs its actions once and releases its state',
  'When an epoch terminates, each action registered for it runs exactly once (at registration, if it has already terminated), a query about it answers yes from then on and never before, and the records kept for it are released on every node only after that.',
  'schedules histories', 'every interleaving of registration of actions, remote queries and termination, on every node',
  'Tests register one or two actions before termination on a fixed schedule; late registrations and replies arriving in any order are not sampled.',
  'termination/termination.cc termination/term_action.cc')
P('T04', 'Rooted parental (Dijkstra-Scholten) detection acknowledges every message once',
  'In a rooted epoch detected by parental responsibility, every message received is acknowledged exactly once to its sender, a node detaches from its parent only when it is idle and all messages it sent are acknowledged, and the root announces termination exactly when its own engagement and deficit counts balance.',
  'schedules histories', 'every order of sends, receipts, acknowledgements and idle points over all nodes',
  'The counters are distributed and the engagement tree is built by the schedule; the tests run on a few ranks and few schedules and are not part of the stable suite.',
  'termination/dijkstra-scholten/ds.cc termination/dijkstra-scholten/ds.h termination/dijkstra-scholten/comm.cc')
P('T05', 'A parent epoch cannot terminate before the epochs nested in it',
  'While a successor relation between an epoch and its parent stands, the parent holds one extra unit of work for it; the relation is recorded once, and the unit is released exactly once, when the nested epoch terminates or the dependency is released.',
  'schedules histories', 'every nesting of epochs, every order of adding, transferring and releasing dependencies and of termination',
  'Premature termination of a parent needs a nested epoch that is still live at one particular moment; tests nest a fixed small number.',
  'termination/termination.cc termination/epoch_dependency.cc termination/epoch_dependency.h')
P('T08', 'A new epoch stays open until finished, and epoch scopes nest',
  'Creating an epoch gives it one unit of work that only the matching finish removes, on the nodes that take part; messages sent inside a scope belong to the innermost epoch pushed, and leaving the scope restores the one before.',
  'schedules histories', 'every sequence of creating, pushing, popping and finishing epochs of each kind',
  'Tests create epochs in a few fixed patterns; a leaked or missing unit only shows in other patterns or on other nodes.',
  'termination/termination.cc termination/termination.impl.h termination/epoch_dependency.h')
P('T06', 'An epoch identifier keeps its kind, root and sequence number apart',
  'An epoch identifier states whether the epoch is rooted, which node is its root, its category and its sequence number; each part reads back as it was written whatever the others are, and successive epochs of the same kind and root are distinct.',
  'inputs histories', 'every kind, category, root node and sequence number, and every sequence of new epochs',
  'Tests build a handful of identifiers with small sequence numbers; a clash shows only at particular values.',
  'epoch/epoch_manip.h epoch/epoch_manip.cc epoch/epoch.h epoch/epoch_type.h')
P('T07', 'The record of terminated epochs is exact and compact',
  'An epoch is recorded as terminated exactly if it was closed, whatever order epochs close in; intervals that touch are merged, intervals that do not overlap stay apart, the element count equals the number of recorded epochs, and a fresh epoch number is never one still in use.',
  'inputs histories', 'every order of opening and closing epochs and of inserting, joining and clearing interval sets',
  'The interval tests insert a few sequences; merging and counting errors depend on the exact neighbourhood of each insertion.',
  'epoch/epoch_window.cc termination/interval/integral_set.h termination/interval/interval.h utils/adt/ranged_counter.h')
P('T09', 'Scoped epochs, epoch labels, tags and the epoch graph say what happened',
  'A scoped epoch region pushes its epoch once and pops and finishes it once, whatever way it is left; the graph built to explain a hang has an edge for every successor relation and the label given to every epoch.',
  'histories programs', 'every way of entering and leaving a scope and every set of live epochs',
  'The graph is written only when a program hangs, and guards matter on early exits that tests do not take.',
  'termination/epoch_guard.cc termination/graph/epoch_graph.cc termination/graph/epoch_graph.h termination/epoch_dependency.cc collective/basic.cc')
P('C01', 'A handler runs inside the contexts captured for its message',
  'Every unit of work runs with the epoch, sender, collection element, trace and load-measuring contexts set up for it, in order; each context is left again in reverse order exactly once when the work ends, and is suspended and resumed in matching pairs when the work runs in a user-level thread.',
  'schedules histories', 'every nesting of handlers, every suspension and every combination of contexts',
  'An unbalanced context corrupts whatever runs next, which a test that runs one handler at a time does not notice.',
  'runnable/runnable.cc runnable/make_runnable.h context/context.cc context/runnable_context/td.cc context/runnable_context/lb_data.cc context/runnable_context/trace.cc context/runnable_context/collection.cc')
P('M01', 'A pending send happens exactly once and holds its epoch open until then',
  'A message handed to a pending send is sent exactly once, at release or destruction, never twice after a move, and its epoch counts it from creation until it has been sent; chained sends to the elements of a collection run one after the other in the order given.',
  'histories schedules', 'every sequence of moving, releasing and dropping pending sends and of chaining steps',
  'Tests release a pending send directly; the moved-from, dropped and nested cases are what lose or double a message.',
  'messaging/pending_send.cc messaging/pending_send.h messaging/dependent_send_chain.h messaging/collection_chain_set.impl.h')
P('M02', 'The envelope says what its message is',
  'The fields of an envelope (kind bits, destination, handler, reference count, epoch, tag, group, priority, lock) are independent; setting one leaves the others as they were, a freshly set up envelope has the documented defaults, and a locked envelope is not changed.',
  'inputs histories', 'every combination of message kinds and every sequence of envelope setters',
  'Tests set and read single fields; interference between bit fields needs particular combinations.',
  'messaging/envelope/envelope_get.impl.h messaging/envelope/envelope_set.impl.h messaging/envelope/envelope_setup.impl.h messaging/envelope/envelope_extended_util.impl.h messaging/envelope/envelope_ref.impl.h')
P('M03', 'A message lives exactly as long as something refers to it',
  'Every owner of a message takes one reference and gives one back, copies add one, moves add none, and the message is freed by the type it was made with exactly when the last reference goes.',
  'histories schedules', 'every sequence of copying, moving, assigning, promoting and dropping message references',
  'A lost or doubled reference shows as a leak or a late corruption, and only in particular sequences.',
  'messaging/message/smart_ptr.h messaging/message/refs.h messaging/message/message_serialize.h')
P('M04', 'A message sent is received once, whole, by the handler it names',
  'A message reaches its destination once with the size, payload and handler it was sent with, including messages split because they exceed the largest transfer and payloads sent beside them; a broadcast is forwarded to each child and delivered once per node; it is counted in its epoch once when sent and once when processed; buffers return to where they came from.',
  'schedules inputs', 'every message size, every order of arrival and every mixture of local, remote, broadcast and payload sends',
  'Tests use small messages between two ranks; large, split, out-of-order and self sends take other paths.',
  'messaging/active.cc messaging/active.h messaging/active.impl.h')
P('M05', 'An asynchronous operation is polled until done and finishes once',
  'Every outstanding operation stays in its holder until its test succeeds, is removed then and only then, its completion action runs exactly once, and the epoch it was made in stays open until that point.',
  'schedules histories', 'every order in which outstanding operations complete, including operations added while others complete',
  'Completion order is decided by the network; tests see one order.',
  'messaging/request_holder.h messaging/async_op_wrapper.cc messaging/async_op_mpi.h')
P('M06', 'A serialized message arrives as it was sent',
  'A message that needs serialization is packed into a buffer of its own size, unpacked on the other side into an equal message with the same handler, epoch and group, and delivered once; small ones travel inside the message and large ones beside it with the same result.',
  'inputs schedules', 'every message size around the eager limits and every destination, group and broadcast',
  'Tests use a few sizes; the eager and payload paths differ and the limit decides.',
  'serialization/messaging/serialized_messenger.impl.h serialization/messaging/serialized_data_msg.h')
P('H01', 'A handler identifier names one function and keeps its properties',
  'The identifier of a handler carries its registry, its control number and its kind bits without interference, so each registered function, functor, map or collection constructor gets its own identifier and dispatch calls exactly the function that was registered.',
  'inputs programs', 'every set of registered handlers of every kind',
  'Tests register a few handlers; clashes need particular indices or kinds.',
  'handler/handler.cc registry/auto/auto_registry.cc registry/auto/auto_registry_general.h registry/auto/auto_registry_impl.h registry/auto/functor/auto_registry_functor_impl.h')
P('S01', 'Queued work runs once, in priority order, and idleness is reported truly',
  'Each unit put into the scheduler runs exactly once and is removed when it starts; higher priorities run first; the scheduler reports idle and busy transitions exactly when they happen, progress functions are polled at the configured points, and waiting returns as soon as its condition holds.',
  'schedules histories', 'every sequence of enqueued work, nested scheduling and state changes',
  'Tests run short loops; idle transitions and nesting depend on the interleaving.',
  'scheduler/scheduler.cc scheduler/scheduler.impl.h scheduler/scheduler.h scheduler/base_unit.cc scheduler/priority_queue.h scheduler/queue.h scheduler/prioritized_work_unit.h')
P('S02', 'A suspended handler resumes exactly once where it stopped',
  'A user-level thread runs its action once, suspends to whoever ran it, resumes exactly when asked, and is freed only after it finished; work registered as suspended is resumed once under its own identifier and with its contexts restored.',
  'schedules histories', 'every order of suspending, resuming and finishing threads',
  'Tests suspend and resume one thread at a time.',
  'scheduler/thread_action.cc scheduler/thread_manager.cc scheduler/suspended_units.cc')
P('S03', 'A priority keeps its levels apart and orders work as documented',
  'A priority is made of one field per level; making, copying or breadth- and depth-first deriving a priority changes only the field of its level, and the resulting numbers order work as documented.',
  'inputs', 'every level, field value and derivation',
  'Tests use the shallow levels with their predefined values.',
  'scheduler/priority_manip.h scheduler/priority_manip.cc scheduler/priority.h')
P('F02', 'A time trigger fires once per elapsed period, in due order, until removed',
  'A registered trigger fires at once if asked to, and then whenever its period has passed, the earliest due first; after firing it is due one period later, a removed trigger never fires again, and the time of the next trigger is the minimum of those registered.',
  'histories inputs', 'every set of periods, registration and removal order and polling times',
  'Tests register a few triggers with regular polling.',
  'timetrigger/time_trigger_manager.cc timetrigger/trigger.h')
P('P01', 'Pool memory is large enough, not shared, and returned where it came from',
  'An allocation holds the bytes asked for plus its header and the extra space, two live allocations never overlap, and releasing one returns it to the pool of its size class or to the system exactly once.',
  'inputs histories', 'every size around the class limits and every order of allocation and release',
  'Tests allocate a few sizes; overlap and misrouting happen at the limits.',
  'pool/pool.cc pool/header/pool_header.cc pool/static_sized/memory_pool_equal.h pool/static_sized/memory_pool_equal.impl.h')
P('E01', 'An event completes exactly when everything it stands for has',
  'An event identifier names its node and kind; an event tests as ready exactly when its request has completed, or for a parent when every child has; actions attached to it run once on completion, at once if it already has, also when the event lives on another node.',
  'schedules histories', 'every order of completion, attachment and remote queries',
  'Completion order comes from the network; tests see one.',
  'event/event.cc event/event_record.cc event/event_holder.cc event/event_id.cc')
P('Y01', 'Element identities keep their parts; loads and traffic are attributed once',
  'An element identity carries its home node, kind and number without interference; every measured interval and every communication is added once to the element, phase and subphase it belongs to, and time values convert and combine without loss of sign or order.',
  'inputs histories', 'every identity, every sequence of starts, stops, sends, phases and subphases',
  'Tests measure a few intervals in one phase.',
  'elm/elm_id_bits.cc elm/elm_id.h elm/elm_comm.h elm/elm_lb_data.cc timing/timing.cc timing/timing_type.h')
P('K01', 'Every node has exactly one place in the spanning tree',
  'In a spanning tree of any arity and size every node but the root has exactly one parent and appears in exactly one child list, so that the union of all subtrees is the set of all nodes; start-up and shut-down pass through the collective operations in matching order.',
  'inputs configurations', 'every number of nodes, arity, root and node number',
  'Tests run with the few node counts available to them.',
  'collective/tree/tree.cc collective/tree/tree.h collective/collective_ops.cc collective/startup.cc')
P('K02', 'A barrier lets nobody through before all have arrived',
  'A barrier, named or not, waiting or with a continuation, releases a node only when every node of the tree has entered it; every node is released once, the continuation runs once, and the state of an unnamed barrier is ready for the next use.',
  'schedules histories', 'every order of arrivals over all nodes and every sequence of barriers',
  'Arrival order is decided by the schedule; tests see few.',
  'collective/barrier/barrier.cc collective/barrier/barrier.h')
P('K03', 'A reduction combines every contribution exactly once and delivers one result',
  'A reduction combines each contribution of every participant exactly once with the operator given, starting from no foreign value, forwards the partial result to the parent when all children and local contributions have arrived, delivers the result once at the root, and keeps reductions with different stamps or owners apart.',
  'schedules inputs', 'every arrival order, number of participants, operator and interleaving of reductions',
  'Tests reduce small vectors on few ranks in one order.',
  'collective/reduce/reduce.cc collective/reduce/reduce.impl.h collective/reduce/reduce_state.h collective/reduce/operators/default_msg.h collective/reduce/reduce_manager.impl.h collective/reduce/scoping/strong_types.h')
P('K04', 'Scatter gives each node its own part; collective scopes agree on the order',
  'A scatter packs each node\'s part at its own place and every node unpacks exactly its own; operations queued in a collective scope run on all nodes in one agreed order, each once, and a scope is released only when it is empty.',
  'schedules inputs', 'every number of nodes, part size and order in which nodes reach an operation',
  'Disagreement needs nodes to arrive in different orders, which small tests do not produce.',
  'collective/scatter/scatter.cc collective/scatter/scatter.impl.h collective/collective_scope.cc collective/collective_alg.cc')
P('G01', 'A node region contains exactly the nodes it describes',
  'A region given as a range (with stride) or as a list contains exactly those nodes, its size counts them once, splitting it yields disjoint parts whose union is the whole, and iteration visits each node once.',
  'inputs', 'every range, stride, list and number of parts',
  'Tests split a few regions; off-by-one errors appear at particular sizes.',
  'group/region/group_range.cc group/region/group_list.cc group/region/group_shallow_list.cc')
P('G02', 'A group identifier keeps its parts apart',
  'A group identifier states whether the group is collective, static, which node made it and its number; each part reads back as written and different groups get different identifiers.',
  'inputs', 'every kind, node and number',
  'Tests check a few identifiers.',
  'group/id/group_id.cc group/id/group_id.h')
P('G03', 'A message to a group reaches exactly its members, once each',
  'Creating a group from any subset of nodes yields a tree over exactly its members; a message sent to the group is delivered once on each member and on nobody else, from whichever node it is sent; the creation action runs once the group is usable.',
  'schedules inputs', 'every subset of nodes, order of set-up messages, and sender inside or outside the group',
  'Group set-up is a distributed protocol whose message order tests do not control.',
  'group/group_manager.cc group/group_info.cc group/collective/group_info_collective.cc group/rooted/group_info_rooted.cc group/global/group_default.cc')
P('O01', 'An object group instance is found by its proxy until it is destroyed',
  'Creating an object group registers one instance per node under the same proxy; a message for it runs on the local instance exactly once, waits if the instance is not there yet, and after destruction nothing of it is left.',
  'schedules histories', 'every order of creation, arrival of messages, replacement and destruction',
  'A message that overtakes creation on another node is a matter of timing.',
  'objgroup/manager.cc objgroup/manager.impl.h objgroup/holder/holder.h objgroup/holder/holder_basic.h objgroup/type_registry/registry.h')
P('O02', 'An object group proxy addresses the group or node it was made for',
  'A proxy carries its node, number and kind bits without interference; sending, broadcasting, invoking, reducing and getting through it concern exactly the group and node it names.',
  'inputs programs', 'every proxy and every operation on it',
  'Tests use the first few proxies and operations.',
  'objgroup/proxy/proxy_objgroup.impl.h objgroup/proxy/proxy_objgroup_elm.impl.h objgroup/proxy/proxy_bits.cc')
P('L01', 'A message for an entity reaches it wherever it has moved',
  'The location service answers with the node an entity is on or leads there through its home; a message sent to it is delivered once however often it moved; cached positions never exceed their capacity and are replaced when known to be stale; entities not yet registered have their messages kept until they are.',
  'schedules histories', 'every sequence of registrations, migrations, queries and messages over all nodes',
  'Stale caches and messages in flight during a migration depend on the interleaving.',
  'topos/location/location.impl.h topos/location/location.h topos/location/cache/cache.h topos/location/directory/directory.impl.h topos/location/lookup/lookup.h')
P('L02', 'Every index is mapped to exactly one valid node and unique number',
  'Indices compare, hash and linearise consistently with their dimensions, linearisation is a bijection on the range, and the default maps send every index of a range to exactly one existing node, blocks being contiguous and as even as possible.',
  'inputs', 'every dimension, extent, index and number of nodes',
  'Tests check a few extents; unevenly dividing sizes are where maps go wrong.',
  'topos/mapping/dense/dense.impl.h topos/mapping/dense/dense.h topos/index/dense/dense_array.impl.h topos/mapping/seed/seed.cc')
P('V01', 'A collection is built, addressed, broadcast to and destroyed as a whole',
  'Building a collection creates exactly the requested elements, each on the node its map gives; a message to an element or a broadcast is delivered once to each element concerned with the epoch it was sent in; insertions, deletions, migrations and destruction keep the counts of elements right; checkpoint and restore reproduce the elements.',
  'schedules histories', 'every interleaving of messages, broadcasts, insertions, deletions, migrations and destruction',
  'The combinations of operations in flight are unbounded and tests sample a few on few ranks.',
  'vrt/collection/manager.impl.h vrt/collection/manager.h vrt/collection/manager.cc')
P('V02', 'Each collection element is held by one node and survives a move unchanged',
  'The holder of a collection lists each local element once, counts those created, destroyed and migrated away, hands out an element only if it is live, and a migration serialises the element, removes it here and installs it there once, telling it and its listeners in the right order.',
  'schedules histories', 'every sequence of insertion, lookup, migration and destruction of elements',
  'Tests migrate each element once or twice in lock step.',
  'vrt/collection/holders/elm_holder.impl.h vrt/collection/holders/col_holder.h vrt/collection/holders/typeless_holder.cc vrt/collection/types/migratable.impl.h vrt/collection/types/indexable.impl.h vrt/collection/types/storage/storable.impl.h')
P('V03', 'Construction parameters and proxies produce the collection and message asked for',
  'Every construction option reaches the collection unchanged and has its documented default; every send, broadcast, invoke and reduction through a proxy passes exactly the collection, index, handler and message given.',
  'inputs programs', 'every combination of options and operations',
  'Tests use common combinations.',
  'vrt/collection/param/construct_params.h vrt/collection/param/construct_params.impl.h vrt/collection/broadcast/broadcastable.impl.h vrt/collection/send/sendable.impl.h vrt/collection/reducable/reducable.impl.h')
P('V04', 'A virtual proxy keeps its parts apart and leads to the right object',
  'A proxy for a virtual context or collection carries node, number and kind bits without interference; a virtual context made here or elsewhere is found again by its proxy, and messages to it are delivered once.',
  'inputs histories', 'every proxy value and sequence of creations',
  'Tests create a few of them.',
  'vrt/proxy/proxy_bits.cc vrt/context/context_vrtmanager.cc vrt/context/context_vrtmanager.impl.h vrt/proxy/collection_proxy.impl.h')
P('B01', 'Measured loads and traffic are recorded, kept as configured, and written whole',
  'The data of each phase holds every element\'s load, subphase loads, communication and attributes exactly once, outdated phases are dropped and no others, and writing to and reading from a file reproduces the data.',
  'histories inputs', 'every sequence of phases, elements, migrations and communications',
  'Tests write a few phases with a few elements.',
  'vrt/collection/balance/node_lb_data.cc vrt/collection/balance/lb_data_holder.cc vrt/collection/balance/lb_common.cc')
P('B02', 'A balancing strategy moves only existing objects, each once, and loses none',
  'Every strategy decides for each local object at most one destination that is an existing node, keeps its account of loads in step with its decisions, transfers what it decided and nothing else, and reads its configuration as documented.',
  'inputs configurations', 'every distribution of objects and loads and every configuration',
  'Tests balance a few synthetic distributions and check only that nothing crashes.',
  'vrt/collection/balance/baselb/baselb.cc vrt/collection/balance/greedylb/greedylb.cc vrt/collection/balance/hierarchicallb/hierlb.cc vrt/collection/balance/rotatelb/rotatelb.cc vrt/collection/balance/randomlb/randomlb.cc vrt/collection/balance/offlinelb/offlinelb.cc')
P('B03', 'The gossip balancer keeps its load and memory accounts through every transfer',
  'During information and transfer stages of the gossip balancer every node\'s known loads are merged not overwritten, candidates are chosen by the documented criterion, a tentative transfer updates both sides of the account, locks are granted to one requester at a time and always released, and the best trial is the one applied.',
  'schedules inputs', 'every distribution, configuration, and order of rumours and lock requests',
  'The message order of the gossip rounds is not under the control of a test.',
  'vrt/collection/balance/temperedlb/temperedlb.cc vrt/collection/balance/temperedlb/temperedlb.h vrt/collection/balance/temperedwmin/temperedwmin.cc')
P('B04', 'A load model predicts from the measured phases exactly as documented',
  'Each load model answers with the documented function of the data of the right past phases and subphases of the right object, passes on what it does not change to the model below, and iterates over each object once.',
  'inputs', 'every object, phase, subphase and composition of models',
  'Tests compose two or three models over a handful of objects.',
  'vrt/collection/balance/model/load_model.h vrt/collection/balance/model/composed_model.cc vrt/collection/balance/model/raw_data.cc vrt/collection/balance/model/per_collection.cc vrt/collection/balance/model/proposed_reassignment.cc')
P('B05', 'The balancer run is the one configured and its decisions are applied in full',
  'In each phase the balancer that runs is the one the options or the specification select, on the configured interval; its statistics are computed over all nodes from the model in force, decided migrations are all carried out, and the next phase starts with clean state.',
  'configurations histories', 'every configuration and sequence of phases',
  'Tests run a few phases with one strategy.',
  'vrt/collection/balance/lb_invoke/lb_manager.cc vrt/collection/balance/lb_invoke/lb_manager.h')
P('B06', 'Recorded workloads and specifications are read and replayed exactly',
  'Reading a specification or recorded load data assigns every entry to the phase it names, rejects malformed entries, and replaying gives every object the recorded load and place in every phase, including phases skipped or identical to earlier ones.',
  'inputs histories', 'every specification, recording and migration history',
  'Tests read a few small files.',
  'vrt/collection/balance/read_lb.cc vrt/collection/balance/lb_data_restart_reader.cc vrt/collection/balance/workload_replay.cc')
P('F01', 'Phase hooks run in order, once per phase, on every node',
  'At a phase boundary the hooks before, during and after load balancing run in the documented order, collective ones on all nodes together and rooted ones on the root only, each exactly once per phase until unregistered; the phase number advances by one.',
  'histories', 'every set of registered hooks and sequence of phases',
  'Tests register a few hooks for a few phases.',
  'phase/phase_manager.cc')
P('R01', 'One-sided gets and puts transfer the right bytes and complete once',
  'A get or put on a registered handle concerns exactly the bytes asked for at the offset given, runs the handler registered for its tag, completes its action once, and uses a channel only between the nodes it was set up for; requests made before registration are kept and served once.',
  'schedules inputs', 'every size, offset, tag, node and order of operations',
  'Tests move a few small arrays in order.',
  'rdma/rdma.cc rdma/state/rdma_state.cc rdma/channel/rdma_channel.cc rdma/group/rdma_group.cc rdma/rdma_handle.cc')
P('R02', 'A handle addresses exactly its part of a window under the lock it asks for',
  'Every get, put, accumulate and fetch through a handle targets the node, offset and element count it was given inside the window, under a lock of the kind asked for that is released afterwards; lookups of a collection element\'s part give its true node, offset and size; registration completes once all nodes contributed.',
  'schedules inputs', 'every sequence of operations, sizes, offsets and lock kinds',
  'Tests use a few sizes with exclusive access patterns.',
  'rdmahandle/manager.impl.h rdmahandle/manager.cc rdmahandle/holder.impl.h rdmahandle/handle.node.impl.h rdmahandle/handle.index.impl.h rdmahandle/sub_handle.impl.h')
P('Q01', 'A callback reaches its target once per trigger, no longer than it lives',
  'Every callback made gets its own identifier carrying its node and persistence; triggering it delivers the message once to the target it was made for, locally or through its home node; a one-shot callback is removed after its use and a persistent one stays.',
  'schedules histories', 'every kind of callback, node of creation and of triggering, and number of triggers',
  'Tests trigger each kind once.',
  'pipe/pipe_manager.impl.h pipe/pipe_manager_base.cc pipe/pipe_manager_base.impl.h pipe/id/pipe_id.cc pipe/state/pipe_state.cc pipe/signal/signal_holder.impl.h pipe/pipe_manager_tl.impl.h')
P('Q02', 'A callback value remembers its target',
  'A callback value keeps its kind, pipe, handler, node and object, is equal to another exactly if all of these are, and triggering, copying or serialising it keeps them.',
  'inputs programs', 'every kind of callback and message',
  'Tests exercise a few kinds.',
  'pipe/callback/cb_union/cb_raw_base.cc pipe/callback/cb_union/cb_raw_base.h pipe/callback/handler_send/callback_send.impl.h pipe/callback/anon/callback_anon.impl.h pipe/callback/objgroup_send/callback_objgroup_send.impl.h')
P('N01', 'Components start in dependency order; diagnostics combine without loss',
  'Every component is constructed and initialised after the components it depends on and finalised and destroyed before them; each diagnostic value is updated, reset and combined over nodes by its own documented rule.',
  'programs inputs', 'every set of components and dependencies, every sequence of updates',
  'Tests start one configuration.',
  'runtime/component/component_pack.cc runtime/component/component_pack.impl.h runtime/component/diagnostic_value.cc runtime/component/diagnostic_value.h runtime/component/diagnostic.cc runtime/component/component_registry.h')
P('N02', 'The runtime starts and stops once and in order, whatever the configuration',
  'Initialisation and finalisation each happen once, in the right order and only from the right state; components are enabled as the configuration says; every call into the message library runs inside a guard unless no handler can be running, and nothing called inside a guard opens another or runs the scheduler; interrupts and errors reach the configured handler; accessors return the component of the running instance.',
  'configurations histories', 'every configuration and order of initialise, finalise, abort and signals',
  'A test process starts and stops once.',
  'runtime/runtime.cc runtime/runtime_get.cc runtime/mpi_access.cc runtime/runtime_diagnostics.cc')
P('N03', 'The MPI wrappers pass every call on unchanged and abort one made in a handler',
  'Every MPI function the program may call is wrapped. The wrapper calls the function it stands for exactly once with the same arguments and returns its result; it aborts exactly when calls are not allowed at that point, except for the queries that are usable anywhere, which never abort; when calls are traced it records an event registered under its own name, and otherwise none.',
  'inputs configurations', 'every MPI function, argument list and configuration',
  'Tests call a handful of the 334 wrapped functions, and none of those from a handler.',
  'pmpi/generate_mpi_wrappers.pl pmpi/mpi_functions.h.in pmpi/pmpi_component.h pmpi/pmpi_component.cc runtime/mpi_access.h')
P('A01', 'Every command-line option sets its own setting and no other',
  'Every option or configuration-file key sets exactly the setting it names with the documented default, settings that imply others are resolved as documented, all settings travel in serialisation and configuration output, and the arguments not consumed are passed on in order.',
  'configurations inputs', 'every combination of options, files and positions',
  'Tests parse a few command lines.',
  'configs/arguments/args.cc configs/arguments/app_config.h configs/arguments/argv_container.h')
P('A02', 'Errors, warnings and configuration checks stop or report exactly as configured',
  'An abort or failed assertion ends the program with its code and message after the configured reporting, a warning does not, assertions are active exactly in the configurations that say so, and debug output goes to the categories enabled.',
  'configurations inputs', 'every build configuration and failure',
  'A test cannot survive most of these paths.',
  'configs/error/assert_out.impl.h configs/error/error.h configs/error/stack_out.cc configs/debug/debug_print.cc configs/types/types_type.h')
P('X01', 'A trace holds every event once, in order, with matching begins and ends',
  'Every traced begin has its end, nested events close in reverse order and are suspended and resumed in pairs, each event keeps its processor, entry, length and identifiers, and what is written to the file is every event recorded, once, with times that do not decrease.',
  'histories schedules', 'every nesting and interleaving of events, phases and flushes',
  'Traces are read by eye; no test compares them beyond a few events.',
  'trace/trace.cc trace/trace_lite.cc trace/trace_registry.cc trace/trace_user_event.cc trace/trace_containers.cc trace/trace_user.cc')
P('X02', 'A closure kept for later owns everything it uses',
  'An action, trigger, hook, continuation or scheduled unit that is kept beyond the call that makes it refers to nothing that ends with that call: no local variable or parameter by reference, and no raw pointer to the message of the handler that made it.',
  'schedules histories', 'every order in which kept closures run after the handler that made them has returned',
  'A test usually runs the closure at once or finds the dead frame still intact.',
  'messaging/active.cc scheduler/scheduler.impl.h event/event.cc rdma/rdma.cc termination/termination.cc group/group_manager.cc group/collective/group_info_collective.cc topos/location/location.impl.h vrt/collection/manager.impl.h',
  mech=['vt::sched::Scheduler::enqueue', 'vt::event::AsyncEvent::attachAction', 'vt::term::TermAction::addAction', 'vt::messaging::ActiveMessenger::recvDataMsg', 'vt::location::EntityLocationCoord::getLocation'],
  note='Static analysis: escape analysis of every closure in the library (which parameters keep what they are given is computed from the bodies of the functions) with the captures of those that are kept checked; closures handed to callbacks made by makeFunc are not classified, since a callback may be sent before its maker returns.')
P('D01', 'Hardware counters belong to the work that was running',
  'Counters are started, read and stopped in matching pairs around a unit of work and their differences are added to that unit under the configured names.',
  'histories configurations', 'every configured set of counters and order of work',
  'The counters are not available where tests run.',
  'metrics/perf_data.cc metrics/perf_data.h')
P('Z01', 'Reading and writing a field of a packed word touches that field only',
  'Setting a field of a packed word changes exactly the bits of that field to the low bits of the value and reading gives them back; single-bit operations set, clear and test exactly their bit; a count of bits is the number needed.',
  'inputs', 'every word, position, width and value',
  'The test packs a few examples.',
  'utils/bits/bits_common.h utils/bits/bits_packer.h utils/bits/bits_packer.impl.h utils/bits/bits_counter.h')
P('Z02', 'The small containers and wrappers behave as the values they stand for',
  'A circular buffer that is not pushed into while full gives back the pushed values in order up to its capacity and tells full from empty; a concurrent queue, an observer pointer, a strong type and the hash functions behave as the plain values they wrap, equal values being equal and hashing equally.',
  'inputs histories', 'every sequence of operations at every fill level',
  'Tests run short sequences.',
  'utils/container/circular_buffer.h utils/container/concurrent_deque.h utils/strong/strong_type.h utils/ptr/observer.h utils/hash/hash_tuple.h')
P('Z03', 'What is written as JSON or compressed reads back the same',
  'Appending elements one by one writes one well-formed document with every element once, compression and decompression reproduce the bytes whatever the sizes of the chunks, and reading validates before it is used.',
  'inputs', 'every document, chunk size and end position',
  'Tests use small inputs that fit one buffer.',
  'utils/json/json_appender.h utils/json/base_appender.h utils/json/json_reader.cc utils/json/decompression_input_container.cc utils/compress/compressor.cc')
P('Z04', 'The approximate histogram and regression keep count, bounds and totals exact',
  'Adding values to the approximate histogram keeps the exact count, minimum and maximum and never more than the allowed number of centroids, merging adds the counts, and the regression follows the least-squares formulas on the data given.',
  'inputs', 'every sequence of values and merges',
  'Tests use a few distributions.',
  'utils/adt/histogram_approx.h utils/stats/linear_regression.h')
P('Z05', 'Memory readings, file specifications, tag limits and names are right',
  'Conversions between memory units use the right factor and the best unit, usage readings come from the right source or say they failed, a file specification enables exactly the phases and ranges it lists, no message tag exceeds the limit of the library, and a demangled name is that of the function given.',
  'inputs', 'every size, specification text, tag and symbol',
  'Tests use a few strings and sizes.',
  'utils/memory/memory_units.cc utils/memory/memory_usage.cc utils/file_spec/spec.cc utils/mpi_limits/mpi_max_tag.cc utils/demangle/demangle.cc')
P('W01', 'Every epoch that is finished eventually terminates',
  'Whenever every message of a finished epoch has been processed, termination is detected after finitely many further steps on every node.',
  'schedules', 'every fair schedule of nodes and deliveries',
  'A liveness property over unbounded schedules; a test only sees that its own run ended.',
  'termination/termination.cc')
NA('W01', 'liveness over unbounded fair schedules of several nodes: no syntactic or dataflow argument over one program text bounds the progress of the network and the scheduler; the safety half is decided by T01, T04 and T05')
P('W02', 'The result of a load-balancing run is better than what it started from',
  'After balancing, the maximum load over the nodes is not larger than before whenever the predicted loads are exact.',
  'inputs', 'every distribution of loads',
  'Quality depends on numerical values of the loads; tests check a few examples by eye.',
  'vrt/collection/balance/temperedlb/temperedlb.cc')
NA('W02', 'a quantitative bound over run-time loads produced by randomised, distributed decisions; static analysis decides the bookkeeping (B02, B03) but not the numerical outcome')
P('W03', 'Quantiles read from the approximate histogram are within its error bound',
  'A quantile estimated by the approximate histogram lies within the error the number of centroids allows.',
  'inputs', 'every sequence of values',
  'A numerical bound over unbounded input sequences; a test samples a few distributions.',
  'utils/adt/histogram_approx.h')
NA('W03', 'a numerical error bound over floating-point sequences; the structural part (counts, minimum, maximum, number of centroids) is decided by Z04')

ND = 'lager/detail/nodes.hpp'
prop('C01', 'Transactional writes: no glitches, invisible until commit, then atomic',
     'What a write does to a transactional state is observed by no existing reader and no watcher until that state is committed, and a commit then publishes exactly the last written value. When any watcher runs during a commit, every reader derived in any way from the committed states already shows the value consistent with the committed ones. Several states committed together are published together: no watcher of one can see another still at its old value.',
     ['histories', 'programs'], 'every sequence of writes and commits, every derivation graph (any fan-out, depth by induction over the node contract), any number of watchers, arbitrary values and arbitrary derivation functions',
     'Tests use int/struct states, fixed diamonds of two or three readers and a handful of write/commit orders; the claim is over all graphs, histories and functions.',
     [ND, 'lager/commit.hpp', 'lager/state.hpp', 'lager/detail/lens_nodes.hpp', 'lager/detail/merge_nodes.hpp', 'lager/detail/xform_nodes.hpp'],
     [('two-phase propagation: send_down to all children before notify', ND), ('commit sends every root down before notifying any', 'lager/commit.hpp')],
     [('pending value', 'last value written, not visible', ND), ('visible value', 'what readers and watchers see', ND), ('dirty flags', 'pending differs / children must be told', ND)])
prop('C02', 'Every watcher runs exactly once per commit that changed its value',
     'A callback watching a reader runs exactly once for each commit that changes the value of that reader, with the new value, and does not run for commits (or parts of them) that leave it equal. This holds however many writes preceded the commit, however many paths connect the watcher to the committed states, and for every callback of every handle, in registration order. Values without an equality operator count as changed by every write.',
     ['histories', 'programs', 'inputs'], 'all values (equal or not), all derivation functions, any number of watchers, any number of rounds, all write patterns within a transaction',
     'Tests count callbacks in a few scripted rounds with concrete ints; they never quantify over which writes are equal or over the number of observers.',
     ['lager/detail/signal.hpp', ND, 'lager/watch.hpp', 'lager/detail/merge_nodes.hpp'],
     [('change detection by equality on push and recompute', ND), ('signal iterates its intrusive observer list', 'lager/detail/signal.hpp')],
     [('observer list', 'callbacks in registration order', 'lager/detail/signal.hpp')])
prop('C03', 'Writes through derived cursors update exactly the pending source',
     'Writing a part through a cursor makes the pending value of its source state the lens update of the previous pending value, so that successive writes through any number of cursors of one state accumulate and none is lost before the commit. Updating through a cursor applies the function to the latest pending value of that cursor. Reading the cursor after the commit gives the view of the accumulated value.',
     ['histories', 'inputs', 'programs'], 'arbitrary lenses (including unlawful ones), arbitrary nesting shown to three levels, all interleavings of writes/updates through sibling cursors and the root, all values',
     'Tests write through one cursor and commit; interleavings of pending writes through several cursors of one state are not enumerated.',
     [ND, 'lager/writer.hpp', 'lager/cursor.hpp', 'lager/detail/lens_nodes.hpp'],
     [('refresh before a write recomputes from the pending source', 'lager/writer.hpp'), ('push_up rebuilds the whole with the lens', 'lager/detail/lens_nodes.hpp')],
     [('pending value', 'value of a node including uncommitted writes', ND)],
     note='update() of cursors used the stale value before the fix commit in /repo (see known_findings.txt). ')
prop('C04', 'Combined readers and cursors are the tuple of their parts',
     'Combining several readers or cursors gives one whose value is always the tuple of the values of the parts. Writing a tuple to a combined cursor writes each component to the corresponding part and changes nothing else, also when several parts belong to the same state. Lenses applied on top of a combination behave as lenses on that tuple.',
     ['programs', 'inputs', 'histories'], 'all values, two and three parts (variadic code instantiated at those arities), parts of the same or different states, arbitrary lenses on the tuple',
     'Tests use pairs of ints and check a few values after one write.',
     ['lager/detail/merge_nodes.hpp', 'lager/with.hpp', 'lager/cursor.hpp', 'lager/reader.hpp'],
     [('merge node recomputes a tuple of the parents, pushes each component up', 'lager/detail/merge_nodes.hpp')])
prop('C05', 'Transformed readers and cursors follow their functions',
     'A mapped reader always shows the function applied to its source; a filtered reader shows the last value that passed (or a default value, and construction fails loudly when there is none). A two-way transformed cursor writes the inverse transformation of what is written to it, an updating one combines it with the pending source, and a filtered write that does not pass changes nothing. Transformations compose with each other and with lenses in the order in which they are written, and whatever functions, transducers and lenses they are given by name remain usable.',
     ['inputs', 'programs', 'histories'], 'arbitrary transformation functions, predicates and values, compositions of two transformations/lenses, several commits',
     'Tests use fixed arithmetic lambdas with a handful of values.',
     ['lager/detail/xform_nodes.hpp', 'lager/with.hpp'],
     [('down- and up-reducers run the transducers', 'lager/detail/xform_nodes.hpp')])
prop('C06', 'Automatic states, setters, sensors and constants follow their own update rule',
     'A write to an automatic state is visible to every reader and reported to every changed watcher before it returns, and after a write made from inside a watcher the last written value wins. A cursor with a setter calls the function exactly once per write, with the value written, and follows its source. A sensor takes a new sample only when it is constructed or committed, and a constant never changes nor notifies.',
     ['histories', 'inputs', 'programs'], 'all values and setter functions, all short histories of writes and commits, reentrant writes from watchers',
     'Tests exercise each factory with one or two values and no reentrancy.',
     ['lager/state.hpp', 'lager/setter.hpp', 'lager/sensor.hpp', 'lager/constant.hpp', ND],
     [('automatic tag pushes and notifies in send_up', 'lager/state.hpp'), ('setter node calls its function on send_up', 'lager/setter.hpp')])
prop('C07', 'Callbacks and sources live exactly as long as the handles that own them',
     'A callback is called only while the handle it was registered on exists, has not been unbound, and has not been given another source; copying a handle neither duplicates nor steals callbacks, and assigning one a new source moves its callbacks there. A derived handle keeps everything it derives from alive and keeps working when the original handles are gone. No operation on handles touches released memory.',
     ['histories', 'programs'], 'all orders of copying, moving, assigning, destroying, unbinding handles and committing in the contracts; all values',
     'Lifetime errors need particular destruction orders; the tests cover a few and run without memory checking.',
     ['lager/watch.hpp', 'lager/reader.hpp', 'lager/cursor.hpp', ND, 'lager/detail/signal.hpp'],
     [('observers unlink themselves on destruction', 'lager/detail/signal.hpp'), ('nodes own their parents, refer weakly to children', ND)])
prop('C08', 'Readers created or dropped at any time, even from watchers, are safe',
     'Dropping derived readers at any moment, including from inside a watcher during a notification, affects no other reader and touches no released memory. A watcher may create readers of the very state that is notifying: they start with the visible value and follow later commits. Readers that were dropped do not accumulate.',
     ['schedules', 'histories'], 'every subset of dropped/kept readers, at every phase (before, between, during notification, nested notifications)',
     'Creating or destroying readers inside a notification happens in one or two scripted tests; the failing combinations need particular reentrancy.',
     [ND, 'lager/reader.hpp'],
     [('children are iterated by index and swept only by the outermost notification', ND)],
     [('children', 'weak references to derived nodes', ND), ('notification depth guard', 'whether an outer notification is iterating', ND)])
prop('C09', 'Total lenses obey the lens laws for all values',
     'For every total lens in the library, getting what was set returns it, setting what was got changes nothing, and the last of two sets wins. Setting one part leaves every other part of the whole unchanged, and neither the original whole nor the part passed by reference is modified. Mapping a function over a part equals setting the function of what was there, whether arguments are passed as values or as references.',
     ['inputs'], 'all wholes and parts, all value categories of the arguments, arbitrary functions',
     'Tests sample two or three values per lens, always one value category.',
     ['lager/lenses.hpp', 'lager/lenses/attr.hpp', 'lager/lenses/tuple.hpp', 'lager/lenses/unbox.hpp'],
     [('van Laarhoven lenses with const and identity functors', 'lager/lenses.hpp')])
prop('C10', 'Partial lenses never invent, lose or corrupt the whole',
     'For lenses whose part may be absent (optional, variant alternative, container element, or defaulted versions of them), getting returns the part exactly when present, setting replaces exactly that part when both it and the new value are present, and otherwise the whole is returned unchanged. The part-less cases are total: defaulted variants return the default, and out-of-range or missing keys never throw nor insert. This holds for persistent and mutable containers and for all value categories of the arguments.',
     ['inputs'], 'all present/absent combinations of whole and part, all keys, containers of up to two arbitrary entries for the generic contracts (plain, persistent and hashed ones, and ones without a set operation), real vectors and maps up to three (bounded); the same without exceptions (LAGER_NO_EXCEPTIONS)',
     'Tests sample a few values, and no test passes an expiring whole with an absent part.',
     ['lager/lenses/optional.hpp', 'lager/lenses/variant.hpp', 'lager/lenses/at.hpp', 'lager/lenses/at_or.hpp'],
     [('setters check presence before replacing', 'lager/lenses/optional.hpp')],
     note='Contracts named lvb_* (std::vector, std::map with up to 3 elements) are bounded checks and not counted as proved; at() on containers is proved for an opaque container of up to two arbitrary entries. ')
prop('C11', 'Composing, zipping, fanning and erasing lenses preserves their meaning',
     'Composition of lenses gets through the outer and then the inner one and sets by rebuilding from the inside; it is associative and the identity function is neutral as inner lens. Products (component-wise, and several parts of one whole) get and set each part independently and obey the lens laws when their parts do. A type-erased lens behaves exactly as the lens it was made from, also after copying and reassignment.',
     ['inputs', 'programs'], 'arbitrary lenses (uninterpreted getters and setters), all values; arities two and three',
     'Tests check particular compositions at particular values; the claim is for all lenses.',
     ['lager/lens.hpp', 'lager/lenses/tuple.hpp', 'lager/lenses/attr.hpp', 'lager/lenses.hpp'],
     [('composition of functions', 'lager/lenses.hpp'), ('virtual view/set of the erased lens', 'lager/lens.hpp')])
prop('C12', 'The model of a store is the ordered fold of its reducer over the actions',
     'Every dispatched action is reduced exactly once, in the order of dispatching, each on the model that the previous one produced. Nothing is reduced before the event loop gets to run it, and never nested inside another reduction: actions dispatched from watchers or reducers come after those dispatched before. An automatic store publishes after every action, a transactional one only when committed. Moving or converting a store keeps its model and dispatches to the same one, and readers taken from it outlive it.',
     ['histories', 'schedules', 'inputs'], 'arbitrary reducers (uninterpreted functions), actions and models, all interleavings of dispatching and running the loop within the contracts (up to four actions)',
     'Tests use a counter with an immediate loop; reentrant dispatch in combination with deferred loops is not enumerated.',
     ['lager/store.hpp', 'lager/effect.hpp', 'lager/context.hpp'],
     [('dispatch posts the reduction to the loop', 'lager/store.hpp'), ('pending model is what the next reduction sees', 'lager/store.hpp')],
     [('model', 'published state of the store', 'lager/store.hpp')],
     note='The event loop given to the store is assumed to meet the FIFO contract in specs/gloop.h (lager\'s own loops are verified against it in C17-C19). ')
prop('C13', 'Effects run exactly once, in order, after the model they belong to',
     'An effect returned by a reducer runs exactly once, after the reducer has returned and the model it computed is the current one (published, in an automatic store), and before later actions\' effects. Actions it dispatches are reduced afterwards, exactly once. A sequence runs its effects in order with the same context, waiting for futures the first returns; empty effects are neutral and never invoked.',
     ['histories', 'inputs', 'programs'], 'arbitrary reducers, effects, models; all spellings of a reducer result (model, pair, result, tuple-like, empty effect); effects that dispatch',
     'Tests check one effect per dispatch with constant models.',
     ['lager/effect.hpp', 'lager/store.hpp', 'lager/context.hpp'],
     [('invoke_reducer dispatches on the type of the result', 'lager/effect.hpp'), ('sequence composes effects', 'lager/effect.hpp')],
     note='Empty effects were invoked (std::bad_function_call) when converted or sequenced before the fix commit in /repo (see known_findings.txt). ')
prop('C14', 'Futures complete exactly once and only after everything they stand for',
     'A continuation attached to a future runs exactly once, in the event loop, whether the promise is kept before, after, or by another thread while it is being attached; keeping a promise twice through one handle fails loudly. Chains run in order; a continuation that returns a future delays what follows, and a conjunction waits for both. The future of a dispatched action completes only after that action was reduced, published, and its effects with the futures they return have finished.',
     ['histories', 'schedules', 'inputs'], 'all relative orders of then/promise/loop steps; interference by a second thread at every lock acquisition; lock discipline on the shared state',
     'Races between attaching and fulfilling depend on schedules that a single-threaded test never produces.',
     ['lager/future.hpp', 'lager/store.hpp', 'lager/effect.hpp'],
     [('ready flag and callback under one mutex', 'lager/future.hpp'), ('dispatch future waits for the effect future', 'lager/store.hpp')],
     [('continuation', 'callback waiting for the promise', 'lager/future.hpp')])
prop('C15', 'Dependencies and contexts deliver exactly what was provided',
     'A dependency set returns under every type or key the value, reference, or function result provided for it; subsets taken in any order, optional entries, and merged sets (the second wins) give the same entries. A context delivers every action to the dispatcher it was made from, exactly once, with its loop and dependencies, also after conversion to a context of a sub-set of actions or dependencies.',
     ['inputs', 'programs'], 'arbitrary values; value, reference, optional and functional dependencies, keyed and unkeyed; all conversion paths in the contracts',
     'Tests use a few types with constants and do not check identity of references across conversions.',
     ['lager/deps.hpp', 'lager/context.hpp'],
     [('storage keyed by dependency key, conversion copies by key', 'lager/deps.hpp'), ('contexts share a type-erased dispatcher', 'lager/context.hpp')])
prop('C16', 'Enhancers, default reducers and thunks change only what they say',
     'Enhancers wrap the reducer, model, action and dependencies of a store, composing with the first as the outermost. Without a given reducer the update function that belongs to the model is used, and a store is automatic unless told otherwise. Dependencies given through enhancers reach every effect. With thunks, ordinary actions behave as without them, and a thunk is run as an effect on an unchanged model.',
     ['inputs', 'programs'], 'arbitrary reducers, actions, models and thunks; composition of several enhancers',
     'Tests check one enhancer at a time with constants.',
     ['lager/store.hpp', 'lager/extra/thunk.hpp', 'lager/util.hpp'],
     [('with_reducer / with_deps enhancers fold over the base store', 'lager/store.hpp'), ('thunk reducer', 'lager/extra/thunk.hpp')])
prop('C17', 'The queue event loop runs every task once, in order, and survives exceptions',
     'Stepping the queue loop runs every posted task exactly once, in posting order, including tasks posted by tasks during the step. When a task throws, the exception reaches the caller, that task is not run again, and the remaining ones are kept in order for the next step. A task and what it owns are destroyed once it has run.',
     ['histories', 'inputs'], 'any number of queued tasks (loop invariant); all combinations of posting and throwing tasks for three tasks; nested posts',
     'Tests post two or three well-behaved tasks.',
     ['lager/event_loop/queue.hpp'],
     [('step moves the queue aside and restores the rest on exceptions', 'lager/event_loop/queue.hpp')],
     [('queue', 'tasks not run yet', 'lager/event_loop/queue.hpp')],
     note='One contract named lvb_* is bounded and not counted as proved. ')
prop('C18', 'The safe queue loop runs tasks of all threads once, in the owner thread',
     'Tasks may be posted from any thread at any moment; each runs exactly once, only inside step() and only in the owning thread, in order per posting thread. Tasks posted during a step, exceptions in tasks, and adopting another thread lose, duplicate or reorder nothing. The queue shared between threads is touched only while its lock is held, and no task runs while it is held.',
     ['schedules', 'histories'], 'interference by other threads at every lock acquisition; any number of queued tasks (loop invariant); all combinations of posts and exceptions in the contracts',
     'The tests run threads without controlling schedules.',
     ['lager/event_loop/safe_queue.hpp'],
     [('local queue for the owner, shared queue under a mutex', 'lager/event_loop/safe_queue.hpp')],
     [('owner thread id', 'which thread steps', 'lager/event_loop/safe_queue.hpp')])
prop('C19', 'The manual event loop runs tasks at once and never nests them',
     'A task posted to the manual loop has run when post() returns, unless it was posted from inside a task: then it runs after that one and after everything posted before it. Each task runs exactly once, also when tasks throw: the exception reaches whoever posted the outermost task and the others are kept in order. Asynchronous work is refused loudly.',
     ['histories', 'inputs'], 'one and two levels of nesting with arbitrary data; all combinations of posting and throwing for three tasks (bounded)',
     'Tests do not post from tasks that throw.',
     ['lager/event_loop/manual.hpp'],
     [('a queue drained by the outermost post', 'lager/event_loop/manual.hpp')],
     note='One contract named lvb_* is bounded and not counted as proved. ')
prop('C20', 'The debugger shows exactly what the reducer computed at every step',
     'With the debugger enabled a store behaves as without it until the debugger is used. Every step that is shown is an action that was dispatched and the model the reducer computed from the step before; moving through the history (go to, undo, redo) computes nothing, loses nothing, and never leaves the range of what happened. While it is paused actions are kept in order and reduce nothing; resuming performs them once, in that order, together with their effects.',
     ['histories', 'inputs'], 'histories of any length (unbounded sequences of steps and of pending actions), arbitrary reducers, actions and models, any cursor, also out of range',
     'Tests perform one short scripted session with an integer counter.',
     ['lager/debug/debugger.hpp', 'lager/store.hpp'],
     [('debugger reducer over goto/undo/redo/pause/resume/base actions', 'lager/debug/debugger.hpp'), ('lookup of a step in the history', 'lager/debug/debugger.hpp')],
     [('cursor', 'step that is shown', 'lager/debug/debugger.hpp'), ('history', 'steps performed so far', 'lager/debug/debugger.hpp'), ('pending', 'actions kept while paused', 'lager/debug/debugger.hpp')],
     note='immer::vector is replaced by an unbounded sequence with its contract; resuming with pending actions is checked for a bounded number of them. ')
prop('C21', 'The tree debugger keeps every branch of the history',
     'Acting from a step in the middle of the history starts a new branch there and shows it; all steps made before, in any branch, stay where they were and show the same as before. Undoing returns to the step an action was made from, and going to a step shows the model the reducer computed there. While it is paused actions are kept in order, and resuming performs them.',
     ['histories', 'inputs'], 'trees with any number of branches and steps at each level, arbitrary reducers; histories of several operations bounded',
     'Tests perform one scripted session and never act twice from the same undone step.',
     ['lager/debug/tree_debugger.hpp'],
     [('append to the node found at the cursor', 'lager/debug/tree_debugger.hpp')],
     [('cursor', 'path to the step that is shown', 'lager/debug/tree_debugger.hpp')],
     note='Contracts named lvb_* are bounded and not counted as proved; cursors of up to a fixed depth. ')
prop('C22', 'Handles without a source fail loudly instead of reading garbage',
     'Reading, writing, updating, binding or deriving through a handle that has no source (default constructed, or assigned from such a one) throws a clear error and has no other effect; registering a callback on it does nothing until it has a source. It never reads or writes through a null or stale reference. Giving the handle a source afterwards makes it work normally.',
     ['inputs', 'histories'], 'every public operation of reader, cursor and writer handles',
     'Only one or two operations on uninitialised handles are tested.',
     ['lager/with.hpp', 'lager/setter.hpp', 'lager/reader.hpp', 'lager/cursor.hpp', 'lager/writer.hpp', 'lager/detail/access.hpp', 'lager/watch.hpp'],
     [('node access checks for null and throws', 'lager/reader.hpp')])
prop('C23', 'Derived equality, hashing, reflection and enum names are faithful',
     'Equality derived for a struct holds exactly when all members are equal, and inequality is its negation. The derived hash is equal for equal structs and depends on every member. Reflection lists every member exactly once, in order, with its name. The name of an enumerator of a derived enum is the one it was declared with, the value of that name is that enumerator again, and any other name is refused loudly.',
     ['inputs'], 'all values of structs with up to four members; all enumerators; every string up to six characters (bounded) as name',
     'Tests compare two or three concrete values.',
     ['lager/extra/derive/eq.hpp', 'lager/extra/derive/hash.hpp', 'lager/extra/derive/hana.hpp', 'lager/extra/enum.hpp', 'lager/extra/struct.hpp'],
     [('member-wise folds generated by macros', 'lager/extra/derive.hpp')])
prop('C24', 'What is saved through cereal is what is loaded again',
     'Saving a derived struct, enum, tuple, named variant, immer container or box through an archive and loading it again gives an equal value, whatever the target held before. Every member is stored under its own name, camel-cased where asked for, and absent members keep their value. An unknown alternative or enumerator name, or a key that is there twice, fails loudly instead of giving some other value.',
     ['inputs'], 'all values and all previous contents of the target; containers of any size against the contract of immer, real immer containers up to a stated size (bounded), hash tables with colliding and spread keys',
     'Tests round-trip one value of each kind into an empty target.',
     ['lager/extra/cereal/immer_map.hpp', 'lager/extra/cereal/immer_vector.hpp', 'lager/extra/cereal/variant_with_name.hpp', 'lager/extra/cereal/struct.hpp', 'lager/extra/cereal/tuple.hpp', 'lager/extra/derive/cereal.hpp'],
     [('load and save functions found by cereal', 'lager/extra/cereal')],
     note='The archive is an ideal one (a tree of named values); the texts of to_json and from_json are documents of an ideal JSON archive (stubs/json). Containers of any size are proved against an assumed contract of immer (stubs/immer_any); the real immer containers are bounded (lvb_*), not counted as proved. ')
prop('C25', 'Matching a variant calls exactly the handler of its alternative',
     'Matching one or two variants calls exactly once exactly the handler that overload resolution selects for the current alternatives, with the contained objects themselves (no copy, value category kept), and returns its result unchanged. The no-op and identity helpers have no effect and return their argument.',
     ['inputs'], 'all alternatives of up to three, all values, lvalue/const/rvalue variants',
     'Tests check one alternative per visitor.',
     ['lager/util.hpp', 'lager/effect.hpp'],
     [('match builds a visitor from lambdas', 'lager/util.hpp')])
prop('C26', 'Indexing a handle is the same as zooming into that part',
     'Indexing a reader or cursor with a pointer to member, a key or a lens gives a handle on exactly that part, whose writes change that part and nothing else. Indexing with a key gives an optional: absent when there is no such element, and writing to an absent element or writing nothing changes nothing. Indexing a handle on an optional with a lens on its content gives an optional part, absent when the whole is.',
     ['inputs', 'programs', 'histories'], 'all values, all keys, present and absent wholes, through states, cursors and readers; nested optionals',
     'Tests index with one or two constants.',
     ['lager/detail/smart_lens.hpp', 'lager/cursor.hpp', 'lager/reader.hpp', 'lager/lenses/optional.hpp', 'lager/lenses/at.hpp'],
     [('smart_lens picks attr, at, or the lens itself, and lifts it over optionals', 'lager/detail/smart_lens.hpp')],
     note='Keys into a real std::vector are bounded (lvb_*). ')
prop('C27', 'Foreign event loops run what a store posts once, in order, until told',
     'Through the adaptors for SDL, Qt, QML and Boost.Asio every posted task runs exactly once, in the event loop and its thread, never inside the call that posts it, and in posting order. The SDL loop hands every other event to the handler exactly once, ticks only while it is not paused and at the frame rate it was given, drops foreign events while it is, and returns as soon as it is finished. Asynchronous work runs once, outside the event loop, while the program is kept alive (or waited for); finishing stops the program in the way that was given, and what a loop does not support fails loudly.',
     ['histories', 'schedules'], 'any number of events (loop invariant) of arbitrary kinds with arbitrary handler results, pausing and finishing from inside tasks and handlers (bounded sequences); posting from the thread of the loop and from others',
     'The SDL loop is not tested at all, the others with one task or by instantiation only.',
     ['lager/event_loop/sdl.hpp', 'lager/event_loop/boost_asio.hpp', 'lager/event_loop/qt.hpp', 'lager/event_loop/qml.hpp'],
     [('events carry tasks through the SDL queue', 'lager/event_loop/sdl.hpp'), ('executor posts', 'lager/event_loop/boost_asio.hpp'), ('queued invocations', 'lager/event_loop/qt.hpp'), ('frames of the scene step a queue', 'lager/event_loop/qml.hpp')],
     [('paused, done', 'state of the SDL loop', 'lager/event_loop/sdl.hpp')],
     note='SDL, Qt and the Asio executor are replaced by their contracts (stubs/). Contracts named lvb_* are bounded. ')
prop('C28', 'Qt properties show their reader and signal exactly its changes',
     'A property defined with LAGER_QT_READER or LAGER_QT_CURSOR reads as the current value of its source, and one with LAGER_QT_CONST never changes. The change signal is emitted exactly once for each commit that changed the value, with the new value, when all other properties are up to date too, and never otherwise. Writing a cursor property writes exactly that part of the source; an object that is gone is not signalled.',
     ['inputs', 'histories'], 'all values, written or not, equal or not; sources given before or after construction; transactional and automatic sources',
     'There is no test of these macros.',
     ['lager/extra/qt.hpp', 'lager/watch.hpp'],
     [('a watcher registered at construction emits the signal', 'lager/extra/qt.hpp')],
     note='The meta object compiler is replaced by hand-written signal bodies that record; Qt by stubs/qt. ')
prop('C29', 'The debug server reports the debugger as it is and dispatches what is asked',
     'At any time, also before the first action, the HTTP debug server reports the current cursor, number of steps and pause state of the debugger, and the action and model of any step; a step that is not there, or any failure, is an error response and the server goes on. A request to go to a step, undo, redo, pause or resume dispatches exactly that action once, through the event loop of the store; anything else changes nothing. It serves files of its resource folder, with the type their name tells, and never others, answers every request on every connection, and stops its thread before releasing what it uses.',
     ['inputs', 'histories', 'schedules'], 'all debugger states, all step numbers up to three digits, all sequences of one or two requests, requests while the server is being destroyed; all request paths of up to seven characters over a small alphabet (bounded) for files',
     'The server is not tested.',
     ['lager/debug/http_server.hpp'],
     [('routes', 'lager/debug/http_server.hpp'), ('snapshot of the debugger model for the thread of the server', 'lager/debug/http_server.hpp')],
     [('model snapshot', 'state that is reported', 'lager/debug/http_server.hpp')],
     note='Sockets, HTTP, JSON text, regular expressions and files are replaced by their contracts (stubs/http). ')

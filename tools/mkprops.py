"""Writes properties.jsonl (kept as a script so the long texts stay editable)."""
import json, os
U = "nion/utils/"
P = []
def add(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[U + f for f in files], mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None, **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}))))

add("C01", "Firing an event reaches every attached listener once, in order",
    "Firing an event calls every listener that was attached before the fire began and stays attached until it ends exactly once, synchronously on the firing thread, with the fired arguments and in the order the listeners were attached. A listener that was closed before the fire began, or attached after it ended, is not called by it. This holds while other threads attach, close, drop and fire on the same event, and while garbage collection runs at any instant.",
    ["schedules", "histories", "fault_sequences"],
    "every interleaving of attach/close/drop/fire from any number of threads, and every point at which a garbage collection may run",
    "The tests only fire events incidentally from one thread; no test attaches, closes or collects listeners while a fire is in progress.",
    ["Event.py"], [("listener list guarded by a re-entrant mutex; fire works on a snapshot", "Event.listen, Event.fire"), ("weak reference callback removes dead listeners", "Event.listen.remove_listener")],
    ["Event.listen", "Event.fire", "EventListener.close"], [("weak listeners", "ordered list of weakly held listeners", "Event")])

add("C02", "A failing listener is contained; short-circuit fires answer correctly",
    "An exception raised by a listener is reported on standard error, never reaches the code that fires the event, does not stop the other listeners from being called by an unconditional fire, and leaves the event fully usable. The any-fire calls listeners in order, stops at and returns true for the first true answer and otherwise returns a false value; the all-fire stops at and returns a false value for the first false answer and otherwise returns true. A closed listener has no influence on either answer, and a listener that fails is never taken for a true answer.",
    ["fault_sequences", "histories", "schedules"],
    "every subset of listeners failing at every call, every mix of answers, closed and live listeners, from several firing threads",
    "No test makes a listener raise, and no test uses the any- or all-fire at all.",
    ["Event.py"], [("exception handling around listener calls", "Event.fire, fire_any, fire_all"), ("closed listeners are replaced by a no-op", "EventListener.close")],
    ["Event.fire", "Event.fire_any", "Event.fire_all"])

add("C03", "A listener lives exactly as long as its token or its owner",
    "A listener remains attached while its token is held, or, when it was attached with an owner, while the owner exists even if the token is discarded. Once the token is closed (also by leaving a scope it was used for, however the scope is left), the last reference to it is dropped, or its owner has gone, no fire that starts later calls it, and once token and owner are gone the event no longer counts or retains the listener or its function; closing the token lets go of the function at once. Listeners going away, on any thread and by reference counting or cyclic garbage collection, never disturbs other listeners, other threads or the event.",
    ["schedules", "histories", "fault_sequences"],
    "every order of attach, close, drop, owner death and fire over threads, with garbage collection at arbitrary instants",
    "No test uses owners, drops tokens or runs the collector; lifetimes depend on when references die.",
    ["Event.py"], [("weak listener references with removal callback", "Event.listen"), ("owner weak reference closing the listener", "Event.listen.owner_gone")],
    ["Event.listen(owner=...)", "Event.listener_count", "EventListener.close"])

add("C04", "Reference counts are exact and finalisation happens exactly once",
    "The reference count always equals references added minus references removed, whatever threads add and remove them, including through the context manager and when its body raises. The about-to-delete notification happens exactly once, when a checked removal first brings the count to zero, on the thread that removed the last reference and before that removal returns; never while references remain. Removing a reference that is not there is refused and changes nothing.",
    ["schedules", "histories"],
    "every interleaving of reference additions and removals by any number of threads",
    "Tests reach reference counting only from one thread through streams; lost updates need two threads between read and write of the count.",
    ["ReferenceCounting.py"], [("count updated under a mutex", "ReferenceCounted.add_ref, remove_ref"), ("active flag gates finalisation", "ReferenceCounted.remove_ref")],
    ["ReferenceCounted.ref_count", "ReferenceCounted.about_to_delete"])

add("C05", "A promise is evaluated at most once successfully and shared by everyone",
    "However many threads ask for a promise's value, its function is never run by two of them at once and, once it has returned, is never run again; every caller gets that same value. If the function raises, that caller gets the exception, no value is recorded and a later request evaluates again. Looking at the value without evaluating never runs the function, never blocks and yields either nothing or the final value.",
    ["schedules", "fault_sequences"],
    "every interleaving of evaluating and non-evaluating readers, with the function failing on any subset of calls",
    "There is no test for promises; double evaluation needs two threads inside the check-then-evaluate window.",
    ["Promise.py"], [("evaluation under a re-entrant lock; function cleared after success", "Promise.value")],
    ["Promise.value", "Promise.opt_value", "Promise.has_value"])

add("C06", "Task queue runs every task once, in order, bounded per call",
    "Every task put on a task queue is performed exactly once, in the order queued, or is discarded by a clear, which leaves none of the tasks queued before it; none is lost, duplicated or reordered when several threads put, perform and clear concurrently. One perform call never performs more tasks than were pending when it began, so tasks that queue further tasks cannot trap it. A task that raises is consumed, its exception reaches the performer, the tasks behind it stay queued, and waiting for the queue to be finished still completes once everything has been performed or cleared.",
    ["schedules", "fault_sequences", "histories"],
    "every interleaving of producers, performers and clearers, tasks failing or re-queueing at any position",
    "There are no tests for the task queue; races between the emptiness check and the fetch, and failing tasks, are never exercised.",
    ["Process.py"], [("non-blocking get with a pending-count bound", "TaskQueue.perform_tasks, clear_tasks")],
    ["TaskQueue.put", "TaskQueue.perform_tasks", "TaskQueue.clear_tasks", "TaskQueue.join"])

add("C07", "Task set performs only the latest task per key and loses none",
    "For each key, performing the tasks runs the most recently added task that was neither replaced, cleared nor already performed, exactly once; replaced and cleared tasks never run. A task added while another thread is performing is either run by that call or kept for the next, never lost or run twice. When a task raises, the exception reaches the performer and the tasks of the other keys are still performed by a later call.",
    ["schedules", "fault_sequences", "histories"],
    "every interleaving of add, clear and perform over threads, with tasks failing or adding tasks",
    "There are no tests for the task set.",
    ["Process.py"], [("swap of the pending map under a mutex", "TaskSet.perform_tasks")],
    ["TaskSet.add_task", "TaskSet.clear_task", "TaskSet.perform_tasks"])

add("C08", "Thread pool runs each function at most once and close is a barrier",
    "A function queued on a thread pool is run at most once, by one thread, and never after close has returned; when close returns no queued function is running, it does return whenever the functions in progress do, and the pool's threads end. While the pool is open and has threads, every queued function is eventually run, even if other functions raise or queue more functions. Explicitly running one or all pending functions runs them in queue order and returns when nothing is left, also when pool threads or other callers drain the queue at the same time.",
    ["schedules", "fault_sequences", "histories"],
    "every interleaving of queueing, worker threads, explicit runners and close, functions failing or taking arbitrarily long",
    "There are no tests for the thread pool; its guarantees are about interleavings of close, cancel and execute.",
    ["ThreadPool.py"], [("task lock makes execute and cancel exclusive", "ThreadPoolTask.execute, cancel"), ("close flag, cancel, sentinel per thread and join", "ThreadPool.close")],
    ["ThreadPool.queue_fn", "ThreadPool.close", "ThreadPool.run_all", "ThreadPool.run_one"])

add("C09", "Dispatcher never loses a trigger, runs serially and stops on close",
    "After a trigger on a started, open dispatcher, its function begins at least one invocation later than that trigger; invocations never overlap and happen only because of triggers. A waiting trigger returns only after an invocation that began after it has finished, and always returns, also when the function raises or the dispatcher is closed meanwhile. Once close has returned the function is not running and is never invoked again, and a raising function does not stop later triggers from being served.",
    ["schedules", "fault_sequences", "histories"],
    "every interleaving of triggers, waiting triggers and close with the dispatch thread, the function failing on any invocation",
    "There are no tests for the dispatcher; lost wake-ups need a trigger between the wait and the clear.",
    ["ThreadPool.py"], [("event wait and clear in the dispatch loop", "ThreadDispatcher.__process"), ("break flag and join", "ThreadDispatcher.close")],
    ["ThreadDispatcher.trigger", "ThreadDispatcher.close"])

add("C10", "Dispatcher honours its minimum interval whatever the clock does",
    "Consecutive invocations of a dispatcher's function are separated, from the end of one to the start of the next, by at least the minimum interval of real elapsed time. A trigger is served no later than one minimum interval after the dispatcher becomes free, even if the system's wall clock is stepped forwards or backwards at any moment. Triggers arriving during the interval are coalesced rather than multiplied.",
    ["schedules", "fault_sequences", "configurations"],
    "every interval length, every trigger timing and every sequence of wall-clock steps",
    "There are no tests of timing, and no test can step the system clock.",
    ["ThreadPool.py"], [("elapsed-time check before each invocation", "ThreadDispatcher.__process")],
    ["ThreadDispatcher.trigger", "time of invocations"])

add("C11", "Debounced stream settles on the latest value within one period",
    "A debounced stream emits the input's most recent value at the moment it emits, and emits at most once per period. After it is created and after any input change, including one made from inside a listener during an emission, it emits within one period of that change, so once the input is quiet the last emitted value is the input's value. After it is closed it emits nothing, leaves nothing scheduled and holds its input no longer.",
    ["schedules", "histories", "fault_sequences"],
    "every timing of input changes, closes and event-loop lag relative to the period; listeners failing or changing the input",
    "There are no stream tests; timing-dependent loss needs a change at the exact instant of an emission.",
    ["Stream.py"], [("single pending delay task", "DebounceStream.debounce_delay, __value_changed")],
    ["DebounceStream.value_stream", "DebounceStream.value"])

add("C12", "Sampled stream emits the latest value once per period and converges",
    "A sampled stream emits at most once per period, only when the input has changed since the previous emission (the first emission reports the input's current value), and always with the input's most recent value. The last input change, made on any thread, is emitted by the first sample after it, so the stream converges to the input. After it is closed it emits nothing more and holds its input no longer.",
    ["schedules", "histories", "fault_sequences"],
    "every interleaving of input changes on another thread with the sampling task, every timing and loop lag",
    "There are no stream tests; losing a change needs the sampler to run between the dirty flag and the value update.",
    ["Stream.py"], [("dirty flag guarded by a lock; periodic task", "SampleStream.sample_loop, __value_changed")],
    ["SampleStream.value_stream", "SampleStream.value"])

add("C13", "Derived streams track their inputs and release them when closed",
    "Mapped, combined, concatenated and property streams, and models fed by a stream, always hold the value computed from the latest values of their inputs and announce each change of it to their listeners; mapped and property streams and models in use announce nothing else, change meaning unequal by the comparison they were given. When a supplied function or a listener raises, the stream keeps its previous value and the next successful update brings it up to date, and other consumers of the same input are unaffected. Dropping the last reference releases every input exactly once, in any order of dropping, after which the stream announces nothing further and inputs no longer used are closed.",
    ["histories", "fault_sequences", "schedules"],
    "every graph of streams, every order of updates, re-targeting and releases, functions and listeners failing at any call",
    "There are no stream tests.",
    ["Stream.py", "Model.py", "ReferenceCounting.py"], [("input listeners", "MapStream, CombineLatestStream, ConcatStream, PropertyChangedEventStream, StreamValueModel"), ("reference counting closes at zero", "AbstractStream.about_to_delete")],
    ["value_stream", "value", "ref_count"])

add("C14", "Asynchronously evaluated model ends with the newest function's result",
    "A model fed by a stream of functions evaluates them off the event loop's thread and, however long evaluations take and in whatever order they finish, never goes back to the result of an older function after showing a newer one's. When everything has been evaluated its value is the result of the newest function that did not raise; a raising function neither changes the value nor prevents later ones from being shown. After the model is closed its value and observers see no further change.",
    ["schedules", "fault_sequences", "histories"],
    "every completion order of concurrently running evaluations, evaluations failing, and close at any moment",
    "There are no tests of this model; reordering needs two evaluations in flight.",
    ["Model.py"], [("executor evaluation per stream value", "FuncStreamValueModel.handle_value_func")],
    ["FuncStreamValueModel.value", "property_changed_event"])

add("C15", "Closing an event loop finishes the outstanding work first",
    "Closing an event loop with the provided function returns only after every task outstanding at the call has run to completion, failure or cancellation and every job handed to the loop's default executor has finished. Failing or cancelled tasks neither raise out of the call nor keep the others from completing. Afterwards the loop is closed.",
    ["schedules", "fault_sequences", "histories"],
    "every mix of pending, sleeping, failing, cancelled and executor-bound tasks and every interleaving of executor threads",
    "There is no test for closing event loops.",
    ["Process.py"], [("gather of all tasks, executor shutdown, loop close", "close_event_loop")],
    ["Process.close_event_loop"])

add("C16", "List notifications let any observer mirror the list exactly",
    "For plain, mapped, filtered and flattened list models, an observer that starts from the current items and applies each insert and remove notification holds exactly the model's items after every notification, with the notified item at the notified index, also for a change by an index that counts from the end or is out of range. The derived list always equals the map, filter and order, or concatenation of children, of its source after each change, through chains of such models, bulk changes, re-targeting and closing; a mapped item is given to the unmapping function exactly once, when its source item goes; any combination of the filters provided, and any deep copy of one, selects by the same definition. Announced beginnings and ends of changes are balanced, a filtered list notifies only between them, and a group of changes to it takes effect, and is notified, when the outermost group ends. A failing observer does not disturb the model or other observers.",
    ["histories", "fault_sequences"],
    "every sequence of source changes, regrouped changes, source switches and observer failures over chains of models",
    "The tests apply a handful of inserts and removes; drift appears only after particular sequences.",
    ["ListModel.py", "Observable.py", "Event.py"], [("insert/remove notifications paired with list mutation", "ListModel, MappedListModel, FilteredListModel, FlattenedListModel")],
    ["item_inserted_event", "item_removed_event", "items"])

add("C17", "Filtered list is the filtered, ordered source under concurrent change",
    "Whenever no change is in progress, a filtered list model holds exactly the source items that match the current filter, in sort-key order (reversed if asked) or in source order when there is no sort key, whatever combination of source changes, item changes, filter and sort changes and grouped changes led there, also when filter, sort, refresh and item changes come from other threads. A reader on another thread sees the list as it was before or after a change, never a half-rebuilt one. If a filter or sort function raises, the list stays consistent with its notifications and a later refresh with working functions restores it.",
    ["schedules", "histories", "fault_sequences"],
    "every interleaving of one source-changing thread with threads changing filter, sort and items, grouping changes and reading; filter and sort functions failing at any call",
    "Tests are single threaded with a few fixed sequences; item changes and failing predicates are not tested.",
    ["ListModel.py"], [("update mutex", "FilteredListModel"), ("incremental and full rebuild", "FilteredListModel.__update_items"), ("change level defers updates", "FilteredListModel.begin_change, end_change")],
    ["FilteredListModel.items"])

add("C18", "Selections follow their items and obey their style",
    "A selection obtained from a mapped or flattened list model, or from a filtered one that shows its whole source in order, keeps denoting the same items while other items are inserted and removed in any order, and forgets exactly the items that are removed; the anchor of its next extension follows its item likewise, and extending selects exactly the range between anchor and given index. Under interleaved gestures and list changes a selection restricted to a single index never holds more than one, a must-have-one selection never becomes empty by a gesture, and a no-selection style holds none. Its change notification is sent exactly for the gestures that change the selected set, and a failing observer of it does not disturb the selection.",
    ["histories", "fault_sequences"],
    "every interleaving of selection gestures with list changes, and every observer failure",
    "Tests try one insert, one delete and one extend.",
    ["Selection.py", "ListModel.py"], [("index shifting on insert and remove", "IndexedSelection.insert_index, remove_index"), ("style dispatch", "IndexedSelection")],
    ["IndexedSelection.indexes", "IndexedSelection.changed_event"])

add("C19", "Persistent objects survive a crash at any storage write",
    "For persistent objects attached to a storage context, every completed change to a property, item or relationship anywhere in the object tree is in the storage when the change returns, so an object tree re-read from the storage after a crash equals the tree before it; a change interrupted by the crash is present entirely or not at all. Cleared properties stay cleared, list order and object identities are preserved, storing under a different key than the attribute name makes no difference, and every re-read object is told once that reading has finished. A value goes through the validation function of its property, and one it refuses changes nothing; lists and values handed in or out are not shared with the object. Each tree's changes go to its own storage. A storage error reaches the caller of the change and damages nothing already stored.",
    ["crash_points", "fault_sequences", "histories"],
    "every sequence of changes over nested objects, a crash before or after any storage call, storage errors, and repeated restarts",
    "Tests exercise only registration; nothing writes to or re-reads a storage.",
    ["Persistence.py"], [("write-through on every change", "PersistentObject.__setattr__, set_item, insert_item, remove_item"), ("dict round trip", "read_from_dict, write_to_dict")],
    ["persistent storage contents", "PersistentObject.write_to_dict", "PersistentObject.read_from_dict"])

add("C20", "Object registration follows membership; detached objects write nothing",
    "An object is registered with a context exactly while it belongs to an object tree attached to that context, and lookup by identity returns it exactly then. A subscriber to an identity is told once when the object becomes available, at once if it already is, and once when it becomes unavailable, which ends that subscription, also when callbacks subscribe further or raise. Changes to an object that has been removed or replaced never reach the storage, every change bumps the modification count and state and sets the modification time of the object and all its ancestors and of no other, and re-inserting a removed object works. An object is told once when its context changes, and the hooks given in the definition of its properties, items and relationships are called once per change, when it is in effect, and once for each stored part when the object is re-read.",
    ["histories", "fault_sequences"],
    "every sequence of insert, remove, replace, attach, detach, subscribe and restart operations, with failing callbacks and storage",
    "Tests cover one registration and one unregistration.",
    ["Persistence.py"], [("context propagation and registration", "PersistentObject.persistent_object_context"), ("subscriptions", "PersistentObjectContext.register, unregister, subscribe")],
    ["PersistentObjectContext.get_registered_object", "PersistentObjectContext.subscribe", "storage writes"])

add("C21", "The component registry agrees with its history and its announcements",
    "Looking up a component type yields exactly the components registered under it and not since unregistered, and looking up a single component yields one of highest priority (default 50), whatever order sets iterate in; an answer already given does not change. Each registration and unregistration is announced once to every observer, with the component and exactly the types concerned, after it has taken effect, so an observer can mirror the registry from announcements; a refused one changes and announces nothing. Observers that fail, or that register and unregister components themselves during an announcement, disturb neither the registry nor other observers, and neither do threads registering components of their own, from the first use on.",
    ["histories", "fault_sequences", "schedules", "configurations"],
    "every sequence of registrations and unregistrations, failing and re-entrant observers, every set iteration order, and every interleaving of threads with components of their own",
    "One test with a single component; set order depends on object addresses.",
    ["Registry.py"], [("maps by type and by component; announcements", "ComponentManager.register, unregister"), ("the one registry, made on first use", "Singleton.__call__")],
    ["Registry.get_components_by_type", "Registry.get_component", "registration events"])

add("C22", "Every change inside a structured model is announced at its root",
    "Any change to a field or array anywhere in a structured model, of one item or of a slice, announces a model change at every enclosing record and array, once each, and a change of a sub-model that has been removed, or of a copy, announces nothing to its former owners, whatever inserts and removes came before. Field changes and array inserts and removes are announced once on the owning record with the field's name and enough to mirror the data, and converting to plain data, copying and loading plain data reproduce the contents (fields without a value are left out). Failing observers and concurrent changes to different fields of one model do not lose announcements.",
    ["histories", "fault_sequences", "schedules"],
    "every sequence of edits, inserts and removes over nested models, failing observers, and threads editing different fields",
    "Tests make one change to a freshly built model each.",
    ["StructuredModel.py", "Model.py", "ListModel.py"], [("change trampolines from children to parents", "RecordModel.__init__, ArrayModel.notify_insert_item, notify_remove_item")],
    ["model_changed_event", "property_changed_event", "item_inserted_event", "item_removed_event", "to_dict_value"])

add("C23", "Bound targets converge to their source; failures stay local",
    "After any change of a bound source every target bound to it has been given the converted current value, or the fallback when there is none, and after a target updates the source the source holds the validated, back-converted value and every other bound target agrees. A converter, validator or target that raises affects only its own update: other bindings to the same source are still updated and the failing one is brought up to date by the next successful change. A closed binding no longer delivers to its target or changes its source.",
    ["histories", "fault_sequences"],
    "every interleaving of source and target updates over several bindings (whole property, attribute, tuple element, list), closing at any time, converters and targets failing at any call",
    "Tests cover one list binding and one tuple binding without failures.",
    ["Binding.py", "Model.py", "Event.py"], [("property/list listeners updating targets", "PropertyBinding, PropertyAttributeBinding, TuplePropertyBinding, ListBinding")],
    ["Binding.target_setter", "Binding.update_source", "Binding.get_target_value"])

add("C24", "A recorded change log reproduces the changes on a copy",
    "Applying a recorder's log to a copy of the object tree as it was when recording began makes the copy equal to the tree as it is now, or as it was when the recorder was closed: recordable properties, items and the order of relationships of every object, whatever was inserted, removed, replaced, moved or re-inserted anywhere in the tree and wherever an object was when it changed. Properties that are not recordable are left alone. The log can be applied any number of times, also after an application of it failed half way, to copies and to stored trees; the copies share nothing with the tree or with each other, and applying changes neither. Failing observers, observers that make further changes, and other recorders of the same tree do not disturb a recording.",
    ["histories", "fault_sequences"],
    "every sequence of changes to nested objects, recorders started, applied and closed at any point, failing and editing observers, storage errors during an application",
    "There is no recorder test.",
    ["Recorder.py", "Persistence.py"], [("logged changes with positions", "Recorder.__property_changed, __item_set, __item_inserted, __item_removed"), ("replay", "Recorder.apply")],
    ["Recorder.apply", "PersistentObject contents of the copy"])

add("C25", "A copy of an object tree is complete, detached and independent",
    "Copying a persistent object copies every property, hidden ones included, every item and every relationship in order, of the whole tree below it, wherever it is in a tree and whether or not it is attached to storage; objects copied together with references to objects inside them stay one copy each. Each copied object has an identity of its own, belongs to no owner and no context, and shares no objects or values with the original. Copying writes nothing and changes and announces nothing about the objects that are there; afterwards no change to either tree, in place or through its properties, shows in the other or its storage, and a value read from a copy-on-read property is the reader's own. A copy inserted into an attached tree is stored and registered and survives a crash like any other object, and can be copied again.",
    ["histories", "fault_sequences"],
    "every history of building, copying, changing, inserting and removing over stored and loose trees, storage errors and crashes while copies are inserted",
    "No test copies a persistent object.",
    ["Persistence.py"], [("copying", "PersistentObject.__deepcopy__, deepcopy_from"), ("values", "PersistentProperty.set_value, PersistentPropertySpecial.value"), ("attaching", "PersistentObject.insert_item, set_item")],
    ["copy.deepcopy of a PersistentObject", "PersistentObject contents", "storage handler calls"])

add("C26", "What is closed, removed or replaced is let go",
    "Once a binding, a derived list or a recorder is closed, nothing it was made from notifies it any more: the listener counts of its sources and of their items are what they were before it was made, and once the user drops it its memory is reclaimed while the sources live on. While the derived objects stay open, the same holds for items removed from a list or from an item of it, sub-models removed from a structured model, objects removed from or replaced in a recorded tree, sources a derived list was made from before it was given another, replaced filters and values, released selections and unregistered components. This holds for any order of creating, changing, removing and closing, also when observers, targets and filters fail or close bindings while they are told.",
    ["histories", "fault_sequences"],
    "every history of creating, changing, retargeting, closing and dropping over long-lived sources, failing and closing observers",
    "No test looks at listener counts or lifetimes of derived objects.",
    ["Binding.py", "ListModel.py", "StructuredModel.py", "Recorder.py", "Registry.py"], [("closing", "Binding.close and subclasses, Recorder.close, FilteredListModel.container, MappedListModel.container, FlattenedListModel.container"), ("per-item state", "FlattenedListModel.__master_item_removed, FilteredListModel.__item_removed, ArrayModel.notify_remove_item, Recorder.__item_removed")],
    ["Event.listener_count", "weak references of dropped objects"])

add("C90", "Geometry operations are mutually consistent",
    "Points, sizes and rectangles behave as values: arithmetic, conversion to and from tuples and between integer and float forms, intersection, union and mapping agree with their mathematical definitions for all inputs.",
    ["inputs"], "all coordinates", "Tests sample a few rectangles.", ["Geometry.py"], [("value classes", "IntPoint ... FloatRect")], ["Geometry classes"])
add("C91", "Axis tickers cover the range with distinct labels",
    "For every data range the linear and logarithmic tickers produce increasing ticks covering the range with distinct labels.",
    ["inputs"], "all ranges", "Tests sample a few ranges.", ["Geometry.py"], [("pretty ranges", "LinearTicker, LogTicker")], ["Ticker.values", "Ticker.labels"])
add("C92", "Converters and validators round-trip",
    "Each converter's back conversion inverts its conversion up to its stated precision, and validation yields a value in range, for all inputs.",
    ["inputs"], "all values and formats", "Two converter tests.", ["Converter.py", "Validator.py"], [("convert/convert_back", "Converter classes")], ["convert", "convert_back", "validate"])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))

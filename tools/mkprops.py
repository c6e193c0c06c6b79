import json
P=[]
def p(id,title,statement,over,text,why,files,mech,**kw):
    assert len(title)<=80,(id,len(title))
    anchors={"files":files,"mechanism":[{"name":a,"where":b} for a,b in mech]}
    anchors.update(kw)
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":anchors})

p("C01","The store's model is the fold of the reducer over the dispatched actions",
"At any quiescent moment the model a store exposes equals its initial model folded by the reducer over every action dispatched so far, each applied exactly once and in the order they were dispatched. This holds for actions dispatched from outside, from effects, from watchers and from future continuations, for reducers with and without effects, with and without futures enabled, and on every single-threaded event loop. An automatic store publishes every applied action without further calls; a transactional store publishes them exactly when it is committed.",
["histories","inputs","configurations"],"all sequences of dispatches (including nested ones), loop steps and commits; all reducers; {automatic, transactional} x {futures, no futures} x {manual, queue, safe queue}",
"Unit tests dispatch one to three fixed actions on one loop; the claim is over all interleavings of nested dispatches, queue steps and commits.",
["lager/store.hpp","lager/effect.hpp","lager/context.hpp","lager/event_loop/manual.hpp","lager/event_loop/queue.hpp","lager/event_loop/safe_queue.hpp"],
[("store node dispatch","lager/store.hpp store::store_node::dispatch"),("reducer invocation","lager/effect.hpp invoke_reducer"),("commit","lager/commit.hpp")])

p("C02","Every effect runs exactly once, after its model is published, in order",
"Each effect returned by a reducer is executed exactly once, through the event loop, in the order the reducers ran, and only after the model produced by that same action is visible to the effect (and, on an automatic store, to readers and watchers). An effect's context lets it dispatch further actions and reach the store's dependencies and loop. A sequence of effects runs its parts in order, each exactly once, and each part starts only when the future returned by the previous one has completed; a no-op effect is equivalent to returning no effect.",
["histories","inputs","programs"],"all programs of actions whose reducers return generated effect trees (none, no-op, dispatching, sequenced, future-returning), on all single-threaded loops, automatic and transactional",
"Tests run one or two hand-written effects; ordering across nested, sequenced and asynchronous effects is a claim over all effect programs.",
["lager/effect.hpp","lager/store.hpp","lager/context.hpp"],
[("effect scheduling","lager/store.hpp store_node::dispatch with-effect handler"),("sequence","lager/effect.hpp sequence"),("effect wrapping","lager/effect.hpp effect")])

p("C03","A dispatch future completes exactly once, in the loop, after all its work",
"With futures enabled, the continuation attached to the future of a dispatch runs exactly once, from inside the event loop, after the reducer ran, the model was visible (published, on an automatic store) and the action's effect - including, transitively, any future that effect returned - completed. Chained continuations run in order and a continuation returning a future delays the rest of the chain until that future completes; joining two futures completes exactly when both are complete. This holds whether the continuation is attached before or after completion, and an empty or disabled future runs its continuation immediately.",
["histories","schedules","programs"],"all dependency graphs of promises, futures, then/also chains and dispatching effects, with attachment before or after fulfilment and any order of fulfilment",
"Tests cover a handful of chains; attach/fulfil order and arbitrary nesting depth are universally quantified.",
["lager/future.hpp","lager/store.hpp","lager/effect.hpp"],
[("promise fulfilment","lager/future.hpp promise::operator()"),("then","lager/future.hpp future::then"),("also","lager/future.hpp future::also")])

p("C04","Uncommitted writes stay invisible until commit, then all appear at once",
"Between commits, writes to transactional states and actions processed by transactional stores change nothing that existing readers return and invoke no watcher. Writes made through any combination of overlapping cursors compose on the pending value - each write changes only its focus, and an update function receives the latest pending value of its focus - so at commit every reader shows the result of applying all the writes in order. Committing with nothing pending changes nothing and invokes no watcher; automatic states publish each write immediately.",
["histories","inputs"],"all histories of set/update through generated cursor trees over one or several roots, interleaved with reads and commits of any subset of the roots",
"Tests make one or two writes between commits; lost or leaked writes need a particular order of overlapping writes.",
["lager/state.hpp","lager/detail/nodes.hpp","lager/detail/lens_nodes.hpp","lager/detail/merge_nodes.hpp","lager/writer.hpp","lager/commit.hpp"],
[("current vs last","lager/detail/nodes.hpp reader_node"),("refresh before write","lager/detail/lens_nodes.hpp lens_cursor_node::send_up"),("update","lager/writer.hpp writer_mixin::update")])

p("C05","Derived readers always equal their defining function of the committed roots",
"After any commit or automatic update, every reader derived from roots by mapping, zooming with lenses, merging or combinations of them returns exactly its defining function applied to the published root values, however deep or shared the derivation graph is, whenever the reader was created, and whether or not anything watches it. A filtered reader returns the last published input that passed its predicate (its initial or default value if none did). A reader stays correct when the handles of the readers it was derived from are gone.",
["histories","inputs","programs"],"all derivation graphs generated from map/filter/zoom/merge over states, stores, sensors and constants, all write/commit histories, with readers created and dropped at any point",
"Tests use fixed graphs of depth 1-3; propagation bugs need particular shapes (diamonds, late-created or dropped nodes) and histories.",
["lager/detail/nodes.hpp","lager/detail/xform_nodes.hpp","lager/detail/lens_nodes.hpp","lager/detail/merge_nodes.hpp","lager/with.hpp","lager/reader.hpp"],
[("send_down propagation","lager/detail/nodes.hpp reader_node::send_down"),("initial value","lager/detail/xform_nodes.hpp initial_value")])

p("C06","Watchers fire exactly once per published change, with the new value",
"Whenever a commit or automatic update changes the value of a reader, each watcher of it is invoked exactly once with the new value, watchers of one handle in registration order, even if the change reaches the reader along several paths; for value types without equality every publication of a write counts as a change. A watcher is not invoked by a commit when no write since the previous one altered the reader's value. When a watcher itself writes, notifications of what it wrote may be deferred to the commit that publishes it; binding invokes the callback immediately with the published value and then on every change, and nudging re-invokes the watchers of that handle with the published value.",
["histories","programs"],"all derivation graphs and write/commit histories, with watch/bind/nudge at any point, including writes and dispatches made from inside watchers",
"Tests count calls in a few fixed scenarios; duplicated or missing notifications need particular graph shapes, unchanged intermediate values or re-entrancy.",
["lager/detail/nodes.hpp","lager/detail/signal.hpp","lager/watch.hpp"],
[("notify flags","lager/detail/nodes.hpp reader_node::notify"),("signal","lager/detail/signal.hpp"),("watchable","lager/watch.hpp watchable_base")])

p("C07","Watchers only ever observe a consistent, fully propagated world",
"When a watcher runs during a commit of one or several roots (or an automatic update), reading any reader derived from those roots - in any branch, notified already or not - yields the value computed from the new published roots; no reader is still old or half-updated. Several roots committed together become visible together. Roots not included in the commit keep showing their previously published values.",
["histories","programs"],"all graphs over several roots, all subsets of roots committed, reads of every reader from inside every watcher",
"Tests read at most one sibling from a watcher; consistency is over all pairs of readers and all notification orders.",
["lager/commit.hpp","lager/detail/nodes.hpp"],
[("two-phase commit","lager/commit.hpp commit"),("send_down/notify split","lager/detail/nodes.hpp reader_node")])

p("C08","Writing through a cursor updates exactly its focus in the roots",
"Setting a value through a cursor obtained by zooming, member or key access, merging, bidirectional transformation or any composition of these changes the roots exactly as applying the composed lens setters (or inverse transformations) to the current root values, and leaves everything outside the focus untouched. Reading the cursor after commit returns what was written whenever the composed setter can represent it. Assigning to a merged cursor assigns each component, in order, to its own source.",
["inputs","histories","programs"],"all cursor paths generated over nested structs, vectors, maps, optionals, variants, tuples and boxes, all values written, overlapping cursors alive at once",
"Tests write single fixed values through fixed paths; aliasing between overlapping cursors and move-related loss of sibling data depend on the path and values.",
["lager/detail/lens_nodes.hpp","lager/detail/merge_nodes.hpp","lager/detail/xform_nodes.hpp","lager/detail/nodes.hpp","lager/cursor.hpp","lager/writer.hpp","lager/with.hpp"],
[("push_up","lager/detail/nodes.hpp inner_node::push_up"),("lens cursor send_up","lager/detail/lens_nodes.hpp"),("xform cursor","lager/detail/xform_nodes.hpp xform_cursor_node"),("lager::update","lager/with.hpp update")])

p("C09","Handles own their connections and values; nothing dangles or leaks",
"A callback registered through a handle is invoked for changes of the value the handle currently refers to - following it when the handle is assigned another source, also when registered before any source was assigned - until the handle is unbound or destroyed, and never afterwards; copies and moved-to handles refer to the same value without taking over the callbacks. Destroying or reassigning handles at any moment other than the handle being notified, including from inside another watcher, never disturbs the notifications or values of the remaining ones. Derived readers keep their sources alive, and once the last handle referring to a value is gone the value is released.",
["histories","programs"],"all interleavings of creating, copying, moving, assigning, unbinding and destroying handles with writes, commits and notifications, including from inside watchers",
"Tests cover single operations; dangling links and leaks need a specific order of lifetime operations relative to notification.",
["lager/watch.hpp","lager/detail/signal.hpp","lager/detail/nodes.hpp","lager/reader.hpp","lager/cursor.hpp"],
[("intrusive slots","lager/detail/signal.hpp"),("assignment re-link","lager/watch.hpp watchable_base::operator="),("weak children","lager/detail/nodes.hpp observable_reader_node")])

p("C10","Every provided lens and every composition of lenses obeys the lens laws",
"For every total lens the library provides (identity, member, several members, getter/setter pair, tuple element, zip, fan of disjoint lenses, unbox) and every composition of them: viewing after setting returns the value set, setting what was viewed changes nothing, and of two consecutive sets the last wins. Applying a function over a lens equals setting the function of the viewed value. Composing lenses views and sets exactly like nesting the individual views and sets; results do not depend on whether the whole is passed as an lvalue or rvalue, and wholes passed as lvalues and everything outside the focus are left untouched.",
["inputs","programs"],"all compositions generated from the total lenses over nested data, all wholes and parts, lvalue and rvalue wholes",
"Tests check a few fixed values per lens and mostly lvalue wholes; laws are universally quantified.",
["lager/lenses.hpp","lager/lenses/attr.hpp","lager/lenses/tuple.hpp","lager/lenses/unbox.hpp"],
[("view/set/over","lager/lenses.hpp"),("zip/fan/element","lager/lenses/tuple.hpp"),("attr","lager/lenses/attr.hpp")])

p("C11","Lenses into absent or optional parts are safe and never invent or lose data",
"For the lenses into containers by key, into variant alternatives and through optionals: viewing a focus that is absent yields nothing (or the stated default), and setting it, or setting an absent value, leaves the whole unchanged without throwing; insert-capable containers may insert when a present value is set. When the focus is present, viewing returns it and setting a present value replaces exactly that element, leaving all others untouched. The lifted forms of a lens behave like the plain lens on present values, a lens with a default makes an absent value present when it is set, and all results are the same for lvalue and rvalue wholes.",
["inputs","programs"],"all vectors, maps, immutable vectors/maps/boxes, optionals, variants and nestings of them; in-range and out-of-range keys; present and absent values",
"Tests use one container of each kind and a couple of keys; the boundary (key equal to size, empty container, absent then set, rvalue) is universally quantified.",
["lager/lenses/at.hpp","lager/lenses/at_or.hpp","lager/lenses/optional.hpp","lager/lenses/variant.hpp"],
[("at","lager/lenses/at.hpp"),("at_or","lager/lenses/at_or.hpp"),("opt_impl, value_or, force_opt","lager/lenses/optional.hpp"),("alternative","lager/lenses/variant.hpp")])

p("C12","Type-erased lenses and bracket access behave like the lens they stand for",
"Erasing a lens into a lens object of given whole and part types, copying it, composing it with others, and viewing, setting or applying a function through it gives the same results as the original lens. Accessing a reader or cursor with brackets by member pointer, key, index or lens reads and writes the same as zooming with the corresponding member, key or given lens; on an optional value a member pointer, key or index acts on the contained value and is absent when that is absent, while a lens made for optionals is used as it is.",
["inputs","programs"],"all generated lenses, nested erasure and composition, wholes and parts; all bracket paths over structs, vectors, maps and optionals",
"Tests compare two or three fixed lenses.",
["lager/lens.hpp","lager/detail/smart_lens.hpp","lager/with.hpp"],
[("type erasure","lager/lens.hpp lens"),("smart lens","lager/detail/smart_lens.hpp")])

p("C13","Chained expressions equal the same chain built one reader at a time",
"A chain of map, filter, zoom and bracket steps over one or several inputs gives a reader or cursor with the same values, notifications and write behaviour whether the chain is built as one expression or by materialising a reader or cursor after every step, as long as no filter step rejects the value its input initially has. Transformations apply in the order written when reading and in the reverse order when writing. Deriving from a temporary or from a named handle, and converting to the declared reader, writer or cursor types, makes no difference.",
["programs","inputs","histories"],"all chains of generated steps, all split points, all write/commit histories",
"Tests check individual pairs of steps; order and fusion mistakes show only for particular non-commuting combinations.",
["lager/with.hpp","lager/reader.hpp","lager/writer.hpp","lager/cursor.hpp"],
[("expression fusion","lager/with.hpp with_expr / with_xform_expr / with_wxform_expr / with_lens_expr")])

p("C14","Dependency lookups return exactly the dependency supplied for that key",
"A dependency set returns, for each required type or key, the very value or reference it was built with; narrowing it to a compatible subset, merging sets, and passing it through contexts preserve this, and references keep referring to the original object. When two merged sets supply the same key the later one wins. Optional dependencies are absent exactly when no source supplied them, getting an absent one fails with an exception, and computed dependencies are computed on each access.",
["inputs","programs","configurations"],"all dependency specifications (required, optional, keyed, function, reference, by value) and all chains of narrowing and merging over them",
"Tests check single conversions; the property is over all chains of conversion and merge.",
["lager/deps.hpp","lager/context.hpp","lager/store.hpp"],
[("deps","lager/deps.hpp"),("with_deps","lager/store.hpp with_deps")])

p("C15","Converted contexts and effects deliver the same action to the same store",
"Dispatching through a context narrowed to fewer or convertible action types, or converted with a mapping function, any number of times, has exactly the effect of dispatching the converted action on the original store, once, and returns its future. Effects and results declared for a subset of actions and dependencies work unchanged when returned from a reducer over a superset. A converted context keeps giving access to the original event loop and dependencies.",
["programs","inputs"],"all chains of context conversions over variant action types and converters, all dispatched actions",
"Tests check one conversion of one action.",
["lager/context.hpp","lager/effect.hpp"],
[("dispatcher","lager/context.hpp detail::dispatcher"),("context conversion","lager/context.hpp context"),("result/effect conversion","lager/effect.hpp")])

p("C16","The manual and queue event loops run every posted task once, in order",
"Every function posted to a manual, queue or safe-queue loop runs exactly once, in posting order per thread; functions posted while the loop is running run after those already queued, within the same run. If a function throws, the exception reaches the caller, that function is not run again, and all the remaining ones still run, in order, on the next run. Asynchronous execution, which these loops do not support, is reported with an exception, and wrappers forward to the loop they wrap.",
["histories","fault_sequences"],"all histories of posts (nested to any depth), steps and throwing tasks, posted locally or from other threads",
"Tests cover one exception at one place; the property is over all positions of faults and nesting.",
["lager/event_loop/manual.hpp","lager/event_loop/queue.hpp","lager/event_loop/safe_queue.hpp"],
[("drain loops","with_manual_event_loop::post, queue_event_loop::step, safe_queue_event_loop::step")])

p("C17","Dispatching from any number of threads loses, duplicates or reorders nothing",
"With a loop that supports cross-thread posting (safe queue, Boost.Asio, Qt), actions dispatched concurrently from several threads are each applied exactly once, in the loop's thread, each thread's actions in its own order, and continuations on their futures run exactly once in the loop's thread. The final model equals the fold over the order observed. No data race occurs in the library while doing so.",
["schedules","histories"],"all interleavings of several dispatching threads with the loop thread stepping, including continuations attached while the loop is completing the action",
"No test dispatches from more than one thread at a time to a stepping loop.",
["lager/event_loop/safe_queue.hpp","lager/event_loop/boost_asio.hpp","lager/event_loop/qt.hpp","lager/store.hpp","lager/future.hpp"],
[("queue swap under lock","lager/event_loop/safe_queue.hpp"),("promise lock","lager/future.hpp")])

p("C18","The time-travel debugger is transparent and its history is faithful",
"With the debugger in place and no debugger command used, the application behaves exactly as without it. The debugger shows at every moment the model recorded at the current step, its history holds every applied action with the model and order they produced, going to a step, undoing and redoing show exactly the recorded model of the target step (commands beyond the ends change nothing), and acting after going back discards the steps after the current one. While paused, actions and their effects are held back without changing the model, and resuming applies them all once, in order, and runs their effects.",
["histories"],"all histories of actions, goto (in and out of range), undo, redo, pause and resume, with and without effects and futures, nested models via the store enhancer",
"Tests walk one or two fixed scripts; the property is over all command histories.",
["lager/debug/debugger.hpp"],
[("debugger model and update","lager/debug/debugger.hpp debugger::update"),("enhancer","lager/debug/debugger.hpp with_debugger")])

p("C19","The tree debugger records branching histories faithfully",
"With the tree debugger in place the application behaves as without it, the current model always equals the fold of the application's reducer along the path from the root to the cursor, and acting at the end of a branch continues it, while acting after going back to an earlier point opens a new one and leaves every previously recorded model and action unchanged. Going to any recorded position and undoing show exactly the model recorded there, positions that do not exist change nothing, and while paused actions and effects are held back and applied in order on resume.",
["histories"],"all histories of actions, goto to existing and non-existing positions, undo, pause and resume",
"Nothing tests the tree debugger beyond its construction.",
["lager/debug/tree_debugger.hpp"],
[("history append and lookup","lager/debug/tree_debugger.hpp")])

p("C20","The HTTP debug server reports and controls the debugger faithfully and safely",
"Requests to the debug server's API report the current summary, cursor and pause state and the recorded action and model of any step exactly as the debugger holds them - from the moment the server is up - and goto, undo, redo, pause and resume requests have exactly the effect of the corresponding debugger commands. Unknown requests and requests for steps that do not exist are answered with an error status, and bytes that are no HTTP request with one or with the end of the connection; neither they nor a goto beyond the history change anything or keep other requests from being answered. Static requests serve exactly the files below the configured resources directory and never a file outside it.",
["inputs","histories"],"all sequences of well- and ill-formed HTTP requests interleaved with application actions; all request targets",
"The server has no tests.",
["lager/debug/http_server.hpp","lager/debug/debugger.hpp"],
[("routes","lager/debug/http_server.hpp http_debug_server_impl::init"),("session","lager/debug/http_server.hpp detail::http::session")])

p("C21","Serialization round-trips every supported type in every supported archive",
"For every type the serialization extensions support - immutable vectors, flex-vectors, arrays, boxes, maps and sets, named variants, tuples, optionals, reflected structs (also with converted field names) and enums, nested in any way - saving a value and loading it yields an equal value, in binary and JSON, also when loading over an object that already holds another value. Saving does not depend on how a sequence was built. In JSON documents, members appear under their declared names (or in camel case where the struct asks for that), enums as names, sequences, sets, tuples and vectors of boxes as arrays, maps as arrays of keys and values (or of values that carry their key), boxes, optionals and variants as objects with their contents and the alternative's type name. With an archive that can tell which names are there, members missing from a document keep their value, or their initial one in new elements.",
["inputs","configurations"],"all values of generated nested types, all prior contents of the loaded object, JSON and portable/plain binary archives",
"Tests round-trip one or two small values per container into an empty object.",
["lager/extra/cereal/immer_vector.hpp","lager/extra/cereal/immer_flex_vector.hpp","lager/extra/cereal/immer_array.hpp","lager/extra/cereal/immer_box.hpp","lager/extra/cereal/immer_map.hpp","lager/extra/cereal/immer_set.hpp","lager/extra/cereal/variant_with_name.hpp","lager/extra/cereal/tuple.hpp","lager/extra/cereal/optional_nvp.hpp","lager/extra/cereal/inline.hpp","lager/extra/cereal/struct.hpp","lager/extra/cereal/enum.hpp","lager/extra/enum.hpp","lager/extra/derive/cereal.hpp"],
[("load/save functions","lager/extra/cereal/*.hpp")])

p("C22","Loading malformed serialized data fails cleanly or yields a valid value",
"Loading an arbitrary or corrupted JSON document, or a truncated binary one, into any supported type either succeeds with a valid value or fails with an exception; it never crashes, hangs or corrupts memory. Unknown enum names, unknown variant names, values of the wrong kind, missing members, tuples of the wrong size and duplicated elements or keys are rejected with an exception. A failed load leaves an object that can be used and loaded again.",
["inputs"],"all byte strings and structured mutations of valid documents",
"Tests load only documents produced by saving.",
["lager/extra/cereal/immer_vector.hpp","lager/extra/cereal/immer_flex_vector.hpp","lager/extra/cereal/immer_array.hpp","lager/extra/cereal/immer_map.hpp","lager/extra/cereal/immer_set.hpp","lager/extra/cereal/variant_with_name.hpp","lager/extra/cereal/enum.hpp","lager/extra/enum.hpp"],
[("load functions","lager/extra/cereal/*.hpp"),("to_enum","lager/extra/enum.hpp")])

p("C23","Derived equality, hashing and reflection take every declared member into account",
"For a struct with derived operations, two values are equal exactly when all declared members are equal, equal values have equal hashes and values differing in one member are told apart by equality, and the hash depends on every member; a struct without members has all values equal. Reflection enumerates the members by name in declaration order and assigning through it changes exactly that member. Deriving for templates, nested and empty structs behaves the same.",
["inputs","programs"],"all values and single-member differences of structs of various arities, templates, nested and empty structs, derived inside and outside namespaces",
"Tests check a few fixed values of small structs.",
["lager/extra/derive.hpp","lager/extra/derive/eq.hpp","lager/extra/derive/hash.hpp","lager/extra/derive/hana.hpp","lager/extra/derive/size_check.hpp","lager/extra/struct.hpp"],
[("derive macros","lager/extra/derive/*.hpp")])

p("C24","Enum-to-name and name-to-enum conversion are exact inverses",
"For a declared enumeration every listed value converts to its identifier and back to itself, and distinct values have distinct names. Any value or any string that is not listed - including near misses, prefixes, different case and empty text - is rejected with an exception.",
["inputs"],"all listed values, all other integral values, all strings",
"Tests check two names of one enum.",
["lager/extra/enum.hpp","lager/extra/cereal/enum.hpp"],
[("to_string/to_enum","lager/extra/enum.hpp")])

p("C25","Setter cursors forward each write once and always settle on the true value",
"Writing through a cursor made from a reader and a setter function calls the function exactly once per write, in order, with exactly the value written (composed through any lens on top of it). An automatic setter cursor shows the written value immediately; once its source publishes, the cursor shows the source's value, so it never stays diverged from its source after the source changes. The source itself is changed by nothing but the setter function.",
["histories","inputs"],"all histories of writes through the setter and cursors derived from it, source changes that accept, alter or ignore the write, and commits; automatic and transactional",
"Tests cover three fixed scenarios.",
["lager/setter.hpp","lager/store.hpp","lager/with.hpp"],
[("setter node","lager/setter.hpp setter_node")])

p("C26","Sensors refresh on commit only; constants and declared states never drift",
"A sensor samples its function when created and whenever it is committed, exposing the sampled value unchanged in between, and its watchers and derived readers see exactly the changes between samples. A constant, and everything derived only from constants, always returns its initial value and never notifies. Combinations of sensors, constants, states and stores committed together behave as one consistent set of roots.",
["histories","inputs"],"all histories of sampled values and commits over generated graphs mixing sensors, constants and states",
"Tests cover a counter sensor read twice.",
["lager/sensor.hpp","lager/constant.hpp","lager/state.hpp","lager/commit.hpp"],
[("sensor node","lager/sensor.hpp sensor_node"),("constant node","lager/constant.hpp constant_node")])

p("C27","Store enhancers compose without changing what the store does",
"A store built with any combination and order of the provided enhancers - reducer, dependencies, futures, thunks, tags - behaves like the plain store for ordinary actions: same models, effects, ordering and notifications; a later-applied dependency set overrides an earlier one only for the keys it supplies. A thunk dispatched to a thunk-enabled store runs exactly once in the loop, in dispatch order with other actions, leaves the model unchanged by itself, can dispatch actions and further thunks, reach the dependencies, and delays its dispatch future until it has completed. A store converted to one with fewer dependencies keeps working as the same store.",
["configurations","histories"],"all orders of generated subsets of enhancers and all dispatch histories mixing actions and thunks",
"Tests combine at most two enhancers with one action.",
["lager/store.hpp","lager/extra/thunk.hpp","lager/context.hpp"],
[("enhancers","lager/store.hpp with_tags/with_futures/with_deps/with_reducer"),("thunk","lager/extra/thunk.hpp")])

p("C28","The Asio, Qt, QML and SDL loops run posted work once, in order, in the loop",
"Work posted to a loop backed by Boost.Asio, Qt, QML or SDL, from the loop's thread or another, runs exactly once, later, in the loop's thread and in posting order; posting from inside running work is queued behind. Asynchronous work runs exactly once outside the caller's flow and keeps the loop alive (Asio) or is waited for (Qt). Finishing stops the loop; pausing the SDL loop suspends ticks and input handling but not posted work until resumed.",
["histories","schedules","configurations"],"all histories of posts, nested posts, async calls, pause/resume and finish on each loop",
"Tests post one or two functions per loop; SDL has none.",
["lager/event_loop/boost_asio.hpp","lager/event_loop/qt.hpp","lager/event_loop/qml.hpp","lager/event_loop/sdl.hpp"],
[("post/async/finish","lager/event_loop/*.hpp")])

p("C29","Variant matching calls exactly the handler of the held alternative",
"Matching one or several variants - lvalue, const or rvalue, plain or of a type derived from a variant - invokes exactly one handler, the best overload for the held alternatives, once, with the held values themselves (moved only when an rvalue was given) and returns its result. An overloaded visitor behaves as the overload set of its parts. The no-op and identity helpers ignore, respectively return, their argument.",
["inputs","programs"],"all alternatives and value categories, one to three variants",
"Tests cover one variant of each kind.",
["lager/util.hpp"],
[("match/visitor","lager/util.hpp")])

p("C30","Qt properties mirror the readers and cursors they declare",
"A declared Qt property always reads the published value of its reader or cursor, emits its change signal exactly once with the new value per published change and never otherwise, and writing a cursor property writes the underlying cursor. Constant properties never change.",
["histories","inputs"],"all histories of writes through the property, through the underlying state, and of commits",
"Nothing tests the Qt property macros.",
["lager/extra/qt.hpp"],
[("property macros","lager/extra/qt.hpp")])

p("C31","Built without exceptions, absent parts are found and left alone all the same",
"When the library is configured without exceptions, the lenses by key or index (plain, with a default, lifted through optionals, nested, or through brackets on readers and cursors) view, set and notify exactly as in a build with exceptions: a key that is absent is recognised before it is used, so nothing throws or terminates, viewing it yields nothing or the default, setting it changes nothing, and elements present are read and replaced.",
["inputs","histories","configurations"],"all sequences and maps, keys of every integer width and sign, present and absent, and all histories in which the element comes and goes, with exceptions disabled",
"The test suite is only built with exceptions, where the code that looks for the key beforehand is compiled out.",
["lager/lenses/at.hpp","lager/lenses/at_or.hpp","lager/config.hpp"],
[("maybe_has_key","lager/lenses/at.hpp"),("at setters","lager/lenses/at.hpp"),("at_or","lager/lenses/at_or.hpp")])

p("C32","What user code throws reaches the caller and leaves everything usable",
"When a watcher, a sensor's function, a setter function, an update function, a lens, a reducer or an effect throws, the exception reaches whoever made the call that ran it (the writer, the committer, the dispatcher, or whoever steps the event loop) and nothing else of what happened is undone or made up. A write, update or action cut off by its own function changes nothing, and a publication cut off by a watcher still leaves every reader with the published value. Every watcher is notified of every later change exactly once, a watcher that was skipped is at most told late, none that was notified is told again, and the other work queued in the event loop still runs.",
["histories","faults"],"all graphs over states, sensors, setter cursors and stores, and all histories in which user code throws at any call",
"The tests hardly throw from user code, and never in the middle of a publication.",
["lager/detail/nodes.hpp","lager/setter.hpp","lager/sensor.hpp","lager/writer.hpp","lager/store.hpp","lager/event_loop/manual.hpp","lager/event_loop/queue.hpp"],
[("notify/send_down","lager/detail/nodes.hpp reader_node"),("setter send_up","lager/setter.hpp"),("dispatch","lager/store.hpp store_node"),("queues","lager/event_loop/manual.hpp, queue.hpp")])

p("C33","What the caller keeps stays as it was and can be used again",
"Functions, values, lenses, transducers, keys, readers, cursors, actions, models, reducers, enhancers, effects and dependencies that are given as lvalues, const or not, to whatever makes or uses readers, cursors, lenses, watchers, sensors, setter cursors, stores, effects or posted work are left as they were. Using the same one any number of times, for several objects at once, gives each of them all of what it would have on its own.",
["histories","inputs"],"all sequences of constructions and uses that share what they are made from, in every value category",
"The tests write nearly everything in place, as rvalues, and use it once.",
["lager/with.hpp","lager/setter.hpp","lager/sensor.hpp","lager/lens.hpp","lager/lenses.hpp","lager/lenses/at.hpp","lager/lenses/at_or.hpp","lager/detail/xform_nodes.hpp","lager/detail/lens_nodes.hpp","lager/detail/signal.hpp","lager/store.hpp","lager/effect.hpp","lager/deps.hpp","lager/future.hpp"],
[("with expressions","lager/with.hpp"),("lenses","lager/lenses.hpp, lager/lenses/*.hpp"),("nodes","lager/detail/*_nodes.hpp"),("make_store and enhancers","lager/store.hpp"),("effects","lager/effect.hpp")])

with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
import re
for x in P:
    n=len(re.findall(r'[.](?=\s|$)',x['statement']))
    if n>3: print(x['id'],n)

# One entry per property: the single source of properties.jsonl, MANIFEST.json
# and the explanation that the evidence carries. Run tools/gen.py after editing.
P = []

def prop(id, title, statement, over, qtext, why, files, mech, technique, note, explain, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                  files=files, mech=mech, technique=technique, note=note, explain=explain, observe=observe))

NA = []

def na(id, title, statement, over, qtext, why, files, mech, reason):
    NA.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why,
                   files=files, mech=mech, reason=reason))

TRUST = (" Trusts the go/types and go/ssa front end, the documented behaviour of the standard library and of the"
         " vendored dependencies, and the absence of integer overflow in counters. Where the analysis can't"
         " understand a construct it prints UNDECIDED and counts it in the evidence instead of guessing.")

prop("C01", "A finished trace never changes",
 "Once a trace made by the package has been finished, nothing that is done to it afterwards changes what it reports: not its duration, error state, recorded events, event order or event times, and no event recorded concurrently with or after the finish is added in part. "
 "Finishing is idempotent and records the time since the start exactly once; until then the reported duration is the time elapsed since the start. "
 "An event that was recorded is never modified or removed while the trace is in use.",
 ["schedules", "histories"], "all sequences and interleavings of event, finish and read calls on one trace",
 "Tests call Finish once on one goroutine; they can't cover every interleaving of event methods with Finish, or every method sequence afterwards.",
 ["trace_core.go"],
 [("event methods", "trace_core.go: Tracef, LazyTracef, Errorf, LazyErrorf"), ("Finish, Duration, Finished, Errored", "trace_core.go")],
 "path-sensitive typestate and lockset analysis over SSA",
 "Every store to the state of a trace, on every abstract path of every function that can reach it, is shown to be in a critical section that established the trace was unfinished." + TRUST,
 "Every exported entry point that can reach the state of the default trace type is interpreted abstractly, path by path. For each store to duration, errored, finished, events or truncated the path facts must show, in the same critical section, that the trace was not finished; Finish must set both flags exactly on the unfinished paths; accessors must return the recorded fields.")

prop("C04", "Stored events are bounded, and overflow is counted",
 "A trace stores at most its maximum number of events, which is always between 10 and 10000 and 1000 unless configured otherwise. "
 "Each event call on an unfinished trace either stores exactly one event, whenever fewer than the maximum are stored, or else adds exactly one to a truncated count. "
 "Reading the events of a trace that truncated nothing yields every stored event and no notice, and otherwise ends with a notice carrying the exact number of truncated events; never more events are returned than are stored.",
 ["histories", "configurations", "inputs"], "all numbers and kinds of events, and all configured maxima including out-of-range ones",
 "Tests use a few counts around one maximum; off-by-one changes on other kinds of event or other setters go unseen.",
 ["trace_core.go", "helpers.go"],
 [("event limit", "trace_core.go: event methods"), ("clamping", "trace_core.go: SetTraceMaxEvents, SetMaxEvents"), ("truncation notice", "trace_core.go: EventsDetail")],
 "interval and length abstract interpretation over SSA paths",
 "Per path, the change of the number of stored events and of the truncated count is computed symbolically and compared with the guard facts." + TRUST,
 "For each of the four event methods, every abstract path of an unfinished trace is checked to append exactly one event under the fact len < max, or to add exactly one to the truncated counter under the fact len >= max. Every store to a max field or the package-level max is checked to be within [10, 10000], and the initial value to be 1000. Every path of the events readers is checked for the length of the result and the truncation notice.")

prop("C05", "Events report exactly what was recorded",
 "Each event of a trace is reported with the text produced by formatting exactly the given format and arguments, with its error flag set exactly for error events, with the time at which it was recorded, and in recording order. "
 "A trace is errored if and only if an error event was recorded while it was unfinished. "
 "Immediate events are formatted during the call and lazy events are not; the text of a lazy event is formatted from the recorded format and arguments, and every reader, concurrent or not, sees the same text.",
 ["inputs", "schedules", "histories"], "all formats, arguments and event kinds, and all interleavings of readers",
 "Tests compare a handful of events; they can't cover racing first reads of a lazy event, or every combination of kind and reader.",
 ["trace_core.go"],
 [("event construction", "trace_core.go: newCoreEvent"), ("lazy text", "trace_core.go: stringer"), ("snapshot", "trace_core.go: snapshotEvents")],
 "path-sensitive value-flow analysis over SSA",
 "The values stored in an event and copied to readers are tracked symbolically from the parameters of the event methods." + TRUST,
 "Value flow from the parameters of each event method into the recorded event (text, args, error flag, time), from the recorded event to the copies given to readers (field by field, index by index), and through the lazily formatted text: at most one formatting result is published (compare-and-swap winner), from the recorded format and args.")

prop("C06", "Wrapping a trace changes nothing but what it advertises",
 "Every event recorded through a decorated, prefixed, region or package-level trace handle is forwarded to the underlying trace exactly once, as the same kind of event and with the given format and arguments, except that a prefix is put before them exactly once; arguments of different events never share memory. "
 "Every decorator does its own work exactly once per event (one log line, marked if it's an error, or one publication after the event was recorded), and also when the trace is created and finished (the log line then states the outcome and the final duration), and forwards everything else unchanged, including recycling; a region is marked by one event at its start and one at its end, in the surrounding trace. "
 "Names, prefixes and other data are never interpreted as format strings, so percent signs in them come out unchanged.",
 ["inputs", "programs", "histories"], "all nestings of decorators, prefixes and regions, and all formats and arguments",
 "Tests look at one prefix and no decorators; they can't cover every method of every wrapper, nested prefixes with spare slice capacity, or data containing verbs.",
 ["decorators.go", "helpers.go", "trace.go", "eztrc/easy.go"],
 [("decorators", "decorators.go"), ("prefix and region", "helpers.go"), ("package-level functions", "eztrc/easy.go")],
 "effect analysis per wrapper method, alias analysis of argument slices, and a format-string taint lint",
 "Every method of every type that wraps a trace is interpreted on all paths, and its effects on the wrapped trace are counted and compared." + TRUST,
 "For every method of every wrapper type, and every package-level event function, all abstract paths are checked: exactly one call of the same method on the wrapped trace, with the given format and args (after the prefix for prefixed traces), not aliasing the prefix's args; decorator effects exactly once and in order; Free forwarded. Every printf-like call in the repository is checked to have a constant format, or one that is itself a format parameter.")

prop("C07", "Recycled memory carries nothing over and isn't used again",
 "A new trace never shows anything from the earlier life of recycled memory: it starts unfinished, not errored, with no events, nothing truncated, and its own source, category, ID and start time, and its events have only their own time, text, error flag and stack. "
 "Memory of a trace is recycled only when the trace is finished, at most once per free, together with its events, and isn't touched by the package after that; traces that are still in use are left alone.",
 ["histories", "schedules", "programs"], "all sequences of creating, recording, finishing, evicting and recreating traces",
 "Whether a pooled object is reused depends on the scheduler and the garbage collector, so tests rarely see a recycled one.",
 ["trace_core.go"],
 [("trace pool", "trace_core.go: newCoreTrace, Free"), ("event pool", "trace_core.go: newCoreEvent, free"), ("text pool", "trace_core.go: newNormalStringer, newLazyStringer, free")],
 "typestate analysis of pooled objects (get, initialise, put) over SSA paths",
 "For every field of every pooled type, either every path that takes an object out of the pool sets it, or every path that puts one back resets it." + TRUST,
 "For every type kept in a sync.Pool: all paths that take an object from the pool are checked to overwrite every field with a value that doesn't depend on its previous content (or all paths that put one back to reset it); no path uses an object after putting it back or puts it twice; a trace is only put back when established to be finished, under its lock, and its events only together with it; each pool stores and produces a single type.")

prop("C08", "What a reader was given never changes",
 "The events, stacks and static copies handed out by a trace, a search or a stream are independent of the live trace: recording more events, finishing, eviction or recycling never changes a copy that was already handed out. "
 "Making, filtering, trimming or reading a static copy never modifies the trace it was made from, and trimming to a stack depth leaves at most that many frames (none if negative, all if zero).",
 ["schedules", "histories"], "all interleavings of taking snapshots with recording, eviction and reuse",
 "Aliasing only shows when memory is recycled or mutated later at the wrong moment.",
 ["trace_static.go", "trace_core.go"],
 [("static copies", "trace_static.go: NewSearchTrace, NewStreamTrace"), ("event copies", "trace_core.go: snapshotEvents")],
 "alias and effect analysis over SSA paths",
 "Every slice in a value handed out is traced to an allocation made for it; constructors and readers of copies are checked to have no effect on the original." + TRUST,
 "Every path that copies events is checked to allocate new memory for the slice of events and for each stack; every constructor and method of the static copy is checked not to store into memory reachable from the original; the stack trimming function is checked on every path and range of depth.")

prop("C09", "A trace keeps its identity, and contexts carry it",
 "A new trace reports the source and category it was created with, its own ID, and the time of its creation, and never changes them. "
 "A context into which a trace was put yields exactly that trace and keeps everything else of the parent context, one without a trace is reported as having none, and getting a trace from it yields a usable orphan. "
 "Creating a trace applies all decorators in the given order and returns the same trace that is in the returned context; creating one where the context already has a trace returns the existing one, marked with one event for the category.",
 ["inputs", "programs", "configurations"], "all contexts, sources, categories, and sets of decorators",
 "Tests check a default collector without decorators and a few contexts.",
 ["trace.go", "trace_core.go", "collector.go"],
 [("context", "trace.go: Get, MaybeGet, Put"), ("creation", "trace_core.go: New; collector.go: NewTrace")],
 "path-sensitive value-flow analysis over SSA",
 "Values are tracked from parameters to the fields, contexts and results on every path." + TRUST,
 "Value flow on every path of Put, MaybeGet, Get, New, Collector.NewTrace and the accessors; every store to identity fields in the package is checked to be part of creating the trace; the context key type is checked to be private.")

prop("C10", "Each category keeps exactly its newest traces",
 "A category buffer of size N always holds exactly the most recent N elements added to it (or all of them when fewer), reports the one it evicted exactly when it was full, and walks them newest to oldest, each exactly once, stopping at the first error. "
 "Resizing keeps the newest elements in order, reports every dropped element exactly once, and applies to existing and future categories; sizes of zero or less are ignored. "
 "Every category name has exactly one buffer, for all interleavings of first uses.",
 ["histories", "schedules", "inputs"], "all sequences of adding, walking and resizing with any sizes",
 "Tests try a few sizes; wrap-around after several resizes, or shrinking while wrapped, has unboundedly many cases.",
 ["internal/trcringbuf/ringbuffer.go"],
 [("ring buffer", "internal/trcringbuf/ringbuffer.go: Add, Walk, Resize, Stats"), ("categories", "internal/trcringbuf/ringbuffer.go: GetOrCreate, GetAll, Resize")],
 "inductive representation-invariant check by linear abstract interpretation over SSA",
 "Each operation is interpreted from both cases of the representation invariant (filling, full) and shown to preserve it and to produce the specified elements; index arithmetic is compared modulo the length." + TRUST,
 "For each method of the ring buffer, all paths from each case of the invariant (count < size and cursor = count; or count = size and 0 <= cursor < size) are checked: which slot is written or read in iteration k modulo the size, how count and cursor change, what is reported as evicted, that loops cover all elements, and that the invariant holds again. The map of buffers is checked for get-or-create, copying and resizing.")

prop("C11", "Every collected trace is registered, and evicted ones released",
 "Every trace created by a collector is registered exactly once, under its own category, as the same decorated trace the caller gets, so that it's found by searches until it's evicted. "
 "Every trace that is evicted, by a new one or by making categories smaller, is offered for recycling exactly once, and no other trace is. "
 "A new collector keeps 1000 traces per category.",
 ["histories", "configurations"], "all sequences of creating traces and changing the category size",
 "Tests create a few traces with one configuration and don't observe recycling.",
 ["collector.go"],
 [("registration", "collector.go: NewTrace"), ("eviction", "collector.go: NewTrace, SetCategorySize")],
 "effect analysis over SSA paths",
 "Calls into the buffers and to the recycling hook are counted on every path and their arguments compared." + TRUST,
 "Every path of Collector.NewTrace is checked for exactly one registration of the returned trace under its category (none if the context already had one), and for freeing exactly the evicted trace; SetCategorySize for applying the size and freeing every dropped trace; the constructor for the default size.")

prop("C25", "Static copies are faithful and coherent",
 "A static copy made for a search carries the same ID, source, category, start, duration, error state, finished state and events as the trace, with all forms of the duration saying the same, and one that is marked finished always carries the final duration, error state and all events, even if the trace is finished while the copy is made. "
 "A copy made for a stream carries no stacks, and exactly the most recent event while the trace is active, but all events once it is finished.",
 ["schedules", "inputs"], "all interleavings of copying with recording and finishing",
 "A torn copy needs Finish to run between two reads of the copying goroutine.",
 ["trace_static.go"],
 [("search copy", "trace_static.go: NewSearchTrace"), ("stream copy", "trace_static.go: NewStreamTrace")],
 "ordering (read-sequence) and value-flow analysis over SSA paths",
 "Field by field the copied value is matched to the accessor, and the reads are checked to be ordered so that a copy marked finished can only have final values." + TRUST,
 "Every path of the constructors of static copies: each field is the result of the corresponding accessor, Finished is read once and before the duration, error state and events; the stream copy takes all events exactly when finished, the last one otherwise, without stacks; every accessor of the copy returns the corresponding field.")

prop("C13", "A search returns the newest matching traces, and accounts for all",
 "A search of a collector counts every trace it holds exactly once in the statistics and the total count, whether it matches or not, in every category. "
 "It returns copies of traces that the filter allowed when they were visited, and only of those: the newest ones, newest first, at most as many as the limit, with stacks trimmed as requested; no trace is left out in favour of an older one. "
 "The response refers to the normalised request, the collector's source and the problems of the request, and its match count covers every selected trace.",
 ["inputs", "histories", "configurations"], "all contents of the collector, filters, limits and depths",
 "Tests search a few traces in one or two categories; orders, limits and categories interact in unboundedly many ways.",
 ["collector.go", "trace_static.go"],
 [("search", "collector.go: Collector.Search"), ("order", "trace_static.go: staticTracesNewestFirst")],
 "loop-summary dataflow analysis over SSA (per-iteration effects and accumulators)",
 "The search loops are summarised by a generic iteration with symbolic accumulators; each iteration case is checked for what it counts and selects." + TRUST,
 "Collector.Search is interpreted with the loops over categories and over a category's buffer summarised by their generic iterations: every iteration must observe its trace once in the returned stats and add one to the total; the selection grows by exactly the trimmed copy of the visited trace on exactly the paths where the filter allowed it and its category's selection is below the limit; loops are left only at their headers; the selection is sorted (the comparison function is itself interpreted) before it's cut at the limit.")

prop("C17", "Searching several searchers is searching their union",
 "A multi-searcher asks each of its searchers exactly once with the normalised request, waits for every answer and never gets stuck, however they fail. "
 "It returns the union of their answers: total and match counts added up, statistics merged once each, all distinct sources in order, and the newest traces of all, newest first, at most as many as the limit. "
 "A searcher that fails, or yields nothing, is reported as a problem, along with the problems others report, and never costs the answers of the others.",
 ["schedules", "fault_sequences", "configurations"], "all numbers of searchers, orders of completion, and combinations of answers and errors",
 "Tests use a few well-behaved searchers; the combinations of failing, slow and empty ones are unbounded.",
 ["search_types.go"],
 [("scatter and gather", "search_types.go: MultiSearcher.Search")],
 "loop-summary dataflow and channel-protocol analysis over SSA",
 "One goroutine per searcher, each sending exactly one answer on all paths, into a channel with room for all; per received answer the change of each accumulator is compared with the answer's fields." + TRUST,
 "All paths of MultiSearcher.Search: the scattering loop starts one goroutine per searcher after normalising the request; every path of the goroutine searches once with that request and sends its result exactly once, to a channel whose capacity is at least the number of searchers; the gathering loop receives exactly that number, and each of its iteration cases (answer or not, error or not) is checked for the change of counts, stats, traces, problems and sources; then sorting before cutting at the limit, and the list of sources being the sorted keys of a map of all of them.")

prop("C12", "A filter allows exactly the traces that satisfy all its conditions",
 "A filter allows a trace if and only if the trace satisfies every condition that is set: its source and its ID are among the listed ones, its category is equal, it's active or finished or successful or errored as demanded, it's finished and lasted at least the minimum duration, and the query matches the text of an event or a function or file:line of an event's stack. "
 "Conditions that aren't set don't matter, and an empty filter allows everything. "
 "The query in effect is always the current one, whether or not the filter was normalised, and an invalid query is dropped, not guessed.",
 ["inputs", "configurations"], "all filters and all traces",
 "The conditions combine in 2^9 ways and each of them quantifies over lists, events and stack frames.",
 ["filter.go"],
 [("filter", "filter.go: Filter.Allow"), ("query", "filter.go: Filter.initializeQueryRegexp")],
 "path-condition analysis over SSA (each returned verdict against the conditions established on its path)",
 "Every path to a verdict is checked both ways: a rejection must have established one violated condition, and an acceptance that each condition is unset or satisfied." + TRUST,
 "All paths of Filter.Allow with the loops over sources, IDs, events and stack frames summarised: a path that returns false must have established that a condition is set and violated (for lists: no element equal after looking at all; for the query: no event text, function or file:line matched after looking at all), a path that returns true must have established for each condition that it's unset or satisfied; the regexp used must be the compiled current query.")

prop("C14", "Normalising a request makes it valid, and does nothing when repeated",
 "After a search request has been normalised its limit is between 1 and 250, with 10 as the default for zero and negative limits and other values clamped to the range, and its buckets are ascending, start with zero and contain the given non-negative durations, or the defaults if none were given. "
 "An invalid query is dropped and reported as a problem; a valid one is kept. "
 "Normalising a valid request changes nothing, so that requests can be shared by concurrent searches.",
 ["inputs", "schedules"], "all requests, including hostile ones from the network",
 "Tests normalise one or two requests; limits, buckets and queries come from the network.",
 ["search_types.go", "filter.go"],
 [("normalisation", "search_types.go: SearchRequest.Normalize"), ("filter normalisation", "filter.go: Filter.Normalize")],
 "path-sensitive interval and value analysis over SSA",
 "The final limit and buckets on every path are compared with the intended ones by the path's interval facts; a second run from the final state is shown to store nothing." + TRUST,
 "All paths of SearchRequest.Normalize: the final limit is within the bounds and is the given one when that was valid; the final buckets are sorted by an interpreted comparison, don't start with a negative duration, and start with zero; on the paths on which the request was valid already no field is stored; the errors of the filter are all returned; Filter.Normalize reports a query that doesn't compile and clears it.")

prop("C15", "Statistics count every observed trace once, in the right class",
 "Observing a trace counts it in the statistics of its own category, in exactly one class: active while it isn't finished, errored if it's finished with an error, and otherwise by duration, once in every bucket whose bound is at most its duration and in no other. "
 "The number of events, and the oldest and newest start times of a category, cover every observed trace, and the total count is the sum over the classes. "
 "A trace that's finishing at the same time is counted as one of the classes it passes through, never as a successful one when it fails.",
 ["inputs", "schedules"], "all traces, durations and bucket bounds, and all interleavings with a finish",
 "Bucket boundaries and the interleaving of reads with a finish can't be sampled exhaustively.",
 ["search_stats.go"],
 [("observation", "search_stats.go: SearchStats.Observe"), ("total", "search_stats.go: CategoryStats.TotalCount")],
 "loop-summary dataflow and read-ordering analysis over SSA",
 "Each path of the generic observation iteration is classified by what it established about the trace, and the change of each counter is compared with that class." + TRUST,
 "The loop of SearchStats.Observe is summarised by its generic iteration: per path the stats are those looked up or newly filed under the trace's category, exactly one of active, errored and buckets changes, by one, as established by the readings of Finished and Errored, read in that order; the bucket loop counts exactly the buckets whose bound is known to be at most the duration and is left early only if the bound is known to exceed it; the event count grows by the number of events; the time kept is shown to be the older (newer) one.")

prop("C16", "Merging statistics adds them up and leaves the sources alone",
 "Merging statistics into others adds up every count of every category, takes the older of the oldest and the newer of the newest times, and creates categories that are missing, without changing the merged statistics or sharing memory with them. "
 "Only statistics without any trace are treated as empty; merging those, or nothing, changes nothing. "
 "The overall statistics are a fresh sum of all categories, and the list of all consists of every category and the overall one.",
 ["inputs", "histories"], "all statistics, and all sequences of merges",
 "Lost or doubled counts only show for particular combinations of categories and counts, and shared memory only after later merges.",
 ["search_stats.go"],
 [("merging", "search_stats.go: SearchStats.Merge, CategoryStats.Merge"), ("summaries", "search_stats.go: Overall, AllCategories")],
 "loop-summary dataflow and aliasing analysis over SSA",
 "The final value of each field is compared, as a linear term, with the sum of the two initial ones." + TRUST,
 "All paths of CategoryStats.Merge: final counts are own plus other's, per bucket for all buckets, or copied from the other when empty; no store reaches the merged stats and no slice is shared. SearchStats.Merge, Overall and AllCategories: the generic iteration over the categories merges or lists each category once, into the entry filed under the same key; IsZero may return true only if no trace is counted.")

prop("C18", "Publishing never blocks, and accounts for every subscriber",
 "Publishing a trace never waits for a subscriber, however slow or absent its reader is. "
 "Every subscription that exists at that time is considered exactly once and counted as exactly one of skipped (its filter rejects the stream copy of the trace), sent, or dropped (no room); the copy the filter judged is the one that's sent. "
 "Every trace of a collector publishes to that collector's broker, once when it's created, after each event, and when it's finished.",
 ["schedules", "histories"], "all sets of subscribers, filters and states of their channels",
 "Tests have one or two attentive subscribers; a block or a miscount needs a full channel, or one subscriber whose state affects another.",
 ["broker.go", "collector.go", "decorators.go"],
 [("publishing", "broker.go: Broker.Publish"), ("connection", "collector.go: Collector.NewTrace")],
 "loop-summary effect and channel-protocol analysis over SSA",
 "All paths of the generic iteration over the subscribers; every channel operation reachable from Publish is shown to be non-blocking." + TRUST,
 "All paths of Broker.Publish: no operation that can wait for another goroutine (send, receive, select without default, wait groups, sleeping), also in started goroutines; the loop over the subscribers is left only when it's exhausted; in each of its iteration cases the filter of that subscriber is asked about NewStreamTrace of the published trace, and exactly one counter of that subscriber grows, by one, matching the filter's answer and the chosen case of the select, which sends that copy to that subscriber's channel.")

prop("C19", "A subscription lasts exactly until its context is done",
 "A successful Stream call registers the given channel with the given filter and zero counters, keeps it registered until the context is done, and then removes it and returns the final counters and the context's error. "
 "A channel that's already subscribed is rejected with an error, however concurrent the calls, and nothing that fails disturbs an existing subscription. "
 "Statistics of a subscription are those of the given channel, can be read at any time without changing them, and an unknown channel is an error; a collector's subscriptions are its broker's.",
 ["schedules", "histories"], "all interleavings of subscribing, publishing, cancelling and asking for statistics",
 "Duplicate registration and removal races need exact interleavings.",
 ["broker.go", "collector.go"],
 [("subscription", "broker.go: Broker.Stream"), ("statistics", "broker.go: Broker.StreamStats"), ("delegation", "collector.go: Collector.Stream, StreamStats")],
 "typestate and critical-section analysis over SSA",
 "The states unregistered, registered, done, removed are tracked over all paths; facts about the registry only count within the critical section in which they were read." + TRUST,
 "All paths of Broker.Stream: a path that doesn't register established that the channel was registered and returns an error without touching the registry; a path that registers does so once, under the lock, in the critical section in which it established the channel's absence, with each filter field, the channel and zero counters; then it receives from the context's Done channel without a lock, removes that key once, and returns that subscription's three counters and the context's error. StreamStats, NewBroker and the collector's methods likewise.")

prop("C02", "Shared state is never accessed without synchronisation",
 "Traces, collectors, category buffers, brokers, subscriptions, trace servers and package-level settings may be used by any number of goroutines at once without a data race: everything in them that changes is read and written only while the lock that protects it is held, or through atomic operations, and nothing that's protected is handed out for use after the lock was released. "
 "Goroutines started by the package share no variable with their creator, or with each other, that either writes without synchronisation. "
 "A normalised search request isn't written to by the searches that share it.",
 ["schedules", "programs"], "all interleavings of all exported methods of all shared types",
 "The race detector only sees the interleavings and method pairs that a test happens to run.",
 ["trace_core.go", "broker.go", "decorators.go", "internal/trcringbuf/ringbuffer.go", "internal/trcutil/atomic.go", "trcweb/trace_server.go", "search_types.go"],
 [("locks", "trace_core.go: coreTrace.mtx; broker.go: Broker.mtx; ringbuffer.go: RingBuffer.mtx, RingBuffers.mtx"), ("atomics", "trace_core.go: traceMaxEvents, traceNoStacks; internal/trcdebug"), ("goroutines", "search_types.go: MultiSearcher.Search; trcweb/trace_server.go")],
 "path-sensitive lockset (guarded-by) and escape analysis over SSA",
 "Every access to a field that changes after construction, and to memory reached through it, on every abstract path of every exported entry point is matched with the set of locks held at that point." + TRUST,
 "For every struct type that has a lock, every load, store, map operation and length of its mutable fields, and of memory reached through them without passing another locked object, on all abstract paths of all exported functions and methods that can reach it, happens with the lock of that very object held (exclusively for writes); results don't alias protected maps or slices; package variables are written only by initialisers or through sync types; methods of shared types without a lock don't store into them; variables captured by goroutines aren't accessed by both sides without a synchronising operation between; searches don't write to the normalised request.")

prop("C03", "Locks are always released, and nothing deadlocks",
 "Every lock that the package takes is released on every way out of the function that took it, also when a function supplied by the user panics, and only by its holder. "
 "No operation takes a lock it already holds, or waits for another goroutine, a channel or the network while holding one, and locks of different kinds are always taken in a consistent order. "
 "Hence no sequence or interleaving of calls can leave a trace, collector or broker stuck.",
 ["schedules", "fault_sequences"], "all interleavings, and panics in all user-supplied functions called with a lock held",
 "Deadlocks and leaked locks need a specific interleaving, an early return or a panic in a callback at the right place.",
 ["trace_core.go", "broker.go", "internal/trcringbuf/ringbuffer.go"],
 [("locking", "trace_core.go, broker.go, internal/trcringbuf/ringbuffer.go: methods taking mtx"), ("callbacks", "internal/trcringbuf/ringbuffer.go: RingBuffer.Walk; collector.go: Collector.Search")],
 "typestate analysis of locks and lock-order graph over SSA",
 "All abstract paths, including those on which an unknown function called under a lock panics; lock-order edges and waiting through interface calls use all implementations in the repository, and user implementations are assumed not to call back into the same object." + TRUST,
 "All abstract paths of all exported entry points that can take a lock end, by return or panic, with no lock held; no lock operation on a held lock; no unlock of a lock that isn't held; no blocking channel operation, wait or network call, also in repository callees and in function literals passed to functions that call them with a lock held; the graph of lock kinds taken while holding others has no cycle.")

prop("C20", "A search means the same over HTTP as it does locally",
 "Every field of a search request, and of its filter, reaches the searcher behind the trace server exactly as the client gave it, whether sent as JSON by the search client, or as URL parameters written by the filter encoding or by the page's own links and forms (an empty source in a form means no restriction); and every field of the response reaches the client as the searcher gave it. "
 "A request that can't be decoded is rejected without a search, and a failed request, a status other than 200 or a response that can't be decoded is an error to the client, never a response. "
 "A provided Searcher takes precedence over the collector, and runs once per request, in the request's context.",
 ["inputs", "fault_sequences"], "all requests, filters, responses, status codes and transport failures",
 "A lost or swapped field shows only for requests that use that field in combination with others; failures of the peer aren't tested at all.",
 ["trcweb/trace_server.go", "trcweb/util.go", "trcweb/assets/traces.html", "filter.go", "search_types.go", "trace_static.go"],
 [("URL encoding", "trcweb/util.go: encodeFilter, parseFilter"), ("client", "trcweb/trace_server.go: SearchClient.Search"), ("server", "trcweb/trace_server.go: TraceServer.handleSearch"), ("page", "trcweb/assets/traces.html: links and search form"), ("JSON", "struct tags of the transmitted types")],
 "field-sensitive value-flow analysis of both ends over SSA, type-level check of the JSON encoding, and lint of the page",
 "All abstract paths of the encoder, parser, client and handler; the values of net/http, net/url and encoding/json are trusted to work as documented." + TRUST,
 "JSON: every exported field reachable from the transmitted types has a distinct encodable JSON name (fields holding errors excepted). URL: on all paths of the filter encoder each field of Filter determines exactly its own parameter (flags by presence, strings and durations by value, lists element by element) and everything written ends up in the request; on all paths of the parser each field is computed from the parameter that carries it; every parameter in the page's links and forms is one the server reads. Client: all paths of SearchClient.Search send the request as JSON once, and return either an error or the decoded response of a 200. Server: all paths of ServeHTTP reject undecodable bodies with 4xx, otherwise search once with, field by field, the decoded or parsed request, and render the result field by field.")

prop("C26", "A remote stream delivers what the server streams",
 "A stream client sends its filter and options to the server, and the server makes exactly one subscription with exactly that filter, in the context of the request; a filter that isn't valid is rejected instead. "
 "Every trace that the subscription yields is sent to the client as exactly one event, except the trace of the stream request itself, and the client delivers each of them exactly once, as a trace of its own, without dropping any however slow the receiver is. "
 "The stream ends only when its context or connection does, or with an error that says why; intervals and buffer sizes are limited to their documented ranges and defaults.",
 ["histories", "inputs", "schedules", "configurations"], "all filters, options, sequences of streamed events, and points at which either side stops",
 "The end-to-end test streams a few events with one filter; it can't cover slow receivers, events of every kind, failed reads and decodes, or every combination of options.",
 ["trcweb/trace_server.go", "trcweb/util.go"],
 [("stream handler", "trcweb/trace_server.go: handleStream"), ("stream client", "trcweb/trace_server.go: StreamClient.Stream"), ("client options", "trcweb/trace_server.go: StreamClient.initialize")],
 "value-flow analysis of both ends of the protocol, and interval analysis of the options, over SSA paths",
 "Every pass through the event loops of server and client is enumerated, and what is received is matched with what is sent on." + TRUST,
 "Server: every abstract path of ServeHTTP that streams is checked for one Stream call on the configured streamer, with each field of the filter decoded from the body or parsed from the URL, after the filter was normalized without problems, in a context derived from the request; every pass through the event loop that receives a trace must marshal and encode it once, unless it has the ID of the request's own trace or can't be marshaled; the loop is left only when the context or connection ended. "
 "Client: the filter parameter is encoded into the request of the event source; every pass through the read loop is checked for the read error, the OnRead call, decoding into a fresh trace and a blocking send guarded by the context; event types are those of the server. Options: the values that reach the connection are compared with the documented limits on all paths.")

prop("C24", "The middleware records every request and changes nothing",
 "For every request the middleware creates exactly one trace, with the request's context and the category that was determined for it, and calls the handler exactly once, with the original request in a context that carries the trace; the trace is finished exactly once however the handler ends, and a panic is passed on. "
 "The response reaches the client as the handler wrote it, including status codes, results of writes and flushes, and the trace records, before it's finished, the status code sent first and the number of bytes actually written. "
 "The easy package's constructor, middleware, handler and collector all work on one and the same collector.",
 ["programs", "histories", "fault_sequences"], "all handlers: whatever they write, in whatever order, and whether they return or panic",
 "Tests use well-behaved handlers; handlers that panic, flush, write repeatedly, or write in part aren't covered.",
 ["trcweb/middleware.go", "eztrc/easy.go", "trcweb/trace_server.go"],
 [("middleware", "trcweb/middleware.go: Middleware"), ("response", "trcweb/middleware.go: interceptor"), ("easy package", "eztrc/easy.go: New, Middleware, Handler, Collector")],
 "path-sensitive effect analysis over SSA, with paths on which the handler panics",
 "All abstract paths of the returned handler, including those on which the next handler panics, and of every method of the response writer it installs." + TRUST,
 "All abstract paths of the handler that Middleware returns: one constructor call with the request's context and the categorizer's result; one ServeHTTP call on the next handler with the same request, changed only by WithContext of the constructed context, and a response writer; Finish called once on every exit, after the response was recorded; no recovery of panics. All paths of the response writer's methods: each forwards its arguments and results to the original writer once; the code field is set only when unset, the counter is increased by the number the writer returned. The easy package's functions are resolved to one package variable that's set once.")

prop("C21", "The trace server answers every request, whatever it contains",
 "No request, and no result or error of the searcher, makes the trace server panic, read more than 1 MB of request body, or use a statistics interval outside of 1 to 60 seconds or a send buffer of more than 100,000 traces. "
 "Requests that explicitly accept text/event-stream are streamed; every other request is answered with exactly one status and a complete body with the matching content type: HTML if it explicitly accepts text/html and doesn't ask for JSON in its URL, JSON otherwise. "
 "A response that can't be rendered, even because of a panic, is answered with status 500 and an error, never with part of a response.",
 ["inputs", "fault_sequences"], "all requests, all combinations of accepted types, all results of searchers and failures of rendering",
 "Tests send a few well-formed requests; they don't cover malformed parameters, large bodies, or failures of rendering.",
 ["trcweb/trace_server.go", "trcweb/render.go", "trcweb/util.go"],
 [("handlers", "trcweb/trace_server.go: ServeHTTP, handleSearch, handleStream, Categorize"), ("rendering", "trcweb/render.go: renderResponse, renderHTML, renderJSON, renderTemplate"), ("negotiation", "trcweb/render.go: requestExplicitlyAccepts, parseAcceptMediaTypes"), ("parameters", "trcweb/util.go: parseRange, parseBucketing")],
 "path-sensitive effect, nullness and interval analysis over SSA",
 "All abstract paths of ServeHTTP with the helpers that answer in place, and of the page renderer including those on which executing the template panics." + TRUST,
 "Request bodies are only read through a size limit of at most 1 MB; the arguments of NewTicker and the capacity of the trace channel are within their limits on all stream paths; results of a search and their statistics are only dereferenced where they're known not to be nil; indexing in trcweb is in bounds; on all search paths there's one status, content type before status before body, nothing rendered straight to the connection, the kind rendered follows from the facts about the Accept header and the json parameter, status 200 exactly when rendering succeeded and 500 otherwise, and the body is what was rendered; the Accept predicate is true exactly for the media types listed; rendering turns panics and errors into a non-nil error.")

prop("C22", "Whatever a call starts ends with it",
 "Whatever way a call returns — normally, with an error, or because its context is done — everything it started ends with it: goroutines finish or have been told to and can, contexts it derived are cancelled, tickers stopped, response bodies and event source connections closed. "
 "Remote searches run in the context of the caller. "
 "A stream handler, and the command's stream runner, return only after the subscription or stream they started has ended, and never wait for something that wasn't told to stop.",
 ["schedules", "fault_sequences", "histories"], "all ways in which calls end, including errors of peers and cancellation at every point",
 "Leaks show only after an error or cancellation at a specific point, and then only as a process that slowly fills up; no test looks for them.",
 ["trcweb/trace_server.go", "search_types.go", "cmd/trc/stream.go", "cmd/trc/search.go"],
 [("stream handler", "trcweb/trace_server.go: handleStream"), ("clients", "trcweb/trace_server.go: SearchClient.Search, StreamClient.Stream"), ("fan-out", "search_types.go: MultiSearcher.Search"), ("command", "cmd/trc/stream.go: runStreams, runStream")],
 "resource typestate analysis (acquire, release, join) over SSA paths, with context derivation",
 "All abstract paths of every function that starts a goroutine or acquires a context, ticker, response or connection, through loops, deferred calls, callbacks and helpers; that a told goroutine ends in bounded time is assumed of net/http and the event source library." + TRUST,
 "On every path, for every acquisition: a derived context's cancel function is called (or handed on); a ticker is stopped; the body of a response is closed whenever there is one; an event source is closed, directly or by a goroutine that's released by a context that ends with the function. Every goroutine is either joined by a receive or wait for what it signals on all its paths, after the context it waits for was cancelled or is known to be done; or it can't block: channels it sends on have room, and contexts it waits for end with the function. The request of a remote search is derived from the caller's context.")

prop("C23", "The page renders every response, and shows data as data",
 "For every response the page can be rendered: every field, method and function it refers to exists, and is given arguments that fit. "
 "Nothing that's recorded in a trace, or part of a request or response, is ever interpreted as markup, script or part of a URL's structure, also in error pages; and it's escaped no more than once, so that it's shown, and carried by links, as it is. "
 "Every event of a trace is shown once, in order, with its own text, time, error state and stack, and times relative to the start of the trace and to the previous event.",
 ["inputs", "histories"], "all contents of traces, requests and responses",
 "Tests render a page of harmless data and look for nothing in it; they don't reach all branches of the page, whose references are only resolved when it's executed.",
 ["trcweb/assets/traces.html", "trcweb/render.go"],
 [("page", "trcweb/assets/traces.html"), ("template functions", "trcweb/render.go: templateFuncs, renderEvents"), ("error page", "trcweb/render.go: renderHTML")],
 "type checking and taint analysis of the page templates against Go types and SSA summaries of the template functions",
 "All nodes of all templates, in all branches; html/template is trusted to escape by context, and the browser to treat text as text; functions provided by the user for source links are trusted." + TRUST,
 "The templates are parsed, and walked with the static type and the escaping level of each value: fields and methods must exist on the type the page is executed with, functions must be in the function map, and arguments, comparisons and format verbs must fit. Every function that returns a type which html/template doesn't escape is summarised from its SSA, and at each use what it's given must be escaped for that type (HTML: HTML-escaped; URL: query-escaped parts, numbers, durations and constants, or a constant harmless scheme); strings that are escaped already must not be escaped again by the page. Pages are only executed by html/template, scripts contain no sink that interprets text as markup or code, and hand-written markup is made of constants and escaped text. The function that lists events is checked for one entry per event with that event's fields.")

prop("C27", "The command line tool asks what its flags say and prints every result",
 "Every flag of the trc command sets exactly what it names: the filter, limit, stack depth and stream options that reach the instances are those given by the flags, a duration restricts a search only if it's given, and without --events a stream is of finished traces. "
 "Every valid URI, with the common path applied if there is one, is searched or streamed exactly once, an invalid one is an error, and a failed stream is retried until the command is stopped. "
 "Every result is printed exactly once, on standard output and in the chosen format, with the request and stats if and only if they're asked for; a command that fails says why and exits with a nonzero status, and one that succeeds or is interrupted exits with zero.",
 ["inputs", "configurations", "fault_sequences"], "all combinations of flags, any number of URIs, all responses and streamed traces, and failures at every step",
 "The command has no tests.",
 ["cmd/trc/main.go", "cmd/trc/trc.go", "cmd/trc/search.go", "cmd/trc/stream.go"],
 [("flags and setup", "cmd/trc/main.go: main, exec"), ("search", "cmd/trc/search.go: searchConfig.Exec"), ("stream", "cmd/trc/stream.go: streamConfig.Exec")],
 "value-flow analysis from flag registrations to requests over SSA paths, and path-sensitive output and exit-status rules",
 "Flags are followed from their registration to the config field they set, from there to the filter, and from there to the request or subscription." + TRUST,
 "main is interpreted abstractly, which yields the mapping of flag names to fields, the values of the filter when the command is run, the checks of the URIs, and the exit status for every outcome. "
 "The functions registered as search and stream commands are interpreted in turn: each field of the request, client and filter must be the value of its flag; the loops over the URIs must make one client or stream per element and end at their own condition; every successful search path encodes the response once; every pass through the output loop which receives a trace encodes that trace once; the goroutines which stream end only with their context.")

prop("C28", "A collector does exactly what it's configured to do",
 "A collector keeps exactly the source, trace constructor, decorators and broker it's given; only what is missing is replaced by its documented default: the source \"default\", the package's own constructor, no decorators, a new broker of its own. "
 "Each setter replaces exactly its own setting by what it's given, even if that's empty, changes no other setting, and returns the collector itself; nothing else ever changes a setting. "
 "Every trace the collector creates is made by the configured constructor, with the configured source and the given context and category.",
 ["configurations", "programs"], "all combinations of settings given or missing, and all sequences of setters and uses",
 "Tests use the default collector or a single combination of settings.",
 ["collector.go"],
 [("construction", "collector.go: NewCollector, NewDefaultCollector"), ("setters", "collector.go: SetSourceName, SetNewTrace, SetDecorators, SetCategorySize"), ("use", "collector.go: Collector.NewTrace")],
 "path-sensitive value-flow analysis over SSA, one run per combination of given and missing settings",
 "All eight combinations of given and missing settings are assumed in turn, and all abstract paths of the constructors and setters are followed to the final value of every field of the collector." + TRUST,
 "The constructor is interpreted abstractly under each combination of assumptions about its config; on every path the collector's source, constructor, broker and decorators must be the very values of the config, or the documented defaults where the config has none; copies of the decorators count as the same if they're complete. Every setter must store its argument (or a complete copy) on every path, store to no other setting, and return its receiver. No other function reachable from the API stores to a setting of an existing collector, and the call that creates a trace must call the constructor field with the source field of its own receiver.")

na("C29", "Trace IDs are unique and ordered by creation",
 "Any two traces have different IDs, and the ID of a trace created later by the same process sorts after the ID of one created earlier in another millisecond.",
 ["histories", "schedules"], "all sequences of creations, in any number of goroutines and processes",
 "Tests create a handful of traces and would never see a collision.",
 ["trace_core.go"], [("IDs", "trace_core.go: New, traceIDEntropy")],
 "Uniqueness is probabilistic: it rests on the entropy of a random source and on the wall clock at run time, neither of which a static argument can bound; that every trace gets its own freshly generated ID, never a constant or another trace's, is part of C09, and that the generator is used under its lock is part of C02.")

na("C30", "Published traces reach a keeping-up reader promptly",
 "A subscriber whose channel always has room receives every matching event within a bounded time, and a stream client sees it within a bounded time after the server sent it.",
 ["schedules", "fault_sequences"], "all loads, schedules and network delays",
 "Timing depends on the machine and the load.",
 ["broker.go", "trcweb/trace_server.go"], [("publishing", "broker.go: Broker.Publish"), ("streaming", "trcweb/trace_server.go: handleStream")],
 "Bounds on time depend on the scheduler, the network and the event source library's retry timers; a static analysis of the source can't bound them. That nothing is skipped, dropped or blocked other than as accounted for is decided by C18, C19 and C26.")

na("C31", "Memory use is bounded by the configuration",
 "The memory held by a collector is bounded by the number of categories times the category size times the maximum size of a trace.",
 ["programs", "histories"], "all workloads",
 "Tests hold a few small traces.",
 ["collector.go", "internal/trcringbuf/ringbuffer.go"], [("categories", "internal/trcringbuf/ringbuffer.go: RingBuffers"), ("events", "trace_core.go")],
 "The number of categories and the size of each event's text are chosen by the program and its inputs at run time, and how long pooled memory lives is up to the garbage collector. The parts that don't depend on them (elements per category, events per trace) are decided by C04 and C10.")

na("C32", "Displayed rates, durations and sizes are accurate",
 "Rates, humanised durations and byte counts shown on the page, in stats and in logs differ from the exact values by no more than the displayed precision.",
 ["inputs"], "all durations, counts and sizes",
 "Tests format a few values.",
 ["internal/trcutil/humanize.go", "search_stats.go", "trcweb/render.go"], [("formatting", "internal/trcutil/humanize.go"), ("rates", "search_stats.go: CategoryStats.EventRate, CategoryStats.TraceRate")],
 "Accuracy is a statement about floating-point arithmetic and rounding over all numeric inputs; the abstract domain (linear integer facts and symbolic terms) has no floating-point semantics, and deciding it would need numeric or solver-based reasoning, which is another family.")

na("C33", "Stacks name the frames that recorded the event",
 "The stack of an event lists the functions, files and lines that were active when the event was recorded, starting with the caller of the recording function.",
 ["programs"], "all call sites and inlining decisions",
 "A test looks at one call site.",
 ["trace_core.go", "trace.go"], [("stacks", "trace_core.go: stack collection")],
 "What runtime.Callers and CallersFrames report depends on the compiler's inlining and on the dynamic call stack, which isn't in the source of the package. That stacks are collected per event, trimmed as asked and never shared is decided by C05, C07 and C08.")

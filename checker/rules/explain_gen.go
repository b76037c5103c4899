// Code generated by tools/gen.py; DO NOT EDIT.

package rules

func init() {
	explain["C01"] = "Every exported entry point that can reach the state of the default trace type is interpreted abstractly, path by path. For each store to duration, errored, finished, events or truncated the path facts must show, in the same critical section, that the trace was not finished; Finish must set both flags exactly on the unfinished paths; accessors must return the recorded fields."
	explain["C02"] = "For every struct type that has a lock, every load, store, map operation and length of its mutable fields, and of memory reached through them without passing another locked object, on all abstract paths of all exported functions and methods that can reach it, happens with the lock of that very object held (exclusively for writes); results don't alias protected maps or slices; package variables are written only by initialisers or through sync types; methods of shared types without a lock don't store into them; variables captured by goroutines aren't accessed by both sides without a synchronising operation between; searches don't write to the normalised request."
	explain["C03"] = "All abstract paths of all exported entry points that can take a lock end, by return or panic, with no lock held; no lock operation on a held lock; no unlock of a lock that isn't held; no blocking channel operation, wait or network call, also in repository callees and in function literals passed to functions that call them with a lock held; the graph of lock kinds taken while holding others has no cycle."
	explain["C04"] = "For each of the four event methods, every abstract path of an unfinished trace is checked to append exactly one event under the fact len < max, or to add exactly one to the truncated counter under the fact len >= max. Every store to a max field or the package-level max is checked to be within [10, 10000], and the initial value to be 1000. Every path of the events readers is checked for the length of the result and the truncation notice."
	explain["C05"] = "Value flow from the parameters of each event method into the recorded event (text, args, error flag, time), from the recorded event to the copies given to readers (field by field, index by index), and through the lazily formatted text: at most one formatting result is published (compare-and-swap winner), from the recorded format and args."
	explain["C06"] = "For every method of every wrapper type, and every package-level event function, all abstract paths are checked: exactly one call of the same method on the wrapped trace, with the given format and args (after the prefix for prefixed traces), not aliasing the prefix's args; decorator effects exactly once and in order; Free forwarded. Every printf-like call in the repository is checked to have a constant format, or one that is itself a format parameter."
	explain["C07"] = "For every type kept in a sync.Pool: all paths that take an object from the pool are checked to overwrite every field with a value that doesn't depend on its previous content (or all paths that put one back to reset it); no path uses an object after putting it back or puts it twice; a trace is only put back when established to be finished, under its lock, and its events only together with it; each pool stores and produces a single type."
	explain["C08"] = "Every path that copies events is checked to allocate new memory for the slice of events and for each stack; every constructor and method of the static copy is checked not to store into memory reachable from the original; the stack trimming function is checked on every path and range of depth."
	explain["C09"] = "Value flow on every path of Put, MaybeGet, Get, New, Collector.NewTrace and the accessors; every store to identity fields in the package is checked to be part of creating the trace; the context key type is checked to be private."
	explain["C10"] = "For each method of the ring buffer, all paths from each case of the invariant (count < size and cursor = count; or count = size and 0 <= cursor < size) are checked: which slot is written or read in iteration k modulo the size, how count and cursor change, what is reported as evicted, that loops cover all elements, and that the invariant holds again. The map of buffers is checked for get-or-create, copying and resizing."
	explain["C11"] = "Every path of Collector.NewTrace is checked for exactly one registration of the returned trace under its category (none if the context already had one), and for freeing exactly the evicted trace; SetCategorySize for applying the size and freeing every dropped trace; the constructor for the default size."
	explain["C12"] = "All paths of Filter.Allow with the loops over sources, IDs, events and stack frames summarised: a path that returns false must have established that a condition is set and violated (for lists: no element equal after looking at all; for the query: no event text, function or file:line matched after looking at all), a path that returns true must have established for each condition that it's unset or satisfied; the regexp used must be the compiled current query."
	explain["C13"] = "Collector.Search is interpreted with the loops over categories and over a category's buffer summarised by their generic iterations: every iteration must observe its trace once in the returned stats and add one to the total; the selection grows by exactly the trimmed copy of the visited trace on exactly the paths where the filter allowed it and its category's selection is below the limit; loops are left only at their headers; the selection is sorted (the comparison function is itself interpreted) before it's cut at the limit."
	explain["C14"] = "All paths of SearchRequest.Normalize: the final limit is within the bounds and is the given one when that was valid; the final buckets are sorted by an interpreted comparison, don't start with a negative duration, and start with zero; on the paths on which the request was valid already no field is stored; the errors of the filter are all returned; Filter.Normalize reports a query that doesn't compile and clears it."
	explain["C15"] = "The loop of SearchStats.Observe is summarised by its generic iteration: per path the stats are those looked up or newly filed under the trace's category, exactly one of active, errored and buckets changes, by one, as established by the readings of Finished and Errored, read in that order; the bucket loop counts exactly the buckets whose bound is known to be at most the duration and is left early only if the bound is known to exceed it; the event count grows by the number of events; the time kept is shown to be the older (newer) one."
	explain["C16"] = "All paths of CategoryStats.Merge: final counts are own plus other's, per bucket for all buckets, or copied from the other when empty; no store reaches the merged stats and no slice is shared. SearchStats.Merge, Overall and AllCategories: the generic iteration over the categories merges or lists each category once, into the entry filed under the same key; IsZero may return true only if no trace is counted."
	explain["C17"] = "All paths of MultiSearcher.Search: the scattering loop starts one goroutine per searcher after normalising the request; every path of the goroutine searches once with that request and sends its result exactly once, to a channel whose capacity is at least the number of searchers; the gathering loop receives exactly that number, and each of its iteration cases (answer or not, error or not) is checked for the change of counts, stats, traces, problems and sources; then sorting before cutting at the limit, and the list of sources being the sorted keys of a map of all of them."
	explain["C18"] = "All paths of Broker.Publish: no operation that can wait for another goroutine (send, receive, select without default, wait groups, sleeping), also in started goroutines; the loop over the subscribers is left only when it's exhausted; in each of its iteration cases the filter of that subscriber is asked about NewStreamTrace of the published trace, and exactly one counter of that subscriber grows, by one, matching the filter's answer and the chosen case of the select, which sends that copy to that subscriber's channel."
	explain["C19"] = "All paths of Broker.Stream: a path that doesn't register established that the channel was registered and returns an error without touching the registry; a path that registers does so once, under the lock, in the critical section in which it established the channel's absence, with each filter field, the channel and zero counters; then it receives from the context's Done channel without a lock, removes that key once, and returns that subscription's three counters and the context's error. StreamStats, NewBroker and the collector's methods likewise."
	explain["C20"] = "JSON: every exported field reachable from the transmitted types has a distinct encodable JSON name (fields holding errors excepted). URL: on all paths of the filter encoder each field of Filter determines exactly its own parameter (flags by presence, strings and durations by value, lists element by element) and everything written ends up in the request; on all paths of the parser each field is computed from the parameter that carries it; every parameter in the page's links and forms is one the server reads. Client: all paths of SearchClient.Search send the request as JSON once, and return either an error or the decoded response of a 200. Server: all paths of ServeHTTP reject undecodable bodies with 4xx, otherwise search once with, field by field, the decoded or parsed request, and render the result field by field."
	explain["C21"] = "Request bodies are only read through a size limit of at most 1 MB; the arguments of NewTicker and the capacity of the trace channel are within their limits on all stream paths; results of a search and their statistics are only dereferenced where they're known not to be nil; indexing in trcweb is in bounds; on all search paths there's one status, content type before status before body, nothing rendered straight to the connection, the kind rendered follows from the facts about the Accept header and the json parameter, status 200 exactly when rendering succeeded and 500 otherwise, and the body is what was rendered; the Accept predicate is true exactly for the media types listed; rendering turns panics and errors into a non-nil error."
	explain["C22"] = "On every path, for every acquisition: a derived context's cancel function is called (or handed on); a ticker is stopped; the body of a response is closed whenever there is one; an event source is closed, directly or by a goroutine that's released by a context that ends with the function. Every goroutine is either joined by a receive or wait for what it signals on all its paths, after the context it waits for was cancelled or is known to be done; or it can't block: channels it sends on have room, and contexts it waits for end with the function. The request of a remote search is derived from the caller's context."
	explain["C23"] = "The templates are parsed, and walked with the static type and the escaping level of each value: fields and methods must exist on the type the page is executed with, functions must be in the function map, and arguments, comparisons and format verbs must fit. Every function that returns a type which html/template doesn't escape is summarised from its SSA, and at each use what it's given must be escaped for that type (HTML: HTML-escaped; URL: query-escaped parts, numbers, durations and constants, or a constant harmless scheme); strings that are escaped already must not be escaped again by the page. Pages are only executed by html/template, scripts contain no sink that interprets text as markup or code, and hand-written markup is made of constants and escaped text. The function that lists events is checked for one entry per event with that event's fields."
	explain["C24"] = "All abstract paths of the handler that Middleware returns: one constructor call with the request's context and the categorizer's result; one ServeHTTP call on the next handler with the same request, changed only by WithContext of the constructed context, and a response writer; Finish called once on every exit, after the response was recorded; no recovery of panics. All paths of the response writer's methods: each forwards its arguments and results to the original writer once; the code field is set only when unset, the counter is increased by the number the writer returned. The easy package's functions are resolved to one package variable that's set once."
	explain["C25"] = "Every path of the constructors of static copies: each field is the result of the corresponding accessor, Finished is read once and before the duration, error state and events; the stream copy takes all events exactly when finished, the last one otherwise, without stacks; every accessor of the copy returns the corresponding field."
	explain["C26"] = "Server: every abstract path of ServeHTTP that streams is checked for one Stream call on the configured streamer, with each field of the filter decoded from the body or parsed from the URL, after the filter was normalized without problems, in a context derived from the request; every pass through the event loop that receives a trace must marshal and encode it once, unless it has the ID of the request's own trace or can't be marshaled; the loop is left only when the context or connection ended. Client: the filter parameter is encoded into the request of the event source; every pass through the read loop is checked for the read error, the OnRead call, decoding into a fresh trace and a blocking send guarded by the context; event types are those of the server. Options: the values that reach the connection are compared with the documented limits on all paths."
	explain["C27"] = "main is interpreted abstractly, which yields the mapping of flag names to fields, the values of the filter when the command is run, the checks of the URIs, and the exit status for every outcome. The functions registered as search and stream commands are interpreted in turn: each field of the request, client and filter must be the value of its flag; the loops over the URIs must make one client or stream per element and end at their own condition; every successful search path encodes the response once; every pass through the output loop which receives a trace encodes that trace once; the goroutines which stream end only with their context."
	explain["C28"] = "The constructor is interpreted abstractly under each combination of assumptions about its config; on every path the collector's source, constructor, broker and decorators must be the very values of the config, or the documented defaults where the config has none; copies of the decorators count as the same if they're complete. Every setter must store its argument (or a complete copy) on every path, store to no other setting, and return its receiver. No other function reachable from the API stores to a setting of an existing collector, and the call that creates a trace must call the constructor field with the source field of its own receiver."
}

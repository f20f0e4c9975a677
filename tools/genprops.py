#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source: this file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=observe, hook_needed=None)))

p("C01", "Every traced event is recorded exactly once, intact and in order",
  "Every event that any goroutine adds to an unfinished trace, through any of the four event methods, appears exactly once in that trace's events as long as the trace's event limit is not reached, with exactly the text its format and arguments produce, the error flag of the method used, and the time of the call. "
  "Events are listed consistently with real time: a call that returned before another began comes first, times never decrease, and a later read of an active trace only extends an earlier one. "
  "No event ever appears in a trace it was not added to.",
  ["schedules", "inputs", "histories"], "All interleavings of writers and readers on one or many traces, all format strings and arguments.",
  "TestCoreTrace/Concurrency only counts 100 events from one schedule and never looks at text, order, flags or other traces.",
  ["trace_core.go", "trace.go", "decorators.go", "helpers.go", "eztrc/easy.go"],
  [("per-trace mutex around check-and-append", "trace_core.go Tracef/LazyTracef/Errorf/LazyErrorf"), ("event construction from pools", "trace_core.go newCoreEvent")],
  ["Trace.Events", "Trace.Tracef/LazyTracef/Errorf/LazyErrorf"],
  [("events", "ordered list of stored events of a trace", "trace_core.go coreTrace")])

p("C02", "Events beyond a trace's limit are dropped but counted exactly",
  "A trace holds at most its event limit (default 1000; any requested limit is clamped to 10..10000); an event added while the trace is at its limit is not kept, every event that was kept stays visible in order, and one final non-error event states exactly how many events were not kept. "
  "The global limit applies only to traces created after it is set, a per-trace limit only to that trace from then on. "
  "An error event that is not kept still marks the trace as errored.",
  ["inputs", "histories", "schedules"], "All limits, all numbers of events around them, all sequences of limit changes and events, concurrent writers crossing the limit.",
  "The suite checks one limit (32) once and accepts either 32 or 33 events; it never checks which events remain, the count stated, clamping, or concurrency at the boundary.",
  ["trace_core.go", "helpers.go"],
  [("limit check before append, truncated counter", "trace_core.go"), ("clamping", "trace_core.go SetTraceMaxEvents, coreTrace.SetMaxEvents")],
  ["Trace.Events", "SetTraceMaxEvents", "SetMaxEvents"],
  [("eventsmax/truncated", "limit and number of dropped events", "trace_core.go coreTrace")])

p("C03", "A finished trace is frozen; status and duration are exact",
  "Once Finish has returned, no call on the trace changes anything that can be read from it: events, errored flag, finished flag and duration stay identical on every later read for as long as no collector drops the trace, and Finish is idempotent. "
  "Events completed before Finish was called are all included, and the trace reports errored exactly when an error event was added before it finished. "
  "The duration of a finished trace is exactly the time from its start to the first Finish; while active it is the time since its start.",
  ["schedules", "histories"], "All interleavings of events, Finish and reads from several goroutines, all sequences of operations, on plain and decorated traces.",
  "The suite freezes one trace from one goroutine; races between Finish and writers, repeated Finish, truncated traces and exact durations are not sampled.",
  ["trace_core.go", "decorators.go"],
  [("finished flag checked under the trace mutex by every mutator", "trace_core.go"), ("duration fixed at first Finish", "trace_core.go Finish")],
  ["Trace.Finish", "Trace.Finished", "Trace.Errored", "Trace.Duration", "Trace.Events"],
  [("finished/errored/duration", "terminal status", "trace_core.go coreTrace")])

p("C04", "Normal events format at call time, lazy events once at first read",
  "The arguments of Tracef and Errorf are evaluated before the call returns, so nothing done to them later changes the event. "
  "The arguments of LazyTracef and LazyErrorf (and of a Prefix in front of them) are not evaluated by the call but when the event is first read, at most once, and every reader from then on sees that same text.",
  ["inputs", "schedules", "histories"], "All argument values including self-mutating ones, any number of concurrent first readers, reads through events, searches and streams.",
  "Two tests mutate one slice once; nothing counts evaluations, races first readers, or goes through prefixes, searches or recycled events.",
  ["trace_core.go", "helpers.go"],
  [("pre-computed vs. deferred string with publish-once", "trace_core.go stringer"), ],
  ["Trace.Events", "argument String methods"],
  [("str", "cached event text", "trace_core.go stringer")])

p("C05", "Dropped traces never leak into other traces or into snapshots",
  "When a collector drops a trace, a handle to it that is still held never shows and never changes another trace's data: it keeps its own ID, source, category, start and status, and events sent to it reach no other trace. "
  "Search results, event lists, stacks and streamed traces obtained earlier never change afterwards. "
  "A trace that is dropped while still active keeps working, complete and correct, for whoever holds it.",
  ["schedules", "histories"], "All interleavings of creating, finishing, dropping, searching and late use of old handles, under any category size and resize sequence.",
  "No test drops a trace and then uses it or a snapshot of it again; recycling only happens when categories overflow.",
  ["trace_core.go", "collector.go", "decorators.go"],
  [("recycling of dropped traces and events", "trace_core.go Free, coreEvent.free, stringer.free"), ("drop notification", "collector.go NewTrace, SetCategorySize, maybeFree")],
  ["Trace methods on retained handles", "SearchResponse.Traces", "streamed traces"],
  [("pools", "recycled traces, events, strings", "trace_core.go coreTracePool, coreEventPool, stringerPool")])

p("C06", "Trace identity is unique and its metadata constant",
  "Every trace created in a process has a different ID, however many goroutines create traces. "
  "ID, source, category and start time are those given or taken at creation and read the same for as long as the trace is held, through every decorator, and the start time lies within the creating call. "
  "Of two traces where one was created after the other, the later one has the larger ID and sorts as newer.",
  ["schedules", "inputs", "histories"], "All numbers of concurrent creators, all source and category strings, all decorator stacks.",
  "The suite compares ten IDs created in a row by one goroutine.",
  ["trace_core.go", "collector.go", "decorators.go", "trace_static.go"],
  [("ULIDs from a locked monotonic entropy source", "trace_core.go traceIDEntropy, newCoreTrace")],
  ["Trace.ID/Source/Category/Started"],
  [("id/source/category/start", "immutable identity", "trace_core.go coreTrace")])

p("C07", "Events reach the trace in the context, with every prefix applied",
  "A context returned by any constructor or helper carries exactly the trace returned with it, shadows any outer trace and leaves its parent context unchanged; creating a trace in a collector with a context that already has one reuses that one and adds one event naming the new category. "
  "An event added through a prefixed or region trace lands once in the underlying trace as the prefixes, outermost first, followed by its own text; provided each format uses its own arguments in sequence, text and arguments of different events, prefixes or regions never mix. "
  "A region adds exactly one entry and one exit event with its name, the exit giving the elapsed time.",
  ["inputs", "histories", "schedules"], "All nestings of contexts, traces, prefixes and regions, all names, formats and argument slices, concurrent use of one prefix.",
  "The suite uses one region and one constant prefix, and checks containment of plain words only.",
  ["helpers.go", "trace_core.go", "collector.go", "eztrc/easy.go", "internal/trcutil/humanize.go"],
  [("context value", "helpers.go Put, Get, MaybeGet"), ("prefix format and argument concatenation", "helpers.go prefixTrace"), ("reuse of a trace in the context", "collector.go NewTrace")],
  ["MaybeGet/Get", "Trace.Events of the underlying trace"])

p("C08", "Each category retains exactly its most recently created traces",
  "At any quiescent point a collector holds, for every category independently, exactly the most recently created traces of that category up to the category size (default 1000), active or finished, whatever sequence of creations and resizes led there; non-positive sizes are ignored. "
  "Every concurrent search sees each category as an unbroken run of its creation history, newest first, with no duplicates. "
  "A trace is findable from the moment its creation returns until it is displaced.",
  ["histories", "schedules", "configurations"], "All sequences of creations, finishes, resizes and searches over any categories, and all their interleavings.",
  "The tests fill one category and shrink it once; wrap-around followed by growing, repeated resizing, several categories and concurrency are not covered.",
  ["collector.go", "internal/trcringbuf/ringbuffer.go"],
  [("ring buffer per category", "internal/trcringbuf/ringbuffer.go Add, Resize, Walk"), ("size shared by all categories", "internal/trcringbuf/ringbuffer.go RingBuffers")],
  ["Collector.Search", "Collector.NewTrace", "Collector.SetCategorySize"],
  [("buf/cur/len", "ring of retained traces", "internal/trcringbuf/ringbuffer.go")])

p("C09", "Search returns exactly the newest matching traces",
  "A search returns exactly the most recently started traces in the collector that satisfy its filter, newest first (traces created at the same time count as equally new), up to its limit (default 10, clamped to 1..250), each with complete data and with stacks trimmed to the requested depth. "
  "The total count is the number of traces held, and the match count lies between the number returned and the number that truly match. "
  "Searching changes nothing: repeating it gives the same answer, and an invalid query is ignored and reported as a problem.",
  ["inputs", "histories"], "All populations of traces over any number of categories, all filters, limits and stack depths.",
  "The tests run five queries over three traces and a handful over HTTP.",
  ["collector.go", "search_types.go", "filter.go", "trace_static.go"],
  [("per-category selection, global sort and cut", "collector.go Search"), ("normalisation", "search_types.go Normalize"), ("ordering", "trace_static.go staticTracesNewestFirst"), ("stack trimming", "trace_static.go TrimStacks")],
  ["Collector.Search"])

p("C10", "A filter allows exactly the traces meeting all of its conditions",
  "A filter allows a trace if and only if every condition that is set holds: its source and ID are in the given lists, its category is equal, it is active, finished, successful or errored as demanded, it is finished with at least the minimum duration, and the query, a regular expression, matches the text of an event or a function name or compact file and line in an event's stack. "
  "An invalid query is reported by normalising and otherwise treated as absent; an empty filter allows everything. "
  "The filter's string form names every condition that is set.",
  ["inputs"], "All filters and all traces, including unnormalised filters and foreign trace implementations.",
  "Tests use single conditions on a few traces; combinations, boundaries (equal durations, empty lists) and stack matches are not sampled.",
  ["filter.go", "trace.go"],
  [("sequential rejection of unmet conditions", "filter.go Allow"), ("regexp compilation", "filter.go initializeQueryRegexp"), ("compact file and line", "trace.go CompactFileLine")],
  ["Filter.Allow", "Filter.Normalize", "Filter.String"])

p("C11", "Search statistics account for every retained trace",
  "The statistics of a search cover every trace held, whatever the filter and limit: per category the number of events, of active traces, of errored finished traces, for every bucket the number of successful finished traces at least that long, and the oldest and newest start; buckets are sorted and start at zero. "
  "Category totals add up to the search's total count, and the overall figures are the sums over the categories. "
  "Merging statistics gives what observing all their traces together would give, rates being summed, and leaves the merged-in statistics unchanged.",
  ["inputs", "histories"], "All populations, all bucketings (unsorted, duplicate, negative, empty), all ways to partition and merge.",
  "One merge test checks only totals of finished traces with default buckets; event counts, bucket boundaries, errored and active traces, aliasing and rates are unchecked.",
  ["search_stats.go", "collector.go", "search_types.go"],
  [("observation", "search_stats.go Observe"), ("merging", "search_stats.go SearchStats.Merge, CategoryStats.Merge, Overall")],
  ["SearchResponse.Stats", "SearchStats.Observe/Merge/Overall"],
  [("CategoryStats", "counters per category", "search_stats.go")])

p("C12", "A multi-search equals one search over the union of its searchers",
  "Searching several searchers as one returns the newest traces over all of their answers up to the limit, newest first, with total and match counts, statistics and problems added up and the sources listed once each, sorted. "
  "It does not depend on the order in which searchers answer. "
  "A searcher that fails or answers nothing adds a problem and otherwise does not affect, delay beyond its own answer, or crash the result. What the searchers answered is not modified. Each searcher is given the caller's context, so that cancelling it reaches all of them.",
  ["inputs", "schedules", "fault_sequences"], "All numbers of searchers, all answer orders, all combinations of errors, empty, partial and weird answers, all requests.",
  "No test runs a multi-search.",
  ["search_types.go", "search_stats.go", "trace_static.go"],
  [("scatter and gather over a buffered channel", "search_types.go MultiSearcher.Search")],
  ["MultiSearcher.Search"])

p("C13", "Snapshots of changing traces are self-consistent",
  "Whatever happens to a trace while a search or stream copies it, every returned copy satisfies the filter it was selected by, as returned. "
  "A copy marked finished is complete: it has the final duration, errored flag and, but for stacks trimmed on request or left out of streams, in full the final events. "
  "A copy containing an error event is marked errored.",
  ["schedules"], "A change to the trace at every point between the individual reads that make up filtering and copying, for every filter.",
  "All tests read traces nobody is writing to.",
  ["trace_static.go", "collector.go", "broker.go", "decorators.go", "filter.go"],
  [("copying", "trace_static.go NewSearchTrace, NewStreamTrace"), ("selection", "collector.go Search, broker.go Publish")],
  ["SearchResponse.Traces", "streamed traces"])

p("C14", "Publishing never blocks and accounts for every subscriber exactly",
  "While a subscription is active every published trace is counted for it exactly once: skipped if its filter rejects it, sent if the channel had room, dropped otherwise; the traces received are exactly those counted as sent, in publication order, each passing the filter. "
  "Publishing never waits for a subscriber, and subscribers never affect each other. "
  "A channel can be subscribed once at a time, the statistics reported during and at the end of a subscription are exact, and nothing is sent on the channel after the subscription returns.",
  ["schedules", "histories", "configurations"], "All interleavings of publishers, subscribing, unsubscribing, receiving and statistics, all channel capacities and filters.",
  "The broker only has a benchmark.",
  ["broker.go", "collector.go"],
  [("broker mutex, non-blocking send, per-subscriber counters", "broker.go Publish, Stream, StreamStats")],
  ["Broker.Publish/Stream/StreamStats", "subscriber channel"],
  [("subs", "active subscriptions", "broker.go Broker")])

p("C15", "A stream reports every step of every trace exactly once",
  "A subscriber with enough room receives, for every trace of the collector, also one created earlier, one message if it is created while subscribed, one per event added while subscribed, holding exactly that event (or, once the trace is full, the mark that counts the events left out), in order, even with several goroutines writing to the trace, and exactly one when it finishes, holding all of its events. "
  "Every message carries the trace's own ID, source, category, start and status at that moment, and no stacks. "
  "Calls on a trace after it finished produce no message.",
  ["schedules", "histories"], "All interleavings of writers on the same and on different traces, built-in and foreign trace implementations, any decorators.",
  "No test reads a stream.",
  ["decorators.go", "broker.go", "trace_static.go", "collector.go"],
  [("publishing decorator", "decorators.go publishTrace"), ("stream form", "trace_static.go NewStreamTrace")],
  ["Collector.Stream channel"])

p("C16", "Searching over HTTP gives the same answer as searching directly",
  "For every request, searching a trace server through the search client, or through equivalent URL parameters or a JSON body, gives the same traces, counts, statistics and problems as searching its collector directly. "
  "If the server's searcher fails, the client gets a valid response that reports the problem. "
  "No request, however malformed, makes the server fail: it answers 200 or 400.",
  ["inputs", "fault_sequences", "configurations"], "All search requests, all populations, all byte strings as query, body and accept header, failing and proxying searchers.",
  "The e2e test sends seven fixed requests, ignores stacks and sources, and never sends a bad request or uses a failing searcher.",
  ["trcweb/trace_server.go", "trcweb/util.go", "trcweb/render.go", "search_types.go", "trace_static.go"],
  [("request parsing", "trcweb/trace_server.go handleSearch, trcweb/util.go"), ("client", "trcweb/trace_server.go SearchClient")],
  ["SearchClient.Search", "HTTP responses of TraceServer"])

p("C17", "Streaming over HTTP delivers matching traces and cleans up",
  "A stream client connected to a trace server receives every matching trace published after it is subscribed and within its send buffer, exactly once, in order and unchanged, selected by exactly the filter it was given. "
  "When the client's context is cancelled its stream call returns, and when either side goes away the server-side subscription ends; after a lost connection the client subscribes again with the same filter, when and no sooner than its retry interval is over. Statistics about the stream arrive once per stats interval. "
  "No stream request, however malformed its parameters, makes the server crash, hang or refuse a stream it should serve; an invalid query is answered with 400.",
  ["inputs", "schedules", "fault_sequences"], "All filters, all event texts, all parameter strings, disconnects at any point, several clients.",
  "No test streams over HTTP.",
  ["trcweb/trace_server.go", "trcweb/util.go", "broker.go"],
  [("server-sent events", "trcweb/trace_server.go handleStream, StreamClient"), ("filter encoding", "trcweb/util.go encodeFilter, parseFilter")],
  ["StreamClient.Stream channel", "raw text/event-stream responses", "TraceServer.Streamer calls"])

p("C18", "The middleware traces each request faithfully and transparently",
  "For every request the middleware creates one trace in the given category, makes it available through the request's context, and finishes it when the handler ends, even by panicking. "
  "The trace records the method and URL, the user agent, accept and content type headers that are set, and the status code and number of body bytes the handler sent. "
  "For handlers that write and flush, the client receives exactly the response it would receive without the middleware, including streaming.",
  ["inputs", "histories"], "All sequences of header, write, flush and panic by the handler, all requests, concurrent requests.",
  "No test uses the middleware.",
  ["trcweb/middleware.go", "internal/trcutil/humanize.go", "eztrc/easy.go"],
  [("response interceptor", "trcweb/middleware.go interceptor"), ("deferred finish", "trcweb/middleware.go Middleware")],
  ["HTTP client", "Collector.Search"])

p("C19", "The traces page shows any data as text and links to what it names",
  "The HTML page renders for every collector content and request, and shows each returned trace's events in full as text: no event text, category, source or query can introduce markup, attributes or script. "
  "Every link for a category, query, source or trace ID on the page, when followed, requests exactly that category, query, source or ID, whatever characters it contains.",
  ["inputs"], "All strings as event text, category, source, query and function names.",
  "No test requests HTML.",
  ["trcweb/render.go", "trcweb/assets/traces.html", "trcweb/trace_server.go"],
  [("html/template with explicit escapes", "trcweb/render.go templateFuncs, trcweb/assets/traces.html")],
  ["HTML response body"])

p("C20", "Event stacks start at the caller's own code",
  "The stack of every event starts with the function, file and line of the application code that made the call, whether directly, through a collector, the easy API, a few nested prefixes or regions, or decorators, and lists its callers in order; frames of the tracing package itself are left out. "
  "With stacks disabled, traces created from then on have none, and earlier traces are unaffected. "
  "Trimming a trace's stacks keeps exactly the first frames of each, up to the given depth.",
  ["inputs", "configurations", "histories"], "All API entry points and nestings of up to four wrappers, recycled events, all depths.",
  "One test checks the first frame for three entry points on an undecorated trace.",
  ["trace_core.go", "trace_static.go", "trace.go"],
  [("capture and filtering of frames", "trace_core.go newCoreEvent, getStack, ignoreStackFrameFunction"), ("stack switch", "trace_core.go SetTraceStacks")],
  ["Event.Stack"])

p("C21", "Concurrent use of the whole API is free of races, panics and deadlocks",
  "Any mix of concurrent calls to traces, contexts, collectors, searches, brokers, streams, HTTP handlers and clients, including resizing collectors, dropping traces and changing the package's global settings, is free of data races, panics and deadlocks. "
  "Every call other than a stream returns.",
  ["schedules"], "All interleavings of all exported operations documented as usable at run time.",
  "The tests are run without the race detector, and only one of them is concurrent.",
  ["trace_core.go", "collector.go", "broker.go", "decorators.go", "helpers.go", "internal/trcringbuf/ringbuffer.go", "trcweb/trace_server.go", "search_types.go"],
  [("mutexes", "coreTrace.mtx, RingBuffer.mtx, RingBuffers.mtx, Broker.mtx, trcutil.Atomic")],
  ["race detector reports", "process exit", "progress of every goroutine"])

p("C22", "Decorators see every trace and event exactly once and change nothing",
  "Every trace created in a collector is created by its trace function and decorated by all of its decorators, in order. "
  "A log decorator makes exactly one write per trace creation, event and finish, in call order for each goroutine, each a single line (for text of one line) starting with the trace's ID and containing the event's text, errors being marked, while text and status of the trace stay exactly as without it. "
  "Replacing the decorators affects exactly the traces created afterwards, in that collector.",
  ["inputs", "schedules", "histories"], "All event texts and methods, all decorator stacks, concurrent writers.",
  "No test uses a decorator.",
  ["decorators.go", "collector.go", "trace_core.go"],
  [("log decorator", "decorators.go logTrace"), ("application order", "collector.go NewTrace, trace_core.go New")],
  ["destination writer", "Trace.Events"])

p("C23", "The command line tool reports what the servers hold",
  "The search command prints, as JSON, exactly the multi-search result over all given servers for the filter and limit given by its flags, with a failing server reported as a problem and not hiding the others. "
  "The stream command prints, once each, every finished trace (or with the events flag every event) matching the filter that any of the servers publishes while it is connected. A server that cannot be reached or answers with an error is tried again, no sooner than after the retry interval, while the others go on, and an interrupt ends the command with status 0 at any time. "
  "Invalid flags give a non-zero exit and an error message.",
  ["inputs", "configurations", "fault_sequences"], "All filters, limits, stack depths, output formats and sets of live and dead servers.",
  "The command has no tests.",
  ["cmd/trc/main.go", "cmd/trc/search.go", "cmd/trc/stream.go", "cmd/trc/trc.go", "trcweb/trace_server.go"],
  [("flag parsing into a filter", "cmd/trc/main.go"), ("scatter and print", "cmd/trc/search.go, cmd/trc/stream.go")],
  ["standard output, standard error and exit status of the trc command"])

p("C24", "The easy API puts everything in one global collector",
  "Every trace made with the easy API's New, or for a request passing through its Middleware, is held by its global Collector and found, complete, through its Handler as JSON, page, client search and stream. "
  "Its event functions add to the trace in the context exactly the event that the trace method of the same name would add, and to no trace if the context has none. "
  "Finishing, prefixes, regions, Middleware, and New with a trace already in the context, behave as those of the underlying package.",
  ["inputs", "histories", "schedules"], "All programs of the easy API, from any number of goroutines, with any observer.",
  "The package has no tests.",
  ["eztrc/easy.go", "collector.go", "trcweb/trace_server.go", "trcweb/middleware.go"],
  [("global collector and handler", "eztrc/easy.go collector, handler"), ("delegation", "eztrc/easy.go")],
  ["eztrc.Collector().Search", "eztrc.Handler", "Trace.Events"])

p("C25", "The traces page reports the result of its search",
  "For every collector content and request, the HTML page reports what the equivalent direct search returns: one row per category and one for all, with their numbers of active, errored and, per duration bucket, successfully finished traces, their totals and oldest and newest start; the total, matched and shown counts, sources and problems; and the returned traces in order, each as active or finished, with its duration, its stacks, linked to the source where a link function is set, and the time and error mark of every event. "
  "Each number links to a search for the traces it counts (category, active, minimum duration, errored), keeping query, sources, limit and buckets. "
  "Submitting the search form keeps the request's category, state, minimum duration, query and limit.",
  ["inputs", "configurations"], "All collector contents, filters, limits and bucketings.",
  "No test requests HTML.",
  ["trcweb/render.go", "trcweb/assets/traces.html", "trcweb/trace_server.go", "search_stats.go"],
  [("summary table, form and trace list", "trcweb/assets/traces.html"), ("event lines", "trcweb/render.go renderEvents"), ("overall row", "search_stats.go AllCategories")],
  ["HTML response body", "Collector.Search"])

out = os.path.join(os.path.dirname(__file__), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x, ensure_ascii=False) + "\n")

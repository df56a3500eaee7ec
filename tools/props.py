#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=None)))

p("C01", "Every event is recorded exactly once, in order, with its exact text",
  "Every event added to an active trace that has not reached its event limit appears in that trace exactly once, in the order in which the calls took effect, with exactly the formatted text, the right error flag, and a timestamp that lies between the trace's start and the time it is read and never decreases from one event to the next. A trace reports itself errored exactly when at least one error event was added to it while it was active, including an error event that was not stored because of the event limit. This holds for any number of goroutines adding to the same trace concurrently, each goroutine's own events keeping their relative order.",
  ["inputs", "histories", "schedules"], "for all sequences of event calls of the four kinds with any format and arguments, over any number of traces, and for all interleavings of concurrent callers",
  "the tests add a handful of fixed events from one goroutine; loss or reordering needs particular interleavings, mixes of kinds or event counts",
  ["trace_core.go", "decorators.go", "helpers.go"],
  [("per-trace mutex around append", "trace_core.go coreTrace.Tracef/LazyTracef/Errorf/LazyErrorf"), ("errored set before the limit check", "trace_core.go coreTrace.Errorf")],
  [("events", "ordered event list of a trace", "trace_core.go coreTrace.events")], ["Trace.Events", "Trace.Errored", "Collector.Search"])
p("C02", "A finished trace is frozen",
  "After the first finish call on a trace has returned, its finished state, errored state, duration and recorded events never change again, whatever further calls (events, errors, finish, event limit changes) are made on it or on any decorated form of it, by any goroutine. Its duration is the time from its start to that first finish; while it is active its duration is the time since its start. A trace that was dropped by its collector may lose its event list, and nothing else.",
  ["histories", "schedules"], "for all histories of calls before and after finish, and for all interleavings of finish with concurrent event calls",
  "the tests finish a trace once and add nothing afterwards except in one fixed case; races between finish and events are not exercised",
  ["trace_core.go", "decorators.go", "helpers.go"],
  [("finished check under the mutex in every mutator", "trace_core.go")],
  [("finished/duration", "frozen state", "trace_core.go coreTrace")], ["Trace.Finished", "Trace.Duration", "Trace.Events", "Trace.Errored"])
p("C03", "The event limit is exact and truncation is counted exactly",
  "A trace stores at most the event limit that applied when it was created (default 1000, settings clamped to 10..10000; a later global change affects only traces created later; a limit set on one trace affects only that trace), and once it is full, each further event is counted instead of stored. Reading a truncated trace yields the stored events in order without the oldest one, followed by one final non-error marker event that states exactly how many events were not stored; the number of events read never exceeds the number stored. Reading an untruncated trace yields every stored event and no marker.",
  ["inputs", "histories", "configurations"], "for all limits (including out-of-range ones), all numbers and kinds of events below, at and above the limit, and all points at which limits are changed",
  "one test uses a single limit and event count; boundaries, clamping, changes of limits in mid-life and error events beyond the limit are not covered",
  ["trace_core.go", "helpers.go"],
  [("limit captured at creation", "trace_core.go newCoreTrace"), ("truncated counter", "trace_core.go"), ("clamping", "trace_core.go SetTraceMaxEvents, coreTrace.SetMaxEvents")],
  [("eventsmax, truncated", "limit and overflow counter of a trace", "trace_core.go coreTrace")], ["Trace.Events", "SetMaxEvents", "SetTraceMaxEvents"])
p("C04", "Eager arguments are captured at the call, lazy ones once, when first read",
  "The text of an eagerly formatted event reflects its arguments at the time of the call, whatever happens to them later. A lazily formatted event does not evaluate its arguments when it is added to a trace that has no subscribers; it evaluates them at most once, when the event is first read (or first published to a subscriber), and every reader of that event — direct, search, stream, concurrent — sees that same text forever.",
  ["histories", "schedules"], "for all histories of argument mutations, event calls, reads, searches and subscriptions, and for all interleavings of concurrent first readers",
  "the tests mutate no arguments between call and read and never read an event concurrently",
  ["trace_core.go", "helpers.go", "broker.go"],
  [("once-only string computation", "trace_core.go stringer.String"), ("immediate formatting", "trace_core.go newNormalStringer")],
  [("str", "computed text or not yet computed", "trace_core.go stringer")], ["Trace.Events", "Collector.Search", "Collector.Stream"])
p("C05", "Each category keeps exactly its most recent traces",
  "A collector keeps, for each category separately, exactly the most recently created traces of that category up to the category size (default 1000), whether active or finished. Changing the size keeps the newest traces that fit in every existing category, also applies to categories that appear later, and never drops a trace that fits; sizes that are not positive are ignored. Traces of one category never displace traces of another.",
  ["histories", "inputs"], "for all sequences of trace creations over any categories, interleaved with any size changes (growing, shrinking, invalid)",
  "the ring buffer tests sample a few resize patterns, and nothing tests resizing through the collector or with several categories",
  ["internal/trcringbuf/ringbuffer.go", "collector.go"],
  [("ring buffer cursor arithmetic", "internal/trcringbuf/ringbuffer.go Add, Resize, Walk"), ("per-category buffers", "internal/trcringbuf/ringbuffer.go RingBuffers")],
  [("buf, cur, len", "ring contents", "internal/trcringbuf/ringbuffer.go RingBuffer")], ["Collector.Search"])
p("C06", "Dropping and recycling traces never leaks between traces",
  "When a collector drops traces, nothing that a caller already holds is affected by, or affects, any other trace: a held trace keeps its own ID, source, category, start, duration and status, its events are its own or (only if it was finished and dropped) absent, and calls on it never show up in another trace. A trace that is still active when it is dropped keeps working fully. Search results and streamed traces that were already delivered never change.",
  ["histories", "schedules"], "for all histories of creations, events, finishes, drops (by overflow or by shrinking), and uses of stale traces and earlier results, and for all interleavings of drops with those uses",
  "recycling only misbehaves after a drop followed by reuse while an old reference is still held; no test holds a reference across a drop",
  ["trace_core.go", "collector.go", "decorators.go"],
  [("only finished traces are recycled", "trace_core.go coreTrace.Free"), ("copying snapshots", "trace_core.go snapshotEvents, trace_static.go")],
  [("pools", "recycled traces, events, strings", "trace_core.go coreTracePool, coreEventPool, stringerPool")], ["Trace methods on stale traces", "SearchResponse.Traces", "stream channel items"])
p("C07", "Search returns exactly the newest matching traces, within the limit",
  "A search of a collector returns exactly the newest traces among all retained traces that satisfy the filter, newest first (by start time, ties broken by descending ID), up to the limit; a limit that is not positive means 10 and limits above 250 mean 250. Each returned trace carries its own source, ID, category, start, duration, status and all its events, with stacks cut to the requested depth (0 means unchanged, negative means none). The response reports how many traces were considered, which is the number retained, and how many were selected, which is the sum over categories of the matching traces of that category, capped at the limit.",
  ["inputs", "histories"], "for all collector contents and all search requests",
  "one test runs a few fixed searches over a few traces; limits at and around category sizes, ties, several categories and truncation are not covered",
  ["collector.go", "search_types.go", "trace_static.go"],
  [("per-category selection then global sort and cut", "collector.go Collector.Search"), ("limit clamping", "search_types.go SearchRequest.Normalize"), ("newest-first order", "trace_static.go staticTracesNewestFirst"), ("stack trimming", "trace_static.go TrimStacks")],
  (), ["Collector.Search"])
p("C08", "A filter allows a trace exactly when every condition set in it holds",
  "A filter allows a trace exactly when all conditions that are set hold together: the source is one of the given sources, the ID is one of the given IDs, the category is equal, it is active, it is finished, it is finished with at least the given duration, it has no error, it has an error, and the query regular expression matches the text of some event or the function or file:line of some frame of its stack. An invalid regular expression is reported as a problem and ignored, the other conditions still applying. The same filter gives the same answer in a direct check, in a search and (on the streamed form of the trace, without stacks) in a stream, and its printed form shows exactly the conditions that are set.",
  ["inputs"], "for all filters and all traces",
  "no test combines conditions; each condition is independently easy to break for particular combinations of inputs",
  ["filter.go", "broker.go", "collector.go"],
  [("conjunction of checks", "filter.go Filter.Allow"), ("regexp handling", "filter.go Filter.Normalize")],
  (), ["Filter.Allow", "Filter.String", "Filter.Normalize", "Collector.Search", "Collector.Stream"])
p("C09", "Search statistics count every retained trace exactly once",
  "The statistics of a search cover exactly the retained traces, whatever the filter and limit are: per category, each trace is counted exactly once as active, errored (finished with an error) or successful (finished without error), a successful trace is counted in every duration bucket whose lower bound does not exceed its duration, the event count is the sum of the events that can be read from those traces, and oldest/newest are the extreme start times. Bucket boundaries that are missing, unsorted, negative or not starting at zero are normalized to a sorted list starting at zero without negative values. The overall statistics are the sums (and extremes) over all categories, and computing them changes nothing.",
  ["inputs", "histories"], "for all collector contents, bucketings, filters and limits",
  "the statistics tests use a few fixed traces; boundaries, empty or odd bucketings and mixtures of states are not covered",
  ["search_stats.go", "collector.go", "search_types.go"],
  [("observe every candidate before selection", "collector.go Collector.Search"), ("classification and buckets", "search_stats.go SearchStats.Observe"), ("normalization", "search_types.go SearchRequest.Normalize")],
  [("CategoryStats", "per-category counters", "search_stats.go")], ["SearchResponse.Stats", "SearchStats.Overall", "SearchStats.AllCategories"])
p("C10", "A multi-searcher behaves like one search over the union",
  "Searching several searchers as one yields the newest matching traces over all of them, newest first and cut to the limit, the sums of their counts, the merged statistics of all of them, and the sorted set of their distinct sources. A searcher that fails, returns nothing, or returns a result together with an error is reported as a problem while all usable results are still included, and problems reported by individual searchers are kept. Merging never modifies the individual results or the searchers' statistics, and it does not depend on the order in which the searchers answer.",
  ["inputs", "fault_sequences", "schedules"], "for all numbers and contents of searchers, including nested and failing ones, all requests, and all orders of arrival of the answers",
  "no test merges responses that overlap in category, fail partially, or arrive in different orders",
  ["search_types.go", "search_stats.go"],
  [("scatter/gather", "search_types.go MultiSearcher.Search"), ("statistics merge", "search_stats.go SearchStats.Merge, CategoryStats.Merge")],
  (), ["MultiSearcher.Search", "SearchStats.Merge", "CategoryStats.Merge"])
p("C11", "Every subscriber is offered every trace update once, in order, and counted",
  "While a subscription is active, each creation of, each call adding an event to, and each finish of a trace in the collector is considered exactly once for that subscriber, in the order the updates of a trace took effect: if the streamed form of the trace does not pass the filter it is counted as a skip, otherwise it is delivered and counted as a send, or, when the subscriber's channel is full, discarded and counted as a drop. The streamed form of an active trace contains only its latest event (none if it has none), that of a finished trace contains all its events, events carry no stacks, and identity, status and duration are those of the trace at that update. Subscriptions with different filters and buffers do not influence one another.",
  ["histories", "schedules", "inputs"], "for all histories of trace updates and subscriptions, all filters and channel capacities, and all interleavings of concurrent updates and readers",
  "the tests check one subscriber with fixed traces; counting and latest-event content go wrong only for particular interleavings or full buffers",
  ["broker.go", "decorators.go", "trace_static.go"],
  [("publish on every update", "decorators.go publishTrace"), ("filter, non-blocking send, counters under one mutex", "broker.go Broker.Publish"), ("streamed form", "trace_static.go NewStreamTrace")],
  [("subs", "active subscriptions with filter and counters", "broker.go Broker.subs")], ["Collector.Stream", "Collector.StreamStats", "stream channel"])
p("C12", "Subscriptions start, end and fail cleanly, and never block tracing",
  "A stream call keeps its subscription active until its context is cancelled, then returns that subscription's final counts and the context's error, after which nothing more is sent to its channel and the channel can be subscribed again with counts starting from zero. Subscribing a channel that is already subscribed fails at once without disturbing the existing subscription, and asking for the counts of a channel that is not subscribed fails. Creating, updating and finishing traces never blocks because of a subscriber, however slow or abandoned it is.",
  ["histories", "schedules", "fault_sequences"], "for all orders and interleavings of subscribing, cancelling, publishing, reading counts, and for all consumer speeds including none",
  "the tests subscribe and cancel once; duplicate, repeated or racing subscriptions and stuck consumers are not covered",
  ["broker.go", "collector.go"],
  [("subscription map keyed by channel", "broker.go Broker.Stream"), ("non-blocking send", "broker.go Broker.Publish")],
  [("subs", "active subscriptions", "broker.go Broker.subs")], ["Collector.Stream", "Collector.StreamStats"])
p("C13", "Copies taken while a trace is being updated are coherent",
  "A trace returned by a search or delivered by a stream while other goroutines update it is coherent: its events are exactly the events the trace had at some moment between the start and the end of the operation; if it is shown as finished then its events, error status and duration are the final ones; if it shows an error event then it is shown as errored. A trace returned by a search satisfies the search's filter, judged on the returned copy.",
  ["schedules"], "for all interleavings of searches and stream deliveries with event, error and finish calls on the same traces",
  "no test searches while a trace is being updated, and incoherent copies need an update between two particular reads",
  ["trace_static.go", "collector.go", "trace_core.go", "broker.go"],
  [("order of reads in the copy", "trace_static.go NewSearchTrace, NewStreamTrace"), ("re-check of the copy", "collector.go Collector.Search")],
  (), ["Collector.Search", "Collector.Stream"])
p("C14", "A search over HTTP gives the same answer as a direct search",
  "For every search request, sending it to a trace server — as JSON (through the search client, or written by hand with the same field names), or as URL parameters — yields the same request after normalization, the same traces, counts, statistics, sources and problems as executing it directly on the server's searcher. Requests that are malformed yield an error status or a reported problem, never a crash, and a searcher that fails is reported to the client as a problem or an error. Answers are JSON, declared as such, unless the request asks for HTML. URL parameters that cannot be parsed fall back to their defaults and numeric ones are clamped to their ranges.",
  ["inputs", "fault_sequences"], "for all search requests (filters, limits, bucketings, stack depths, any strings), collector contents, and failing or odd searchers",
  "one end-to-end test sends one request; encoding differences show only for particular field values",
  ["trcweb/trace_server.go", "trcweb/util.go", "trcweb/render.go", "search_types.go", "filter.go"],
  [("JSON and URL decoding", "trcweb/trace_server.go handleSearch, trcweb/util.go parseFilter"), ("client", "trcweb/trace_server.go SearchClient.Search")],
  (), ["SearchClient.Search", "TraceServer.ServeHTTP"])
p("C15", "A stream over HTTP delivers what a direct subscription would",
  "For every filter, a stream client receives, in order and without duplicates, exactly the traces a direct subscription with that filter and the requested send buffer would be sent from the time the server subscribed, with the same content, except that the streaming request's own trace is never delivered; periodic counts match that subscription. The subscription on the server ends when the client disconnects or its context is cancelled, the client returns without error then, it asks exactly the location it was given, and it reconnects after its retry interval if the connection breaks or the server has a temporary problem (a 5xx status). Whatever else is in the event stream (comments, events of other types or without data) does not disturb it. An invalid filter is refused by the server with a client error status, and odd parameters never crash the server.",
  ["inputs", "histories", "fault_sequences"], "for all filters, send buffers, intervals, histories of trace updates, and points of disconnection",
  "one end-to-end test streams a few traces with one filter; encodings, disconnections and buffer overflow are not covered",
  ["trcweb/trace_server.go", "trcweb/util.go", "broker.go"],
  [("filter encoding in the URL", "trcweb/util.go encodeFilter/parseFilter"), ("event loop", "trcweb/trace_server.go handleStream"), ("client loop", "trcweb/trace_server.go StreamClient.Stream")],
  (), ["StreamClient.Stream", "TraceServer.ServeHTTP", "Collector.StreamStats"])
p("C16", "The HTTP middleware records exactly one finished, accurate trace per request",
  "For every request served through the middleware exactly one trace is created with the category chosen for that request, the wrapped handler sees that trace in its request context, which is otherwise the context of the request, and the trace is finished when the request ends, whether the handler returns or panics (the panic still propagates). The trace records the method, the URL and the relevant request headers, as they were received, before the handler's own events, and finally the status code that was sent and the number of body bytes that the response writer accepted. The response the client receives (status, headers, body, flushing) is the same as without the middleware.",
  ["inputs", "histories"], "for all handler behaviours: any sequence of header, status, informational status, write, flush and panic actions",
  "no test checks recorded codes; codes go wrong only for particular sequences of response writer calls",
  ["trcweb/middleware.go"],
  [("response interception", "trcweb/middleware.go interceptor"), ("deferred finish", "trcweb/middleware.go Middleware")],
  (), ["Trace.Events of the request's trace", "HTTP response"])
p("C17", "Contexts, prefixes and regions compose without affecting each other",
  "The trace put in a context is the one that context and every context derived from it yields until shadowed, and asking a context without a trace yields a usable trace that is not in any collector. Creating a trace in a collector with a context that already has one creates nothing: it adds one event naming the category to the existing trace and returns that trace. Events made through a prefixed trace go to the same underlying trace with all enclosing prefixes, outermost first, each followed by one space, before the event's own text and with every argument in its place, for any nesting and any sharing of a prefixed trace; a region adds an entry event and an exit event with its name and duration to the surrounding trace and marks the events in between, and names and texts are reproduced literally.",
  ["inputs", "histories", "schedules"], "for all nestings of contexts, prefixes (with arguments) and regions, all four event kinds, any names, and concurrent use of one prefixed trace",
  "the tests use one fixed nesting with fixed strings; argument mix-ups need particular nesting, capacities or sharing",
  ["helpers.go", "collector.go", "eztrc/easy.go"],
  [("context value", "helpers.go Put/Get/MaybeGet"), ("argument concatenation", "helpers.go prefixTrace"), ("reuse of the context's trace", "collector.go Collector.NewTrace")],
  (), ["Trace.Events", "trc.Get", "trc.MaybeGet"])
p("C18", "The log decorator writes one line per trace step and changes nothing else",
  "A trace decorated for logging writes, in order, exactly one line to its destination when it is created (with its source and category), one for each event call with exactly the event's text (marked as an error for error events), and one for each finish with its outcome and duration, each line starting with the trace's ID. The recorded trace is the same as without the decoration, including collection, search, streaming and recycling. Decorators configured on a collector apply to every trace created in it, in the order given; setting other ones replaces them, for the traces created from then on.",
  ["inputs", "histories", "configurations"], "for all sequences of calls on decorated traces, all formats and arguments, and all combinations of decorators",
  "one test logs a fixed sequence; formats with special characters, error events and combination with other decorators are not covered",
  ["decorators.go", "collector.go"],
  [("logging wrapper", "decorators.go logTrace"), ("decorator application", "collector.go Collector.NewTrace")],
  (), ["destination writer", "Trace.Events"])
p("C19", "Trace IDs are unique and sort by creation",
  "Every trace has an ID that never changes, differs from that of every other trace created in the process, in any collector and by any goroutine, and is a valid 26-character time-ordered identifier whose embedded timestamp is the trace's start time. IDs of traces created one after the other are in increasing order.",
  ["histories", "schedules"], "for all numbers and rates of trace creations by any number of goroutines, including many within the same instant",
  "the tests create few traces; duplicates would need many traces in one millisecond or concurrent creation",
  ["trace_core.go"],
  [("monotonic, locked entropy", "trace_core.go traceIDEntropy, newCoreTrace")],
  (), ["Trace.ID"])
p("C20", "A collector is safe for concurrent use",
  "Creating traces, adding events, finishing, searching (directly, as one of several searchers, or through an HTTP server), streaming, serving requests, changing the category size, subscribing and reading counts may all be done concurrently by any number of goroutines: none of it crashes, deadlocks or races, every trace whose creation has returned is retained unless enough newer traces of its category or a size change displaced it, and every search reports, for each category, contents the category really had at some moment during the search. When everything has come to rest the collector holds for each category exactly its most recent traces, in the order in which they were added.",
  ["schedules"], "for all interleavings of all collector operations",
  "the tests use collectors from one goroutine, except for a smoke test of the streaming",
  ["collector.go", "internal/trcringbuf/ringbuffer.go", "broker.go", "trace_core.go", "search_types.go", "trcweb/trace_server.go"],
  [("locks of ring buffers, broker and traces", "internal/trcringbuf/ringbuffer.go, broker.go, trace_core.go")],
  (), ["Collector.Search", "Collector.Stream"])
p("C21", "Event stacks show the caller's code",
  "When stacks are enabled at the creation of a trace, every event of that trace carries a stack that starts with the function and file:line that made the event call and continues with its callers, without frames of the tracing library's own event, region and helper functions; when stacks are disabled at its creation, no event of it carries a stack, whatever the setting is later. Stacks appear in direct reads and (cut to the requested depth) in searches, and a stack belongs to its own event, whatever happened to other traces and events before.",
  ["inputs", "histories", "configurations"], "for all call sites (direct, through contexts, prefixes, regions, decorators and the convenience package), all settings and all histories of recycling",
  "a test checks two call sites of fresh traces; recycled storage, disabled stacks and decorated traces are not covered",
  ["trace_core.go", "trace_static.go"],
  [("program counters captured at the call", "trace_core.go newCoreEvent"), ("frame filtering", "trace_core.go getStack, ignoreStackFrameFunction"), ("setting captured at creation", "trace_core.go newCoreTrace")],
  (), ["Event.Stack"])
p("C22", "The trace page shows what the search found, exactly and as text",
  "The HTML page that a trace server gives for a search shows exactly the traces a direct search returns, in order, each with its ID, source, category, duration and whether it is finished, and all of its events in order with their time, the time since the previous one and since the start, exact text, error mark and stack; text of any kind is shown as text and never becomes markup. It shows the counts, sources and number of problems of that search, and for each category and overall the statistics: counts, percentages and ages of the oldest and newest trace. Links of the table lead to the search for that category and condition with the same limit, query, sources and bucketing; links of a trace lead to its ID, source and category, links of its stacks (only when a source link function is set) to what that function gives for the file and line; and the search form keeps limit, query, category and conditions.",
  ["inputs", "histories"], "for all collector contents, texts, categories and sources of any characters, and search requests",
  "no test reads the page; escaping, times and links go wrong only for particular contents and requests",
  ["trcweb/render.go", "trcweb/assets/traces.html", "trcweb/trace_server.go"],
  [("rendered events", "trcweb/render.go renderEvents"), ("template functions", "trcweb/render.go templateFuncs"), ("template", "trcweb/assets/traces.html")],
  (), ["TraceServer.ServeHTTP, accept: text/html"])
p("C23", "The command line tool prints what the servers hold, for the filter given",
  "`trc search` asks every given location (with or without a scheme, with or without a common path) and prints one value, in the output format asked for: the merged response to exactly the filter, limit and stack depth that the flags or the environment describe, with the statistics and the request only when asked for, and with a problem for every location that could not be searched. `trc stream` prints exactly the traces (when they finish) or, with --events, the updates of the given servers that the filter accepts, in order, reconnects after each loss of a connection at the retry interval, and ends when it is told to (an interrupt), with status 0. Calls that make no sense (no location, unknown flags, values that cannot be used) print an error and nothing on the standard output, and exit with status 1.",
  ["inputs", "histories", "fault_sequences"], "for all combinations of flags and spellings, contents of the servers, and points of failure and disconnection",
  "the tool has no tests at all",
  ["cmd/trc/main.go", "cmd/trc/search.go", "cmd/trc/stream.go", "cmd/trc/trc.go"],
  [("flags to filter", "cmd/trc/main.go exec"), ("search output", "cmd/trc/search.go Exec"), ("stream loop", "cmd/trc/stream.go runStream, writeTraces")],
  (), ["standard output of trc", "exit status of trc", "requests that trc makes"])
p("C24", "The convenience package is one collector, consistently",
  "All functions of package eztrc work on one collector: a trace made by New, or for a request by Middleware, is in that collector (whose source is the default one), exactly as if it had been made by its NewTrace, and is what Collector's Search and Stream and the pages, searches and streams served by Handler show; a trace made elsewhere is not. New with a context that has a trace adds to that trace. Tracef, LazyTracef, Errorf and LazyErrorf add exactly the event that the method of the same name of the context's trace adds, and Get, MaybeGet, Prefix and Region do exactly what the functions of package trc do. Changes of the collector's settings apply to all of these.",
  ["inputs", "histories"], "for all sequences of uses of the package, mixed with uses of other collectors",
  "the package has no tests; its functions are thin, but one that used another collector, or swapped error and lazy events, would go unnoticed",
  ["eztrc/easy.go", "collector.go", "trcweb/trace_server.go", "trcweb/middleware.go"],
  [("the global collector", "eztrc/easy.go collector, handler"), ("event functions", "eztrc/easy.go Tracef and others")],
  (), ["eztrc.Collector", "eztrc.Handler", "Trace.Events"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")

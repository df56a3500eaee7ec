From 87b641123eb793f82579aa3aa25c27068042c558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:05 +0000
Subject: [PATCH 01/28] fix: event snapshots must not share stack memory with
 recycled events

Search results kept a reference to the pooled event's stack slice, so once the
trace was dropped and its events were re-used, the stacks in already-returned
results were overwritten.
---
 trace_core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trace_core.go b/trace_core.go
index 5bb8d3e..5851308 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -411,7 +411,7 @@ func snapshotEvents(cevs []*coreEvent, stacks bool) []Event {
 	for i, cev := range cevs {
 		var stack []Frame
 		if stacks {
-			stack = cev.getStack()
+			stack = append([]Frame(nil), cev.getStack()...) // cev (and its stack) can be recycled
 		}
 		res[i] = Event{
 			When:    cev.when,
-- 
2.43.0


From 88bf38305cf24d32004029b70947fef00eebde0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:06 +0000
Subject: [PATCH 02/28] fix: don't re-use a dropped trace for an unrelated
 trace

A finished trace dropped by a collector was recycled as a new trace, while
callers could still hold references to it: events added through such a
reference (which should be no-ops) ended up in the unrelated new trace, and
reads returned the new trace's data.
---
 trace_core.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/trace_core.go b/trace_core.go
index 5851308..8842a9e 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -311,10 +311,13 @@ func (tr *coreTrace) Free() {
 	for _, ev := range tr.events {
 		ev.free() // TODO: these individual frees can show up in profiles, maybe pre-allocate?
 	}
-	tr.events = tr.events[:0]
 
+	// Callers can hold (and use) references to tr indefinitely, so tr itself
+	// must remain frozen, and can't be re-used for another trace. Only the event
+	// storage is recycled.
 	trcdebug.CoreTraceFreeCount.Add(1)
-	coreTracePool.Put(tr)
+	coreTracePool.Put(&coreTrace{events: tr.events[:0]})
+	tr.events = nil
 }
 
 //
-- 
2.43.0


From f162a445ef766fcc2dc3181488c29415be0846e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:08 +0000
Subject: [PATCH 03/28] fix: NewStreamTrace with traces that don't provide
 EventsDetail

It panicked for active traces without any events, which is the case for every
trace when it's created. And it removed the stacks from events owned by the
original trace.
---
 trace_static.go | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/trace_static.go b/trace_static.go
index 4d69aa6..2062d54 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -48,16 +48,13 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 		events = detail.EventsDetail(1, false)
 	case canDetail && !isActive:
 		events = detail.EventsDetail(-1, false)
-	case !canDetail && isActive:
-		events = tr.Events()
-		events = events[len(events)-1:]
-		for i := range events {
-			events[i].Stack = events[i].Stack[:0]
+	case !canDetail:
+		events = append(events, tr.Events()...) // copy, to not modify the original
+		if n := len(events); isActive && n > 1 {
+			events = events[n-1:]
 		}
-	case !canDetail && !isActive:
-		events = tr.Events()
 		for i := range events {
-			events[i].Stack = events[i].Stack[:0]
+			events[i].Stack = nil
 		}
 	}
 
-- 
2.43.0


From efa6450e31515e71f1e8531de774a009744dbab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:10 +0000
Subject: [PATCH 04/28] fix: static traces must be coherent when the trace is
 updated concurrently

A search trace could be marked finished but have a duration from before it was
finished, or contain error events without being errored. A stream trace could
be marked finished but contain only the single most recent event.
---
 trace_static.go | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/trace_static.go b/trace_static.go
index 2062d54..4e623f6 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -22,15 +22,24 @@ var _ Trace = (*StaticTrace)(nil) // needs to be passed to Filter.Allow
 
 // NewSearchTrace produces a static trace intended for a search response.
 func NewSearchTrace(tr Trace) *StaticTrace {
+	// The trace can be updated concurrently. Finished needs to be read first, so
+	// that if it's true, everything else is final. And events need to be read
+	// before errored, so that it's true if there are any error events.
+	var (
+		finished = tr.Finished()
+		duration = tr.Duration()
+		events   = tr.Events()
+		errored  = tr.Errored()
+	)
 	return &StaticTrace{
 		TraceSource:   tr.Source(),
 		TraceID:       tr.ID(),
 		TraceCategory: tr.Category(),
 		TraceStarted:  tr.Started(),
-		TraceDuration: tr.Duration(),
-		TraceFinished: tr.Finished(),
-		TraceErrored:  tr.Errored(),
-		TraceEvents:   tr.Events(),
+		TraceDuration: duration,
+		TraceFinished: finished,
+		TraceErrored:  errored,
+		TraceEvents:   events,
 	}
 }
 
@@ -67,7 +76,7 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 		TraceDuration:    duration,
 		TraceDurationStr: duration.String(),
 		TraceDurationSec: duration.Seconds(),
-		TraceFinished:    tr.Finished(),
+		TraceFinished:    !isActive, // consistent with events
 		TraceErrored:     tr.Errored(),
 		TraceEvents:      events,
 	}
-- 
2.43.0


From 0d5aff2c8245739809ea03505f62fe6bc7c94b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:12 +0000
Subject: [PATCH 05/28] fix: search must not return traces that don't match the
 filter

A trace which was updated (e.g. finished) after it passed the filter, but before
it was copied, was returned in a state that didn't match the filter.
---
 collector.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/collector.go b/collector.go
index 3ab1faa..b4178d6 100644
--- a/collector.go
+++ b/collector.go
@@ -164,8 +164,15 @@ func (c *Collector) Search(ctx context.Context, req *SearchRequest) (*SearchResp
 				return nil
 			}
 
-			// Otherwise, collect a static copy of the trace.
-			categoryTraces = append(categoryTraces, NewSearchTrace(candidate).TrimStacks(req.StackDepth))
+			// Otherwise, take a static copy of the trace. The trace may have
+			// been updated in the meantime, so make sure it's still allowed.
+			static := NewSearchTrace(candidate)
+			if !req.Filter.Allow(static) {
+				return nil
+			}
+
+			// Collect the static copy.
+			categoryTraces = append(categoryTraces, static.TrimStacks(req.StackDepth))
 			matchCount++
 			return nil
 		})
-- 
2.43.0


From 68e1f5f31e48afd0ba1ce21e74d85152f7b1c612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:14 +0000
Subject: [PATCH 06/28] fix: prefix args must not be shared between events

If the args slice passed to Prefix had spare capacity, the args of individual
events were appended to the same memory, and overwrote each other.
---
 helpers.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/helpers.go b/helpers.go
index 535496d..576d609 100644
--- a/helpers.go
+++ b/helpers.go
@@ -102,7 +102,7 @@ func Prefix(ctx context.Context, format string, args ...any) (context.Context, T
 	prefixed := &prefixTrace{
 		Trace:  original,
 		format: format + " ",
-		args:   args,
+		args:   args[:len(args):len(args)], // appends must copy
 	}
 
 	return Put(ctx, prefixed)
-- 
2.43.0


From dc1e1e1ab3427b042537fe55e92a0f920a0dd69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 07/28] fix: region names must not be used as format strings

---
 helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers.go b/helpers.go
index 576d609..6dfbebd 100644
--- a/helpers.go
+++ b/helpers.go
@@ -77,10 +77,10 @@ func Region(ctx context.Context, name string) (context.Context, Trace, func()) {
 	outputContext, outputTrace := Prefix(ctx, "·")
 	region := trace.StartRegion(outputContext, name)
 
-	inputTrace.LazyTracef("→ " + name)
+	inputTrace.LazyTracef("→ %s", name)
 	finish := func() {
 		took := time.Since(begin)
-		inputTrace.LazyTracef("← "+name+" [%s]", trcutil.HumanizeDuration(took))
+		inputTrace.LazyTracef("← %s [%s]", name, trcutil.HumanizeDuration(took))
 		region.End()
 	}
 
-- 
2.43.0


From 895fffcc6e87271c50ba11db99a28753ad7f56e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:17 +0000
Subject: [PATCH 08/28] fix: search request normalization must be idempotent

Negative buckets caused every call to Normalize to add another zero bucket, so a
request to a MultiSearcher panicked due to inconsistent buckets. Also, don't
modify the bucketing slice provided by the caller.
---
 search_types.go | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/search_types.go b/search_types.go
index 9ac15c8..fd53d0f 100644
--- a/search_types.go
+++ b/search_types.go
@@ -37,11 +37,20 @@ func (req *SearchRequest) Normalize() []error {
 	if len(req.Bucketing) <= 0 {
 		req.Bucketing = DefaultBucketing
 	}
-	sort.Slice(req.Bucketing, func(i, j int) bool {
-		return req.Bucketing[i] < req.Bucketing[j]
-	})
-	if req.Bucketing[0] != 0 {
-		req.Bucketing = append([]time.Duration{0}, req.Bucketing...)
+	if !validBucketing(req.Bucketing) {
+		bucketing := make([]time.Duration, 0, len(req.Bucketing)+1)
+		for _, d := range req.Bucketing {
+			if d >= 0 {
+				bucketing = append(bucketing, d)
+			}
+		}
+		sort.Slice(bucketing, func(i, j int) bool {
+			return bucketing[i] < bucketing[j]
+		})
+		if len(bucketing) <= 0 || bucketing[0] != 0 {
+			bucketing = append([]time.Duration{0}, bucketing...)
+		}
+		req.Bucketing = bucketing
 	}
 
 	for _, err := range req.Filter.Normalize() {
@@ -60,6 +69,13 @@ func (req *SearchRequest) Normalize() []error {
 	return errs
 }
 
+// validBucketing returns true if the buckets are sorted, starting from zero.
+func validBucketing(bucketing []time.Duration) bool {
+	return bucketing[0] == 0 && sort.SliceIsSorted(bucketing, func(i, j int) bool {
+		return bucketing[i] < bucketing[j]
+	})
+}
+
 // String implements fmt.Stringer.
 func (req SearchRequest) String() string {
 	var elems []string
-- 
2.43.0


From b74394c08dced6b27a706270c6bb3ad5e1010c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:17 +0000
Subject: [PATCH 09/28] fix: merging search stats must not modify the merged
 stats

The merged stats shared bucket counts (and potentially categories) with the
stats that were merged into it first, so subsequent merges corrupted them.
---
 search_stats.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/search_stats.go b/search_stats.go
index f8e1664..962621e 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -82,8 +82,7 @@ func (ss *SearchStats) Merge(other *SearchStats) {
 	}
 
 	if ss.IsZero() {
-		*ss = *other
-		return
+		*ss = *NewSearchStats(other.Bucketing)
 	}
 
 	if dst, src := len(ss.Bucketing), len(other.Bucketing); dst != src {
@@ -93,7 +92,7 @@ func (ss *SearchStats) Merge(other *SearchStats) {
 	for category, theirs := range other.Categories {
 		ours, ok := ss.Categories[category]
 		if !ok {
-			cp := *theirs
+			cp := theirs.clone()
 			ss.Categories[category] = &cp
 			continue
 		}
@@ -242,6 +241,13 @@ func (cs *CategoryStats) EventRate() (r float64) {
 	return float64(total) / float64(delta.Seconds())
 }
 
+// clone returns a copy which doesn't share any memory with the original.
+func (cs *CategoryStats) clone() CategoryStats {
+	cp := *cs
+	cp.BucketCounts = append([]int(nil), cs.BucketCounts...)
+	return cp
+}
+
 // Merge the other category stats into this one.
 func (cs *CategoryStats) Merge(other *CategoryStats) {
 	if other.IsZero() {
@@ -249,7 +255,7 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 	}
 
 	if cs.IsZero() {
-		*cs = *other
+		*cs = other.clone()
 		return
 	}
 
-- 
2.43.0


From 7daeeec594ba405d1ddaaf4778af61664faa77f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:19 +0000
Subject: [PATCH 10/28] fix: merged category stats must include all events and
 correct rates

Event counts weren't merged at all. And rates were computed from stats which
already included the other stats, whose rate was then added a second time.
---
 search_stats.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/search_stats.go b/search_stats.go
index 962621e..7a545c6 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -266,6 +266,14 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 		panic(fmt.Errorf("bad merge: inconsistent buckets: %d vs. %d", dst, src))
 	}
 
+	// Rates must be computed from the stats before they're merged.
+	var (
+		tracerate = cs.TraceRate() + other.TraceRate()
+		eventrate = cs.EventRate() + other.EventRate()
+	)
+
+	cs.EventCount += other.EventCount
+
 	cs.ActiveCount += other.ActiveCount
 
 	for i := range cs.BucketCounts {
@@ -277,8 +285,8 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 	cs.Oldest = olderOf(cs.Oldest, other.Oldest)
 	cs.Newest = newerOf(cs.Newest, other.Newest)
 
-	cs.tracerate = cs.TraceRate() + other.TraceRate()
-	cs.eventrate = cs.EventRate() + other.EventRate()
+	cs.tracerate = tracerate
+	cs.eventrate = eventrate
 }
 
 //
-- 
2.43.0


From 2fb2b0d4dd8437d00f7cf76c5b6c060301ae5162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:21 +0000
Subject: [PATCH 11/28] fix: trace server must report search problems rather
 than panic or drop them

If the searcher returned an error (or no stats), the handler panicked. And
problems with the request itself, like an invalid query, were never transmitted
to JSON clients, which got seemingly valid results for a different request.
---
 trcweb/trace_server.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 4681e68..4ec2ef8 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -131,21 +131,29 @@ func (s *TraceServer) handleSearch(w http.ResponseWriter, r *http.Request) {
 		}
 	}
 
-	data.Problems = append(data.Problems, data.Request.Normalize()...)
+	requestProblems := data.Request.Normalize()
 
 	tr.LazyTracef("search request %s", data.Request)
 
 	res, err := s.Searcher.Search(ctx, &data.Request)
 	if err != nil {
-		data.Problems = append(data.Problems, fmt.Errorf("execute select request: %w", err))
+		requestProblems = append(requestProblems, fmt.Errorf("execute select request: %w", err))
 	} else {
 		data.Response = *res
 	}
 
+	if data.Response.Stats == nil {
+		data.Response.Stats = trc.NewSearchStats(data.Request.Bucketing)
+	}
+
+	data.Problems = append(data.Problems, requestProblems...)
 	for _, problem := range data.Response.Problems {
 		data.Problems = append(data.Problems, fmt.Errorf("response: %s", problem))
 	}
 
+	// Problems with the request need to be transmitted, too.
+	data.Response.Problems = append(trcutil.FlattenErrors(requestProblems...), data.Response.Problems...)
+
 	if n := len(data.Response.Stats.Categories); n >= 100 {
 		data.Problems = append(data.Problems, fmt.Errorf("way too many categories (%d)", n))
 	}
-- 
2.43.0


From 95282b0b33006320f7388123ae01273093dd63ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:23 +0000
Subject: [PATCH 12/28] fix: ignore non-positive stats intervals in stream
 requests

The handler panicked, and, because it waits for the stream to stop before the
context is canceled, hung until the client disconnected.
---
 trcweb/trace_server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 4ec2ef8..ae1edaa 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -271,6 +271,10 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 		donec   = make(chan struct{})
 	)
 
+	if stats <= 0 {
+		stats = 10 * time.Second // tickers panic
+	}
+
 	tr.LazyTracef("stats interval %s", stats)
 	tr.LazyTracef("send buffer %d", sendbuf)
 
-- 
2.43.0


From 29ebe319731616a51e7441515c170e948b96d180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:25 +0000
Subject: [PATCH 13/28] fix: filter string must contain the filter's IDs

---
 filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter.go b/filter.go
index 97f55e1..8fee7e6 100644
--- a/filter.go
+++ b/filter.go
@@ -42,7 +42,7 @@ func (f Filter) String() string {
 	}
 
 	if len(f.IDs) > 0 {
-		elems = append(elems, fmt.Sprintf("IDs=%v", f.Sources))
+		elems = append(elems, fmt.Sprintf("IDs=%v", f.IDs))
 	}
 
 	if f.Category != "" {
-- 
2.43.0


From 514567c1fcc9eb0558d2a70d24da786b5c07b5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 14/28] fix: filter must respect changes to the query

The compiled query was cached, and used for all subsequent searches with the
same request, even if its query was changed in the meantime.
---
 filter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filter.go b/filter.go
index 8fee7e6..9ae2d53 100644
--- a/filter.go
+++ b/filter.go
@@ -170,10 +170,14 @@ func (f *Filter) Allow(tr Trace) bool {
 }
 
 func (f *Filter) initializeQueryRegexp() error {
-	if f.regexp != nil {
+	if f.regexp != nil && f.regexp.String() == f.Query {
 		return nil
 	}
 
+	if f.regexp != nil {
+		f.regexp = nil // the query was changed
+	}
+
 	if f.Query == "" {
 		return nil
 	}
-- 
2.43.0


From 190825e015f0fabb3c6a1d2e5bd9d71623866855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:28 +0000
Subject: [PATCH 15/28] fix: middleware must record the status code of the
 actual response

A WriteHeader call after the header was already sent (implicitly, by Write or
Flush), or a call with an informational status code, was recorded instead.
---
 trcweb/middleware.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/trcweb/middleware.go b/trcweb/middleware.go
index 85724ac..b0242a6 100644
--- a/trcweb/middleware.go
+++ b/trcweb/middleware.go
@@ -62,21 +62,30 @@ type interceptor struct {
 }
 
 func newInterceptor(w http.ResponseWriter) *interceptor {
-	flush := func() {}
+	i := &interceptor{ResponseWriter: w, flush: func() {}}
 	if f, ok := w.(http.Flusher); ok {
-		flush = f.Flush
+		i.flush = func() {
+			if i.code == 0 {
+				i.code = http.StatusOK
+			}
+			f.Flush()
+		}
 	}
-	return &interceptor{ResponseWriter: w, flush: flush}
+	return i
 }
 
 func (i *interceptor) WriteHeader(code int) {
-	if i.code == 0 {
+	isInformational := code >= 100 && code <= 199 && code != http.StatusSwitchingProtocols
+	if i.code == 0 && !isInformational {
 		i.code = code
 	}
 	i.ResponseWriter.WriteHeader(code)
 }
 
 func (i *interceptor) Write(p []byte) (int, error) {
+	if i.code == 0 {
+		i.code = http.StatusOK
+	}
 	n, err := i.ResponseWriter.Write(p)
 	i.n += n
 	return n, err
-- 
2.43.0


From adf8b95af7bf0da7e4f48c54bcc4f924e8905dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:30 +0000
Subject: [PATCH 16/28] fix: publish every update to a trace, even if it's
 updated concurrently

Between an update to a trace and its publication, the trace could be updated
again, so that the first event was never published but the second was published
twice. Or, a finished trace could be dropped by the collector and free'd, so that
it was published without its events.
---
 decorators.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/decorators.go b/decorators.go
index bf6fefa..a24f878 100644
--- a/decorators.go
+++ b/decorators.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"log"
 	"strings"
+	"sync"
 
 	"github.com/peterbourgon/trc/internal/trcutil"
 )
@@ -123,36 +124,58 @@ type publisher interface {
 type publishTrace struct {
 	Trace
 	p publisher
+
+	// Updates need to be published before the trace is updated again (or free'd),
+	// otherwise subscribers won't see every event.
+	mtx sync.Mutex
 }
 
 var _ interface{ Free() } = (*publishTrace)(nil)
 
 func (ptr *publishTrace) Tracef(format string, args ...any) {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
 	ptr.Trace.Tracef(format, args...)
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) LazyTracef(format string, args ...any) {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
 	ptr.Trace.LazyTracef(format, args...)
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) Errorf(format string, args ...any) {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
 	ptr.Trace.Errorf(format, args...)
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) LazyErrorf(format string, args ...any) {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
 	ptr.Trace.LazyErrorf(format, args...)
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) Finish() {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
 	ptr.Trace.Finish()
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) Free() {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
 	if f, ok := ptr.Trace.(interface{ Free() }); ok {
 		f.Free()
 	}
-- 
2.43.0


From 662f51f2c572dc804b66f1913e96adfb6635ffca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:55 +0000
Subject: [PATCH 17/28] fix: stream client must close its connection when it
 returns an error

The connection, and with it the subscription on the server, was kept until the
context provided by the caller was canceled.
---
 trcweb/trace_server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index ae1edaa..f25761f 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -490,6 +490,9 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 		req = r
 	}
 
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel() // close the connection on every return path
+
 	es := eventsource.New(req, c.RetryInterval)
 	go func() {
 		<-ctx.Done()
-- 
2.43.0


From 4ae4456b704b5ff3e8261c2db42c95babd4b58b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:56 +0000
Subject: [PATCH 18/28] fix: escape query, sources, and categories in UI links

Links for e.g. a category 'A & B', or with a query like 'a+b', selected something
else.
---
 trcweb/assets/traces.html | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index c634c05..4681b61 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -105,12 +105,12 @@ function highlightQuery() {
 {{ $query_params := printf "n=%d" $n | SafeURL }}
 
 {{ if $q }}
-	{{ $query_params = printf "%s&q=%s" $query_params $q | SafeURL }}
+	{{ $query_params = printf "%s&q=%s" $query_params (QueryEscape $q) | SafeURL }}
 {{ end }}
 
 {{ if $f.Sources }}
 	{{ range $f.Sources }}
-		{{ $query_params = printf "%s&source=%s" $query_params . | SafeURL }}
+		{{ $query_params = printf "%s&source=%s" $query_params (QueryEscape .) | SafeURL }}
 	{{ end }}
 {{ end }}
 
@@ -170,7 +170,7 @@ function highlightQuery() {
 
 		{{ $category_query_params := $query_params }}
 		{{ if ne $category_name "overall" }}
-			{{ $category_query_params = printf "%s&category=%s" $query_params $category_name | SafeURL }}
+			{{ $category_query_params = printf "%s&category=%s" $query_params (QueryEscape $category_name) | SafeURL }}
 		{{ end }}
 
 		{{ $active_count  := .ActiveCount                           }}
-- 
2.43.0


From 454c400b25b0c6fe061097c5d3f8ab8e1cc028a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:13 +0000
Subject: [PATCH 19/28] fix: explicit argument indexes in events with a prefix

---
 helpers.go | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/helpers.go b/helpers.go
index 6dfbebd..3432d55 100644
--- a/helpers.go
+++ b/helpers.go
@@ -2,6 +2,7 @@ package trc
 
 import (
 	"context"
+	"fmt"
 	"runtime/trace"
 	"strings"
 	"time"
@@ -115,18 +116,41 @@ type prefixTrace struct {
 	args   []any
 }
 
+// prefix returns the format and args of the event with the prefix prepended.
+// Explicit argument indexes refer to the args of their own format, so formats
+// that may contain them can't be concatenated if both of them have args.
+func (ptr *prefixTrace) prefix(format string, args []any) (string, []any) {
+	prefixFormat, prefixArgs := ptr.format, ptr.args
+	if len(prefixArgs) > 0 && len(args) > 0 && strings.Contains(prefixFormat+format, "[") {
+		prefixFormat, prefixArgs = "%s", []any{&formatStringer{prefixFormat, prefixArgs}}
+		format, args = "%s", []any{&formatStringer{format, args}}
+	}
+	return prefixFormat + format, append(prefixArgs, args...)
+}
+
+type formatStringer struct {
+	format string
+	args   []any
+}
+
+func (fs *formatStringer) String() string { return fmt.Sprintf(fs.format, fs.args...) }
+
 func (ptr *prefixTrace) Tracef(format string, args ...any) {
-	ptr.Trace.Tracef(ptr.format+format, append(ptr.args, args...)...)
+	format, args = ptr.prefix(format, args)
+	ptr.Trace.Tracef(format, args...)
 }
 
 func (ptr *prefixTrace) LazyTracef(format string, args ...any) {
-	ptr.Trace.LazyTracef(ptr.format+format, append(ptr.args, args...)...)
+	format, args = ptr.prefix(format, args)
+	ptr.Trace.LazyTracef(format, args...)
 }
 
 func (ptr *prefixTrace) Errorf(format string, args ...any) {
-	ptr.Trace.Errorf(ptr.format+format, append(ptr.args, args...)...)
+	format, args = ptr.prefix(format, args)
+	ptr.Trace.Errorf(format, args...)
 }
 
 func (ptr *prefixTrace) LazyErrorf(format string, args ...any) {
-	ptr.Trace.LazyErrorf(ptr.format+format, append(ptr.args, args...)...)
+	format, args = ptr.prefix(format, args)
+	ptr.Trace.LazyErrorf(format, args...)
 }
-- 
2.43.0


From b12b113535ed18940baf06812bc443ec776d6a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:15 +0000
Subject: [PATCH 20/28] fix: log decorator must write one line for events that
 end in a newline

---
 decorators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decorators.go b/decorators.go
index a24f878..2551da3 100644
--- a/decorators.go
+++ b/decorators.go
@@ -92,8 +92,8 @@ func (ltr *logTrace) Finish() {
 }
 
 func (ltr *logTrace) logEvent(format string, args ...any) {
-	format = ltr.id + " " + strings.TrimSuffix(format, "\n") + "\n"
-	fmt.Fprintf(ltr.dst, format, args...)
+	event := strings.TrimSuffix(fmt.Sprintf(format, args...), "\n")
+	fmt.Fprintf(ltr.dst, "%s %s\n", ltr.id, event)
 }
 
 func (ltr *logTrace) Free() {
-- 
2.43.0


From 2f1edb7c37253127a0670bd07e90375cff4075e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:13 +0000
Subject: [PATCH 21/28] fix: trace server must report an empty search response
 as a problem

---
 trcweb/trace_server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index f25761f..6edd2a5 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -136,6 +136,9 @@ func (s *TraceServer) handleSearch(w http.ResponseWriter, r *http.Request) {
 	tr.LazyTracef("search request %s", data.Request)
 
 	res, err := s.Searcher.Search(ctx, &data.Request)
+	if err == nil && res == nil {
+		err = fmt.Errorf("empty response")
+	}
 	if err != nil {
 		requestProblems = append(requestProblems, fmt.Errorf("execute select request: %w", err))
 	} else {
-- 
2.43.0


From cb6190f71ed4d7a5b84ebce0bf09c85240735686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:19 +0000
Subject: [PATCH 22/28] fix: URL bucketing must be normalized like any other
 bucketing

---
 trcweb/util.go | 15 +--------------
 1 file changed, 1 insertion(+), 14 deletions(-)

diff --git a/trcweb/util.go b/trcweb/util.go
index 5c64592..bb8c0e6 100644
--- a/trcweb/util.go
+++ b/trcweb/util.go
@@ -2,7 +2,6 @@ package trcweb
 
 import (
 	"net/http"
-	"sort"
 	"time"
 
 	"github.com/peterbourgon/trc"
@@ -98,19 +97,7 @@ func parseBucketing(bs []string) []time.Duration {
 		}
 	}
 
-	sort.Slice(ds, func(i, j int) bool {
-		return ds[i] < ds[j]
-	})
-
-	if len(ds) <= 0 {
-		return nil
-	}
-
-	if ds[0] != 0 {
-		ds = append([]time.Duration{0}, ds...)
-	}
-
-	return ds
+	return ds // the search request will be normalized
 }
 
 func iff[T any](cond bool, yes, no T) T {
-- 
2.43.0


From 7a4e23dc5ea955e6293e213803287f07f53fed8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:04 +0000
Subject: [PATCH 23/28] fix: stream client must close a connection made after
 cancelation

A stream client canceled while waiting to reconnect makes one more connection
after the wait, and returned without closing it: the subscription on the server
stayed until the server process ended.
---
 trcweb/trace_server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 6edd2a5..7fca51e 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -497,6 +497,7 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 	defer cancel() // close the connection on every return path
 
 	es := eventsource.New(req, c.RetryInterval)
+	defer es.Close() // also a connection that was made after the context was canceled
 	go func() {
 		<-ctx.Done()
 		es.Close()
-- 
2.43.0


From 074cd9cdd07c336734ae3bfcdb3e7deeb6d1b308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:44:26 +0000
Subject: [PATCH 24/28] fix: hosts whose name starts with "http" must get a URI
 scheme, too

---
 cmd/trc/main.go        | 2 +-
 trcweb/trace_server.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/trc/main.go b/cmd/trc/main.go
index f59c394..a14c456 100644
--- a/cmd/trc/main.go
+++ b/cmd/trc/main.go
@@ -131,7 +131,7 @@ func exec(ctx context.Context, stdin io.Reader, stdout, stderr io.Writer, args [
 			continue
 		}
 
-		if !strings.HasPrefix(uri, "http") {
+		if !strings.HasPrefix(uri, "http://") && !strings.HasPrefix(uri, "https://") {
 			uri = "http://" + uri
 		}
 
diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 7fca51e..84705df 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -177,7 +177,7 @@ var _ trc.Searcher = (*SearchClient)(nil)
 // NewSearchClient returns a search client using the given HTTP client to query
 // the given search server URI.
 func NewSearchClient(client HTTPClient, uri string) *SearchClient {
-	if !strings.HasPrefix(uri, "http") {
+	if !strings.HasPrefix(uri, "http://") && !strings.HasPrefix(uri, "https://") {
 		uri = "http://" + uri
 	}
 	return &SearchClient{
@@ -406,7 +406,7 @@ func (c *StreamClient) initialize() {
 		c.HTTPClient = http.DefaultClient
 	}
 
-	if c.URI != "" && !strings.HasPrefix(c.URI, "http") {
+	if c.URI != "" && !strings.HasPrefix(c.URI, "http://") && !strings.HasPrefix(c.URI, "https://") {
 		c.URI = "http://" + c.URI
 	}
 
-- 
2.43.0


From a2b4422482276537fa13a8b4c1578802df603950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:45:38 +0000
Subject: [PATCH 25/28] fix: trc stream must reject buffer sizes and intervals
 that would panic

---
 cmd/trc/stream.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/trc/stream.go b/cmd/trc/stream.go
index 8643d3e..aee1a7a 100644
--- a/cmd/trc/stream.go
+++ b/cmd/trc/stream.go
@@ -3,6 +3,7 @@ package main
 import (
 	"context"
 	"encoding/json"
+	"fmt"
 	"net/http"
 	"os"
 	"sync"
@@ -40,6 +41,14 @@ func (cfg *streamConfig) Exec(ctx context.Context, args []string) error {
 	ctx, tr := cfg.newTrace(ctx, "stream")
 	defer tr.Finish()
 
+	if cfg.recvBuf < 0 {
+		return fmt.Errorf("invalid receive buffer size %d", cfg.recvBuf)
+	}
+
+	if cfg.statsInterval <= 0 {
+		return fmt.Errorf("invalid stats interval %s", cfg.statsInterval)
+	}
+
 	cfg.traces = make(chan trc.Trace, cfg.recvBuf)
 
 	var streaming string
-- 
2.43.0


From 35a19b05a61f5415d6e60d0b6048675c66ddf097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:39 +0000
Subject: [PATCH 26/28] fix: stream client must use its HTTP client, and pause
 between first attempts

StreamClient ignored HTTPClient, because package eventsource always uses the
default client, and that package retries without any pause as long as there
was no successful connection.
---
 trcweb/trace_server.go | 115 ++++++++++++++++++++++++++++++++++-------
 1 file changed, 97 insertions(+), 18 deletions(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 84705df..c0e6c5e 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"mime"
 	"net/http"
 	"net/url"
 	"strconv"
@@ -460,13 +461,8 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 		}
 	}()
 
-	// Explicitly don't provide the context to the request, because EventSource
-	// (incorrectly) treats context cancelation as a recoverable error, in which
-	// case Read can block for a single retry duration before returning.
-	//
-	// Also, EventSource directly re-uses this request over reconnect attempts,
-	// which prevents the use of a body, and means we have to encode the filter
-	// in the URL.
+	// The request is directly re-used over reconnect attempts, which prevents
+	// the use of a body, and means we have to encode the filter in the URL.
 	var req *http.Request
 	{
 		uri, err := url.Parse(c.URI)
@@ -483,28 +479,27 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 		}
 		uri.RawQuery = query.Encode()
 
-		r, err := http.NewRequest("GET", uri.String(), nil)
+		r, err := http.NewRequestWithContext(ctx, "GET", uri.String(), nil)
 		if err != nil {
 			return err
 		}
+		r.Header.Set("Accept", "text/event-stream")
+		r.Header.Set("Cache-Control", "no-cache")
 
 		encodeFilter(f, r)
 
 		req = r
 	}
 
-	ctx, cancel := context.WithCancel(ctx)
-	defer cancel() // close the connection on every return path
-
-	es := eventsource.New(req, c.RetryInterval)
-	defer es.Close() // also a connection that was made after the context was canceled
-	go func() {
-		<-ctx.Done()
-		es.Close()
-	}()
+	es := &eventSource{
+		client: c.HTTPClient,
+		req:    req,
+		retry:  c.RetryInterval,
+	}
+	defer es.close()
 
 	for {
-		ev, err := es.Read()
+		ev, err := es.read(ctx)
 		if errors.Is(err, eventsource.ErrClosed) {
 			return nil
 		}
@@ -541,3 +536,87 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 		}
 	}
 }
+
+//
+
+// eventSource reads server-sent events. It reconnects after every recoverable
+// error, waiting for the retry interval before each attempt but the first one.
+type eventSource struct {
+	client HTTPClient
+	req    *http.Request
+	retry  time.Duration
+
+	attempts int
+	body     io.ReadCloser
+	dec      *eventsource.Decoder
+}
+
+// read returns the next event, or eventsource.ErrClosed if the context was
+// canceled, or the server asks to stop.
+func (es *eventSource) read(ctx context.Context) (eventsource.Event, error) {
+	for {
+		if es.dec == nil {
+			if err := es.connect(ctx); err != nil {
+				return eventsource.Event{}, err
+			}
+		}
+
+		var ev eventsource.Event
+		err := es.dec.Decode(&ev)
+		switch {
+		case ctx.Err() != nil:
+			return eventsource.Event{}, eventsource.ErrClosed
+		case err == nil && len(ev.Data) > 0:
+			return ev, nil
+		case err == nil, errors.Is(err, eventsource.ErrInvalidEncoding):
+			// ignore this event
+		default:
+			es.close()
+		}
+	}
+}
+
+func (es *eventSource) connect(ctx context.Context) error {
+	for {
+		if es.attempts++; es.attempts > 1 {
+			select {
+			case <-time.After(es.retry):
+			case <-ctx.Done():
+			}
+		}
+
+		if ctx.Err() != nil {
+			return eventsource.ErrClosed
+		}
+
+		resp, err := es.client.Do(es.req)
+		if err != nil {
+			continue // assumed to be temporary, try reconnecting
+		}
+
+		mediatype, _, _ := mime.ParseMediaType(resp.Header.Get("Content-Type"))
+		switch {
+		case resp.StatusCode >= 500:
+			resp.Body.Close() // assumed to be temporary, try reconnecting
+		case resp.StatusCode == http.StatusNoContent:
+			resp.Body.Close()
+			return eventsource.ErrClosed
+		case resp.StatusCode != http.StatusOK:
+			resp.Body.Close()
+			return fmt.Errorf("endpoint returned unrecoverable status %q", resp.Status)
+		case mediatype != "text/event-stream":
+			resp.Body.Close()
+			return fmt.Errorf("invalid content type %q", resp.Header.Get("Content-Type"))
+		default:
+			es.body, es.dec = resp.Body, eventsource.NewDecoder(resp.Body)
+			return nil
+		}
+	}
+}
+
+func (es *eventSource) close() {
+	if es.body != nil {
+		es.body.Close()
+	}
+	es.body, es.dec = nil, nil
+}
-- 
2.43.0


From d1b1d6ec7b575ca987bc93fb193755b65e8996ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:54 +0000
Subject: [PATCH 27/28] fix: nested prefixes no longer use up the stacks of
 events

The stack of an event is limited to a few program counters. Every level
of Prefix (and Region) took one of them, so that events below six or more
levels had no stack at all. Nested prefixes now share one decorator.
---
 helpers.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/helpers.go b/helpers.go
index 3432d55..7722fdd 100644
--- a/helpers.go
+++ b/helpers.go
@@ -106,17 +106,23 @@ func Prefix(ctx context.Context, format string, args ...any) (context.Context, T
 		args:   args[:len(args):len(args)], // appends must copy
 	}
 
+	// Nested prefixes must not add call frames to the stacks of events.
+	if outer, ok := original.(*prefixTrace); ok {
+		prefixed.Trace, prefixed.outer = outer.Trace, outer
+	}
+
 	return Put(ctx, prefixed)
 }
 
 type prefixTrace struct {
 	Trace
 
+	outer  *prefixTrace // optional
 	format string
 	args   []any
 }
 
-// prefix returns the format and args of the event with the prefix prepended.
+// prefix returns the format and args of the event with all prefixes prepended.
 // Explicit argument indexes refer to the args of their own format, so formats
 // that may contain them can't be concatenated if both of them have args.
 func (ptr *prefixTrace) prefix(format string, args []any) (string, []any) {
@@ -125,7 +131,11 @@ func (ptr *prefixTrace) prefix(format string, args []any) (string, []any) {
 		prefixFormat, prefixArgs = "%s", []any{&formatStringer{prefixFormat, prefixArgs}}
 		format, args = "%s", []any{&formatStringer{format, args}}
 	}
-	return prefixFormat + format, append(prefixArgs, args...)
+	format, args = prefixFormat+format, append(prefixArgs, args...)
+	if ptr.outer != nil {
+		return ptr.outer.prefix(format, args)
+	}
+	return format, args
 }
 
 type formatStringer struct {
-- 
2.43.0


From 8906ccb15adabb86b397e5f9f530abbbfbddba47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:26:46 +0000
Subject: [PATCH 28/28] fix: trace server must not modify itself while it
 serves requests

---
 trcweb/trace_server.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index c0e6c5e..d618328 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -74,6 +74,9 @@ func (s *TraceServer) initialize() {
 
 // ServeHTTP implements http.Handler.
 func (s *TraceServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
+	// Requests are served concurrently, so the server itself must not change.
+	cp := *s
+	s = &cp
 	s.initialize()
 
 	switch Categorize(r) {
-- 
2.43.0


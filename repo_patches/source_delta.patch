From 6c541a6cfb98162bdad4bd67ef4b11040e34793a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:22:22 +0000
Subject: [PATCH 01/31] fix: don't drop the oldest event of a truncated trace,
 and give the truncated event a stable time

---
 trace_core.go | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/trace_core.go b/trace_core.go
index 5bb8d3e..ce44788 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -82,6 +82,7 @@ type coreTrace struct {
 	events      []*coreEvent
 	eventsmax   int
 	truncated   int
+	truncatedAt time.Time
 }
 
 var _ Trace = (*coreTrace)(nil)
@@ -124,6 +125,7 @@ func newCoreTrace(source, category string) *coreTrace {
 	tr.events = tr.events[:0]
 	tr.eventsmax = int(traceMaxEvents.Load())
 	tr.truncated = 0
+	tr.truncatedAt = time.Time{}
 	return tr
 }
 
@@ -171,7 +173,7 @@ func (tr *coreTrace) Tracef(format string, args ...any) {
 
 	switch {
 	case len(tr.events) >= tr.eventsmax:
-		tr.truncated++
+		tr.truncate()
 	default:
 		tr.events = append(tr.events, newCoreEvent(flagNormal|tr.nostackflag, format, args...))
 	}
@@ -187,7 +189,7 @@ func (tr *coreTrace) LazyTracef(format string, args ...any) {
 
 	switch {
 	case len(tr.events) >= tr.eventsmax:
-		tr.truncated++
+		tr.truncate()
 	default:
 		tr.events = append(tr.events, newCoreEvent(flagLazy|tr.nostackflag, format, args...))
 	}
@@ -205,7 +207,7 @@ func (tr *coreTrace) Errorf(format string, args ...any) {
 
 	switch {
 	case len(tr.events) >= tr.eventsmax:
-		tr.truncated++
+		tr.truncate()
 	default:
 		tr.events = append(tr.events, newCoreEvent(flagError|tr.nostackflag, format, args...))
 	}
@@ -223,12 +225,19 @@ func (tr *coreTrace) LazyErrorf(format string, args ...any) {
 
 	switch {
 	case len(tr.events) >= tr.eventsmax:
-		tr.truncated++
+		tr.truncate()
 	default:
 		tr.events = append(tr.events, newCoreEvent(flagLazy|flagError|tr.nostackflag, format, args...))
 	}
 }
 
+// truncate accounts for an event which can't be stored in the trace. It must be
+// called with the mutex held.
+func (tr *coreTrace) truncate() {
+	tr.truncated++
+	tr.truncatedAt = time.Now().UTC()
+}
+
 func (tr *coreTrace) Finish() {
 	tr.mtx.Lock()
 	defer tr.mtx.Unlock()
@@ -272,12 +281,14 @@ func (tr *coreTrace) EventsDetail(n int, stacks bool) []Event {
 
 	if tr.truncated > 0 {
 		events = append(events, Event{
-			When:    time.Now().UTC(),
+			When:    tr.truncatedAt,
 			What:    fmt.Sprintf("(truncated event count %d)", tr.truncated),
 			Stack:   nil,
 			IsError: false,
 		})
-		events = events[1:]
+		if n < len(tr.events) {
+			events = events[1:] // the truncated event is one of the latest n
+		}
 	}
 
 	return events
-- 
2.43.0


From e1ac9e5b381188d2ff6a23acdf65da6743325614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:38 +0000
Subject: [PATCH 02/31] fix: take consistent stream copies of concurrently
 modified, empty, or foreign traces

---
 trace_static.go | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/trace_static.go b/trace_static.go
index 4d69aa6..79ac4a0 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -39,25 +39,23 @@ func NewSearchTrace(tr Trace) *StaticTrace {
 // every event.
 func NewStreamTrace(tr Trace) *StaticTrace {
 	var (
-		isActive          = !tr.Finished()
+		isFinished        = tr.Finished() // must come first: a finished trace doesn't change anymore
 		detail, canDetail = tr.(interface{ EventsDetail(int, bool) []Event })
 		events            = []Event{}
 	)
 	switch {
-	case canDetail && isActive:
+	case canDetail && !isFinished:
 		events = detail.EventsDetail(1, false)
-	case canDetail && !isActive:
+	case canDetail && isFinished:
 		events = detail.EventsDetail(-1, false)
-	case !canDetail && isActive:
-		events = tr.Events()
-		events = events[len(events)-1:]
-		for i := range events {
-			events[i].Stack = events[i].Stack[:0]
+	case !canDetail:
+		all := tr.Events()
+		if n := len(all); !isFinished && n > 1 {
+			all = all[n-1:]
 		}
-	case !canDetail && !isActive:
-		events = tr.Events()
-		for i := range events {
-			events[i].Stack = events[i].Stack[:0]
+		for _, ev := range all {
+			ev.Stack = nil
+			events = append(events, ev)
 		}
 	}
 
@@ -70,7 +68,7 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 		TraceDuration:    duration,
 		TraceDurationStr: duration.String(),
 		TraceDurationSec: duration.Seconds(),
-		TraceFinished:    tr.Finished(),
+		TraceFinished:    isFinished,
 		TraceErrored:     tr.Errored(),
 		TraceEvents:      events,
 	}
-- 
2.43.0


From c43885da5c268641d5964f03f30de1cf339e61aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:40 +0000
Subject: [PATCH 03/31] fix: take consistent search copies of concurrently
 modified traces, and don't trim the stacks of their source

---
 trace_static.go | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/trace_static.go b/trace_static.go
index 79ac4a0..9528094 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -22,15 +22,20 @@ var _ Trace = (*StaticTrace)(nil) // needs to be passed to Filter.Allow
 
 // NewSearchTrace produces a static trace intended for a search response.
 func NewSearchTrace(tr Trace) *StaticTrace {
+	var (
+		finished = tr.Finished() // must come first: a finished trace doesn't change anymore
+		events   = tr.Events()
+		errored  = tr.Errored() // must come after events: an error event marks the trace as errored
+	)
 	return &StaticTrace{
 		TraceSource:   tr.Source(),
 		TraceID:       tr.ID(),
 		TraceCategory: tr.Category(),
 		TraceStarted:  tr.Started(),
 		TraceDuration: tr.Duration(),
-		TraceFinished: tr.Finished(),
-		TraceErrored:  tr.Errored(),
-		TraceEvents:   tr.Events(),
+		TraceFinished: finished,
+		TraceErrored:  errored,
+		TraceEvents:   events,
 	}
 }
 
@@ -122,12 +127,14 @@ func (st *StaticTrace) TrimStacks(depth int) *StaticTrace {
 	if depth < 0 {
 		depth = 0 // negative value means remove all stacks
 	}
+	events := make([]Event, len(st.TraceEvents)) // the original events may be shared
 	for i, ev := range st.TraceEvents {
 		if len(ev.Stack) > depth {
-			ev.Stack = ev.Stack[:depth]
-			st.TraceEvents[i] = ev
+			ev.Stack = ev.Stack[:depth:depth]
 		}
+		events[i] = ev
 	}
+	st.TraceEvents = events
 	return st
 }
 
-- 
2.43.0


From 697a0aefc2fab5a21261d54a69905fff8883010b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:27 +0000
Subject: [PATCH 04/31] fix: don't recycle core traces that callers may still
 hold

---
 trace_core.go | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/trace_core.go b/trace_core.go
index ce44788..d992a11 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -102,10 +102,12 @@ type traceContextKey struct{}
 
 var traceContextVal traceContextKey
 
-var coreTracePool = sync.Pool{
+// coreTraceEventsPool recycles the event slices of core traces. Core traces are
+// not recycled, because callers can hold on to them indefinitely.
+var coreTraceEventsPool = sync.Pool{
 	New: func() any {
 		trcdebug.CoreTraceAllocCount.Add(1)
-		return &coreTrace{}
+		return &[]*coreEvent{}
 	},
 }
 
@@ -113,19 +115,14 @@ var coreTracePool = sync.Pool{
 func newCoreTrace(source, category string) *coreTrace {
 	trcdebug.CoreTraceNewCount.Add(1)
 	now := time.Now().UTC()
-	tr := coreTracePool.Get().(*coreTrace)
+	tr := &coreTrace{}
 	tr.id = ulid.MustNew(ulid.Timestamp(now), traceIDEntropy) // defer String computation
 	tr.source = source
 	tr.category = category
 	tr.start = now
-	tr.errored = false
-	tr.finished = false
-	tr.duration = 0
 	tr.nostackflag = iff(traceNoStacks.Load(), flagNoStack, uint8(0))
-	tr.events = tr.events[:0]
+	tr.events = (*coreTraceEventsPool.Get().(*[]*coreEvent))[:0]
 	tr.eventsmax = int(traceMaxEvents.Load())
-	tr.truncated = 0
-	tr.truncatedAt = time.Time{}
 	return tr
 }
 
@@ -319,13 +316,15 @@ func (tr *coreTrace) Free() {
 		return // can't recycle, will be GC'd
 	}
 
-	for _, ev := range tr.events {
+	events := tr.events
+	tr.events = nil
+	for i, ev := range events {
 		ev.free() // TODO: these individual frees can show up in profiles, maybe pre-allocate?
+		events[i] = nil
 	}
-	tr.events = tr.events[:0]
 
 	trcdebug.CoreTraceFreeCount.Add(1)
-	coreTracePool.Put(tr)
+	coreTraceEventsPool.Put(&events)
 }
 
 //
-- 
2.43.0


From 3e7da28c0c6f5d70e4abb4448da922f2878dbb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:45 +0000
Subject: [PATCH 05/31] fix: don't recycle event stacks that were returned to
 callers

---
 trace_core.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/trace_core.go b/trace_core.go
index d992a11..b49d0a1 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -370,7 +370,7 @@ func newCoreEvent(flags uint8, format string, args ...any) *coreEvent {
 		cev.what = newNormalStringer(format, args...)
 	}
 
-	cev.stack = cev.stack[:0] // be safe
+	cev.stack = nil // be safe
 
 	if flags&flagNoStack != 0 {
 		cev.pcn = 0 // be safe
@@ -411,7 +411,7 @@ func (cev *coreEvent) free() {
 	cev.what.free()
 	cev.what = nil
 	cev.pcn = 0
-	cev.stack = cev.stack[:0]
+	cev.stack = nil // shared with returned events, can't be recycled
 	trcdebug.CoreEventFreeCount.Add(1)
 	coreEventPool.Put(cev)
 }
-- 
2.43.0


From 538818f8591fa78e38f12d56068b3565a47027ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:24:51 +0000
Subject: [PATCH 06/31] fix: don't share args between events of the same prefix

---
 helpers.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/helpers.go b/helpers.go
index 535496d..efef8b6 100644
--- a/helpers.go
+++ b/helpers.go
@@ -116,17 +116,23 @@ type prefixTrace struct {
 }
 
 func (ptr *prefixTrace) Tracef(format string, args ...any) {
-	ptr.Trace.Tracef(ptr.format+format, append(ptr.args, args...)...)
+	ptr.Trace.Tracef(ptr.format+format, ptr.prefixArgs(args)...)
 }
 
 func (ptr *prefixTrace) LazyTracef(format string, args ...any) {
-	ptr.Trace.LazyTracef(ptr.format+format, append(ptr.args, args...)...)
+	ptr.Trace.LazyTracef(ptr.format+format, ptr.prefixArgs(args)...)
 }
 
 func (ptr *prefixTrace) Errorf(format string, args ...any) {
-	ptr.Trace.Errorf(ptr.format+format, append(ptr.args, args...)...)
+	ptr.Trace.Errorf(ptr.format+format, ptr.prefixArgs(args)...)
 }
 
 func (ptr *prefixTrace) LazyErrorf(format string, args ...any) {
-	ptr.Trace.LazyErrorf(ptr.format+format, append(ptr.args, args...)...)
+	ptr.Trace.LazyErrorf(ptr.format+format, ptr.prefixArgs(args)...)
+}
+
+// prefixArgs returns a new slice, because args must not share memory with the
+// args of other events made against the same prefix.
+func (ptr *prefixTrace) prefixArgs(args []any) []any {
+	return append(ptr.args[:len(ptr.args):len(ptr.args)], args...)
 }
-- 
2.43.0


From 0e8f50a44bd1c106ad0887e89b0e748e29b21ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:26:51 +0000
Subject: [PATCH 07/31] fix: create trace IDs in the order of their timestamps

---
 trace_core.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/trace_core.go b/trace_core.go
index b49d0a1..d0cd4bc 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -63,7 +63,20 @@ func SetTraceStacks(enable bool) {
 //
 //
 
-var traceIDEntropy = ulid.DefaultEntropy()
+var (
+	traceIDMtx     sync.Mutex
+	traceIDEntropy = ulid.DefaultEntropy()
+)
+
+// newTraceID returns a new trace ID and its timestamp. Taking both under the
+// same lock ensures that IDs are strictly increasing.
+func newTraceID() (ulid.ULID, time.Time) {
+	traceIDMtx.Lock()
+	defer traceIDMtx.Unlock()
+
+	now := time.Now().UTC()
+	return ulid.MustNew(ulid.Timestamp(now), traceIDEntropy), now
+}
 
 // coreTrace is the default, mutable implementation of a trace. Trace IDs are
 // ULIDs, using a default monotonic source of entropy. The maximum number of
@@ -114,12 +127,10 @@ var coreTraceEventsPool = sync.Pool{
 // newCoreTrace starts a new trace with the given source and category.
 func newCoreTrace(source, category string) *coreTrace {
 	trcdebug.CoreTraceNewCount.Add(1)
-	now := time.Now().UTC()
 	tr := &coreTrace{}
-	tr.id = ulid.MustNew(ulid.Timestamp(now), traceIDEntropy) // defer String computation
+	tr.id, tr.start = newTraceID() // defer String computation
 	tr.source = source
 	tr.category = category
-	tr.start = now
 	tr.nostackflag = iff(traceNoStacks.Load(), flagNoStack, uint8(0))
 	tr.events = (*coreTraceEventsPool.Get().(*[]*coreEvent))[:0]
 	tr.eventsmax = int(traceMaxEvents.Load())
-- 
2.43.0


From 2d3e53774229f5ded3ab5bff208f5ab70e7f2fae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:42 +0000
Subject: [PATCH 08/31] fix: don't use region names as format strings

---
 helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers.go b/helpers.go
index efef8b6..5eed029 100644
--- a/helpers.go
+++ b/helpers.go
@@ -77,10 +77,10 @@ func Region(ctx context.Context, name string) (context.Context, Trace, func()) {
 	outputContext, outputTrace := Prefix(ctx, "·")
 	region := trace.StartRegion(outputContext, name)
 
-	inputTrace.LazyTracef("→ " + name)
+	inputTrace.LazyTracef("→ %s", name)
 	finish := func() {
 		took := time.Since(begin)
-		inputTrace.LazyTracef("← "+name+" [%s]", trcutil.HumanizeDuration(took))
+		inputTrace.LazyTracef("← %s [%s]", name, trcutil.HumanizeDuration(took))
 		region.End()
 	}
 
-- 
2.43.0


From 34f3f16a0d16922ff479843fd1d1f88ae9b5dc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:43 +0000
Subject: [PATCH 09/31] fix: carry the orphan trace in the contexts returned by
 Prefix and Region

---
 helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers.go b/helpers.go
index 5eed029..816fd7a 100644
--- a/helpers.go
+++ b/helpers.go
@@ -73,7 +73,7 @@ func SetMaxEvents(tr Trace, maxEvents int) (Trace, bool) {
 // Region can significantly impact performance. Use it sparingly.
 func Region(ctx context.Context, name string) (context.Context, Trace, func()) {
 	begin := time.Now()
-	inputTrace := Get(ctx)
+	ctx, inputTrace := Put(ctx, Get(ctx)) // so that Prefix gets the same trace
 	outputContext, outputTrace := Prefix(ctx, "·")
 	region := trace.StartRegion(outputContext, name)
 
@@ -96,7 +96,7 @@ func Prefix(ctx context.Context, format string, args ...any) (context.Context, T
 
 	format = strings.TrimSpace(format)
 	if format == "" {
-		return ctx, original
+		return Put(ctx, original)
 	}
 
 	prefixed := &prefixTrace{
-- 
2.43.0


From 8d2531d459987b6f3ebc4aea84d14e48ec2c0f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:46 +0000
Subject: [PATCH 10/31] fix: print the IDs of a filter

---
 filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter.go b/filter.go
index 97f55e1..8fee7e6 100644
--- a/filter.go
+++ b/filter.go
@@ -42,7 +42,7 @@ func (f Filter) String() string {
 	}
 
 	if len(f.IDs) > 0 {
-		elems = append(elems, fmt.Sprintf("IDs=%v", f.Sources))
+		elems = append(elems, fmt.Sprintf("IDs=%v", f.IDs))
 	}
 
 	if f.Category != "" {
-- 
2.43.0


From 31c99f19f8baeabd8a5d353846cb4f1b6f40ce02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:48 +0000
Subject: [PATCH 11/31] fix: use the current query of a reused filter

---
 filter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filter.go b/filter.go
index 8fee7e6..e5c78e3 100644
--- a/filter.go
+++ b/filter.go
@@ -170,10 +170,14 @@ func (f *Filter) Allow(tr Trace) bool {
 }
 
 func (f *Filter) initializeQueryRegexp() error {
-	if f.regexp != nil {
+	if f.regexp != nil && f.regexp.String() == f.Query {
 		return nil
 	}
 
+	if f.regexp != nil {
+		f.regexp = nil // compiled from a previous query
+	}
+
 	if f.Query == "" {
 		return nil
 	}
-- 
2.43.0


From 1bab613c70188ef814d5cba5bb4718c49e9da267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:03 +0000
Subject: [PATCH 12/31] fix: don't share bucket counts between merged stats

---
 search_stats.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/search_stats.go b/search_stats.go
index f8e1664..c277826 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -82,8 +82,7 @@ func (ss *SearchStats) Merge(other *SearchStats) {
 	}
 
 	if ss.IsZero() {
-		*ss = *other
-		return
+		*ss = *NewSearchStats(other.Bucketing)
 	}
 
 	if dst, src := len(ss.Bucketing), len(other.Bucketing); dst != src {
@@ -93,8 +92,7 @@ func (ss *SearchStats) Merge(other *SearchStats) {
 	for category, theirs := range other.Categories {
 		ours, ok := ss.Categories[category]
 		if !ok {
-			cp := *theirs
-			ss.Categories[category] = &cp
+			ss.Categories[category] = theirs.clone()
 			continue
 		}
 		ours.Merge(theirs)
@@ -242,6 +240,13 @@ func (cs *CategoryStats) EventRate() (r float64) {
 	return float64(total) / float64(delta.Seconds())
 }
 
+// clone returns a deep copy, which doesn't share bucket counts.
+func (cs *CategoryStats) clone() *CategoryStats {
+	cp := *cs
+	cp.BucketCounts = append([]int(nil), cs.BucketCounts...)
+	return &cp
+}
+
 // Merge the other category stats into this one.
 func (cs *CategoryStats) Merge(other *CategoryStats) {
 	if other.IsZero() {
@@ -249,7 +254,7 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 	}
 
 	if cs.IsZero() {
-		*cs = *other
+		*cs = *other.clone()
 		return
 	}
 
-- 
2.43.0


From 909ba7f7c3a3a61ae24d27c30aa74e924fc2c2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:05 +0000
Subject: [PATCH 13/31] fix: merge event counts, and don't count merged rates
 twice

---
 search_stats.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/search_stats.go b/search_stats.go
index c277826..b2b00b8 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -265,6 +265,11 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 		panic(fmt.Errorf("bad merge: inconsistent buckets: %d vs. %d", dst, src))
 	}
 
+	// Rates depend on the counts, so they need to be taken first.
+	tracerate := cs.TraceRate() + other.TraceRate()
+	eventrate := cs.EventRate() + other.EventRate()
+
+	cs.EventCount += other.EventCount
 	cs.ActiveCount += other.ActiveCount
 
 	for i := range cs.BucketCounts {
@@ -276,8 +281,8 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 	cs.Oldest = olderOf(cs.Oldest, other.Oldest)
 	cs.Newest = newerOf(cs.Newest, other.Newest)
 
-	cs.tracerate = cs.TraceRate() + other.TraceRate()
-	cs.eventrate = cs.EventRate() + other.EventRate()
+	cs.tracerate = tracerate
+	cs.eventrate = eventrate
 }
 
 //
-- 
2.43.0


From ff5a3d950abe5ac205428ece0e4e1e279192519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:07 +0000
Subject: [PATCH 14/31] fix: normalize negative buckets, without modifying the
 caller's slice

---
 search_types.go | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/search_types.go b/search_types.go
index 9ac15c8..2d2ad70 100644
--- a/search_types.go
+++ b/search_types.go
@@ -37,11 +37,11 @@ func (req *SearchRequest) Normalize() []error {
 	if len(req.Bucketing) <= 0 {
 		req.Bucketing = DefaultBucketing
 	}
-	sort.Slice(req.Bucketing, func(i, j int) bool {
+	isAscending := sort.SliceIsSorted(req.Bucketing, func(i, j int) bool {
 		return req.Bucketing[i] < req.Bucketing[j]
 	})
-	if req.Bucketing[0] != 0 {
-		req.Bucketing = append([]time.Duration{0}, req.Bucketing...)
+	if !isAscending || req.Bucketing[0] != 0 {
+		req.Bucketing = normalizeBucketing(req.Bucketing)
 	}
 
 	for _, err := range req.Filter.Normalize() {
@@ -60,6 +60,24 @@ func (req *SearchRequest) Normalize() []error {
 	return errs
 }
 
+// normalizeBucketing returns a sorted copy of the buckets, without any negative
+// values, and starting at zero.
+func normalizeBucketing(bucketing []time.Duration) []time.Duration {
+	normalized := make([]time.Duration, 0, len(bucketing)+1)
+	for _, bucket := range bucketing {
+		if bucket >= 0 {
+			normalized = append(normalized, bucket)
+		}
+	}
+	sort.Slice(normalized, func(i, j int) bool {
+		return normalized[i] < normalized[j]
+	})
+	if len(normalized) <= 0 || normalized[0] != 0 {
+		normalized = append([]time.Duration{0}, normalized...)
+	}
+	return normalized
+}
+
 // String implements fmt.Stringer.
 func (req SearchRequest) String() string {
 	var elems []string
-- 
2.43.0


From 129fc547e8abe4a03a7a5ba931437bc2813c6aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:07 +0000
Subject: [PATCH 15/31] fix: only return search copies that satisfy the filter

---
 collector.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/collector.go b/collector.go
index 3ab1faa..35bbfee 100644
--- a/collector.go
+++ b/collector.go
@@ -164,8 +164,15 @@ func (c *Collector) Search(ctx context.Context, req *SearchRequest) (*SearchResp
 				return nil
 			}
 
-			// Otherwise, collect a static copy of the trace.
-			categoryTraces = append(categoryTraces, NewSearchTrace(candidate).TrimStacks(req.StackDepth))
+			// Otherwise, take a static copy of the trace. The trace may have
+			// been modified in the meantime, so check the copy, too.
+			static := NewSearchTrace(candidate)
+			if !req.Filter.Allow(static) {
+				return nil
+			}
+
+			// Collect that copy.
+			categoryTraces = append(categoryTraces, static.TrimStacks(req.StackDepth))
 			matchCount++
 			return nil
 		})
-- 
2.43.0


From 3a6c7e0ac1e94cd873895db2887909244811ad2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:05:34 +0000
Subject: [PATCH 16/31] fix: publish each change of a trace exactly once

---
 decorators.go | 45 ++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 44 insertions(+), 1 deletion(-)

diff --git a/decorators.go b/decorators.go
index bf6fefa..955fe83 100644
--- a/decorators.go
+++ b/decorators.go
@@ -6,6 +6,7 @@ import (
 	"io"
 	"log"
 	"strings"
+	"sync"
 
 	"github.com/peterbourgon/trc/internal/trcutil"
 )
@@ -120,39 +121,81 @@ type publisher interface {
 	Publish(ctx context.Context, tr Trace)
 }
 
+// publishTrace publishes the trace on every change. The mutex ensures that each
+// published trace represents exactly the change that caused it, and that
+// nothing is published once the trace is finished.
 type publishTrace struct {
 	Trace
-	p publisher
+	p   publisher
+	mtx sync.Mutex
 }
 
 var _ interface{ Free() } = (*publishTrace)(nil)
 
 func (ptr *publishTrace) Tracef(format string, args ...any) {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
+	if ptr.Trace.Finished() {
+		return
+	}
+
 	ptr.Trace.Tracef(format, args...)
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) LazyTracef(format string, args ...any) {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
+	if ptr.Trace.Finished() {
+		return
+	}
+
 	ptr.Trace.LazyTracef(format, args...)
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) Errorf(format string, args ...any) {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
+	if ptr.Trace.Finished() {
+		return
+	}
+
 	ptr.Trace.Errorf(format, args...)
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) LazyErrorf(format string, args ...any) {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
+	if ptr.Trace.Finished() {
+		return
+	}
+
 	ptr.Trace.LazyErrorf(format, args...)
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) Finish() {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
+	if ptr.Trace.Finished() {
+		return
+	}
+
 	ptr.Trace.Finish()
 	ptr.p.Publish(context.Background(), ptr.Trace)
 }
 
 func (ptr *publishTrace) Free() {
+	ptr.mtx.Lock()
+	defer ptr.mtx.Unlock()
+
 	if f, ok := ptr.Trace.(interface{ Free() }); ok {
 		f.Free()
 	}
-- 
2.43.0


From 6090292d2ea7924a716c7fc1d076a987146ccc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:10:17 +0000
Subject: [PATCH 17/31] fix: start the stack of a nested trace event at the
 caller

---
 trace_core.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/trace_core.go b/trace_core.go
index d0cd4bc..6b36600 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -454,6 +454,9 @@ func ignoreStackFrameFunction(function string) bool {
 	if strings.HasPrefix(function, "github.com/peterbourgon/trc.Region") {
 		return true
 	}
+	if function == "github.com/peterbourgon/trc.(*Collector).NewTrace" {
+		return true
+	}
 	if strings.HasPrefix(function, "github.com/peterbourgon/trc/eztrc.") {
 		return true
 	}
-- 
2.43.0


From e43141e57a54e6329ccd651202470aa5d497580f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:13:11 +0000
Subject: [PATCH 18/31] fix: log exactly the text of an event, in one line

---
 decorators.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/decorators.go b/decorators.go
index 955fe83..062c899 100644
--- a/decorators.go
+++ b/decorators.go
@@ -92,8 +92,8 @@ func (ltr *logTrace) Finish() {
 }
 
 func (ltr *logTrace) logEvent(format string, args ...any) {
-	format = ltr.id + " " + strings.TrimSuffix(format, "\n") + "\n"
-	fmt.Fprintf(ltr.dst, format, args...)
+	what := strings.TrimSuffix(fmt.Sprintf(format, args...), "\n")
+	fmt.Fprintf(ltr.dst, "%s %s\n", ltr.id, what)
 }
 
 func (ltr *logTrace) Free() {
-- 
2.43.0


From c2e8bf7ba987999f509d02852ec9772b2d699692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:57 +0000
Subject: [PATCH 19/31] fix: report problems of search requests, and failed
 searches, in the search response

---
 trcweb/trace_server.go | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 4681e68..bba0f22 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -131,15 +131,26 @@ func (s *TraceServer) handleSearch(w http.ResponseWriter, r *http.Request) {
 		}
 	}
 
-	data.Problems = append(data.Problems, data.Request.Normalize()...)
+	normalizeErrs := data.Request.Normalize()
 
 	tr.LazyTracef("search request %s", data.Request)
 
 	res, err := s.Searcher.Search(ctx, &data.Request)
+	if err == nil && res == nil {
+		err = fmt.Errorf("empty response")
+	}
 	if err != nil {
-		data.Problems = append(data.Problems, fmt.Errorf("execute select request: %w", err))
-	} else {
-		data.Response = *res
+		res = &trc.SearchResponse{
+			Request:  &data.Request,
+			Problems: []string{fmt.Errorf("execute select request: %w", err).Error()},
+		}
+	}
+
+	data.Response = *res
+	data.Response.Problems = append(trcutil.FlattenErrors(normalizeErrs...), res.Problems...)
+
+	if data.Response.Stats == nil {
+		data.Response.Stats = trc.NewSearchStats(data.Request.Bucketing)
 	}
 
 	for _, problem := range data.Response.Problems {
-- 
2.43.0


From 113668f923450e5eb75403a8dbd8a50504586035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:21:58 +0000
Subject: [PATCH 20/31] fix: don't prepend another zero to negative buckets in
 search requests

---
 trcweb/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trcweb/util.go b/trcweb/util.go
index 5c64592..26a0727 100644
--- a/trcweb/util.go
+++ b/trcweb/util.go
@@ -106,7 +106,7 @@ func parseBucketing(bs []string) []time.Duration {
 		return nil
 	}
 
-	if ds[0] != 0 {
+	if ds[0] > 0 {
 		ds = append([]time.Duration{0}, ds...)
 	}
 
-- 
2.43.0


From 7e561b0253dfe7a4cab308832bc8ab68e25135a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:00 +0000
Subject: [PATCH 21/31] fix: don't modify the trace server while serving
 requests

---
 trcweb/trace_server.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index bba0f22..b34074b 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -73,13 +73,14 @@ func (s *TraceServer) initialize() {
 
 // ServeHTTP implements http.Handler.
 func (s *TraceServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	s.initialize()
+	server := *s // requests are served concurrently, so don't modify s
+	server.initialize()
 
 	switch Categorize(r) {
 	case "stream":
-		s.handleStream(w, r)
+		server.handleStream(w, r)
 	default:
-		s.handleSearch(w, r)
+		server.handleSearch(w, r)
 	}
 }
 
-- 
2.43.0


From 3e9a54e1795b00378f0603a780cb7db9890ce20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:51 +0000
Subject: [PATCH 22/31] fix: serve streams with non-positive stats intervals,
 and always end their subscriptions

---
 trcweb/trace_server.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index b34074b..11ddb75 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -275,6 +275,10 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 		donec   = make(chan struct{})
 	)
 
+	if stats <= 0 {
+		stats = 10 * time.Second
+	}
+
 	tr.LazyTracef("stats interval %s", stats)
 	tr.LazyTracef("send buffer %d", sendbuf)
 
@@ -287,6 +291,7 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 		close(donec)
 	}()
 	defer func() {
+		cancel()
 		<-donec
 	}()
 
-- 
2.43.0


From ea06748d702c1cc6f93f448a386cbffeb911b886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:30 +0000
Subject: [PATCH 23/31] fix: end streams when their context is canceled,
 without racing or leaking, and honor HTTPClient and RetryInterval

---
 trcweb/trace_server.go | 74 ++++++++++++++++++++++++++++++++----------
 1 file changed, 57 insertions(+), 17 deletions(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 11ddb75..a4cf95a 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -7,6 +7,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"mime"
 	"net/http"
 	"net/url"
 	"strconv"
@@ -462,13 +463,8 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 		}
 	}()
 
-	// Explicitly don't provide the context to the request, because EventSource
-	// (incorrectly) treats context cancelation as a recoverable error, in which
-	// case Read can block for a single retry duration before returning.
-	//
-	// Also, EventSource directly re-uses this request over reconnect attempts,
-	// which prevents the use of a body, and means we have to encode the filter
-	// in the URL.
+	// The request is re-used over reconnect attempts, which prevents the use of a
+	// body, and means we have to encode the filter in the URL.
 	var req *http.Request
 	{
 		uri, err := url.Parse(c.URI)
@@ -485,29 +481,73 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 		}
 		uri.RawQuery = query.Encode()
 
-		r, err := http.NewRequest("GET", uri.String(), nil)
+		r, err := http.NewRequestWithContext(ctx, "GET", uri.String(), nil)
 		if err != nil {
 			return err
 		}
 
+		r.Header.Set("accept", "text/event-stream")
+		r.Header.Set("cache-control", "no-cache")
+
 		encodeFilter(f, r)
 
 		req = r
 	}
 
-	es := eventsource.New(req, c.RetryInterval)
-	go func() {
-		<-ctx.Done()
-		es.Close()
-	}()
+	for ctx.Err() == nil {
+		if err := c.stream(ctx, req, ch); errors.Is(err, errStreamInterrupted) {
+			tr.LazyTracef("%v, will retry in %s", err, c.RetryInterval)
+		} else if err != nil && ctx.Err() == nil {
+			return err
+		} else {
+			return nil
+		}
+
+		select {
+		case <-ctx.Done():
+		case <-time.After(c.RetryInterval):
+		}
+	}
+
+	return nil
+}
+
+var errStreamInterrupted = errors.New("stream interrupted")
+
+// stream makes a single stream request, and forwards received traces to the
+// channel. Recoverable errors are reported as errStreamInterrupted.
+func (c *StreamClient) stream(ctx context.Context, req *http.Request, ch chan<- trc.Trace) error {
+	tr := trc.Get(ctx)
+
+	res, err := c.HTTPClient.Do(req)
+	if err != nil {
+		return fmt.Errorf("%w: %v", errStreamInterrupted, err)
+	}
+	defer res.Body.Close()
+
+	switch mediaType, _, _ := mime.ParseMediaType(res.Header.Get("content-type")); {
+	case res.StatusCode >= 500: // assumed to be temporary
+		return fmt.Errorf("%w: endpoint returned status %q", errStreamInterrupted, res.Status)
+	case res.StatusCode == http.StatusNoContent:
+		return nil
+	case res.StatusCode != http.StatusOK:
+		return fmt.Errorf("read server-sent event: endpoint returned unrecoverable status %q", res.Status)
+	case mediaType != "text/event-stream":
+		return fmt.Errorf("read server-sent event: invalid content type %q", res.Header.Get("content-type"))
+	}
 
+	dec := eventsource.NewDecoder(res.Body)
 	for {
-		ev, err := es.Read()
-		if errors.Is(err, eventsource.ErrClosed) {
-			return nil
+		var ev eventsource.Event
+		err := dec.Decode(&ev)
+		if errors.Is(err, eventsource.ErrInvalidEncoding) {
+			continue
 		}
 		if err != nil {
-			return fmt.Errorf("read server-sent event: %w", err)
+			return fmt.Errorf("%w: %v", errStreamInterrupted, err)
+		}
+		if len(ev.Data) == 0 {
+			continue
 		}
 
 		c.OnRead(ctx, ev.Type, ev.Data)
-- 
2.43.0


From d5a46a8305c07a423c79b58a68f5038ac9406bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:12 +0000
Subject: [PATCH 24/31] fix: notice the end of a stream whose request body
 wasn't read completely

---
 trcweb/trace_server.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index a4cf95a..0db7aee 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -251,6 +251,7 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 		if err := json.NewDecoder(body).Decode(&f); err != nil {
 			tr.Errorf("decode filter error (%v), using default", err)
 		}
+		io.Copy(io.Discard, body) // a disconnect is only noticed once the body was read
 	default:
 		f = parseFilter(r)
 	}
-- 
2.43.0


From 4dda49b0078b6da5df977d208e9be721c60e54bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:58 +0000
Subject: [PATCH 25/31] fix: record the status code that is actually sent

---
 trcweb/middleware.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/trcweb/middleware.go b/trcweb/middleware.go
index 85724ac..fed3c88 100644
--- a/trcweb/middleware.go
+++ b/trcweb/middleware.go
@@ -62,21 +62,30 @@ type interceptor struct {
 }
 
 func newInterceptor(w http.ResponseWriter) *interceptor {
-	flush := func() {}
+	i := &interceptor{ResponseWriter: w, flush: func() {}}
 	if f, ok := w.(http.Flusher); ok {
-		flush = f.Flush
+		i.flush = func() {
+			if i.code == 0 {
+				i.code = http.StatusOK // implicit WriteHeader
+			}
+			f.Flush()
+		}
 	}
-	return &interceptor{ResponseWriter: w, flush: flush}
+	return i
 }
 
 func (i *interceptor) WriteHeader(code int) {
-	if i.code == 0 {
+	isInformational := code >= 100 && code <= 199 && code != http.StatusSwitchingProtocols
+	if i.code == 0 && !isInformational {
 		i.code = code
 	}
 	i.ResponseWriter.WriteHeader(code)
 }
 
 func (i *interceptor) Write(p []byte) (int, error) {
+	if i.code == 0 {
+		i.code = http.StatusOK // implicit WriteHeader
+	}
 	n, err := i.ResponseWriter.Write(p)
 	i.n += n
 	return n, err
-- 
2.43.0


From 0933769ff43125dbbda78ee358436aa802e4bf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:18 +0000
Subject: [PATCH 26/31] fix: escape query parameters in the links of the traces
 page

---
 trcweb/assets/traces.html | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index c634c05..384e9ff 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -105,12 +105,12 @@ function highlightQuery() {
 {{ $query_params := printf "n=%d" $n | SafeURL }}
 
 {{ if $q }}
-	{{ $query_params = printf "%s&q=%s" $query_params $q | SafeURL }}
+	{{ $query_params = printf "%s&q=%s" $query_params (QueryEscape $q) | SafeURL }}
 {{ end }}
 
 {{ if $f.Sources }}
 	{{ range $f.Sources }}
-		{{ $query_params = printf "%s&source=%s" $query_params . | SafeURL }}
+		{{ $query_params = printf "%s&source=%s" $query_params (QueryEscape .) | SafeURL }}
 	{{ end }}
 {{ end }}
 
@@ -170,7 +170,7 @@ function highlightQuery() {
 
 		{{ $category_query_params := $query_params }}
 		{{ if ne $category_name "overall" }}
-			{{ $category_query_params = printf "%s&category=%s" $query_params $category_name | SafeURL }}
+			{{ $category_query_params = printf "%s&category=%s" $query_params (QueryEscape $category_name) | SafeURL }}
 		{{ end }}
 
 		{{ $active_count  := .ActiveCount                           }}
@@ -386,7 +386,7 @@ function highlightQuery() {
 
 	<!-- Trace top line -->
 	<div class="metadata">
-		{{ $href := printf "id=%s" .ID | SafeURL }}
+		{{ $href := printf "id=%s" (QueryEscape .ID) | SafeURL }}
 
 		<strong><a href="?{{$href}}">{{ .ID }}</a></strong>
 
-- 
2.43.0


From 4a2f59006479586f5780fb7234779fa054522dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:52 +0000
Subject: [PATCH 27/31] fix: highlight search matches without interpreting
 trace text as markup

---
 trcweb/assets/traces.html | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index 384e9ff..b0b2013 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -79,10 +79,13 @@ function highlightQuery() {
 	{{ if .Request.Filter.Query }}
 	let re = new RegExp('('+{{.Request.Filter.Query}}+')');
 	document.getElementById("traces").querySelectorAll(".searchable").forEach(elem => {
-		if (re.test(elem.innerHTML)) {
-			let oldText = elem.textContent.replace(/(<mark class="highlight">|<\/mark>)/gim, ' ');
-			let newText = oldText.replace(re, '<mark class="highlight">$&</mark>');
-			elem.innerHTML = newText;
+		let text = elem.textContent;
+		let match = re.exec(text);
+		if (match != null) {
+			let mark = document.createElement("mark");
+			mark.className = "highlight";
+			mark.textContent = match[0];
+			elem.replaceChildren(text.slice(0, match.index), mark, text.slice(match.index + match[0].length));
 			let details = elem.closest("details");
 			if (details != null) {
 				details.open = true;
-- 
2.43.0


From 76b500e79f786610b3a1a7b9fa2f8a3d3c545bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:44 +0000
Subject: [PATCH 28/31] fix: reject invalid stream flags with an error

---
 cmd/trc/stream.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/cmd/trc/stream.go b/cmd/trc/stream.go
index 8643d3e..e0ab30b 100644
--- a/cmd/trc/stream.go
+++ b/cmd/trc/stream.go
@@ -3,6 +3,8 @@ package main
 import (
 	"context"
 	"encoding/json"
+	"errors"
+	"fmt"
 	"net/http"
 	"os"
 	"sync"
@@ -40,6 +42,18 @@ func (cfg *streamConfig) Exec(ctx context.Context, args []string) error {
 	ctx, tr := cfg.newTrace(ctx, "stream")
 	defer tr.Finish()
 
+	if cfg.recvBuf < 0 {
+		return fmt.Errorf("invalid receive buffer size %d", cfg.recvBuf)
+	}
+
+	if cfg.statsInterval <= 0 {
+		return fmt.Errorf("invalid stats interval %s", cfg.statsInterval)
+	}
+
+	if errs := cfg.filter.Normalize(); len(errs) > 0 {
+		return fmt.Errorf("invalid filter: %w", errors.Join(errs...))
+	}
+
 	cfg.traces = make(chan trc.Trace, cfg.recvBuf)
 
 	var streaming string
-- 
2.43.0


From 7702bc1b49d4537f88be86b13892448b95573a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:24 +0000
Subject: [PATCH 29/31] fix: accept URIs of hosts whose name starts with http

---
 cmd/trc/main.go        | 2 +-
 trcweb/trace_server.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmd/trc/main.go b/cmd/trc/main.go
index f59c394..a14c456 100644
--- a/cmd/trc/main.go
+++ b/cmd/trc/main.go
@@ -131,7 +131,7 @@ func exec(ctx context.Context, stdin io.Reader, stdout, stderr io.Writer, args [
 			continue
 		}
 
-		if !strings.HasPrefix(uri, "http") {
+		if !strings.HasPrefix(uri, "http://") && !strings.HasPrefix(uri, "https://") {
 			uri = "http://" + uri
 		}
 
diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 0db7aee..088a6af 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -179,7 +179,7 @@ var _ trc.Searcher = (*SearchClient)(nil)
 // NewSearchClient returns a search client using the given HTTP client to query
 // the given search server URI.
 func NewSearchClient(client HTTPClient, uri string) *SearchClient {
-	if !strings.HasPrefix(uri, "http") {
+	if !strings.HasPrefix(uri, "http://") && !strings.HasPrefix(uri, "https://") {
 		uri = "http://" + uri
 	}
 	return &SearchClient{
@@ -410,7 +410,7 @@ func (c *StreamClient) initialize() {
 		c.HTTPClient = http.DefaultClient
 	}
 
-	if c.URI != "" && !strings.HasPrefix(c.URI, "http") {
+	if c.URI != "" && !strings.HasPrefix(c.URI, "http://") && !strings.HasPrefix(c.URI, "https://") {
 		c.URI = "http://" + c.URI
 	}
 
-- 
2.43.0


From 5bc6706c2c206e798ec6f4dcb128306a50ad43e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:48:51 +0000
Subject: [PATCH 30/31] fix: allow concurrent streams with one stream client

Stream initialized its receiver, so that concurrent calls with the same
client raced on its fields.
---
 trcweb/trace_server.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 088a6af..56e4632 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -454,6 +454,8 @@ func NewStreamClient(uri string) *StreamClient {
 // the provided channel. The stream stops when the context is canceled, or a
 // non-recoverable error occurs.
 func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (err error) {
+	client := *c // streams can run concurrently, so don't modify c
+	c = &client
 	c.initialize()
 
 	tr := trc.Get(ctx)
-- 
2.43.0


From e6f667c534b7a786925be3307d324d47483d043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:51:32 +0000
Subject: [PATCH 31/31] fix: link to a category named overall

The traces page took it for its own row over all categories, so its links
and its search form did not request the category.
---
 trcweb/assets/traces.html | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index b0b2013..3215ebc 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -166,13 +166,14 @@ function highlightQuery() {
 		</th>
 	</tr>
 
-	{{ range .Response.Stats.AllCategories }}
+	{{ $category_count := len .Response.Stats.Categories }}
+	{{ range $category_index, $_ := .Response.Stats.AllCategories }}
 	<tr class="category">
 		{{ $category_name         := .Category                    }}
 		{{ $category_class_name   := CategoryClass $category_name }}
 
 		{{ $category_query_params := $query_params }}
-		{{ if ne $category_name "overall" }}
+		{{ if lt $category_index $category_count }}{{/* not the overall row */}}
 			{{ $category_query_params = printf "%s&category=%s" $query_params (QueryEscape $category_name) | SafeURL }}
 		{{ end }}
 
@@ -267,7 +268,7 @@ function highlightQuery() {
 				{{ end }}
 			</select>
 
-			{{ if and (.Request.Filter.Category) (ne .Request.Filter.Category "overall") }}
+			{{ if .Request.Filter.Category }}
 				<input type="hidden" name="category"  value="{{.Request.Filter.Category}}" />
 			{{ end }}
 
-- 
2.43.0


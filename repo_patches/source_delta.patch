From 1c29772634ee165fbcf367b4ad65f187a0ba434f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:15:39 +0000
Subject: [PATCH 01/23] fix: copy event stacks into snapshots instead of
 aliasing pooled memory

---
 trace_core.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trace_core.go b/trace_core.go
index 5bb8d3e..07c22f7 100644
--- a/trace_core.go
+++ b/trace_core.go
@@ -411,7 +411,7 @@ func snapshotEvents(cevs []*coreEvent, stacks bool) []Event {
 	for i, cev := range cevs {
 		var stack []Frame
 		if stacks {
-			stack = cev.getStack()
+			stack = append([]Frame(nil), cev.getStack()...) // copy, as the event may be recycled
 		}
 		res[i] = Event{
 			When:    cev.when,
-- 
2.43.0


From ae42875aa838e7feaf75be3916e17f2132f8d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:15:40 +0000
Subject: [PATCH 02/23] fix: NewStreamTrace panics on an active trace without
 events, and modifies the events of the source trace

---
 trace_static.go | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/trace_static.go b/trace_static.go
index 4d69aa6..cf63f6a 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -49,16 +49,13 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 	case canDetail && !isActive:
 		events = detail.EventsDetail(-1, false)
 	case !canDetail && isActive:
-		events = tr.Events()
-		events = events[len(events)-1:]
-		for i := range events {
-			events[i].Stack = events[i].Stack[:0]
+		all := tr.Events()
+		if n := len(all); n > 1 {
+			all = all[n-1:]
 		}
+		events = withoutStacks(all)
 	case !canDetail && !isActive:
-		events = tr.Events()
-		for i := range events {
-			events[i].Stack = events[i].Stack[:0]
-		}
+		events = withoutStacks(tr.Events())
 	}
 
 	duration := tr.Duration()
@@ -76,6 +73,16 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 	}
 }
 
+// withoutStacks returns a copy of the events, without their stacks.
+func withoutStacks(events []Event) []Event {
+	res := make([]Event, len(events))
+	for i, ev := range events {
+		ev.Stack = nil
+		res[i] = ev
+	}
+	return res
+}
+
 // ID implements the Trace interface.
 func (st *StaticTrace) ID() string { return st.TraceID }
 
-- 
2.43.0


From 8dc7802e978448c798e4cef0d4198aeed764b9cf Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:15:42 +0000
Subject: [PATCH 03/23] fix: static traces could be marked finished without the
 final duration, error state, and events

---
 trace_static.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/trace_static.go b/trace_static.go
index cf63f6a..1663794 100644
--- a/trace_static.go
+++ b/trace_static.go
@@ -22,13 +22,14 @@ var _ Trace = (*StaticTrace)(nil) // needs to be passed to Filter.Allow
 
 // NewSearchTrace produces a static trace intended for a search response.
 func NewSearchTrace(tr Trace) *StaticTrace {
+	finished := tr.Finished() // must be first, so that a finished copy is complete
 	return &StaticTrace{
 		TraceSource:   tr.Source(),
 		TraceID:       tr.ID(),
 		TraceCategory: tr.Category(),
 		TraceStarted:  tr.Started(),
 		TraceDuration: tr.Duration(),
-		TraceFinished: tr.Finished(),
+		TraceFinished: finished,
 		TraceErrored:  tr.Errored(),
 		TraceEvents:   tr.Events(),
 	}
@@ -67,7 +68,7 @@ func NewStreamTrace(tr Trace) *StaticTrace {
 		TraceDuration:    duration,
 		TraceDurationStr: duration.String(),
 		TraceDurationSec: duration.Seconds(),
-		TraceFinished:    tr.Finished(),
+		TraceFinished:    !isActive, // a finished copy must be complete
 		TraceErrored:     tr.Errored(),
 		TraceEvents:      events,
 	}
-- 
2.43.0


From 6b64c13c3e03ad723bab23ce3283f8c24cad6b97 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:15:43 +0000
Subject: [PATCH 04/23] fix: negative buckets made SearchRequest.Normalize add
 another zero bucket on every call

---
 search_types.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/search_types.go b/search_types.go
index 9ac15c8..c1095f2 100644
--- a/search_types.go
+++ b/search_types.go
@@ -40,7 +40,10 @@ func (req *SearchRequest) Normalize() []error {
 	sort.Slice(req.Bucketing, func(i, j int) bool {
 		return req.Bucketing[i] < req.Bucketing[j]
 	})
-	if req.Bucketing[0] != 0 {
+	for len(req.Bucketing) > 0 && req.Bucketing[0] < 0 {
+		req.Bucketing = req.Bucketing[1:] // durations are never negative
+	}
+	if len(req.Bucketing) <= 0 || req.Bucketing[0] != 0 {
 		req.Bucketing = append([]time.Duration{0}, req.Bucketing...)
 	}
 
-- 
2.43.0


From 4ba9b72f57c80c07f012a96d612c9fd5215e8b22 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:15:44 +0000
Subject: [PATCH 05/23] fix: merged stats shared memory with the stats they
 were merged from

---
 search_stats.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/search_stats.go b/search_stats.go
index f8e1664..64fa723 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -82,8 +82,11 @@ func (ss *SearchStats) Merge(other *SearchStats) {
 	}
 
 	if ss.IsZero() {
-		*ss = *other
-		return
+		ss.Bucketing = other.Bucketing
+	}
+
+	if ss.Categories == nil {
+		ss.Categories = map[string]*CategoryStats{}
 	}
 
 	if dst, src := len(ss.Bucketing), len(other.Bucketing); dst != src {
@@ -93,9 +96,8 @@ func (ss *SearchStats) Merge(other *SearchStats) {
 	for category, theirs := range other.Categories {
 		ours, ok := ss.Categories[category]
 		if !ok {
-			cp := *theirs
-			ss.Categories[category] = &cp
-			continue
+			ours = NewCategoryStats(category, ss.Bucketing)
+			ss.Categories[category] = ours
 		}
 		ours.Merge(theirs)
 	}
@@ -250,6 +252,7 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 
 	if cs.IsZero() {
 		*cs = *other
+		cs.BucketCounts = append([]int(nil), other.BucketCounts...)
 		return
 	}
 
-- 
2.43.0


From 08e6324d669ec8f22fcdd38dd1a1d67cce31c5be Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:15:46 +0000
Subject: [PATCH 06/23] fix: CategoryStats.Merge dropped the event count of the
 other stats

---
 search_stats.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/search_stats.go b/search_stats.go
index 64fa723..99f039d 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -263,6 +263,8 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 		panic(fmt.Errorf("bad merge: inconsistent buckets: %d vs. %d", dst, src))
 	}
 
+	cs.EventCount += other.EventCount
+
 	cs.ActiveCount += other.ActiveCount
 
 	for i := range cs.BucketCounts {
-- 
2.43.0


From 50cce01011704dc73d3ce89c7b6019759c2b3aec Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:15:48 +0000
Subject: [PATCH 07/23] fix: CategoryStats.Merge counted the other stats twice
 in the rates

---
 search_stats.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/search_stats.go b/search_stats.go
index 99f039d..06ea1d0 100644
--- a/search_stats.go
+++ b/search_stats.go
@@ -263,6 +263,10 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 		panic(fmt.Errorf("bad merge: inconsistent buckets: %d vs. %d", dst, src))
 	}
 
+	// Rates must be computed before the counts are merged.
+	cs.tracerate = cs.TraceRate() + other.TraceRate()
+	cs.eventrate = cs.EventRate() + other.EventRate()
+
 	cs.EventCount += other.EventCount
 
 	cs.ActiveCount += other.ActiveCount
@@ -275,9 +279,6 @@ func (cs *CategoryStats) Merge(other *CategoryStats) {
 
 	cs.Oldest = olderOf(cs.Oldest, other.Oldest)
 	cs.Newest = newerOf(cs.Newest, other.Newest)
-
-	cs.tracerate = cs.TraceRate() + other.TraceRate()
-	cs.eventrate = cs.EventRate() + other.EventRate()
 }
 
 //
-- 
2.43.0


From cf5ce11d3919c5f3d00a580773469a184d06054a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:15:49 +0000
Subject: [PATCH 08/23] fix: events of a prefixed trace could overwrite each
 others' args

---
 helpers.go | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/helpers.go b/helpers.go
index 535496d..cbc947e 100644
--- a/helpers.go
+++ b/helpers.go
@@ -115,18 +115,23 @@ type prefixTrace struct {
 	args   []any
 }
 
+// withArgs returns a new slice with the prefix args followed by the given args.
+func (ptr *prefixTrace) withArgs(args []any) []any {
+	return append(ptr.args[:len(ptr.args):len(ptr.args)], args...)
+}
+
 func (ptr *prefixTrace) Tracef(format string, args ...any) {
-	ptr.Trace.Tracef(ptr.format+format, append(ptr.args, args...)...)
+	ptr.Trace.Tracef(ptr.format+format, ptr.withArgs(args)...)
 }
 
 func (ptr *prefixTrace) LazyTracef(format string, args ...any) {
-	ptr.Trace.LazyTracef(ptr.format+format, append(ptr.args, args...)...)
+	ptr.Trace.LazyTracef(ptr.format+format, ptr.withArgs(args)...)
 }
 
 func (ptr *prefixTrace) Errorf(format string, args ...any) {
-	ptr.Trace.Errorf(ptr.format+format, append(ptr.args, args...)...)
+	ptr.Trace.Errorf(ptr.format+format, ptr.withArgs(args)...)
 }
 
 func (ptr *prefixTrace) LazyErrorf(format string, args ...any) {
-	ptr.Trace.LazyErrorf(ptr.format+format, append(ptr.args, args...)...)
+	ptr.Trace.LazyErrorf(ptr.format+format, ptr.withArgs(args)...)
 }
-- 
2.43.0


From 6e74086a24eb79acb86311e7767c661ecafda63d Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:15:51 +0000
Subject: [PATCH 09/23] fix: Region interpreted the region name as a format
 string

---
 helpers.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/helpers.go b/helpers.go
index cbc947e..0d506f3 100644
--- a/helpers.go
+++ b/helpers.go
@@ -77,10 +77,10 @@ func Region(ctx context.Context, name string) (context.Context, Trace, func()) {
 	outputContext, outputTrace := Prefix(ctx, "·")
 	region := trace.StartRegion(outputContext, name)
 
-	inputTrace.LazyTracef("→ " + name)
+	inputTrace.LazyTracef("→ %s", name)
 	finish := func() {
 		took := time.Since(begin)
-		inputTrace.LazyTracef("← "+name+" [%s]", trcutil.HumanizeDuration(took))
+		inputTrace.LazyTracef("← %s [%s]", name, trcutil.HumanizeDuration(took))
 		region.End()
 	}
 
-- 
2.43.0


From 0b0bcec5b963a0a0d92f57ff98902ab4e453c34e Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:15:52 +0000
Subject: [PATCH 10/23] fix: the search handler panicked when the searcher
 returned an error or no stats

---
 trcweb/trace_server.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 4681e68..507b08a 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -138,9 +138,12 @@ func (s *TraceServer) handleSearch(w http.ResponseWriter, r *http.Request) {
 	res, err := s.Searcher.Search(ctx, &data.Request)
 	if err != nil {
 		data.Problems = append(data.Problems, fmt.Errorf("execute select request: %w", err))
-	} else {
+	} else if res != nil {
 		data.Response = *res
 	}
+	if data.Response.Stats == nil {
+		data.Response.Stats = trc.NewSearchStats(data.Request.Bucketing)
+	}
 
 	for _, problem := range data.Response.Problems {
 		data.Problems = append(data.Problems, fmt.Errorf("response: %s", problem))
-- 
2.43.0


From e255f53eaf77e7c5c3c07fd3dfa15a884b971d9f Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:15:53 +0000
Subject: [PATCH 11/23] fix: the stream handler panicked on a zero or negative
 stats interval

---
 trcweb/trace_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 507b08a..d675a40 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -260,7 +260,7 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 	}
 
 	var (
-		stats   = parseDefault(r.URL.Query().Get("stats"), time.ParseDuration, 10*time.Second)
+		stats   = parseRange(r.URL.Query().Get("stats"), time.ParseDuration, 1*time.Second, 10*time.Second, 60*time.Second)
 		sendbuf = parseRange(r.URL.Query().Get("sendbuf"), strconv.Atoi, 0, 100, 100000)
 		tracec  = make(chan trc.Trace, sendbuf)
 		donec   = make(chan struct{})
-- 
2.43.0


From 699264514251d4d5739783afdc0f5a1bc495e54a Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:15:55 +0000
Subject: [PATCH 12/23] fix: the stream handler blocked until client disconnect
 if the event source handler returned early

---
 trcweb/trace_server.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index d675a40..79ad9f2 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -270,7 +270,6 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 	tr.LazyTracef("send buffer %d", sendbuf)
 
 	ctx, cancel := context.WithCancel(ctx)
-	defer cancel()
 
 	go func() {
 		stats, err := s.Streamer.Stream(ctx, f, tracec)
@@ -278,6 +277,7 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 		close(donec)
 	}()
 	defer func() {
+		cancel()
 		<-donec
 	}()
 
-- 
2.43.0


From c224a65081b7d34805655c6810128d48dc972759 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:15:56 +0000
Subject: [PATCH 13/23] fix: directories in the working directory could be
 parsed as templates

---
 trcweb/render.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trcweb/render.go b/trcweb/render.go
index 3ca22a4..47a1ac7 100644
--- a/trcweb/render.go
+++ b/trcweb/render.go
@@ -135,7 +135,7 @@ func renderTemplate(ctx context.Context, fs fs.FS, templateName string, userFunc
 				continue
 			}
 			assetName := filepath.Join(localPath, templateName)
-			if _, err := os.Stat(assetName); err != nil {
+			if fi, err := os.Stat(assetName); err != nil || !fi.Mode().IsRegular() {
 				continue
 			}
 			localFiles = append(localFiles, assetName)
-- 
2.43.0


From 2780c8e4824a7e3dbe94c9be1a766624a5d51232 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:15:58 +0000
Subject: [PATCH 14/23] fix: Filter kept using a stale compiled query after
 Query was changed

---
 filter.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/filter.go b/filter.go
index 97f55e1..cc0dc4f 100644
--- a/filter.go
+++ b/filter.go
@@ -170,10 +170,14 @@ func (f *Filter) Allow(tr Trace) bool {
 }
 
 func (f *Filter) initializeQueryRegexp() error {
-	if f.regexp != nil {
+	if f.regexp != nil && f.regexp.String() == f.Query {
 		return nil
 	}
 
+	if f.regexp != nil {
+		f.regexp = nil // the query was changed
+	}
+
 	if f.Query == "" {
 		return nil
 	}
-- 
2.43.0


From 9ffa730f824c151b13e6556e897b9de94ac99c45 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:15:59 +0000
Subject: [PATCH 15/23] fix: Filter.String printed the sources in place of the
 IDs

---
 filter.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter.go b/filter.go
index cc0dc4f..9ae2d53 100644
--- a/filter.go
+++ b/filter.go
@@ -42,7 +42,7 @@ func (f Filter) String() string {
 	}
 
 	if len(f.IDs) > 0 {
-		elems = append(elems, fmt.Sprintf("IDs=%v", f.Sources))
+		elems = append(elems, fmt.Sprintf("IDs=%v", f.IDs))
 	}
 
 	if f.Category != "" {
-- 
2.43.0


From 1a809a61863316c041043774267db22f1ae61477 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:16:01 +0000
Subject: [PATCH 16/23] fix: concurrent first requests to a TraceServer raced
 on its fields

---
 trcweb/trace_server.go | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 79ad9f2..4ab7148 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -55,26 +55,29 @@ type TraceServer struct {
 
 // NewTraceServer returns a standard trace server wrapping the collector.
 func NewTraceServer(c *trc.Collector) *TraceServer {
-	s := &TraceServer{
+	return &TraceServer{
 		Collector: c,
 	}
-	s.initialize()
-	return s
 }
 
-func (s *TraceServer) initialize() {
-	if s.Searcher == nil {
-		s.Searcher = s.Collector
+// searcher must not modify the server, as requests are served concurrently.
+func (s *TraceServer) searcher() Searcher {
+	if s.Searcher != nil {
+		return s.Searcher
 	}
-	if s.Streamer == nil {
-		s.Streamer = s.Collector
+	return s.Collector
+}
+
+// streamer must not modify the server, as requests are served concurrently.
+func (s *TraceServer) streamer() Streamer {
+	if s.Streamer != nil {
+		return s.Streamer
 	}
+	return s.Collector
 }
 
 // ServeHTTP implements http.Handler.
 func (s *TraceServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
-	s.initialize()
-
 	switch Categorize(r) {
 	case "stream":
 		s.handleStream(w, r)
@@ -135,7 +138,7 @@ func (s *TraceServer) handleSearch(w http.ResponseWriter, r *http.Request) {
 
 	tr.LazyTracef("search request %s", data.Request)
 
-	res, err := s.Searcher.Search(ctx, &data.Request)
+	res, err := s.searcher().Search(ctx, &data.Request)
 	if err != nil {
 		data.Problems = append(data.Problems, fmt.Errorf("execute select request: %w", err))
 	} else if res != nil {
@@ -272,7 +275,7 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 	ctx, cancel := context.WithCancel(ctx)
 
 	go func() {
-		stats, err := s.Streamer.Stream(ctx, f, tracec)
+		stats, err := s.streamer().Stream(ctx, f, tracec)
 		tr.LazyTracef("%s (error: %v)", stats, err)
 		close(donec)
 	}()
@@ -311,7 +314,7 @@ func (s *TraceServer) handleStream(w http.ResponseWriter, r *http.Request) {
 				}
 
 			case <-stats.C:
-				stats, err := s.Streamer.StreamStats(ctx, tracec)
+				stats, err := s.streamer().StreamStats(ctx, tracec)
 				if err != nil {
 					tr.Errorf("get stats: %v", err)
 					continue
-- 
2.43.0


From 40cd2a8332b61c807d8ab100467ae4a30f7561dc Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:16:02 +0000
Subject: [PATCH 17/23] fix: StreamClient.Stream leaked its connection and a
 goroutine when it returned an error

---
 trcweb/trace_server.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/trcweb/trace_server.go b/trcweb/trace_server.go
index 4ab7148..14a6d84 100644
--- a/trcweb/trace_server.go
+++ b/trcweb/trace_server.go
@@ -484,6 +484,10 @@ func (c *StreamClient) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.T
 		req = r
 	}
 
+	// Ensure the connection is closed, and the goroutine stops, on every return.
+	ctx, cancel := context.WithCancel(ctx)
+	defer cancel()
+
 	es := eventsource.New(req, c.RetryInterval)
 	go func() {
 		<-ctx.Done()
-- 
2.43.0


From 2f6596b88e569e9c1daa205179ccbc8dfd70ed25 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:16:03 +0000
Subject: [PATCH 18/23] fix: the HTML error page didn't escape the error

---
 trcweb/render.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trcweb/render.go b/trcweb/render.go
index 47a1ac7..671fa0d 100644
--- a/trcweb/render.go
+++ b/trcweb/render.go
@@ -50,7 +50,7 @@ func renderHTML(ctx context.Context, w http.ResponseWriter, fs fs.FS, templateNa
 	if err != nil {
 		tr.LazyErrorf("render template: %v", err)
 		code = http.StatusInternalServerError
-		body = []byte(fmt.Sprintf(`<html><body><h1>Error</h1><p>%v</p>`, err))
+		body = []byte(fmt.Sprintf(`<html><body><h1>Error</h1><p>%s</p>`, template.HTMLEscapeString(err.Error())))
 	}
 
 	w.Header().Set("content-type", "text/html; charset=utf-8")
-- 
2.43.0


From 57454b7fed1cac5e2e058665964d5310f38da1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:16:04 +0000
Subject: [PATCH 19/23] fix: links in the HTML page didn't escape the query,
 source, category, and ID

---
 trcweb/assets/traces.html | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index c634c05..384e9ff 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -105,12 +105,12 @@ function highlightQuery() {
 {{ $query_params := printf "n=%d" $n | SafeURL }}
 
 {{ if $q }}
-	{{ $query_params = printf "%s&q=%s" $query_params $q | SafeURL }}
+	{{ $query_params = printf "%s&q=%s" $query_params (QueryEscape $q) | SafeURL }}
 {{ end }}
 
 {{ if $f.Sources }}
 	{{ range $f.Sources }}
-		{{ $query_params = printf "%s&source=%s" $query_params . | SafeURL }}
+		{{ $query_params = printf "%s&source=%s" $query_params (QueryEscape .) | SafeURL }}
 	{{ end }}
 {{ end }}
 
@@ -170,7 +170,7 @@ function highlightQuery() {
 
 		{{ $category_query_params := $query_params }}
 		{{ if ne $category_name "overall" }}
-			{{ $category_query_params = printf "%s&category=%s" $query_params $category_name | SafeURL }}
+			{{ $category_query_params = printf "%s&category=%s" $query_params (QueryEscape $category_name) | SafeURL }}
 		{{ end }}
 
 		{{ $active_count  := .ActiveCount                           }}
@@ -386,7 +386,7 @@ function highlightQuery() {
 
 	<!-- Trace top line -->
 	<div class="metadata">
-		{{ $href := printf "id=%s" .ID | SafeURL }}
+		{{ $href := printf "id=%s" (QueryEscape .ID) | SafeURL }}
 
 		<strong><a href="?{{$href}}">{{ .ID }}</a></strong>
 
-- 
2.43.0


From 0c46f24512dd8d8c2811f5f54bf05febf38d89c3 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:16:06 +0000
Subject: [PATCH 20/23] fix: highlighting a query in the HTML page interpreted
 event text as markup

---
 trcweb/assets/traces.html | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index 384e9ff..b0b2013 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -79,10 +79,13 @@ function highlightQuery() {
 	{{ if .Request.Filter.Query }}
 	let re = new RegExp('('+{{.Request.Filter.Query}}+')');
 	document.getElementById("traces").querySelectorAll(".searchable").forEach(elem => {
-		if (re.test(elem.innerHTML)) {
-			let oldText = elem.textContent.replace(/(<mark class="highlight">|<\/mark>)/gim, ' ');
-			let newText = oldText.replace(re, '<mark class="highlight">$&</mark>');
-			elem.innerHTML = newText;
+		let text = elem.textContent;
+		let match = re.exec(text);
+		if (match != null) {
+			let mark = document.createElement("mark");
+			mark.className = "highlight";
+			mark.textContent = match[0];
+			elem.replaceChildren(text.slice(0, match.index), mark, text.slice(match.index + match[0].length));
 			let details = elem.closest("details");
 			if (details != null) {
 				details.open = true;
-- 
2.43.0


From a25d37751fea9a4668ad916e1795c193cb2329fa Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Wed, 18 Nov 2026 09:16:07 +0000
Subject: [PATCH 21/23] fix: trc stream panicked on a non-positive stats
 interval or a negative receive buffer

---
 cmd/trc/stream.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/cmd/trc/stream.go b/cmd/trc/stream.go
index 8643d3e..09543a4 100644
--- a/cmd/trc/stream.go
+++ b/cmd/trc/stream.go
@@ -3,6 +3,7 @@ package main
 import (
 	"context"
 	"encoding/json"
+	"fmt"
 	"net/http"
 	"os"
 	"sync"
@@ -37,6 +38,14 @@ func (cfg *streamConfig) register(fs *ff.FlagSet) {
 }
 
 func (cfg *streamConfig) Exec(ctx context.Context, args []string) error {
+	if cfg.statsInterval <= 0 {
+		return fmt.Errorf("stats interval (%s) must be greater than zero", cfg.statsInterval)
+	}
+
+	if cfg.recvBuf < 0 {
+		return fmt.Errorf("receive buffer (%d) must not be negative", cfg.recvBuf)
+	}
+
 	ctx, tr := cfg.newTrace(ctx, "stream")
 	defer tr.Finish()
 
-- 
2.43.0


From fb013d7064f8eb6a9550676ae99ef36ddc5ab171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:34:22 +0000
Subject: [PATCH 22/23] fix: searching via the HTML form with all sources
 selected rejected every trace

---
 trcweb/util.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/trcweb/util.go b/trcweb/util.go
index 5c64592..549f9e9 100644
--- a/trcweb/util.go
+++ b/trcweb/util.go
@@ -45,7 +45,7 @@ func encodeFilter(f trc.Filter, r *http.Request) {
 func parseFilter(r *http.Request) trc.Filter {
 	urlquery := r.URL.Query()
 	return trc.Filter{
-		Sources:     urlquery["source"],
+		Sources:     nonEmpty(urlquery["source"]), // the search form submits an empty source to mean all sources
 		IDs:         urlquery["id"],
 		Category:    urlquery.Get("category"),
 		IsActive:    urlquery.Has("active"),
@@ -57,6 +57,16 @@ func parseFilter(r *http.Request) trc.Filter {
 	}
 }
 
+func nonEmpty(ss []string) []string {
+	var res []string
+	for _, s := range ss {
+		if s != "" {
+			res = append(res, s)
+		}
+	}
+	return res
+}
+
 func parseDefault[T any](s string, parse func(string) (T, error), def T) T {
 	if v, err := parse(s); err == nil {
 		return v
-- 
2.43.0


From e610b9d1dc9559e2c53c6369aa018e50a6b0117d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:01 +0000
Subject: [PATCH 23/23] fix: the HTML page failed to render stats with more
 buckets than the request

---
 trcweb/assets/traces.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trcweb/assets/traces.html b/trcweb/assets/traces.html
index b0b2013..c1019fa 100644
--- a/trcweb/assets/traces.html
+++ b/trcweb/assets/traces.html
@@ -192,7 +192,7 @@ function highlightQuery() {
 		</td>
 
 		{{ range $i, $n := .BucketCounts }}
-			{{ $min := index $r.Bucketing $i }}
+			{{ $min := index $.Response.Stats.Bucketing $i }}
 			{{ $pct := PercentInt $n $total_count }}
 			<td class="bucket count progress min-{{$min}} {{$category_class_name}}" title="{{$n}} of {{$total_count}}, {{$pct}}%">
 				<div class="progress-bar" style="height:{{$pct}}%;"></div>
-- 
2.43.0


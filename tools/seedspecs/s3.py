SEEDS=[
dict(id='C12-min-duration', prop='C12',
 edits=[('filter.go',"""		if !tr.Finished() {
			return false // we assert MinDuration requires the trace to be finished
		}
		if tr.Duration() < *f.MinDuration {
			return false
		}
""","""		if tr.Duration() < *f.MinDuration {
			return false
		}
		if !tr.Finished() && !f.IsActive {
			return false // we assert MinDuration requires the trace to be finished
		}
""")],
 needs='a minimum duration together with the active condition',
 breaks='an active trace satisfies a minimum duration',
 test="""
package trc_test
import ("context"; "testing"; "time"; "github.com/peterbourgon/trc")
func TestDemo(t *testing.T) {
	_, tr := trc.New(context.Background(), "src", "cat")
	time.Sleep(2*time.Millisecond)
	d := time.Millisecond
	f := trc.Filter{IsActive: true, MinDuration: &d}
	if f.Allow(tr) { t.Fatal("allowed") }
}
"""),
dict(id='C12-query-errors', prop='C12',
 edits=[('filter.go',"""			if f.regexp.MatchString(ev.What) {
				return true
			}
			for""","""			if f.regexp.MatchString(ev.What) {
				return true
			}
			if !ev.IsError && f.IsErrored {
				continue // only the errors matter
			}
			for""")],
 needs='a query for errored traces that only matches the stack of an event that is not an error',
 breaks='a matching trace is rejected',
 test="""
package trc_test
import ("context"; "testing"; "github.com/peterbourgon/trc")
func demoHelper(tr trc.Trace) { tr.Tracef("hello") }
func TestDemo(t *testing.T) {
	_, tr := trc.New(context.Background(), "src", "cat")
	demoHelper(tr)
	f := trc.Filter{Query: "demoHelper"}
	if !f.Allow(tr) { t.Fatal("rejected 1") }
	tr.Errorf("x")
	tr.Finish()
	f = trc.Filter{Query: "demoHelper", IsErrored: true}
	if !f.Allow(tr) { t.Fatal("rejected") }
}
"""),
dict(id='C14-bucket-zero', prop='C14',
 edits=[('search_types.go',"	if len(req.Bucketing) <= 0 {\n		req.Bucketing = DefaultBucketing\n	}\n","	if len(req.Bucketing) <= 0 {\n		req.Bucketing = DefaultBucketing\n	}\n	if len(req.Bucketing) > len(DefaultBucketing) {\n		req.Bucketing = req.Bucketing[:len(DefaultBucketing)] // that's enough\n	}\n")],
 needs='a request with more buckets than the default',
 breaks='buckets of the request are dropped',
 test="""
package trc_test
import ("testing"; "time"; "github.com/peterbourgon/trc")
func TestDemo(t *testing.T) {
	req := &trc.SearchRequest{}
	for i := 0; i < 12; i++ { req.Bucketing = append(req.Bucketing, time.Duration(i)*time.Millisecond) }
	req.Normalize()
	if len(req.Bucketing) != 12 { t.Fatal(req.Bucketing) }
}
"""),
dict(id='C14-limit-ids', prop='C14',
 edits=[('search_types.go',"	case req.Limit > SearchLimitMax:\n","	case req.Limit > SearchLimitMax && len(req.Filter.IDs) <= 0: // IDs limit the result\n")],
 needs='a request with IDs and an excessive limit',
 breaks='the limit is not clamped',
 test="""
package trc_test
import ("testing"; "github.com/peterbourgon/trc")
func TestDemo(t *testing.T) {
	req := &trc.SearchRequest{Limit: 1000000, Filter: trc.Filter{IDs: []string{"x"}}}
	req.Normalize()
	if req.Limit > trc.SearchLimitMax { t.Fatal(req.Limit) }
}
"""),
dict(id='C15-errored-active', prop='C15',
 edits=[('search_stats.go',"			isActive      = !traceFinished\n","			isActive      = !traceFinished && !traceErrored\n"),('search_stats.go',"isErrored     = traceFinished && traceErrored","isErrored     = traceErrored")],
 needs='an active trace that has already recorded an error',
 breaks='the trace is counted as errored instead of active',
 test="""
package trc_test
import ("context"; "testing"; "time"; "github.com/peterbourgon/trc")
func TestDemo(t *testing.T) {
	_, tr := trc.New(context.Background(), "src", "cat")
	tr.Errorf("x")
	ss := trc.NewSearchStats([]time.Duration{0})
	ss.Observe(tr)
	if cs := ss.Categories["cat"]; cs.ActiveCount != 1 || cs.ErroredCount != 0 { t.Fatalf("%+v", cs) }
}
"""),
dict(id='C15-bucket-edge', prop='C15',
 edits=[('search_stats.go',"				if bucket > duration {","				if i > 0 && bucket >= duration {")],
 needs='a trace whose duration equals a bucket bound',
 breaks='the trace is missing in the bucket',
 test="""
package trc_test
import ("encoding/json"; "testing"; "time"; "github.com/peterbourgon/trc")
func TestDemo(t *testing.T) {
	var tr trc.StaticTrace
	if err := json.Unmarshal([]byte(`{"id":"a","category":"cat","finished":true,"duration":1000000,"duration_ns":1000000}`), &tr); err != nil { t.Fatal(err) }
	d := tr.Duration()
	ss := trc.NewSearchStats([]time.Duration{0, d, d+1})
	ss.Observe(&tr)
	want := 1
	if d == 0 { t.Fatal("duration") }
	if cs := ss.Categories["cat"]; cs.BucketCounts[0] != 1 || cs.BucketCounts[1] != want || cs.BucketCounts[2] != 0 { t.Fatalf("%+v", cs) }
}
"""),
dict(id='C16-overall-single', prop='C16',
 edits=[('search_stats.go','	overall := NewCategoryStats("overall", ss.Bucketing)\n','	overall := NewCategoryStats("overall", ss.Bucketing)\n	if cs, ok := ss.Categories[overall.Category]; ok {\n		overall = cs // reuse\n	}\n')],
 needs='a category named like the synthetic one',
 breaks='asking for the overall statistics changes the statistics of a category',
 test="""
package trc_test
import ("context"; "testing"; "time"; "github.com/peterbourgon/trc")
func TestDemo(t *testing.T) {
	_, tr := trc.New(context.Background(), "src", "overall")
	_, tr2 := trc.New(context.Background(), "src", "b")
	x := trc.NewSearchStats([]time.Duration{0})
	x.Observe(tr, tr2)
	for i := 0; i < 2; i++ {
		if n := x.Overall().TotalCount(); n != 2 { t.Fatal(n) }
	}
	if x.Categories["overall"].ActiveCount != 1 { t.Fatal("source changed") }
}
"""),
dict(id='C16-active-only', prop='C16',
 edits=[('search_stats.go',"	cs.Oldest = olderOf(cs.Oldest, other.Oldest)\n	cs.Newest = newerOf(cs.Newest, other.Newest)\n","	if other.TotalCount() > other.ActiveCount {\n		cs.Oldest = olderOf(cs.Oldest, other.Oldest)\n	}\n	cs.Newest = newerOf(cs.Newest, other.Newest)\n")],
 needs='merging statistics that consist of active traces only, with an older one',
 breaks='the oldest time is not the oldest',
 test="""
package trc_test
import ("context"; "testing"; "time"; "github.com/peterbourgon/trc")
func TestDemo(t *testing.T) {
	_, tr := trc.New(context.Background(), "src", "cat")
	time.Sleep(time.Millisecond)
	_, tr2 := trc.New(context.Background(), "src", "cat")
	b := []time.Duration{0}
	x, y := trc.NewSearchStats(b), trc.NewSearchStats(b)
	x.Observe(tr); y.Observe(tr2)
	y.Merge(x)
	if !y.Categories["cat"].Oldest.Equal(tr.Started()) { t.Fatal("oldest") }
}
"""),
]

SEEDS = [
dict(
 id='C13-filter-trimmed', prop='C13',
 edits=[('collector.go',"""			// If the filter won't allow this trace, then we won't select it.
			if !req.Filter.Allow(candidate) {
				return nil
			}

			// Otherwise, collect a static copy of the trace.
			categoryTraces = append(categoryTraces, NewSearchTrace(candidate).TrimStacks(req.StackDepth))
""","""			// If the filter won't allow this trace, then we won't select it. Filter
			// the static copy, which can't change any more.
			selected := NewSearchTrace(candidate).TrimStacks(req.StackDepth)
			if !req.Filter.Allow(selected) {
				return nil
			}

			categoryTraces = append(categoryTraces, selected)
""")],
 needs='a query that only matches a stack frame, together with a stack depth that removes the frame',
 breaks='a matching trace is left out of the search results',
 test="""
package trc_test

import ("context"; "testing"; "github.com/peterbourgon/trc")

func demoCaller(tr trc.Trace) { tr.Tracef("hello") }

func TestDemo(t *testing.T) {
	ctx := context.Background()
	c := trc.NewDefaultCollector()
	_, tr := c.NewTrace(ctx, "cat")
	demoCaller(tr)
	tr.Finish()
	for _, depth := range []int{0, 1, -1} {
		res, err := c.Search(ctx, &trc.SearchRequest{StackDepth: depth, Filter: trc.Filter{Query: "TestDemo"}})
		if err != nil { t.Fatal(err) }
		if len(res.Traces) != 1 { t.Fatalf("depth %d: %d traces", depth, len(res.Traces)) }
	}
}
"""),
dict(
 id='C13-match-count', prop='C13',
 edits=[('collector.go',"""	// Take only the most recent traces as per the limit.
	if len(traces) > req.Limit {
		traces = traces[:req.Limit]
	}
""","""	// Take only the most recent traces as per the limit.
	if len(traces) > req.Limit {
		matchCount -= len(traces) - req.Limit
		traces = traces[:req.Limit]
	}
""")],
 needs='matching traces in several categories, more than the limit altogether',
 breaks='the match count leaves out matching traces',
 test="""
package trc_test

import ("context"; "testing"; "github.com/peterbourgon/trc")

func TestDemo(t *testing.T) {
	ctx := context.Background()
	c := trc.NewDefaultCollector()
	for _, s := range []string{"a", "b", "c", "d"} { _, tr := c.NewTrace(ctx, s); tr.Finish() }
	res, err := c.Search(ctx, &trc.SearchRequest{Limit: 2})
	if err != nil { t.Fatal(err) }
	if res.MatchCount != 4 { t.Fatal(res.MatchCount) }
}
"""),
dict(
 id='C17-partial-error', prop='C17',
 edits=[('search_types.go','''			tr.Tracef("%s: weird: valid result (accepting it) with error: %v", t.id, t.err)
			aggregate.Stats.Merge(t.res.Stats)
			aggregate.Sources = append(aggregate.Sources, t.res.Sources...)
			aggregate.TotalCount += t.res.TotalCount
			aggregate.MatchCount += t.res.MatchCount''','''			tr.Tracef("%s: weird: valid result (accepting it) with error: %v", t.id, t.err)
			aggregate.Stats.Merge(t.res.Stats)
			aggregate.Sources = append(aggregate.Sources, t.res.Sources...)
			aggregate.TotalCount += t.res.TotalCount
			aggregate.MatchCount += len(t.res.Traces)''')],
 needs='a searcher returning a response together with an error, having matched more traces than it returned',
 breaks='the match count of the union is wrong',
 test='''
package trc_test

import ("context"; "errors"; "testing"; "github.com/peterbourgon/trc")

type weird struct{}

func (weird) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	return &trc.SearchResponse{Request: req, TotalCount: 7, MatchCount: 5, Stats: trc.NewSearchStats(req.Bucketing)}, errors.New("partial")
}

func TestDemo(t *testing.T) {
	ms := trc.MultiSearcher{weird{}, weird{}}
	res, err := ms.Search(context.Background(), &trc.SearchRequest{})
	if err != nil { t.Fatal(err) }
	if res.TotalCount != 14 || res.MatchCount != 10 || len(res.Problems) != 2 { t.Fatal(res.TotalCount, res.MatchCount, res.Problems) }
}
'''),
dict(
 id='C17-ctx-abandons', prop='C17',
 edits=[('search_types.go','''			res, err := s.Search(ctx, req)
			tuplec <- tuple{id, res, err}''','''			res, err := s.Search(ctx, req)
			select {
			case tuplec <- tuple{id, res, err}:
			case <-ctx.Done(): // nobody is interested any more
			}''')],
 needs='the context being cancelled while the searchers run; select then picks randomly',
 breaks='an answer gets lost and the search waits for it forever',
 test='''
package trc_test

import ("context"; "testing"; "time"; "github.com/peterbourgon/trc")

type canceling struct{ cancel func() }

func (c canceling) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	c.cancel()
	return nil, ctx.Err()
}

func TestDemo(t *testing.T) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 50; i++ {
			ctx, cancel := context.WithCancel(context.Background())
			res, err := (trc.MultiSearcher{canceling{cancel}, canceling{cancel}}).Search(ctx, &trc.SearchRequest{})
			if err != nil || len(res.Problems) != 2 { t.Error(res, err) }
		}
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second): t.Fatal("stuck")
	}
}
'''),
]

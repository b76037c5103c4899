C="collector.go"; S="search_types.go"; T="trace_static.go"
DUP='''			aggregate.Stats.Merge(t.res.Stats)
			aggregate.Sources = append(aggregate.Sources, t.res.Sources...)
			aggregate.TotalCount += t.res.TotalCount
			aggregate.MatchCount += t.res.MatchCount
			aggregate.Traces = append(aggregate.Traces, t.res.Traces...) // needs sort+limit
			aggregate.Problems = append(aggregate.Problems, t.res.Problems...)
'''
SRC='''	sourceIndex := make(map[string]struct{}, len(aggregate.Sources))
	for _, source := range aggregate.Sources {
		sourceIndex[source] = struct{}{}
	}
	sourceList := make([]string, 0, len(sourceIndex))
	for source := range sourceIndex {
		sourceList = append(sourceList, source)
	}
	sort.Strings(sourceList)
	aggregate.Sources = sourceList
'''
SW=open("/repo/search_types.go").read()
i=SW.index("		switch {\n		case t.res == nil && t.err == nil: // weird"); j=SW.index("	tr.Tracef(\"gathered responses\")")
SWITCH=SW[i:j]
M=[
# C13
("obs-late","C13",[(C,'''			stats.Observe(candidate)
			totalCount++

''',''),(C,'''			// If the filter won't allow this trace, then we won't select it.
''','''			stats.Observe(candidate)
			totalCount++
			// If the filter won't allow this trace, then we won't select it.
''')]),
("obs-match","C13",[(C,"			stats.Observe(candidate)\n			totalCount++\n","			if !candidate.Started().IsZero() && req.Filter.Category != \"\" && candidate.Category() != req.Filter.Category {\n				return nil\n			}\n			stats.Observe(candidate)\n			totalCount++\n")]),
("stop-full","C13",[(C,"			if len(categoryTraces) >= req.Limit {\n				return nil\n			}","			if len(categoryTraces) >= req.Limit {\n				return context.Canceled\n			}")]),
("limit-total","C13",[(C,"			if len(categoryTraces) >= req.Limit {","			if len(traces)+len(categoryTraces) >= req.Limit {")]),
("limit-off","C13",[(C,"			if len(categoryTraces) >= req.Limit {","			if len(categoryTraces) > req.Limit {"),(C,"	if len(traces) > req.Limit {\n		traces = traces[:req.Limit]\n	}","	if len(traces) > req.Limit+1 {\n		traces = traces[:req.Limit]\n	}")]),
("nosort-one","C13",[(C,"	sort.Sort(staticTracesNewestFirst(traces))","	if len(traces) > req.Limit {\n		sort.Sort(staticTracesNewestFirst(traces))\n	}")]),
("sort-after","C13",[(C,"	sort.Sort(staticTracesNewestFirst(traces))\n\n	// Take only the most recent traces as per the limit.\n	if len(traces) > req.Limit {\n		traces = traces[:req.Limit]\n	}","	if len(traces) > req.Limit {\n		traces = traces[:req.Limit]\n	}\n	sort.Sort(staticTracesNewestFirst(traces))")]),
("sort-less","C13",[(T,"		iStarted = sts[i].Started()\n		jStarted = sts[j].Started()","		iStarted = sts[i].Started().Truncate(time.Second)\n		jStarted = sts[j].Started().Truncate(time.Second)")]),
("less-swap","C13",[(T,"	case iStarted.Before(jStarted):\n		return false","	case iStarted.Before(jStarted):\n		return sts[i].ID() == \"\"")]),
("no-trim","C13",[(C,"NewSearchTrace(candidate).TrimStacks(req.StackDepth))","NewSearchTrace(candidate))")]),
("trim-zero","C13",[(C,"NewSearchTrace(candidate).TrimStacks(req.StackDepth))","NewSearchTrace(candidate).TrimStacks(max(req.StackDepth, 0)))")]),
("filter-copy","C13",[(C,"			if !req.Filter.Allow(candidate) {","			if !req.Filter.Allow(NewStreamTrace(candidate)) {")]),
("norm-late","C13",[(C,"		normalizeErrs = req.Normalize()\n		stats         = NewSearchStats(req.Bucketing)","		stats         = NewSearchStats(req.Bucketing)\n		normalizeErrs = req.Normalize()")]),
("norm-copy","C13",[(C,"		normalizeErrs = req.Normalize()\n","		reqCopy       = *req\n		normalizeErrs = reqCopy.Normalize()\n")]),
("problems","C13",[(C,"		Problems:   trcutil.FlattenErrors(normalizeErrs...),","		Problems:   trcutil.FlattenErrors(normalizeErrs[min(1, len(normalizeErrs)):]...),")]),
("flatten-first","C13",[("internal/trcutil/errors.go","	for i := range errs {\n","	for i := range errs {\n		if i > 0 && errs[i].Error() == errs[0].Error() {\n			continue\n		}\n")]),
("src-req","C13",[(C,"		Sources:    []string{c.source},","		Sources:    req.Filter.Sources,")]),
("match-cnt","C13",[(C,"	if len(traces) > req.Limit {\n		traces = traces[:req.Limit]\n	}","	if len(traces) > req.Limit {\n		traces = traces[:req.Limit]\n		matchCount = len(traces)\n	}")]),
("cat-filter","C13",[(C,"	for _, ringBuf := range c.categories.GetAll() { // TODO: could do these concurrently\n","	for category, ringBuf := range c.categories.GetAll() { // TODO: could do these concurrently\n		if req.Filter.Category != \"\" && category != req.Filter.Category {\n			continue\n		}\n")]),
("ctx-stop","C13",[(C,"		var categoryTraces []*StaticTrace\n","		if ctx.Err() != nil {\n			break\n		}\n		var categoryTraces []*StaticTrace\n")]),
# C17
("m-stats-dup","C17",[(S,"			aggregate.Stats.Merge(t.res.Stats)\n			aggregate.Sources = append(aggregate.Sources, t.res.Sources...)\n			aggregate.TotalCount += t.res.TotalCount\n			aggregate.MatchCount += t.res.MatchCount\n			aggregate.Traces = append(aggregate.Traces, t.res.Traces...) // needs sort+limit\n			aggregate.Problems = append(aggregate.Problems, t.res.Problems...)\n		case","			aggregate.Stats.Merge(t.res.Stats)\n			aggregate.Sources = append(aggregate.Sources, t.res.Sources...)\n			aggregate.TotalCount += t.res.TotalCount\n			aggregate.MatchCount += len(t.res.Traces)\n			aggregate.Traces = append(aggregate.Traces, t.res.Traces...) // needs sort+limit\n			aggregate.Problems = append(aggregate.Problems, t.res.Problems...)\n		case")]),
("m-stats-first","C17",[(S,"			aggregate.Stats.Merge(t.res.Stats)\n			aggregate.Sources = append(aggregate.Sources, t.res.Sources...)\n			aggregate.TotalCount += t.res.TotalCount\n			aggregate.MatchCount += t.res.MatchCount\n			aggregate.Traces = append(aggregate.Traces, t.res.Traces...) // needs sort+limit\n			aggregate.Problems = append(aggregate.Problems, t.res.Problems...)\n		case","			if i == 0 {\n				aggregate.Stats = t.res.Stats\n			} else {\n				aggregate.Stats.Merge(t.res.Stats)\n			}\n			aggregate.Sources = append(aggregate.Sources, t.res.Sources...)\n			aggregate.TotalCount += t.res.TotalCount\n			aggregate.MatchCount += t.res.MatchCount\n			aggregate.Traces = append(aggregate.Traces, t.res.Traces...) // needs sort+limit\n			aggregate.Problems = append(aggregate.Problems, t.res.Problems...)\n		case")]),
("m-zero","C17",[(S,"		case t.res != nil && t.err == nil: // success case\n","		case t.res != nil && t.err == nil && t.res.MatchCount == 0:\n			aggregate.TotalCount += t.res.TotalCount\n		case t.res != nil && t.err == nil: // success case\n")]),
("m-weird-noprob","C17",[(S,"			aggregate.Problems = append(aggregate.Problems, fmt.Sprintf(\"got valid search response with error (%v) -- weird\", t.err))\n","")]),
("m-weird-drop","C17",[(S,"			tr.Tracef(\"%s: weird: valid result (accepting it) with error: %v\", t.id, t.err)\n"+DUP,"			tr.Tracef(\"%s: weird: valid result with error: %v\", t.id, t.err)\n")]),
("m-nilres","C17",[(S,"			aggregate.Problems = append(aggregate.Problems, fmt.Sprintf(\"%s: weird: empty response\", t.id))\n","")]),
("m-err-ret","C17",[(S,"			aggregate.Problems = append(aggregate.Problems, t.err.Error())\n","			if len(ms) == 1 {\n				return nil, t.err\n			}\n			aggregate.Problems = append(aggregate.Problems, t.err.Error())\n")]),
("m-cap","C17",[(S,"	for i := 0; i < cap(tuplec); i++ {","	for i := 0; i < len(ms) && i < 64; i++ {")]),
("m-noskip","C17",[(S,"	for i, s := range ms {\n","	for i, s := range ms {\n		if i > 0 && s == ms[i-1] {\n			continue\n		}\n")]),
("m-req-raw","C17",[(S,"			res, err := s.Search(ctx, req)","			r := *req\n			r.Limit = (req.Limit + len(ms) - 1) / len(ms)\n			res, err := s.Search(ctx, &r)")]),
("m-limit","C17",[(S,"	if len(aggregate.Traces) > req.Limit {\n		aggregate.Traces = aggregate.Traces[:req.Limit]","	if len(aggregate.Traces) > req.Limit*len(ms) {\n		aggregate.Traces = aggregate.Traces[:req.Limit*len(ms)]")]),
("m-src-sort","C17",[(S,"	sort.Strings(sourceList)\n","")]),
("m-src-empty","C17",[(S,"	for _, source := range aggregate.Sources {\n		sourceIndex","	for _, source := range aggregate.Sources {\n		if source == \"default\" && len(aggregate.Sources) > 1 {\n			continue\n		}\n		sourceIndex")]),
("m-prob-norm","C17",[(S,"		Problems: trcutil.FlattenErrors(normalizeErrs...),\n	}\n\n	// Gather","	}\n	_ = normalizeErrs\n\n	// Gather"),(S,'	"github.com/peterbourgon/trc/internal/trcutil"\n','')]),
("m-timeout","C17",[(S,"		t := <-tuplec\n","		var t tuple\n		select {\n		case t = <-tuplec:\n		case <-time.After(time.Minute):\n			continue\n		}\n")]),
("m-panic","C17",[(S,"			res, err := s.Search(ctx, req)\n			tuplec <- tuple{id, res, err}","			res, err := s.Search(ctx, req)\n			if ctx.Err() != nil {\n				return\n			}\n			tuplec <- tuple{id, res, err}")]),
("m-traces-dedup","C17",[(S,"	sort.Sort(staticTracesNewestFirst(aggregate.Traces))\n	if len(aggregate","	if len(ms) > 1 {\n		sort.Sort(staticTracesNewestFirst(aggregate.Traces))\n	}\n	if len(aggregate")]),
# refactors
("r-for-range",None,[(C,"	for _, ringBuf := range c.categories.GetAll() { // TODO: could do these concurrently\n","	all := c.categories.GetAll()\n	for name := range all {\n		ringBuf := all[name]\n")]),
("r-helper",None,[(C,'''		var categoryTraces []*StaticTrace
		ringBuf.Walk(func(candidate Trace) error {
			// Every candidate trace should be observed.
			stats.Observe(candidate)
			totalCount++
''','''		var categoryTraces []*StaticTrace
		observe := func(candidate Trace) {
			stats.Observe(candidate)
			totalCount++
		}
		ringBuf.Walk(func(candidate Trace) error {
			observe(candidate)
''')]),
("r-invert",None,[(C,'''			if len(categoryTraces) >= req.Limit {
				return nil
			}

			// If the filter won't allow this trace, then we won't select it.
			if !req.Filter.Allow(candidate) {
				return nil
			}

			// Otherwise, collect a static copy of the trace.
			categoryTraces = append(categoryTraces, NewSearchTrace(candidate).TrimStacks(req.StackDepth))
			matchCount++
			return nil
''','''			if len(categoryTraces) < req.Limit && req.Filter.Allow(candidate) {
				st := NewSearchTrace(candidate)
				categoryTraces = append(categoryTraces, st.TrimStacks(req.StackDepth))
				matchCount++
			}
			return nil
''')]),
("r-sortslice",None,[(C,"	sort.Sort(staticTracesNewestFirst(traces))","	sort.Slice(traces, func(i, j int) bool { if !traces[i].Started().Equal(traces[j].Started()) {\n			return traces[i].Started().After(traces[j].Started())\n		}\n		return traces[i].ID() > traces[j].ID() })")]),
("r-newest",None,[(C,"	sort.Sort(staticTracesNewestFirst(traces))\n\n	// Take only the most recent traces as per the limit.\n	if len(traces) > req.Limit {\n		traces = traces[:req.Limit]\n	}","	traces = newest(traces, req.Limit)"),(C,"func maybeFree","func newest(traces []*StaticTrace, limit int) []*StaticTrace {\n	sort.Sort(staticTracesNewestFirst(traces))\n	if n := len(traces); n <= limit {\n		return traces\n	}\n	return traces[:limit]\n}\n\nfunc maybeFree")]),
("r-less",None,[(T,"	switch {\n	case iStarted.After(jStarted):\n		return true\n	case iStarted.Before(jStarted):\n		return false\n	default:\n		return sts[i].ID() > sts[j].ID()\n	}","	if iStarted.Equal(jStarted) {\n		return sts[j].ID() < sts[i].ID()\n	}\n	return jStarted.Before(iStarted)")]),
("r-less2",None,[(T,"	switch {\n	case iStarted.After(jStarted):\n		return true\n	case iStarted.Before(jStarted):\n		return false\n	default:\n		return sts[i].ID() > sts[j].ID()\n	}","	if c := iStarted.Compare(jStarted); c != 0 {\n		return c > 0\n	}\n	return sts[i].ID() > sts[j].ID()")]),
("r-m-merge",None,[(S,SWITCH,'''		if t.err != nil {
			tr.Tracef("%s: error: %v", t.id, t.err)
			aggregate.Problems = append(aggregate.Problems, fmt.Sprintf("%s: %v", t.id, t.err))
		}
		if t.res == nil && t.err == nil {
			aggregate.Problems = append(aggregate.Problems, fmt.Sprintf("%s: weird: empty response", t.id))
		}
		if t.res != nil {
'''+DUP+'''		}
	}

''')]),
("r-m-helper",None,[(S,"		case t.res != nil && t.err == nil: // success case\n"+DUP,"		case t.res != nil && t.err == nil: // success case\n			aggregate.merge(t.res)\n"),(S,DUP,"			aggregate.merge(t.res)\n"),(S,"// MultiSearcher allows","func (res *SearchResponse) merge(other *SearchResponse) {\n	res.Stats.Merge(other.Stats)\n	res.Sources = append(res.Sources, other.Sources...)\n	res.TotalCount += other.TotalCount\n	res.MatchCount += other.MatchCount\n	res.Traces = append(res.Traces, other.Traces...)\n	res.Problems = append(res.Problems, other.Problems...)\n}\n\n// MultiSearcher allows")]),
("r-m-range",None,[(S,"	for i := 0; i < cap(tuplec); i++ {\n		t := <-tuplec\n","	for range ms {\n		t := <-tuplec\n")]),
("r-m-src",None,[(S,SRC,'''	seen := map[string]bool{}
	sources := []string{}
	for _, source := range aggregate.Sources {
		if !seen[source] {
			seen[source] = true
			sources = append(sources, source)
		}
	}
	sort.Strings(sources)
	aggregate.Sources = sources
''')]),
("r-m-src2",None,[(S,SRC,'''	sort.Strings(aggregate.Sources)
	aggregate.Sources = slices.Compact(aggregate.Sources)
	if aggregate.Sources == nil {
		aggregate.Sources = []string{}
	}
'''),(S,'	"reflect"\n','	"reflect"\n	"slices"\n')]),
("r-m-wg",None,[(S,'''		go func(id string, s Searcher) {
			ctx, _ := Prefix(ctx, "<%s>", id)
			res, err := s.Search(ctx, req)
			tuplec <- tuple{id, res, err}
		}(strconv.Itoa(i+1), s)
	}
''','''		wg.Add(1)
		go func(id string, s Searcher) {
			defer wg.Done()
			ctx, _ := Prefix(ctx, "<%s>", id)
			res, err := s.Search(ctx, req)
			tuplec <- tuple{id, res, err}
		}(strconv.Itoa(i+1), s)
	}
	wg.Wait()
	close(tuplec)
'''),(S,"	// Scatter.\n	tuplec","	// Scatter.\n	var wg sync.WaitGroup\n	tuplec"),(S,"	for i := 0; i < cap(tuplec); i++ {\n		t := <-tuplec\n","	for t := range tuplec {\n"),(S,'	"strings"\n','	"strings"\n	"sync"\n')]),
("r-m-idx",None,[(S,'''	tuplec := make(chan tuple, len(ms))
	for i, s := range ms {
		go func(id string, s Searcher) {
			ctx, _ := Prefix(ctx, "<%s>", id)
			res, err := s.Search(ctx, req)
			tuplec <- tuple{id, res, err}
		}(strconv.Itoa(i+1), s)
	}
''','''	tuples := make([]tuple, len(ms))
	var wg sync.WaitGroup
	for i := range ms {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			id := strconv.Itoa(i + 1)
			ctx, _ := Prefix(ctx, "<%s>", id)
			res, err := ms[i].Search(ctx, req)
			tuples[i] = tuple{id, res, err}
		}(i)
	}
	wg.Wait()
'''),(S,"	for i := 0; i < cap(tuplec); i++ {\n		t := <-tuplec\n","	for _, t := range tuples {\n"),(S,'	"strings"\n','	"strings"\n	"sync"\n')]),
]

F="filter.go"; T="search_types.go"; S="search_stats.go"; C="collector.go"
f=open("/repo/"+F).read(); t=open("/repo/"+T).read(); s=open("/repo/"+S).read(); c=open("/repo/"+C).read()
def blk(src,a,b):
    i=src.index(a); j=src.index(b,i); return src[i:j]
ALLOW=blk(f,"	if len(f.Sources) > 0 {\n		var found bool","	if f.Category != \"\" {\n		if tr.Category")
COND=blk(f,"	if f.Category != \"\" {\n		if tr.Category","	f.initializeQueryRegexp()\n	if f.regexp != nil {\n		for")
QRY=blk(f,"	f.initializeQueryRegexp()\n	if f.regexp != nil {\n		for","func (f *Filter) initializeQueryRegexp")
INIT=blk(f,"	if f.regexp != nil && f.regexp.String()","zzz") if False else f[f.index("	if f.regexp != nil && f.regexp.String()"):]
NORM=blk(t,"	if len(req.Bucketing) <= 0 {\n		req.Bucketing = Def","	for _, err := range req.Filter.Normalize()")
LIM=blk(t,"	switch {\n	case req.Limit <= 0:","	return errs\n}\n\n// String implements")
GATH=blk(t,"	// Gather.\n","	tr.Tracef(\"gathered responses\")")
SRC=blk(t,"	// Fix up the sources.","	// Duration is defined")
OBS=blk(s,"		category := tr.Category()\n","// Merge the other stats into this one.")
MRG=blk(s,"	for category, theirs := range other.Categories","// Overall returns")
OVR=blk(s,"	overall := NewCategoryStats","// AllCategories returns")
CM=blk(s,"	if other.IsZero() {\n		return\n	}\n\n	if cs.IsZero()","//\n//\n//\n\nfunc olderOf")
ZERO=blk(s,"	var bucketCounts int\n","// TotalCount returns")
OLD=blk(s,"func olderOf","func newerOf")
M=[
("m-norm-neg","C14",[(T,"req.Bucketing[0] < 0 {\n		req.Bucketing = req.Bucketing[1:]","req.Bucketing[0] < 0 {\n		req.Bucketing = req.Bucketing[:len(req.Bucketing)-1]")]),
("m-norm-dedup","C14",[(T,"	for _, err := range req.Filter.Normalize() {","	if len(req.Bucketing) > 10 {\n		req.Bucketing = req.Bucketing[:10]\n	}\n	for _, err := range req.Filter.Normalize() {")]),
("m-norm-early","C14",[(T,"	for _, err := range req.Filter.Normalize() {\n		errs = append(errs, fmt.Errorf(\"filter: %w\", err))\n	}\n","	for _, err := range req.Filter.Normalize() {\n		return append(errs, fmt.Errorf(\"filter: %w\", err))\n	}\n")]),
("m-init-cmp","C12",[(F,"	if f.regexp != nil && f.regexp.String() == f.Query {","	if f.regexp != nil && strings.HasPrefix(f.Query, f.regexp.String()) {")]),
("m-init-empty","C12",[(F,"	if f.regexp != nil {\n		f.regexp = nil // the query was changed\n	}\n\n	if f.Query == \"\" {\n		return nil\n	}\n","	if f.Query == \"\" {\n		return nil\n	}\n")]),
("m-q-ws","C12",[(F,"	if f.Query == \"\" {\n		return nil","	if strings.TrimSpace(f.Query) == \"\" {\n		return nil")]),
("m-q-errset","C14",[(F,"		f.Query = \"\"\n		return fmt.Errorf","		f.Query = regexp.QuoteMeta(f.Query)\n		return fmt.Errorf")]),
("m-min-errored","C12",[(F,"		if tr.Duration() < *f.MinDuration {","		if !tr.Errored() && tr.Duration() < *f.MinDuration {")]),
("m-succ-active","C12",[(F,"	if f.IsSuccess {\n		if tr.Errored() {","	if f.IsSuccess {\n		if tr.Errored() || !tr.Finished() {")]),
("m-ev-last","C12",[(F,"		for _, ev := range tr.Events() {\n			if f.regexp","		evs := tr.Events()\n		for i, ev := range evs {\n			if i > 0 && i == len(evs)-1 && ev.IsError {\n				break\n			}\n			if f.regexp")]),
("m-obs-neg","C15",[(S,"				if bucket > duration {","				if bucket > duration.Round(time.Millisecond) {")]),
("m-obs-old","C15",[(S,"		cs.Oldest = olderOf(cs.Oldest, traceStarted)\n","		if cs.Oldest.IsZero() {\n			cs.Oldest = traceStarted\n		}\n")]),
("m-obs-cat","C15",[(S,"			cs = NewCategoryStats(category, ss.Bucketing)\n			ss.Categories[category] = cs\n		}\n\n		cs.EventCount","			cs = NewCategoryStats(category, ss.Bucketing)\n			ss.Categories[category] = cs\n			continue\n		}\n\n		cs.EventCount")]),
("m-obs-ev","C15",[(S,"		cs.EventCount += len(tr.Events())\n","		if tr.Finished() {\n			cs.EventCount += len(tr.Events())\n		}\n")]),
("m-mrg-min","C16",[(S,"	for i := range cs.BucketCounts {\n		cs.BucketCounts[i] += other","	for i := range cs.BucketCounts[1:] {\n		cs.BucketCounts[i] += other")]),
("m-mrg-errd","C16",[(S,"	cs.ErroredCount += other.ErroredCount\n","	cs.ErroredCount += other.ActiveCount\n")]),
("m-mrg-cat","C16",[(S,"		*cs = *other\n		cs.BucketCounts = append([]int(nil), other.BucketCounts...)\n","		*cs = *other\n		cs.BucketCounts = append(cs.BucketCounts[:0], other.BucketCounts...)\n")]),
("m-ovr-cat","C16",[(S,"	for _, sc := range ss.Categories {\n		overall.Merge(sc)\n","	for name, sc := range ss.Categories {\n		if name == \"overall\" {\n			continue\n		}\n		overall.Merge(sc)\n")]),
("m-zero-cat","C16",[(S,"		zeroCategory     = cs.Category == \"\"\n","		zeroCategory     = true\n"),(S,"zeroOldest       = cs.Oldest.IsZero()","zeroOldest       = true"),(S,"zeroNewest       = cs.Newest.IsZero()","zeroNewest       = true"),(S,"zeroErroredCount = cs.ErroredCount == 0","zeroErroredCount = cs.ErroredCount <= 1")]),
("m-gath-err","C17",[(T,"		case t.res == nil && t.err != nil: // error case\n","		case t.res == nil && t.err != nil: // error case\n			if ctx.Err() != nil {\n				continue\n			}\n")]),
("m-gath-dup","C17",[(T,"			aggregate.Problems = append(aggregate.Problems, t.res.Problems...)\n		case t.res != nil && t.err != nil: // weird","			aggregate.Problems = t.res.Problems\n		case t.res != nil && t.err != nil: // weird")]),
("m-lim","C17",[(T,"	if len(aggregate.Traces) > req.Limit {\n		aggregate.Traces = aggregate.Traces[:req.Limit]","	if n := req.Limit * len(ms); len(aggregate.Traces) > n {\n		aggregate.Traces = aggregate.Traces[:n]")]),
("m-src-empty","C17",[(T,"	for _, source := range aggregate.Sources {\n","	for _, source := range aggregate.Sources {\n		if source == \"default\" && len(aggregate.Sources) > 1 {\n			continue\n		}\n")]),
# refactors
("r-allow",None,[(F,ALLOW,'''	if !allowsString(f.Sources, tr.Source()) {
		return false
	}

	if !allowsString(f.IDs, tr.ID()) {
		return false
	}

'''),(F,"func (f *Filter) initializeQueryRegexp",'''func allowsString(allowed []string, s string) bool {
	if len(allowed) == 0 {
		return true
	}
	for i := range allowed {
		if allowed[i] == s {
			return true
		}
	}
	return false
}

func (f *Filter) initializeQueryRegexp''')]),
("r-allow2",None,[(F,ALLOW,'''	if len(f.Sources) > 0 && !slices.Contains(f.Sources, tr.Source()) {
		return false
	}

	if n := len(f.IDs); n > 0 {
		i := slices.Index(f.IDs, tr.ID())
		if i < 0 {
			return false
		}
	}

'''),(F,'	"regexp"\n','	"regexp"\n	"slices"\n')]),
("r-cond",None,[(F,COND,'''	switch {
	case f.Category != "" && tr.Category() != f.Category:
		return false
	case f.IsActive && tr.Finished():
		return false
	case f.IsFinished && !tr.Finished():
		return false
	case f.MinDuration != nil && (!tr.Finished() || tr.Duration() < *f.MinDuration):
		return false
	case f.IsSuccess && tr.Errored():
		return false
	case f.IsErrored && !tr.Errored():
		return false
	}

''')]),
("r-cond2",None,[(F,COND,'''	if f.Category != "" && f.Category != tr.Category() {
		return false
	}
	if !f.allowState(tr) {
		return false
	}

'''),(F,"func (f *Filter) initializeQueryRegexp",'''func (f *Filter) allowState(tr Trace) bool {
	needFinished := f.IsFinished || f.MinDuration != nil
	finished := tr.Finished()
	if f.IsActive && finished || needFinished && !finished {
		return false
	}
	if d := f.MinDuration; d != nil && tr.Duration() < *d {
		return false
	}
	errored := tr.Errored()
	return !(f.IsSuccess && errored) && !(f.IsErrored && !errored)
}

func (f *Filter) initializeQueryRegexp''')]),
("r-cond3",None,[(F,"func (f *Filter) Allow(tr Trace) bool {",'''func (f *Filter) Allow(tr Trace) bool {
	for _, ok := range []func(Trace) bool{f.allowCategory, f.allowFlags, f.allowDuration} {
		if !ok(tr) {
			return false
		}
	}
'''),(F,COND,""),(F,"func (f *Filter) initializeQueryRegexp",'''func (f *Filter) allowCategory(tr Trace) bool {
	return f.Category == "" || f.Category == tr.Category()
}

func (f *Filter) allowDuration(tr Trace) bool {
	if f.MinDuration == nil {
		return true
	}
	return tr.Finished() && tr.Duration() >= *f.MinDuration
}

func (f *Filter) allowFlags(tr Trace) bool {
	if f.IsActive && tr.Finished() {
		return false
	}
	if f.IsFinished && !tr.Finished() {
		return false
	}
	if f.IsSuccess && tr.Errored() {
		return false
	}
	return !f.IsErrored || tr.Errored()
}

func (f *Filter) initializeQueryRegexp''')]),
("r-qry",None,[(F,QRY,'''	f.initializeQueryRegexp()
	return f.regexp == nil || matchEvents(f.regexp, tr.Events())
}

func matchEvents(re *regexp.Regexp, evs []Event) bool {
	for i := range evs {
		if matchEvent(re, &evs[i]) {
			return true
		}
	}
	return false
}

func matchEvent(re *regexp.Regexp, ev *Event) bool {
	if re.MatchString(ev.What) {
		return true
	}
	for _, fr := range ev.Stack {
		if re.MatchString(fr.Function) || re.MatchString(fr.CompactFileLine()) {
			return true
		}
	}
	return false
}

''')]),
("r-init",None,[(F,INIT,'''	switch {
	case f.Query == "":
		if f.regexp != nil {
			f.regexp = nil
		}
		return nil
	case f.regexp != nil && f.regexp.String() == f.Query:
		return nil
	}

	re, err := regexp.Compile(f.Query)
	if err != nil {
		f.regexp, f.Query = nil, ""
		return fmt.Errorf("invalid, ignoring (%w)", err)
	}
	f.regexp = re
	return nil
}
''')]),
("r-norm",None,[(T,NORM,'''	if !normalBucketing(req.Bucketing) {
		req.Bucketing = normalizeBucketing(req.Bucketing)
	}

'''),(T,"// String implements fmt.Stringer.\nfunc (req SearchRequest)",'''func normalBucketing(ds []time.Duration) bool {
	return len(ds) > 0 && ds[0] == 0 && sort.SliceIsSorted(ds, func(i, j int) bool { return ds[i] < ds[j] })
}

func normalizeBucketing(ds []time.Duration) []time.Duration {
	if len(ds) == 0 {
		return DefaultBucketing
	}
	out := make([]time.Duration, 0, len(ds)+1)
	for _, d := range ds {
		if d >= 0 {
			out = append(out, d)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	if len(out) == 0 || out[0] != 0 {
		out = append([]time.Duration{0}, out...)
	}
	return out
}

// String implements fmt.Stringer.
func (req SearchRequest)''')]),
("r-lim",None,[(T,LIM,'''	if req.Limit <= 0 {
		req.Limit = SearchLimitDefault
	}
	if req.Limit > SearchLimitMax {
		req.Limit = SearchLimitMax
	}

''')]),
("r-lim2",None,[(T,LIM,'''	if limit := normalizeLimit(req.Limit); limit != req.Limit {
		req.Limit = limit
	}

'''),(T,"// String implements fmt.Stringer.\nfunc (req SearchRequest)",'''func normalizeLimit(n int) int {
	if n <= 0 {
		return SearchLimitDefault
	}
	return min(max(n, SearchLimitMin), SearchLimitMax)
}

// String implements fmt.Stringer.
func (req SearchRequest)''')]),
("r-gath",None,[(T,GATH,'''	// Gather.
	for range ms {
		t := <-tuplec
		if t.err != nil {
			tr.Tracef("%s: error: %v", t.id, t.err)
			aggregate.Problems = append(aggregate.Problems, t.err.Error())
		}
		if t.res == nil {
			if t.err == nil {
				aggregate.Problems = append(aggregate.Problems, fmt.Sprintf("%s: weird: empty response", t.id))
			}
			continue
		}
		aggregate.add(t.res)
	}

'''),(T,"//\n//\n//\n\n// MultiSearcher allows",'''func (res *SearchResponse) add(other *SearchResponse) {
	res.Stats.Merge(other.Stats)
	res.Sources = append(res.Sources, other.Sources...)
	res.TotalCount += other.TotalCount
	res.MatchCount += other.MatchCount
	res.Traces = append(res.Traces, other.Traces...)
	res.Problems = append(res.Problems, other.Problems...)
}

//
//
//

// MultiSearcher allows''')]),
("r-src",None,[(T,SRC,'''	// Fix up the sources.
	seen := map[string]bool{}
	sources := []string{}
	for _, source := range aggregate.Sources {
		if seen[source] {
			continue
		}
		seen[source] = true
		sources = append(sources, source)
	}
	sort.Strings(sources)
	aggregate.Sources = sources

''')]),
("r-src2",None,[(T,SRC,'''	aggregate.Sources = uniqueSorted(aggregate.Sources)

'''),(T,"//\n//\n//\n\n// MultiSearcher allows",'''func uniqueSorted(ss []string) []string {
	out := append([]string{}, ss...)
	sort.Strings(out)
	n := 0
	for i, s := range out {
		if i == 0 || s != out[i-1] {
			out[n] = s
			n++
		}
	}
	return out[:n]
}

//
//
//

// MultiSearcher allows''')]),
("r-obs",None,[(S,OBS,'''		ss.category(tr.Category()).observe(tr, ss.Bucketing)
	}
}

func (ss *SearchStats) category(name string) *CategoryStats {
	if cs, ok := ss.Categories[name]; ok {
		return cs
	}
	cs := NewCategoryStats(name, ss.Bucketing)
	ss.Categories[name] = cs
	return cs
}

func (cs *CategoryStats) observe(tr Trace, bucketing []time.Duration) {
	started := tr.Started()
	cs.Oldest = olderOf(cs.Oldest, started)
	cs.Newest = newerOf(cs.Newest, started)
	cs.EventCount += len(tr.Events())

	if !tr.Finished() {
		cs.ActiveCount++
		return
	}
	if tr.Errored() {
		cs.ErroredCount++
		return
	}
	d := tr.Duration()
	for i := 0; i < len(bucketing) && bucketing[i] <= d; i++ {
		cs.BucketCounts[i]++
	}
}

''')]),
("r-mrg",None,[(S,MRG,'''	for category, theirs := range other.Categories {
		if _, ok := ss.Categories[category]; !ok {
			ss.Categories[category] = NewCategoryStats(category, ss.Bucketing)
		}
		ss.Categories[category].Merge(theirs)
	}
}

''')]),
("r-ovr",None,[(S,OVR,'''	var (
		overall   = NewCategoryStats("overall", ss.Bucketing)
		tracerate = 0.0
		eventrate = 0.0
	)
	for name := range ss.Categories {
		cs := ss.Categories[name]
		tracerate += cs.TraceRate()
		eventrate += cs.EventRate()
		overall.Merge(cs)
	}
	overall.tracerate, overall.eventrate = tracerate, eventrate
	return overall
}

''')]),
("r-cm",None,[(S,CM,'''	switch {
	case other.IsZero():
		return
	case cs.IsZero():
		c := *other
		c.BucketCounts = make([]int, len(other.BucketCounts))
		copy(c.BucketCounts, other.BucketCounts)
		*cs = c
		return
	}

	if len(cs.BucketCounts) != len(other.BucketCounts) {
		panic(fmt.Errorf("bad merge: inconsistent buckets: %d vs. %d", len(cs.BucketCounts), len(other.BucketCounts)))
	}

	tracerate := cs.TraceRate() + other.TraceRate()
	eventrate := cs.EventRate() + other.EventRate()

	cs.ActiveCount += other.ActiveCount
	cs.ErroredCount += other.ErroredCount
	cs.EventCount += other.EventCount
	addInts(cs.BucketCounts, other.BucketCounts)

	cs.Oldest, cs.Newest = olderOf(cs.Oldest, other.Oldest), newerOf(cs.Newest, other.Newest)
	cs.tracerate, cs.eventrate = tracerate, eventrate
}

func addInts(dst, src []int) {
	for i, n := range src {
		dst[i] += n
	}
}

''')]),
("r-zero",None,[(S,ZERO,'''	if cs.Category != "" || cs.ActiveCount != 0 || cs.ErroredCount != 0 {
		return false
	}
	for _, n := range cs.BucketCounts {
		if n != 0 {
			return false
		}
	}
	return cs.Oldest.IsZero() && cs.Newest.IsZero()
}

''')]),
("r-old",None,[(S,OLD,'''func olderOf(a, b time.Time) time.Time {
	if a.IsZero() {
		return b
	}
	if b.IsZero() || a.Before(b) {
		return a
	}
	return b
}

''')]),
("r-old2",None,[(S,OLD,'''func olderOf(a, b time.Time) time.Time {
	if b.IsZero() || !a.IsZero() && !b.Before(a) {
		return a
	}
	return b
}

''')]),
]

F="filter.go"; S="search_stats.go"; X="trace_static.go"
f=open("/repo/"+F).read(); s=open("/repo/"+S).read(); x=open("/repo/"+X).read()
def blk(src,a,b):
    i=src.index(a); j=src.index(b,i); return src[i:j]
AL=blk(f,"func (f *Filter) Allow(","func (f *Filter) initializeQueryRegexp")
IQ=f[f.index("func (f *Filter) initializeQueryRegexp"):]
OBS=blk(s,"func (ss *SearchStats) Observe(","// Merge the other stats into")
MRG=blk(s,"func (ss *SearchStats) Merge(","// Overall returns")
CM=blk(s,"func (cs *CategoryStats) Merge(","//\n//\n//\n\nfunc olderOf")
OLD=s[s.index("func olderOf"):]
STR=blk(x,"func NewStreamTrace(","// withoutStacks returns")
TRIM=blk(x,"	if depth == 0 {\n","//\n//\n//\n\ntype static")
LESS=x[x.index("	var (\n		iStarted"):]
M=[
("f-src-empty","C12",[(F,"			if source == tr.Source() {","			if source == \"\" || source == tr.Source() {")]),
("f-id-suffix","C12",[(F,"			if id == tr.ID() {","			if strings.HasSuffix(tr.ID(), id) {")]),
("f-cat-fold","C12",[(F,"		if tr.Category() != f.Category {","		if !strings.EqualFold(tr.Category(), f.Category) {")]),
("f-active-min","C12",[(F,"	if f.IsActive {\n		if tr.Finished() {","	if f.IsActive && f.MinDuration == nil {\n		if tr.Finished() {")]),
("f-fin-err","C12",[(F,"	if f.IsFinished {\n		if !tr.Finished() {","	if f.IsFinished {\n		if !tr.Finished() && !tr.Errored() {")]),
("f-min-zero","C12",[(F,"	if f.MinDuration != nil {\n		if !tr","	if f.MinDuration != nil && *f.MinDuration > 0 {\n		if !tr")]),
("f-succ-fin","C12",[(F,"	if f.IsSuccess {\n		if tr.Errored() {","	if f.IsSuccess {\n		if tr.Errored() || !tr.Finished() {")]),
("f-q-iserr","C12",[(F,"		for _, ev := range tr.Events() {\n","		for _, ev := range tr.Events() {\n			if f.IsErrored && !ev.IsError {\n				continue\n			}\n")]),
("f-q-stack1","C12",[(F,"			for _, c := range ev.Stack {\n","			for _, c := range ev.Stack[:min(len(ev.Stack), 8)] {\n")]),
("f-q-file","C12",[(F,"f.regexp.MatchString(c.CompactFileLine())","f.regexp.MatchString(c.FileLine)")]),
("f-q-and","C12",[(F,"	if f.regexp != nil && f.regexp.String() == f.Query {","	if f.regexp != nil && len(f.regexp.String()) == len(f.Query) {")]),
("f-q-inval","C12",[(F,'		f.Query = ""\n		return fmt','		f.regexp = regexp.MustCompile(regexp.QuoteMeta(f.Query))\n		return fmt')]),
("f-q-keepold","C12",[(F,"	if f.regexp != nil {\n		f.regexp = nil // the query was changed\n	}\n\n	if f.Query","	if f.Query")]),
("s-obs-once","C15",[(S,"		cs.EventCount += len(tr.Events())\n","		if n := len(tr.Events()); n > cs.EventCount {\n			cs.EventCount = n\n		}\n")]),
("s-obs-finrace","C15",[(S,"			traceErrored  = tr.Errored()\n			isActive      = !traceFinished\n			isBucket      = traceFinished && !traceErrored","			traceErrored  = tr.Errored()\n			isActive      = !traceFinished\n			isBucket      = !isActive && !traceErrored"),(S,"			traceFinished = tr.Finished()\n			traceErrored  = tr.Errored()\n","			traceErrored  = tr.Errored()\n			traceFinished = tr.Finished()\n")]),
("s-obs-dur","C15",[(S,"			duration := tr.Duration()\n","			duration := tr.Duration().Truncate(time.Microsecond)\n")]),
("s-obs-oldest-active","C15",[(S,"		cs.Newest = newerOf(cs.Newest, traceStarted)\n	}","		if !isActive {\n			cs.Newest = newerOf(cs.Newest, traceStarted)\n		}\n	}")]),
("s-obs-default","C15",[(S,"		case isErrored:\n			cs.ErroredCount++\n		}","		case isErrored:\n			cs.ErroredCount++\n			cs.BucketCounts[0]++\n		}")]),
("s-cat-copy","C15",[(S,"			ss.Categories[category] = cs\n		}\n\n		cs.Event","			if len(ss.Categories) < 100 {\n				ss.Categories[category] = cs\n			}\n		}\n\n		cs.Event")]),
("s-newer-eq","C16",[(S,"	case a.IsZero() && !b.IsZero():\n		return b\n	case a.IsZero() && b.IsZero():\n		return time.Time{}\n	default:\n		panic(\"unreachable\")\n	}\n}\n\nfunc newerOf","	case a.IsZero() && !b.IsZero():\n		return a\n	case a.IsZero() && b.IsZero():\n		return time.Time{}\n	default:\n		panic(\"unreachable\")\n	}\n}\n\nfunc newerOf")]),
("s-merge-share","C16",[(S,"			ours = NewCategoryStats(category, ss.Bucketing)\n			ss.Categories[category] = ours\n		}\n		ours.Merge(theirs)","			ss.Categories[category] = theirs\n			continue\n		}\n		ours.Merge(theirs)")]),
("s-merge-bucket-alias","C16",[(S,"		cs.BucketCounts = append([]int(nil), other.BucketCounts...)\n","		cs.BucketCounts = other.BucketCounts[:len(other.BucketCounts):len(other.BucketCounts)]\n")]),
("s-overall-self","C16",[(S,"		overall.Merge(sc)\n","		if sc.TotalCount() > 0 {\n			overall.Merge(sc)\n		}\n")]),
("s-all-cap","C16",[(S,"	for _, cs := range ss.Categories {\n		slice = append(slice, cs)\n	}","	for _, cs := range ss.Categories {\n		if cs.EventCount > 0 {\n			slice = append(slice, cs)\n		}\n	}")]),
("s-merge-buck","C16",[(S,"	for i := range cs.BucketCounts {\n		cs.BucketCounts[i] += other","	for i := range cs.BucketCounts {\n		if cs.BucketCounts[i] == 0 {\n			break\n		}\n		cs.BucketCounts[i] += other")]),
("x-str-dur","C25",[(X,"		TraceDurationSec: duration.Seconds(),","		TraceDurationSec: tr.Duration().Seconds(),")]),
("x-str-ms","C25",[(X,"		TraceDurationSec: duration.Seconds(),","		TraceDurationSec: float64(duration.Milliseconds()) / 1000,")]),
("x-str-events0","C25",[(X,"		if n := len(all); n > 1 {\n			all = all[n-1:]\n		}","		if n := len(all); n > 2 {\n			all = all[n-1:]\n		}")]),
("x-str-isact","C25",[(X,"		TraceFinished:    !isActive, // a finished copy must be complete","		TraceFinished:    tr.Finished(),")]),
("x-ws-err","C25",[(X,"		ev.Stack = nil\n		res[i] = ev","		if ev.IsError {\n			ev.Stack = nil\n		}\n		res[i] = ev")]),
("x-trim-first","C08",[(X,"			st.TraceEvents[i] = ev\n","			st.TraceEvents[i] = ev\n			if !ev.IsError {\n				break\n			}\n")]),
("x-trim-1","C08",[(X,"		depth = 0 // negative","		depth = 1 // negative")]),
("x-src","C25",[(X,"		TraceSource:   tr.Source(),\n		TraceID:       tr.ID(),\n		TraceCategory: tr.Category(),\n		TraceStarted:  tr.Started(),\n		TraceDuration: tr.Duration(),","		TraceSource:   tr.Source(),\n		TraceID:       tr.ID(),\n		TraceCategory: tr.Category(),\n		TraceStarted:  tr.Started().Round(time.Millisecond),\n		TraceDuration: tr.Duration(),")]),
# refactors
("r-al",None,[(F,AL,'''func (f *Filter) Allow(tr Trace) bool {
	switch {
	case len(f.Sources) > 0 && !anyEqual(f.Sources, tr.Source()):
		return false
	case len(f.IDs) > 0 && !anyEqual(f.IDs, tr.ID()):
		return false
	case f.Category != "" && tr.Category() != f.Category:
		return false
	case f.IsActive && tr.Finished():
		return false
	case f.IsFinished && !tr.Finished():
		return false
	case f.MinDuration != nil && (!tr.Finished() || tr.Duration() < *f.MinDuration):
		return false
	case f.IsSuccess && tr.Errored():
		return false
	case f.IsErrored && !tr.Errored():
		return false
	}

	f.initializeQueryRegexp()
	return f.regexp == nil || matches(f.regexp, tr.Events())
}

func anyEqual(haystack []string, needle string) bool {
	for i := range haystack {
		if haystack[i] == needle {
			return true
		}
	}
	return false
}

func matches(re *regexp.Regexp, events []Event) bool {
	for _, ev := range events {
		if re.MatchString(ev.What) || matchesStack(re, ev.Stack) {
			return true
		}
	}
	return false
}

func matchesStack(re *regexp.Regexp, stack []Frame) bool {
	for _, fr := range stack {
		if re.MatchString(fr.Function) || re.MatchString(fr.CompactFileLine()) {
			return true
		}
	}
	return false
}

''')]),
("r-al2",None,[(F,AL,'''func (f *Filter) Allow(tr Trace) bool {
	f.initializeQueryRegexp()
	for _, check := range []func(Trace) bool{f.allowIdentity, f.allowState, f.allowQuery} {
		if !check(tr) {
			return false
		}
	}
	return true
}

func (f *Filter) allowIdentity(tr Trace) bool {
	inOrEmpty := func(list []string, s string) bool {
		if len(list) == 0 {
			return true
		}
		for _, e := range list {
			if e == s {
				return true
			}
		}
		return false
	}
	return inOrEmpty(f.Sources, tr.Source()) && inOrEmpty(f.IDs, tr.ID()) && (f.Category == "" || f.Category == tr.Category())
}

func (f *Filter) allowState(tr Trace) bool {
	finished := tr.Finished()
	if f.IsActive && finished || f.IsFinished && !finished {
		return false
	}
	if f.MinDuration != nil && !(finished && tr.Duration() >= *f.MinDuration) {
		return false
	}
	errored := tr.Errored()
	return !(f.IsSuccess && errored) && !(f.IsErrored && !errored)
}

func (f *Filter) allowQuery(tr Trace) bool {
	if f.regexp == nil {
		return true
	}
	for _, ev := range tr.Events() {
		if f.regexp.MatchString(ev.What) {
			return true
		}
		for _, c := range ev.Stack {
			if f.regexp.MatchString(c.Function) || f.regexp.MatchString(c.CompactFileLine()) {
				return true
			}
		}
	}
	return false
}

''')]),
("r-iq",None,[(F,IQ,'''func (f *Filter) initializeQueryRegexp() error {
	switch {
	case f.Query == "":
		if f.regexp != nil {
			f.regexp = nil
		}
		return nil
	case f.regexp != nil && f.regexp.String() == f.Query:
		return nil
	}

	re, err := regexp.Compile(f.Query)
	f.regexp = re
	if err != nil {
		f.regexp = nil
		f.Query = ""
		return fmt.Errorf("invalid, ignoring (%w)", err)
	}
	return nil
}
''')]),
("r-obs",None,[(S,OBS,'''func (ss *SearchStats) Observe(trs ...Trace) {
	for i := range trs {
		ss.category(trs[i].Category()).observe(trs[i], ss.Bucketing)
	}
}

func (ss *SearchStats) category(name string) *CategoryStats {
	if cs, ok := ss.Categories[name]; ok {
		return cs
	}
	cs := NewCategoryStats(name, ss.Bucketing)
	ss.Categories[name] = cs
	return cs
}

func (cs *CategoryStats) observe(tr Trace, bucketing []time.Duration) {
	finished := tr.Finished()
	switch {
	case !finished:
		cs.ActiveCount++
	case tr.Errored():
		cs.ErroredCount++
	default:
		cs.observeDuration(tr.Duration(), bucketing)
	}

	started := tr.Started()
	cs.EventCount += len(tr.Events())
	cs.Oldest = olderOf(cs.Oldest, started)
	cs.Newest = newerOf(cs.Newest, started)
}

func (cs *CategoryStats) observeDuration(d time.Duration, bucketing []time.Duration) {
	for i := 0; i < len(bucketing) && bucketing[i] <= d; i++ {
		cs.BucketCounts[i] += 1
	}
}

''')]),
("r-mrg",None,[(S,MRG,'''func (ss *SearchStats) Merge(other *SearchStats) {
	if other.IsZero() {
		return
	}

	if ss.IsZero() {
		ss.Bucketing = other.Bucketing
	}

	if dst, src := len(ss.Bucketing), len(other.Bucketing); dst != src {
		panic(fmt.Errorf("bad merge: inconsistent buckets: %d vs. %d", dst, src))
	}

	if ss.Categories == nil {
		ss.Categories = make(map[string]*CategoryStats, len(other.Categories))
	}

	for category := range other.Categories {
		if ss.Categories[category] == nil {
			ss.Categories[category] = NewCategoryStats(category, ss.Bucketing)
		}
		ss.Categories[category].Merge(other.Categories[category])
	}
}

''')]),
("r-cm",None,[(S,CM,'''func (cs *CategoryStats) Merge(other *CategoryStats) {
	switch {
	case other.IsZero():
		return
	case cs.IsZero():
		clone := *other
		clone.BucketCounts = make([]int, len(other.BucketCounts))
		copy(clone.BucketCounts, other.BucketCounts)
		*cs = clone
	default:
		cs.add(other)
	}
}

func (cs *CategoryStats) add(other *CategoryStats) {
	if dst, src := len(cs.BucketCounts), len(other.BucketCounts); dst != src {
		panic(fmt.Errorf("bad merge: inconsistent buckets: %d vs. %d", dst, src))
	}

	// Rates must be computed before the counts are merged.
	tracerate := cs.TraceRate() + other.TraceRate()
	eventrate := cs.EventRate() + other.EventRate()
	cs.tracerate, cs.eventrate = tracerate, eventrate

	cs.Oldest, cs.Newest = olderOf(cs.Oldest, other.Oldest), newerOf(cs.Newest, other.Newest)

	for i, n := range other.BucketCounts {
		cs.BucketCounts[i] += n
	}
	cs.EventCount = cs.EventCount + other.EventCount
	cs.ActiveCount = other.ActiveCount + cs.ActiveCount
	cs.ErroredCount += other.ErroredCount
}

''')]),
("r-old",None,[(S,OLD,'''func olderOf(a, b time.Time) time.Time {
	if a.IsZero() {
		return b
	}
	if b.IsZero() || a.Before(b) {
		return a
	}
	return b
}

func newerOf(a, b time.Time) time.Time {
	if b.After(a) {
		return b
	}
	return a
}
''')]),
("r-str",None,[(X,STR,'''func NewStreamTrace(tr Trace) *StaticTrace {
	st := NewSearchTrace(tr)
	st.TraceDurationStr = st.TraceDuration.String()
	st.TraceDurationSec = st.TraceDuration.Seconds()
	st.TraceEvents = streamEvents(tr, st.TraceFinished)
	return st
}

func streamEvents(tr Trace, finished bool) []Event {
	n := 1
	if finished {
		n = -1
	}
	if d, ok := tr.(interface{ EventsDetail(int, bool) []Event }); ok {
		return d.EventsDetail(n, false)
	}
	all := tr.Events()
	if !finished && len(all) > 1 {
		all = all[len(all)-1:]
	}
	return withoutStacks(all)
}

''')]),
("r-trim",None,[(X,TRIM,'''	switch {
	case depth == 0:
		return st // zero value (0) means don't do anything
	case depth < 0:
		depth = 0 // negative value means remove all stacks
	}
	for i := range st.TraceEvents {
		ev := &st.TraceEvents[i]
		ev.Stack = ev.Stack[:min(depth, len(ev.Stack))]
	}
	return st
}

''')]),
("r-less",None,[(X,LESS,'''	a, b := sts[i], sts[j]
	if !a.TraceStarted.Equal(b.TraceStarted) {
		return b.TraceStarted.Before(a.TraceStarted)
	}
	return a.TraceID > b.TraceID
}
''')]),
]

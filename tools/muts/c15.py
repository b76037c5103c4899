F="search_stats.go"
SW='''		switch {
		case isActive:
			cs.ActiveCount++
		case isBucket:
			duration := tr.Duration()
			for i, bucket := range ss.Bucketing {
				if bucket > duration {
					break
				}
				cs.BucketCounts[i]++
			}
		case isErrored:
			cs.ErroredCount++
		}
'''
VARS='''		var (
			traceStarted  = tr.Started()
			traceFinished = tr.Finished()
			traceErrored  = tr.Errored()
			isActive      = !traceFinished
			isBucket      = traceFinished && !traceErrored
			isErrored     = traceFinished && traceErrored
		)
'''
M=[
("bucket-ge","C15",[(F,"if bucket > duration {","if bucket >= duration {")]),
("active-errored","C15",[(F,"isErrored     = traceFinished && traceErrored","isErrored     = traceErrored"),(F,"isActive      = !traceFinished","isActive      = !traceFinished && !traceErrored")]),
("read-order","C15",[(F,'''			traceFinished = tr.Finished()
			traceErrored  = tr.Errored()
''','''			traceErrored  = tr.Errored()
			traceFinished = tr.Finished()
''')]),
("total-last","C15",[(F,"total += cs.BucketCounts[0]","total += cs.BucketCounts[len(cs.BucketCounts)-1]")]),
("events-finished","C15",[(F,"		cs.EventCount += len(tr.Events())\n",""),(F,"			duration := tr.Duration()\n","			cs.EventCount += len(tr.Events())\n			duration := tr.Duration()\n")]),
("dur-started","C15",[(F,"duration := tr.Duration()","duration := time.Since(tr.Started())")]),
("newer-older","C15",[(F,"cs.Newest = newerOf(cs.Newest, traceStarted)","cs.Newest = traceStarted")]),
("nf","C15",[(F,'''		if a.Before(b) {
			return a
		}
		return b
''','''		if b.Before(a) {
			return a
		}
		return b
''')]),
("cs-cat","C15",[(F,"cs = NewCategoryStats(category, ss.Bucketing)\n			ss.Categories[category] = cs","cs = NewCategoryStats(tr.Source(), ss.Bucketing)\n			ss.Categories[category] = cs")]),
("break-cont","C15",[(F,"				if bucket > duration {\n					break\n				}","				if i > 0 && bucket > duration {\n					break\n				}")]),
# refactors
("ref-if",None,[(F,SW,'''		if !traceFinished {
			cs.ActiveCount++
		} else if traceErrored {
			cs.ErroredCount++
		} else {
			d := tr.Duration()
			for i := 0; i < len(ss.Bucketing) && ss.Bucketing[i] <= d; i++ {
				cs.BucketCounts[i]++
			}
		}
'''),(F,'''			isActive      = !traceFinished
			isBucket      = traceFinished && !traceErrored
			isErrored     = traceFinished && traceErrored
''','')]),
("ref-helper",None,[(F,SW,'''		switch {
		case isActive:
			cs.ActiveCount++
		case isBucket:
			cs.observeDuration(ss.Bucketing, tr.Duration())
		case isErrored:
			cs.ErroredCount++
		}
'''),(F,"// Merge the other stats into this one.",'''func (cs *CategoryStats) observeDuration(buckets []time.Duration, d time.Duration) {
	for i, b := range buckets {
		if b > d {
			return
		}
		cs.BucketCounts[i]++
	}
}

// Merge the other stats into this one.''')]),
("ref-observe-one",None,[(F,"	for _, tr := range trs {\n		category := tr.Category()",'''	for i := range trs {
		ss.observe(trs[i])
	}
}

func (ss *SearchStats) categoryStats(category string) *CategoryStats {
	if cs, ok := ss.Categories[category]; ok {
		return cs
	}
	cs := NewCategoryStats(category, ss.Bucketing)
	ss.Categories[category] = cs
	return cs
}

func (ss *SearchStats) observe(tr Trace) {
	{
		category := tr.Category()'''),(F,'''		cs, ok := ss.Categories[category]
		if !ok {
			cs = NewCategoryStats(category, ss.Bucketing)
			ss.Categories[category] = cs
		}

		cs.EventCount''','''		cs := ss.categoryStats(category)

		cs.EventCount''')]),
("ref-continue",None,[(F,'''				if bucket > duration {
					break
				}
				cs.BucketCounts[i]++
''','''				if duration >= bucket {
					cs.BucketCounts[i] = cs.BucketCounts[i] + 1
				}
''')]),
("ref-total",None,[(F,'''	var total int
	total += cs.ActiveCount
	if len(cs.BucketCounts) > 0 {
		total += cs.BucketCounts[0]
	}
	total += cs.ErroredCount
	return total
''','''	finished := 0
	if len(cs.BucketCounts) != 0 {
		finished = cs.BucketCounts[0]
	}
	return cs.ErroredCount + finished + cs.ActiveCount
''')]),
("ref-older",None,[(F,'''	switch {
	case !a.IsZero() && !b.IsZero():
		if a.Before(b) {
			return a
		}
		return b
	case !a.IsZero() && b.IsZero():
		return a
	case a.IsZero() && !b.IsZero():
		return b
	case a.IsZero() && b.IsZero():
		return time.Time{}
	default:
		panic("unreachable")
	}
''','''	if a.IsZero() {
		return b
	}
	if b.IsZero() || !a.After(b) {
		return a
	}
	return b
''')]),
("ref-inline-times",None,[(F,'''		cs.Oldest = olderOf(cs.Oldest, traceStarted)
		cs.Newest = newerOf(cs.Newest, traceStarted)
''','''		if cs.Oldest.IsZero() || traceStarted.Before(cs.Oldest) {
			cs.Oldest = traceStarted
		}
		if cs.Newest.IsZero() || traceStarted.After(cs.Newest) {
			cs.Newest = traceStarted
		}
''')]),
]

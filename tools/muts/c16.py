F="search_stats.go"
M=[
("no-errored","C16",[(F,"	cs.ErroredCount += other.ErroredCount\n","")]),
("dup-active","C16",[(F,"	cs.ActiveCount += other.ActiveCount\n","	cs.ActiveCount += cs.ActiveCount\n")]),
("skip0","C16",[(F,"		cs.BucketCounts[i] += other.BucketCounts[i]\n","		if i > 0 {\n			cs.BucketCounts[i] += other.BucketCounts[i]\n		}\n")]),
("newest-older","C16",[(F,"cs.Newest = newerOf(cs.Newest, other.Newest)","cs.Newest = olderOf(cs.Newest, other.Newest)")]),
("iszero-fin","C16",[(F," && zeroBucketCounts && "," && (zeroBucketCounts || !zeroCategory || true) && ")]),
("iszero-fewer","C16",[(F,"zeroEverything   = zeroCategory && zeroActiveCount && zeroBucketCounts && zeroErroredCount && zeroOldest && zeroNewest","zeroEverything   = zeroCategory || zeroActiveCount && zeroBucketCounts && zeroErroredCount && zeroOldest && zeroNewest")]),
("merge-replace","C16",[(F,'''		ours, ok := ss.Categories[category]
		if !ok {
			ours = NewCategoryStats(category, ss.Bucketing)
			ss.Categories[category] = ours
		}
		ours.Merge(theirs)
''','''		ours, ok := ss.Categories[category]
		if !ok {
			ss.Categories[category] = theirs
			continue
		}
		ours.Merge(theirs)
''')]),
("merge-skip","C16",[(F,"		ours.Merge(theirs)\n","		if ok {\n			ours.Merge(theirs)\n		}\n")]),
("overall-skip","C16",[(F,"		overall.Merge(sc)\n","		if sc.TotalCount() > sc.ActiveCount {\n			overall.Merge(sc)\n		}\n")]),
("overall-first","C16",[(F,'''	overall := NewCategoryStats("overall", ss.Bucketing)
	var tracerate, eventrate float64
	for _, sc := range ss.Categories {
''','''	overall := NewCategoryStats("overall", ss.Bucketing)
	var tracerate, eventrate float64
	for _, sc := range ss.Categories {
		if len(ss.Categories) == 1 {
			return sc
		}
''')]),
("all-nooverall","C16",[(F,"	slice = append(slice, ss.Overall())\n","	if len(slice) > 1 {\n		slice = append(slice, ss.Overall())\n	}\n")]),
("merge-alias","C16",[(F,"		cs.BucketCounts = append([]int(nil), other.BucketCounts...)\n","		cs.BucketCounts = other.BucketCounts\n")]),
# refactors
("ref-indexed",None,[(F,'''	for i := range cs.BucketCounts {
		cs.BucketCounts[i] += other.BucketCounts[i]
	}
''','''	for i, n := range other.BucketCounts {
		cs.BucketCounts[i] += n
	}
''')]),
("ref-countdown",None,[(F,'''	for i := range cs.BucketCounts {
		cs.BucketCounts[i] += other.BucketCounts[i]
	}
''','''	for i := len(cs.BucketCounts) - 1; i >= 0; i-- {
		cs.BucketCounts[i] = other.BucketCounts[i] + cs.BucketCounts[i]
	}
''')]),
("ref-helper",None,[(F,'''	for i := range cs.BucketCounts {
		cs.BucketCounts[i] += other.BucketCounts[i]
	}
''','''	addCounts(cs.BucketCounts, other.BucketCounts)
'''),(F,"func olderOf(",'''func addCounts(dst, src []int) {
	for i := range dst {
		dst[i] += src[i]
	}
}

func olderOf(''')]),
("ref-reorder",None,[(F,'''	cs.EventCount += other.EventCount

	cs.ActiveCount += other.ActiveCount
''','''	cs.ActiveCount = other.ActiveCount + cs.ActiveCount
	cs.EventCount = cs.EventCount + other.EventCount
''')]),
("ref-check",None,[(F,'''	if dst, src := len(cs.BucketCounts), len(other.BucketCounts); dst != src {
		panic(fmt.Errorf("bad merge: inconsistent buckets: %d vs. %d", dst, src))
	}

	// Rates''','''	checkBuckets(len(cs.BucketCounts), len(other.BucketCounts))

	// Rates'''),(F,"func olderOf(",'''func checkBuckets(dst, src int) {
	if dst != src {
		panic(fmt.Errorf("bad merge: inconsistent buckets: %d vs. %d", dst, src))
	}
}

func olderOf(''')]),
("ref-iszero",None,[(F,'''	var bucketCounts int
	for _, bc := range cs.BucketCounts {
		bucketCounts += bc
	}

	var (
		zeroCategory     = cs.Category == ""
		zeroActiveCount  = cs.ActiveCount == 0
		zeroBucketCounts = bucketCounts == 0
		zeroErroredCount = cs.ErroredCount == 0
		zeroOldest       = cs.Oldest.IsZero()
		zeroNewest       = cs.Newest.IsZero()
		zeroEverything   = zeroCategory && zeroActiveCount && zeroBucketCounts && zeroErroredCount && zeroOldest && zeroNewest
	)
	return zeroEverything
''','''	for _, bc := range cs.BucketCounts {
		if bc != 0 {
			return false
		}
	}

	return cs.Category == "" &&
		cs.ActiveCount == 0 &&
		cs.ErroredCount == 0 &&
		cs.Oldest.IsZero() &&
		cs.Newest.IsZero()
''')]),
("ref-merge-exists",None,[(F,'''		ours, ok := ss.Categories[category]
		if !ok {
			ours = NewCategoryStats(category, ss.Bucketing)
			ss.Categories[category] = ours
		}
		ours.Merge(theirs)
''','''		if _, ok := ss.Categories[category]; !ok {
			ss.Categories[category] = NewCategoryStats(category, ss.Bucketing)
		}
		ss.Categories[category].Merge(theirs)
''')]),
("ref-clone",None,[(F,"		cs.BucketCounts = append([]int(nil), other.BucketCounts...)\n","		cs.BucketCounts = make([]int, len(other.BucketCounts))\n		copy(cs.BucketCounts, other.BucketCounts)\n")]),
("ref-all",None,[(F,'''	slice := make([]*CategoryStats, 0, len(ss.Categories)+1)
	for _, cs := range ss.Categories {
		slice = append(slice, cs)
	}
	sort.Slice(slice, func(i, j int) bool {
		return slice[i].Category < slice[j].Category
	})
	slice = append(slice, ss.Overall())
	return slice
''','''	names := make([]string, 0, len(ss.Categories))
	for name := range ss.Categories {
		names = append(names, name)
	}
	sort.Strings(names)
	all := make([]*CategoryStats, 0, len(names)+1)
	for _, name := range names {
		all = append(all, ss.Categories[name])
	}
	return append(all, ss.Overall())
''')]),
("ref-overall",None,[(F,'''	overall := NewCategoryStats("overall", ss.Bucketing)
	var tracerate, eventrate float64
	for _, sc := range ss.Categories {
		overall.Merge(sc)
		tracerate += sc.TraceRate()
		eventrate += sc.EventRate()
	}
	overall.tracerate = tracerate
	overall.eventrate = eventrate
	return overall
''','''	res := NewCategoryStats("overall", ss.Bucketing)
	for category := range ss.Categories {
		res.Merge(ss.Categories[category])
	}
	res.tracerate, res.eventrate = 0, 0
	for _, sc := range ss.Categories {
		res.tracerate += sc.TraceRate()
		res.eventrate += sc.EventRate()
	}
	return res
''')]),
]

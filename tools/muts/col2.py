C="collector.go"; R="internal/trcringbuf/ringbuffer.go"
c=open("/repo/"+C).read(); r=open("/repo/"+R).read()
def blk(src,a,b):
    i=src.index(a); j=src.index(b,i); return src[i:j]
NT=blk(c,"	if tr, ok := MaybeGet(ctx); ok {","// Search the collector")
WALK=blk(c,"	for _, ringBuf := range c.categories.GetAll()","	// Sort most recent first.")
RET=blk(c,"	tr.LazyTracef(\"%s -> total","// Stream traces matching")
RS=blk(r,"	// Calculate how many values to fill","// Add the value to")
ADD=blk(r,"	// Safety first.\n	if cap(rb.buf)","// Walk calls")
WK=blk(r,"	// Read up to rb.len","// Stats returns")
ST=blk(r,"	// The cursor math","//\n//\n//")
FREE=blk(c,"func maybeFree","zzz") if False else c[c.index("func maybeFree"):]
M=[
("m-cat-limit","C13",[(C,"			if len(categoryTraces) >= req.Limit {","			if len(traces)+len(categoryTraces) >= req.Limit {")]),
("m-observe-panic","C13",[(C,"			totalCount++\n","			if candidate.Finished() || len(candidate.Events()) > 0 {\n				totalCount++\n			}\n")]),
("m-total-lim","C13",[(C,"		TotalCount: totalCount,","		TotalCount: max(totalCount, len(traces)),"),(C,"			totalCount++\n",""),(C,"			matchCount++\n","			matchCount++\n			totalCount++\n")]),
("m-append-share","C13",[(C,"		traces = append(traces, categoryTraces...)","		traces = append(traces[:0], categoryTraces...)")]),
("m-walk-err","C13",[(C,"		traces = append(traces, categoryTraces...)\n","		if len(categoryTraces) == req.Limit {\n			traces = append(traces, categoryTraces...)\n			break\n		}\n		traces = append(traces, categoryTraces...)\n")]),
("m-sort-part","C13",[(C,"	sort.Sort(staticTracesNewestFirst(traces))\n\n	// Take only the most recent traces as per the limit.\n	if len(traces) > req.Limit {\n","	if len(traces) > req.Limit {\n		sort.Sort(staticTracesNewestFirst(traces))\n")]),
("m-dur-neg","C13",[(C,"TrimStacks(req.StackDepth)","TrimStacks(max(req.StackDepth, 0))")]),
("m-nt-tracef","C09",[(C,"		tr.LazyTracef(\"(+ %s)\", category)\n		return ctx, tr","		tr.LazyTracef(\"(+ %s)\", category)\n		return Put(ctx, tr)")]),
("m-nt-foreign","C09",[(C,"	if tr, ok := MaybeGet(ctx); ok {\n","	if tr, ok := MaybeGet(ctx); ok && !tr.Finished() {\n")]),
("m-nt-lazy","C11",[(C,"	if droppedTrace, didDrop := c.categories.GetOrCreate(category).Add(tr); didDrop {\n		maybeFree(droppedTrace)\n	}\n","	if droppedTrace, didDrop := c.categories.GetOrCreate(category).Add(tr); didDrop && droppedTrace.Finished() {\n		maybeFree(droppedTrace)\n	}\n")]),
("m-nt-freeactive","C11",[(C,"	return Put(ctx, tr)\n}\n\n// Search","	if tr.Finished() {\n		maybeFree(tr)\n	}\n	return Put(ctx, tr)\n}\n\n// Search")]),
("m-deco-rev","C09",[(C,"	for _, d := range c.decorators {\n		tr = d(tr)\n	}","	for i := len(c.decorators) - 1; i > 0; i-- {\n		tr = c.decorators[i](tr)\n	}")]),
("m-free-go","C11",[(C,"	for _, droppedTrace := range c.categories.Resize(cap) {\n		maybeFree(droppedTrace)\n	}","	for i, droppedTrace := range c.categories.Resize(cap) {\n		if i >= cap {\n			break\n		}\n		maybeFree(droppedTrace)\n	}")]),
("m-rs-trunc","C10",[(R,"	if fill > cap {\n		fill = cap\n	}","	if fill > cap {\n		fill = cap - 1\n	}")]),
("m-rs-rd","C10",[(R,"	for i := cap; i < rb.len; i++ {\n		dropped = append(dropped, rb.buf[rdcur])\n\n		rdcur = rdcur - 1\n		if rdcur < 0 {\n			rdcur += len(rb.buf)\n		}\n","	for i := cap; i < rb.len; i++ {\n		dropped = append(dropped, rb.buf[rdcur])\n\n		rdcur = rdcur - 1\n		if rdcur <= 0 {\n			rdcur += len(rb.buf)\n		}\n")]),
("m-add-len","C10",[(R,"	if rb.len < len(rb.buf) {\n		rb.len += 1","	if rb.len < cap(rb.buf)-1 {\n		rb.len += 1")]),
("m-add-capdrop","C10",[(R,"	if rb.len >= len(rb.buf) {\n		dropped","	if rb.len >= len(rb.buf) && rb.cur > 0 {\n		dropped")]),
("m-stats-tail","C10",[(R,"	tailidx := headidx - rb.len + 1\n","	tailidx := headidx - rb.len\n")]),
("m-all-live","C02",[(R,"	all := make(map[string]*RingBuffer[T], len(rbs.bufs))\n	for name, rb := range rbs.bufs {\n		all[name] = rb\n	}\n\n	return all","	return rbs.bufs")]),
("m-rsall-first","C10",[(R,"		dropped = append(dropped, rb.Resize(cap)...)","		if d := rb.Resize(cap); len(d) > 0 {\n			dropped = d\n		}")]),
("m-goc-lower","C10",[(R,"	rb, ok := rbs.bufs[category]\n	if !ok {\n","	rb, ok := rbs.bufs[category]\n	if !ok && category == \"\" {\n		category = \"default\"\n	}\n	if !ok {\n")]),
# refactors
("r-nt",None,[(C,NT,'''	if tr, ok := MaybeGet(ctx); ok {
		tr.LazyTracef("(+ %s)", category)
		return ctx, tr
	}

	ctx, tr := c.create(ctx, category)
	c.retain(category, tr)
	return Put(ctx, tr)
}

func (c *Collector) create(ctx context.Context, category string) (context.Context, Trace) {
	ctx, tr := c.newTrace(ctx, c.source, category, publishDecorator(c.broker))
	for i := range c.decorators {
		tr = c.decorators[i](tr)
	}
	return ctx, tr
}

func (c *Collector) retain(category string, tr Trace) {
	dropped, ok := c.categories.GetOrCreate(category).Add(tr)
	if !ok {
		return
	}
	maybeFree(dropped)
}

''')]),
("r-nt2",None,[(C,NT,'''	tr, ok := MaybeGet(ctx)
	if !ok {
		return c.newTraceIn(ctx, category)
	}
	tr.LazyTracef("(+ %s)", category)
	return ctx, tr
}

func (c *Collector) newTraceIn(ctx context.Context, category string) (context.Context, Trace) {
	newctx, tr := c.newTrace(ctx, c.source, category, publishDecorator(c.broker))
	tr = applyDecorators(tr, c.decorators)
	buf := c.categories.GetOrCreate(category)
	switch old, full := buf.Add(tr); {
	case full:
		maybeFree(old)
	}
	return Put(newctx, tr)
}

func applyDecorators(tr Trace, ds []DecoratorFunc) Trace {
	if len(ds) == 0 {
		return tr
	}
	return applyDecorators(ds[0](tr), ds[1:])
}

''')]),
("r-free",None,[(C,FREE,'''type freer interface{ Free() }

func maybeFree(trs ...Trace) {
	for _, tr := range trs {
		if f, ok := tr.(freer); ok {
			f.Free()
		}
	}
}
'''),(C,"	for _, droppedTrace := range c.categories.Resize(cap) {\n		maybeFree(droppedTrace)\n	}","	maybeFree(c.categories.Resize(cap)...)")]),
("r-search",None,[(C,WALK,'''	for _, ringBuf := range c.categories.GetAll() {
		res := c.searchCategory(ringBuf, req, stats)
		totalCount += res.total
		matchCount += len(res.traces)
		traces = append(traces, res.traces...)
	}

'''),(C,"// Stream traces matching",'''type categoryResult struct {
	total  int
	traces []*StaticTrace
}

func (c *Collector) searchCategory(buf *trcringbuf.RingBuffer[Trace], req *SearchRequest, stats *SearchStats) (res categoryResult) {
	buf.Walk(func(candidate Trace) error {
		stats.Observe(candidate)
		res.total++
		if len(res.traces) < req.Limit && req.Filter.Allow(candidate) {
			res.traces = append(res.traces, NewSearchTrace(candidate).TrimStacks(req.StackDepth))
		}
		return nil
	})
	return res
}

// Stream traces matching''')]),
("r-search2",None,[(C,WALK,'''	s := collectorSearch{req: req, stats: stats}
	for _, ringBuf := range c.categories.GetAll() {
		s.category = nil
		ringBuf.Walk(s.visit)
		traces = append(traces, s.category...)
	}
	totalCount, matchCount = s.total, s.matched

'''),(C,"// Stream traces matching",'''type collectorSearch struct {
	req            *SearchRequest
	stats          *SearchStats
	total, matched int
	category       []*StaticTrace
}

func (s *collectorSearch) visit(candidate Trace) error {
	s.stats.Observe(candidate)
	s.total++
	if len(s.category) >= s.req.Limit || !s.req.Filter.Allow(candidate) {
		return nil
	}
	s.matched++
	s.category = append(s.category, NewSearchTrace(candidate).TrimStacks(s.req.StackDepth))
	return nil
}

// Stream traces matching''')]),
("r-search3",None,[(C,WALK,'''	for _, ringBuf := range c.categories.GetAll() {
		var candidates []Trace
		remaining := req.Limit
		ringBuf.Walk(func(candidate Trace) error {
			candidates = append(candidates, candidate)
			stats.Observe(candidate)
			if remaining <= 0 || !req.Filter.Allow(candidate) {
				return nil
			}
			remaining--
			traces = append(traces, NewSearchTrace(candidate).TrimStacks(req.StackDepth))
			return nil
		})
		totalCount += len(candidates)
		matchCount += req.Limit - remaining
	}

''')]),
("r-resp",None,[(C,RET,'''	defer func() {
		tr.LazyTracef("%s -> total %d, matched %d, returned %d", c.source, totalCount, matchCount, len(traces))
	}()

	res := &SearchResponse{Request: req, Sources: []string{c.source}}
	res.TotalCount, res.MatchCount = totalCount, matchCount
	res.Traces = traces
	res.Stats = stats
	if len(normalizeErrs) > 0 {
		res.Problems = trcutil.FlattenErrors(normalizeErrs...)
	}
	res.Duration = time.Since(begin)
	return res, nil
}

''')]),
("r-top",None,[(C,"	sort.Sort(staticTracesNewestFirst(traces))\n\n	// Take only the most recent traces as per the limit.\n	if len(traces) > req.Limit {\n		traces = traces[:req.Limit]\n	}\n","	traces = newest(traces, req.Limit)\n"),(C,"// Stream traces matching",'''func newest(traces []*StaticTrace, n int) []*StaticTrace {
	sort.Sort(staticTracesNewestFirst(traces))
	return traces[:min(n, len(traces))]
}

// Stream traces matching''')]),
("r-rs-walk",None,[(R,RS,'''	keep := min(rb.len, cap)
	buf := make([]T, cap)
	for i := 0; i < rb.len; i++ {
		val := rb.buf[rb.index(i)]
		if i < keep {
			buf[keep-1-i] = val
		} else {
			dropped = append(dropped, val)
		}
	}

	rb.buf = buf
	rb.cur = keep % cap
	rb.len = keep
	return dropped
}

// index of the i'th most recent value.
func (rb *RingBuffer[T]) index(i int) int {
	cur := rb.cur - 1 - i
	if cur < 0 {
		cur += len(rb.buf)
	}
	return cur
}

'''),(R,WK,'''	for i := 0; i < rb.len; i++ {
		if err := fn(rb.buf[rb.index(i)]); err != nil {
			return err
		}
	}
	return nil
}

''')]),
("r-add",None,[(R,ADD,'''	if len(rb.buf) == 0 {
		return dropped, false
	}

	slot := &rb.buf[rb.cur]
	full := rb.len == len(rb.buf)
	if full {
		dropped = *slot
	} else {
		rb.len++
	}
	*slot = val
	rb.cur = (rb.cur + 1) % len(rb.buf)
	return dropped, full
}

''')]),
("r-walk",None,[(R,WK,'''	n, cur := rb.len, rb.cur
	for ; n > 0; n-- {
		cur--
		if cur < 0 {
			cur = len(rb.buf) - 1
		}
		err := fn(rb.buf[cur])
		if err != nil {
			return err
		}
	}
	return nil
}

''')]),
("r-walk2",None,[(R,WK,'''	for i := rb.len - 1; i >= 0; i-- {
		if err := fn(rb.buf[(rb.cur-rb.len+i+len(rb.buf))%len(rb.buf)]); err != nil {
			return err
		}
	}
	return nil
}

''')]),
("r-stats",None,[(R,ST,'''	if rb.len > 0 {
		at := func(back int) T {
			i := rb.cur - back
			if i < 0 {
				i += len(rb.buf)
			}
			return rb.buf[i]
		}
		newest, oldest = at(1), at(rb.len)
	}
	return newest, oldest, rb.len
}

''')]),
("r-goc",None,[(R,"	rb, ok := rbs.bufs[category]\n	if !ok {\n		rb = NewRingBuffer[T](rbs.cap)\n		rbs.bufs[category] = rb\n	}\n\n	return rb","	if rb := rbs.bufs[category]; rb != nil {\n		return rb\n	}\n	rb := NewRingBuffer[T](rbs.cap)\n	rbs.bufs[category] = rb\n	return rb")]),
("r-rsall",None,[(R,'''	rbs.cap = cap

	for _, rb := range rbs.bufs {
		dropped = append(dropped, rb.Resize(cap)...)
	}
''','''	for name := range rbs.bufs {
		for _, d := range rbs.bufs[name].Resize(cap) {
			dropped = append(dropped, d)
		}
	}
	rbs.cap = cap
''')]),
]

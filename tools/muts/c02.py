TC="trace_core.go"; RB="internal/trcringbuf/ringbuffer.go"; BR="broker.go"; DE="decorators.go"
LK="	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n\n"
M=[
("c02-finished-unlocked","C02",[(TC,"func (tr *coreTrace) Finished() bool {\n"+LK,"func (tr *coreTrace) Finished() bool {\n")]),
("c02-duration-fast","C02",[(TC,"func (tr *coreTrace) Duration() time.Duration {\n"+LK+"	if tr.finished {\n		return tr.duration\n	}\n\n	return time.Since","func (tr *coreTrace) Duration() time.Duration {\n	if tr.finished {\n		return tr.duration\n	}\n\n	return time.Since")]),
("c02-events-len-before-lock","C02",[(TC,"	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n\n	if n <= 0 || n > len(tr.events) {\n		n = len(tr.events)\n	}\n","	if n <= 0 || n > len(tr.events) {\n		n = len(tr.events)\n	}\n	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n")]),
("c02-snapshot-after-unlock","C02",[(TC,"	latest := tr.events[len(tr.events)-n:]\n	events := snapshotEvents(latest, stacks)\n","	latest := tr.events[len(tr.events)-n:]\n	tr.mtx.Unlock()\n	events := snapshotEvents(latest, stacks)\n	tr.mtx.Lock()\n")]),
("c02-getall-live","C02",[(RB,"	all := make(map[string]*RingBuffer[T], len(rbs.bufs))\n	for name, rb := range rbs.bufs {\n		all[name] = rb\n	}\n\n	return all","	return rbs.bufs")]),
("c02-getorcreate-fast","C02",[(RB,"	rbs.mtx.Lock()\n	defer rbs.mtx.Unlock()\n\n	rb, ok := rbs.bufs[category]","	if rb, ok := rbs.bufs[category]; ok {\n		return rb\n	}\n	rbs.mtx.Lock()\n	defer rbs.mtx.Unlock()\n\n	rb, ok := rbs.bufs[category]")]),
("c02-ring-add-cap-check","C02",[(RB,"	rb.mtx.Lock()\n	defer rb.mtx.Unlock()\n\n	// Safety first.\n	if cap(rb.buf) <= 0 {\n		var zero T\n		return zero, false\n	}\n","	// Safety first.\n	if cap(rb.buf) <= 0 {\n		var zero T\n		return zero, false\n	}\n\n	rb.mtx.Lock()\n	defer rb.mtx.Unlock()\n")]),
("c02-walk-copy-len","C02",[(RB,"	rb.mtx.Lock()\n	defer rb.mtx.Unlock()\n\n	// Read up to rb.len values.\n	for i := 0; i < rb.len; i++ {","	count := rb.len\n	rb.mtx.Lock()\n	defer rb.mtx.Unlock()\n\n	// Read up to rb.len values.\n	for i := 0; i < count; i++ {")]),
("c02-publish-fastpath","C02",[(BR,"	b.mtx.Lock()\n	defer b.mtx.Unlock()\n\n	// Fast path exit if there are no subscribers.\n	if len(b.subs) <= 0 {\n		return\n	}\n","	// Fast path exit if there are no subscribers.\n	if len(b.subs) <= 0 {\n		return\n	}\n\n	b.mtx.Lock()\n	defer b.mtx.Unlock()\n")]),
("c02-streamstats-after","C02",[(BR,"	b.mtx.Lock()\n	defer b.mtx.Unlock()\n\n	sub, ok := b.subs[ch]\n	if !ok {\n		return StreamStats{}, fmt.Errorf(\"not subscribed\")\n	}","	b.mtx.Lock()\n	sub, ok := b.subs[ch]\n	b.mtx.Unlock()\n	if !ok {\n		return StreamStats{}, fmt.Errorf(\"not subscribed\")\n	}")]),
("c02-publish-snapshot-subs","C02",[(BR,"	for _, sub := range b.subs {\n		if !sub.filter","	subs := make([]*subscriber, 0, len(b.subs))\n	for _, sub := range b.subs {\n		subs = append(subs, sub)\n	}\n	b.mtx.Unlock()\n	defer b.mtx.Lock()\n	for _, sub := range subs {\n		if !sub.filter")]),
("c02-global-plain","C02",[(TC,"var traceNoStacks atomic.Bool","var traceNoStacks bool"),(TC,"traceNoStacks.Store(!enable)","traceNoStacks = !enable"),(TC,"iff(traceNoStacks.Load(),","iff(traceNoStacks,")]),
("c02-debug-plain","C02",[("internal/trcdebug/counters.go","CoreTraceNewCount atomic.Uint64","CoreTraceNewCount uint64"),(TC,"trcdebug.CoreTraceNewCount.Add(1)","trcdebug.CoreTraceNewCount++"),("trcweb/render.go","trcdebug.CoreTraceNewCount.Load()","trcdebug.CoreTraceNewCount")]),
("c02-log-counter","C02",[(DE,"	id  string\n	dst io.Writer","	id  string\n	dst io.Writer\n	n   int"),(DE,"	format = ltr.id +","	ltr.n++\n	format = ltr.id +")]),
("c02-server-cache","C02",[("trcweb/trace_server.go","	if s.Searcher != nil {\n		return s.Searcher\n	}\n	return s.Collector","	if s.Searcher == nil {\n		s.Searcher = s.Collector\n	}\n	return s.Searcher")]),
("c02-atomic-get","C02",[("internal/trcutil/atomic.go","func (a *Atomic[T]) Get() T { a.mtx.Lock(); defer a.mtx.Unlock(); return a.val }","func (a *Atomic[T]) Get() T { return a.val }")]),
("c02-multi-shared-append","C02",[("search_types.go","	tuplec := make(chan tuple, len(ms))\n","	tuplec := make(chan tuple, len(ms))\n	var failed int\n"),("search_types.go","			tuplec <- tuple{id, res, err}","			if err != nil {\n				failed++\n			}\n			tuplec <- tuple{id, res, err}"),("search_types.go","scattered request count %d\", len(ms)","scattered request count %d, failed %d\", len(ms), failed")]),
("c02-multi-loopvar","C02",[("search_types.go","		go func(id string, s Searcher) {","		go func(id string) {"),("search_types.go","		}(strconv.Itoa(i+1), s)","		}(strconv.Itoa(i + 1))")]),
("c02-stream-err-shared","C02",[("trcweb/trace_server.go","	go func() {\n		stats, err := s.streamer().Stream(ctx, f, tracec)","	var err error\n	go func() {\n		var stats trc.StreamStats\n		stats, err = s.streamer().Stream(ctx, f, tracec)"),("trcweb/trace_server.go","	eventsource.Handler(func(lastId","	if err != nil {\n		return\n	}\n	eventsource.Handler(func(lastId")]),
("c02-setmax-unlocked","C02",[(TC,"func (tr *coreTrace) SetMaxEvents(max int) {\n"+LK,"func (tr *coreTrace) SetMaxEvents(max int) {\n")]),
("c02-resize-cap-unlocked","C02",[(RB,"	rbs.mtx.Lock()\n	defer rbs.mtx.Unlock()\n\n	rbs.cap = cap\n","	rbs.cap = cap\n\n	rbs.mtx.Lock()\n	defer rbs.mtx.Unlock()\n")]),
("c02-rlock-write","C02",[(TC,"	mtx         sync.Mutex\n","	mtx         sync.RWMutex\n"),(TC,"func (tr *coreTrace) EventsDetail(n int, stacks bool) []Event {\n	tr.mtx.Lock()\n	defer tr.mtx.Unlock()","func (tr *coreTrace) EventsDetail(n int, stacks bool) []Event {\n	tr.mtx.RLock()\n	defer tr.mtx.RUnlock()")]),
# refactorings
("r-c02-manual-unlock",None,[(TC,"func (tr *coreTrace) Finished() bool {\n"+LK+"	return tr.finished","func (tr *coreTrace) Finished() bool {\n	tr.mtx.Lock()\n	finished := tr.finished\n	tr.mtx.Unlock()\n	return finished")]),
("r-c02-rwmutex",None,[(TC,"	mtx         sync.Mutex\n","	mtx         sync.RWMutex\n"),(TC,"func (tr *coreTrace) Finished() bool {\n	tr.mtx.Lock()\n	defer tr.mtx.Unlock()","func (tr *coreTrace) Finished() bool {\n	tr.mtx.RLock()\n	defer tr.mtx.RUnlock()"),(TC,"func (tr *coreTrace) Errored() bool {\n	tr.mtx.Lock()\n	defer tr.mtx.Unlock()","func (tr *coreTrace) Errored() bool {\n	tr.mtx.RLock()\n	defer tr.mtx.RUnlock()")]),
("r-c02-embedded",None,[(BR,"	mtx  sync.Mutex\n	subs map","	sync.Mutex\n	subs map")]+[(BR,"b.mtx.Lock()","b.Lock()"),(BR,"b.mtx.Unlock()","b.Unlock()")]*4),
("r-c02-once-server",None,[("trcweb/trace_server.go","	Streamer Streamer\n}","	Streamer Streamer\n\n	once     sync.Once\n	resolved Searcher\n}"),("trcweb/trace_server.go","	if s.Searcher != nil {\n		return s.Searcher\n	}\n	return s.Collector","	s.once.Do(func() {\n		s.resolved = s.Searcher\n		if s.resolved == nil {\n			s.resolved = s.Collector\n		}\n	})\n	return s.resolved"),("trcweb/trace_server.go",'	"strings"\n	"time"','	"strings"\n	"sync"\n	"time"')]),
("r-c02-helper-locked",None,[(TC,"func (tr *coreTrace) EventsDetail(n int, stacks bool) []Event {\n"+LK,"func (tr *coreTrace) EventsDetail(n int, stacks bool) []Event {\n"+LK+"	return tr.eventsLocked(n, stacks)\n}\n\nfunc (tr *coreTrace) eventsLocked(n int, stacks bool) []Event {\n")]),
("r-c02-append-helper",None,[(TC,"	switch {\n	case len(tr.events) >= tr.eventsmax:\n		tr.truncated++\n	default:\n		tr.events = append(tr.events, newCoreEvent(flagNormal|tr.nostackflag, format, args...))\n	}\n}","	tr.appendLocked(flagNormal, format, args...)\n}\n\nfunc (tr *coreTrace) appendLocked(flags uint8, format string, args ...any) {\n	if len(tr.events) >= tr.eventsmax {\n		tr.truncated++\n		return\n	}\n	tr.events = append(tr.events, newCoreEvent(flags|tr.nostackflag, format, args...))\n}")]),
("r-c02-with-lock-fn",None,[(BR,"	if err := func() error {\n		b.mtx.Lock()\n		defer b.mtx.Unlock()\n\n		if _, ok := b.subs[ch]; ok {\n			return fmt.Errorf(\"already subscribed\")\n		}\n\n		b.subs[ch] = &subscriber{\n			filter: f,\n			traces: ch,\n		}\n\n		return nil\n	}(); err != nil {","	if err := b.subscribe(f, ch); err != nil {"),(BR,"// StreamStats returns stat","func (b *Broker) subscribe(f Filter, ch chan<- Trace) error {\n		b.mtx.Lock()\n		defer b.mtx.Unlock()\n\n		if _, ok := b.subs[ch]; ok {\n			return fmt.Errorf(\"already subscribed\")\n		}\n\n		b.subs[ch] = &subscriber{\n			filter: f,\n			traces: ch,\n		}\n\n		return nil\n}\n\n// StreamStats returns stat")]),
("r-c02-getall-keys",None,[(RB,"	all := make(map[string]*RingBuffer[T], len(rbs.bufs))\n	for name, rb := range rbs.bufs {\n		all[name] = rb\n	}\n\n	return all","	return rbs.copyLocked()\n}\n\nfunc (rbs *RingBuffers[T]) copyLocked() map[string]*RingBuffer[T] {\n	res := map[string]*RingBuffer[T]{}\n	for name := range rbs.bufs {\n		res[name] = rbs.bufs[name]\n	}\n	return res")]),
("r-c02-multi-wg",None,[("search_types.go","		go func(id string, s Searcher) {\n			ctx, _ := Prefix(ctx, \"<%s>\", id)\n			res, err := s.Search(ctx, req)\n			tuplec <- tuple{id, res, err}\n		}(strconv.Itoa(i+1), s)","		id, s := strconv.Itoa(i+1), s\n		go func() {\n			ctx, _ := Prefix(ctx, \"<%s>\", id)\n			res, err := s.Search(ctx, req)\n			tuplec <- tuple{id, res, err}\n		}()")]),
]
SR="search_types.go"
M+=[
("c02-allow-rewrites","C02",[("filter.go","	f.initializeQueryRegexp()\n	if f.regexp != nil {","	f.regexp = nil\n	f.initializeQueryRegexp()\n	if f.regexp != nil {")]),
("c02-search-req-write","C02",[("collector.go","	// Sort most recent first.","	if req.StackDepth < 0 {\n		req.StackDepth = -1\n	}\n	// Sort most recent first.")]),
("c02-search-filter-write","C02",[("collector.go","			if !req.Filter.Allow(candidate) {","			if len(req.Filter.IDs) == 1 {\n				req.Filter.Query = \"\"\n			}\n			if !req.Filter.Allow(candidate) {")]),
("r-c14-limit-helper",None,[(SR,"	switch {\n	case req.Limit <= 0:\n		req.Limit = SearchLimitDefault\n	case req.Limit < SearchLimitMin:\n		req.Limit = SearchLimitMin\n	case req.Limit > SearchLimitMax:\n		req.Limit = SearchLimitMax\n	}","	req.Limit = normalizeLimit(req.Limit)"),(SR,"// String implements fmt.Stringer.\nfunc (req SearchRequest)","func normalizeLimit(n int) int {\n	switch {\n	case n <= 0:\n		return SearchLimitDefault\n	case n > SearchLimitMax:\n		return SearchLimitMax\n	default:\n		return n\n	}\n}\n\n// String implements fmt.Stringer.\nfunc (req SearchRequest)")]),
]

M+=[("r-c02-duration-after-finished",None,[(TC,"	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n\n	if tr.finished {\n		return tr.duration\n	}\n\n	return time.Since(tr.start)","	if !tr.Finished() {\n		return time.Since(tr.start)\n	}\n	return tr.duration // doesn't change any more")]),
("c02-errored-after-finished","C02",[(TC,"func (tr *coreTrace) Errored() bool {\n"+LK+"	return tr.errored","func (tr *coreTrace) Errored() bool {\n	tr.mtx.Lock()\n	active := !tr.finished\n	tr.mtx.Unlock()\n	if active {\n		return tr.errored\n	}\n	return tr.errored")]),
]

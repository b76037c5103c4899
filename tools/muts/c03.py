TC="trace_core.go"; RB="internal/trcringbuf/ringbuffer.go"; BR="broker.go"; DE="decorators.go"
LK="	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n\n"
M=[
("c03-early-return","C03",[(TC,"func (tr *coreTrace) Finish() {\n"+LK+"	if tr.finished {\n		return\n	}\n\n	tr.finished = true\n	tr.duration = time.Since(tr.start)\n","func (tr *coreTrace) Finish() {\n	tr.mtx.Lock()\n\n	if tr.finished {\n		return\n	}\n\n	tr.finished = true\n	tr.duration = time.Since(tr.start)\n	tr.mtx.Unlock()\n")]),
("c03-walk-nodefer","C03",[(RB,"	rb.mtx.Lock()\n	defer rb.mtx.Unlock()\n\n	// Read up to","	rb.mtx.Lock()\n\n	// Read up to"),(RB,"		if err := fn(rb.buf[cur]); err != nil {\n			return err\n		}\n	}\n\n	return nil","		if err := fn(rb.buf[cur]); err != nil {\n			rb.mtx.Unlock()\n			return err\n		}\n	}\n\n	rb.mtx.Unlock()\n	return nil")]),
("c03-walk-err-leak","C03",[(RB,"	rb.mtx.Lock()\n	defer rb.mtx.Unlock()\n\n	// Read up to","	rb.mtx.Lock()\n\n	// Read up to"),(RB,"		}\n	}\n\n	return nil","		}\n	}\n\n	rb.mtx.Unlock()\n	return nil")]),
("c03-relock","C03",[(TC,"	tr.finished = true\n	tr.duration = time.Since(tr.start)","	tr.duration = tr.Duration()\n	tr.finished = true")]),
("c03-relock-events","C03",[(TC,"	if tr.truncated > 0 {\n","	if tr.truncated > 0 && tr.Finished() || tr.truncated > 0 {\n")]),
("c03-publish-blocking","C03",[(BR,"		select {\n		case sub.traces <- str:\n			sub.stats.Sends++\n		default:\n			sub.stats.Drops++\n		}","		sub.traces <- str\n		sub.stats.Sends++")]),
("c03-stream-wait-locked","C03",[(BR,"	if err := func() error {\n		b.mtx.Lock()\n		defer b.mtx.Unlock()\n","	if err := func() error {\n		b.mtx.Lock()\n		defer b.mtx.Unlock()\n		if ctx.Err() == nil && cap(ch) == 0 {\n			<-ctx.Done()\n		}\n")]),
("c03-ring-add-walk","C03",[(RB,"	// Capture any overwritten value so it can be returned.\n	if rb.len","	// Capture any overwritten value so it can be returned.\n	if _, _, n := rb.Stats(); n > len(rb.buf) {\n		return dropped, false\n	}\n	if rb.len")]),
("c03-free-under-event-lock","C03",[(TC,"	for _, ev := range tr.events {\n		ev.free()","	for _, ev := range tr.Events() {\n		_ = ev\n	}\n	for _, ev := range tr.events {\n		ev.free()")]),
("c03-unlock-twice","C03",[(BR,"		sub := b.subs[ch]\n		delete(b.subs, ch)\n","		sub := b.subs[ch]\n		delete(b.subs, ch)\n		if sub == nil {\n			b.mtx.Unlock()\n		}\n")]),
("c03-resize-early","C03",[(RB,"	rbs.mtx.Lock()\n	defer rbs.mtx.Unlock()\n\n	rbs.cap = cap\n","	rbs.mtx.Lock()\n	if rbs.cap == cap {\n		return nil\n	}\n	defer rbs.mtx.Unlock()\n\n	rbs.cap = cap\n")]),
("c03-lock-order","C03",[(RB,"type RingBuffer[T any] struct {\n","type RingBuffer[T any] struct {\n	parent *RingBuffers[T]\n"),(RB,"		rb = NewRingBuffer[T](rbs.cap)\n","		rb = NewRingBuffer[T](rbs.cap)\n		rb.parent = rbs\n"),(RB,"	// Safety first.\n	if cap(rb.buf) <= 0 {","	if rb.parent != nil {\n		rb.parent.mtx.Lock()\n		defer rb.parent.mtx.Unlock()\n	}\n\n	// Safety first.\n	if cap(rb.buf) <= 0 {")]),
# refactorings
("r-c03-manual-all-paths",None,[(TC,"func (tr *coreTrace) Finish() {\n"+LK+"	if tr.finished {\n		return\n	}\n\n	tr.finished = true\n	tr.duration = time.Since(tr.start)\n","func (tr *coreTrace) Finish() {\n	tr.mtx.Lock()\n\n	if tr.finished {\n		tr.mtx.Unlock()\n		return\n	}\n\n	tr.finished = true\n	tr.duration = time.Since(tr.start)\n	tr.mtx.Unlock()\n")]),
("r-c03-publish-goto",None,[(BR,"	b.mtx.Lock()\n	defer b.mtx.Unlock()\n\n	// Fast path exit if there are no subscribers.\n	if len(b.subs) <= 0 {\n		return\n	}\n","	b.mtx.Lock()\n	defer func() { b.mtx.Unlock() }()\n\n	// Fast path exit if there are no subscribers.\n	if len(b.subs) == 0 {\n		return\n	}\n")]),
("r-c03-resize-collect",None,[(RB,"	rbs.mtx.Lock()\n	defer rbs.mtx.Unlock()\n\n	rbs.cap = cap\n\n	for _, rb := range rbs.bufs {\n		dropped = append(dropped, rb.Resize(cap)...)\n	}\n","	rbs.mtx.Lock()\n	defer rbs.mtx.Unlock()\n\n	rbs.cap = cap\n\n	for name := range rbs.bufs {\n		d := rbs.bufs[name].Resize(cap)\n		dropped = append(dropped, d...)\n	}\n")]),
("r-c03-setmax-split",None,[(TC,"	switch {\n	case max < traceMaxEventsMin:\n		tr.eventsmax = traceMaxEventsMin\n	case max > traceMaxEventsMax:\n		tr.eventsmax = traceMaxEventsMax\n	default:\n		tr.eventsmax = max\n	}","	tr.eventsmax = clampMax(max)\n}\n\nfunc clampMax(max int) int {\n	if max < traceMaxEventsMin {\n		return traceMaxEventsMin\n	}\n	if max > traceMaxEventsMax {\n		return traceMaxEventsMax\n	}\n	return max")]),
]

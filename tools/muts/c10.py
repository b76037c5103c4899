R="internal/trcringbuf/ringbuffer.go"; C="collector.go"
M=[
("rs-fill","C10",[(R,"	fill := rb.len\n	if fill > cap {\n		fill = cap\n	}","	fill := rb.len\n	if fill >= cap {\n		fill = cap - 1\n	}")]),
("rs-nodrop-eq","C10",[(R,"	for i := cap; i < rb.len; i++ {","	for i := cap + 1; i < rb.len; i++ {")]),
("rs-rdcur","C10",[(R,"	rdcur := rb.cur - 1\n	if rdcur < 0 {\n		rdcur += rb.len\n	}","	rdcur := rb.cur - 1\n	if rdcur < 0 {\n		rdcur += cap\n	}")]),
("rs-wrap","C10",[(R,"	for i := cap; i < rb.len; i++ {\n		dropped = append(dropped, rb.buf[rdcur])\n\n		rdcur = rdcur - 1\n		if rdcur < 0 {\n			rdcur += len(rb.buf)\n		}","	for i := cap; i < rb.len; i++ {\n		dropped = append(dropped, rb.buf[rdcur])\n\n		rdcur = rdcur - 1\n		if rdcur < 0 {\n			rdcur = 0\n		}")]),
("rs-cur","C10",[(R,"	cur := fill\n	if cur >= cap {\n		cur -= cap\n	}","	cur := fill\n	if cur > cap {\n		cur -= cap\n	}")]),
("rs-same","C10",[(R,"	// Calculate how many values to fill from","	if cap == len(rb.buf) {\n		rb.cur = 0\n		return nil\n	}\n\n	// Calculate how many values to fill from")]),
("rs-grow-only","C10",[(R,"	// Calculate how many values to fill from","	if cap <= rb.len/2 {\n		return nil\n	}\n\n	// Calculate how many values to fill from")]),
("add-drop-eq","C10",[(R,"	if rb.len >= len(rb.buf) {\n		dropped","	if rb.len > len(rb.buf) {\n		dropped")]),
("add-after","C10",[(R,"	// Capture any overwritten value so it can be returned.\n	if rb.len >= len(rb.buf) {\n		dropped, ok = rb.buf[rb.cur], true\n	}\n\n	// Write the value at the write cursor.\n	rb.buf[rb.cur] = val\n","	// Write the value at the write cursor.\n	rb.buf[rb.cur] = val\n\n	// Capture any overwritten value so it can be returned.\n	if rb.len >= len(rb.buf) {\n		dropped, ok = rb.buf[rb.cur], true\n	}\n")]),
("add-cur","C10",[(R,"	if rb.cur >= len(rb.buf) {\n		rb.cur -= len(rb.buf)","	if rb.cur > len(rb.buf)-1 && rb.len > 1 {\n		rb.cur -= len(rb.buf)")]),
("walk-err","C10",[(R,"			return err\n		}\n	}\n\n	return nil","			break\n		}\n	}\n\n	return nil")]),
("walk-less","C10",[(R,"	for i := 0; i < rb.len; i++ {\n		// Reads","	for i := 0; i < rb.len && i < len(rb.buf)-1; i++ {\n		// Reads")]),
("walk-unlock","C10",[(R,"		if err := fn(rb.buf[cur]); err != nil {","		if err := fn(rb.buf[cur]); err != nil && i > 0 {")]),
("goc-cap","C10",[(R,"		rb = NewRingBuffer[T](rbs.cap)\n","		rb = NewRingBuffer[T](rbs.cap)\n		if n := len(rbs.bufs); n > 0 {\n			rb = NewRingBuffer[T](rbs.cap / n)\n		}\n")]),
("goc-race","C10",[(R,"	rbs.mtx.Lock()\n	defer rbs.mtx.Unlock()\n\n	rb, ok := rbs.bufs[category]\n	if !ok {\n		rb = NewRingBuffer[T](rbs.cap)\n		rbs.bufs[category] = rb\n	}\n\n	return rb","	rbs.mtx.Lock()\n	rb, ok := rbs.bufs[category]\n	n := rbs.cap\n	rbs.mtx.Unlock()\n	if !ok {\n		rb = NewRingBuffer[T](n)\n		rbs.mtx.Lock()\n		rbs.bufs[category] = rb\n		rbs.mtx.Unlock()\n	}\n\n	return rb")]),
("goc-key","C10",[(R,"	rb, ok := rbs.bufs[category]\n","	category = strings.ToLower(category)\n	rb, ok := rbs.bufs[category]\n"),(R,'import (\n','import (\n	"strings"\n')]),
("all-break","C10",[(R,"	for name, rb := range rbs.bufs {\n		all[name] = rb\n	}","	for name, rb := range rbs.bufs {\n		all[name] = rb\n		if len(all) >= 1000 {\n			break\n		}\n	}")]),
("all-skip","C10",[(R,"	for name, rb := range rbs.bufs {\n		all[name] = rb\n	}","	for name, rb := range rbs.bufs {\n		if name == \"\" {\n			continue\n		}\n		all[name] = rb\n	}")]),
("rs-all-nocap","C10",[(R,"	rbs.cap = cap\n\n	for _, rb","	if cap > rbs.cap {\n		rbs.cap = cap\n	}\n\n	for _, rb")]),
("rs-all-drop","C10",[(R,"		dropped = append(dropped, rb.Resize(cap)...)\n","		if d := rb.Resize(cap); len(d) > len(dropped) {\n			dropped = d\n		}\n")]),
("r-rs-all-same",None,[(R,"	rbs.cap = cap\n\n	for _, rb","	if rbs.cap == cap {\n		return nil\n	}\n	rbs.cap = cap\n\n	for _, rb")]),  # equivalent actually
("rs-all-break","C10",[(R,"		dropped = append(dropped, rb.Resize(cap)...)\n","		d := rb.Resize(cap)\n		dropped = append(dropped, d...)\n		if len(d) == 0 {\n			break\n		}\n")]),
("rs-neg","C10",[(R,"	if cap <= 0 {\n		return\n	}\n\n	rbs.mtx","	if cap < 0 {\n		return\n	}\n\n	rbs.mtx")]),
# C11
("col-undeco","C11",[(C,"	for _, d := range c.decorators {\n		tr = d(tr)\n	}\n\n	if droppedTrace, didDrop := c.categories.GetOrCreate(category).Add(tr); didDrop {\n		maybeFree(droppedTrace)\n	}\n","	if droppedTrace, didDrop := c.categories.GetOrCreate(category).Add(tr); didDrop {\n		maybeFree(droppedTrace)\n	}\n\n	for _, d := range c.decorators {\n		tr = d(tr)\n	}\n")]),
("col-nofree","C11",[(C,"	for _, droppedTrace := range c.categories.Resize(cap) {\n		maybeFree(droppedTrace)\n	}","	for i, droppedTrace := range c.categories.Resize(cap) {\n		if i > 0 {\n			maybeFree(droppedTrace)\n		}\n	}")]),
("col-free-tr","C11",[(C,"didDrop {\n		maybeFree(droppedTrace)","didDrop && droppedTrace.Finished() {\n		maybeFree(droppedTrace)")]),
("col-free-wrong","C11",[(C,"	if f, ok := tr.(interface{ Free() }); ok {\n		f.Free()","	if f, ok := tr.(interface{ Free() }); ok && !tr.Errored() {\n		f.Free()")]),
("col-default","C11",[(C,"NewRingBuffers[Trace](1000)","NewRingBuffers[Trace](iff(len(cfg.Decorators) > 0, 100, 1000))")]),
("col-setsize","C11",[(C,"	for _, droppedTrace := range c.categories.Resize(cap) {","	if cap > 10000 {\n		cap = 10000\n	}\n	for _, droppedTrace := range c.categories.Resize(cap) {")]),
# refactors
("r-walk-mod",None,[(R,"		cur := rb.cur - 1 - i\n\n		// Wrap around when necessary.\n		if cur < 0 {\n			cur += len(rb.buf)\n		}","		cur := (rb.cur - 1 - i + len(rb.buf)) % len(rb.buf)")]),
("r-walk-dec",None,[(R,'''	for i := 0; i < rb.len; i++ {
		// Reads go backwards from one before the write cursor.
		cur := rb.cur - 1 - i

		// Wrap around when necessary.
		if cur < 0 {
			cur += len(rb.buf)
		}

''','''	cur := rb.cur
	for n := rb.len; n > 0; n-- {
		cur--
		if cur < 0 {
			cur = len(rb.buf) - 1
		}
''')]),
("r-add-mod",None,[(R,"	rb.cur += 1\n	if rb.cur >= len(rb.buf) {\n		rb.cur -= len(rb.buf)\n	}","	rb.cur = (rb.cur + 1) % len(rb.buf)")]),
("r-add-eq",None,[(R,"	rb.cur += 1\n	if rb.cur >= len(rb.buf) {\n		rb.cur -= len(rb.buf)\n	}","	if rb.cur++; rb.cur == len(rb.buf) {\n		rb.cur = 0\n	}")]),
("r-add-else",None,[(R,'''	if rb.len >= len(rb.buf) {
		dropped, ok = rb.buf[rb.cur], true
	}

	// Write the value at the write cursor.
	rb.buf[rb.cur] = val

	// Update the ring buffer size.
	if rb.len < len(rb.buf) {
		rb.len += 1
	}
''','''	if rb.len < len(rb.buf) {
		rb.len++
	} else {
		dropped, ok = rb.buf[rb.cur], true
	}

	// Write the value at the write cursor.
	rb.buf[rb.cur] = val
''')]),
("r-add-swap",None,[(R,'''	if rb.len >= len(rb.buf) {
		dropped, ok = rb.buf[rb.cur], true
	}

	// Write the value at the write cursor.
	rb.buf[rb.cur] = val
''','''	full := rb.len == len(rb.buf)
	old := rb.buf[rb.cur]
	rb.buf[rb.cur] = val
	if full {
		dropped, ok = old, true
	}
''')]),
("r-rs-loop",None,[(R,'''	for wrcur >= 0 {
		buf[wrcur] = rb.buf[rdcur]

		rdcur = rdcur - 1
		if rdcur < 0 {
			rdcur += len(rb.buf)
		}

		wrcur = wrcur - 1 // no need to do the wraparound math
	}
''','''	for ; wrcur >= 0; wrcur-- {
		buf[wrcur] = rb.buf[rdcur]
		rdcur = rb.prev(rdcur)
	}
'''),(R,'''	for i := cap; i < rb.len; i++ {
		dropped = append(dropped, rb.buf[rdcur])

		rdcur = rdcur - 1
		if rdcur < 0 {
			rdcur += len(rb.buf)
		}
	}
''','''	for n := rb.len - fill; n > 0; n-- {
		dropped = append(dropped, rb.buf[rdcur])
		rdcur = rb.prev(rdcur)
	}
'''),(R,"// Add the value to the ring","// prev returns the index before i.\nfunc (rb *RingBuffer[T]) prev(i int) int {\n	if i--; i < 0 {\n		i += len(rb.buf)\n	}\n	return i\n}\n\n// Add the value to the ring")]),
("r-rs-min",None,[(R,"	fill := rb.len\n	if fill > cap {\n		fill = cap\n	}","	fill := min(rb.len, cap)"),(R,"	cur := fill\n	if cur >= cap {\n		cur -= cap\n	}","	cur := fill % cap")]),
("r-rs-prealloc",None,[(R,"	for i := cap; i < rb.len; i++ {","	if n := rb.len - fill; n > 0 {\n		dropped = make([]T, 0, n)\n	}\n	for i := cap; i < rb.len; i++ {")]),
("r-rs-noop",None,[(R,"	// Calculate how many values to fill from","	if cap == len(rb.buf) {\n		return nil\n	}\n\n	// Calculate how many values to fill from")]),
("r-stats-mod",None,[(R,"	tailidx := headidx - rb.len + 1\n	if tailidx < 0 {\n		tailidx += len(rb.buf)\n	}","	tailidx := (rb.cur - rb.len + len(rb.buf)) % len(rb.buf)")]),
("r-goc-fast",None,[(R,"	rb, ok := rbs.bufs[category]\n	if !ok {\n		rb = NewRingBuffer[T](rbs.cap)\n		rbs.bufs[category] = rb\n	}\n\n	return rb","	if rb, ok := rbs.bufs[category]; ok {\n		return rb\n	}\n\n	rb := NewRingBuffer[T](rbs.cap)\n	rbs.bufs[category] = rb\n	return rb")]),
("r-col-add",None,[(C,'''	if droppedTrace, didDrop := c.categories.GetOrCreate(category).Add(tr); didDrop {
		maybeFree(droppedTrace)
	}

	return Put(ctx, tr)
''','''	c.register(category, tr)

	return Put(ctx, tr)
'''),(C,"// Search the collector for traces","// register the trace in its category.\nfunc (c *Collector) register(category string, tr Trace) {\n	rb := c.categories.GetOrCreate(category)\n	dropped, ok := rb.Add(tr)\n	if !ok {\n		return\n	}\n	maybeFree(dropped)\n}\n\n// Search the collector for traces")]),
("r-col-resize",None,[(C,"	for _, droppedTrace := range c.categories.Resize(cap) {\n		maybeFree(droppedTrace)\n	}","	dropped := c.categories.Resize(cap)\n	for i := range dropped {\n		maybeFree(dropped[i])\n	}")]),
("r-goc-double",None,[(R,"	rbs.mtx.Lock()\n	defer rbs.mtx.Unlock()\n\n	rb, ok := rbs.bufs[category]\n	if !ok {","	rbs.mtx.Lock()\n	rb, ok := rbs.bufs[category]\n	rbs.mtx.Unlock()\n	if ok {\n		return rb\n	}\n\n	rbs.mtx.Lock()\n	defer rbs.mtx.Unlock()\n\n	rb, ok = rbs.bufs[category]\n	if !ok {")]),
("r-goc-nil",None,[(R,"	rb, ok := rbs.bufs[category]\n	if !ok {","	rb := rbs.bufs[category]\n	if rb == nil {")]),
("r-all-clone",None,[(R,"	all := make(map[string]*RingBuffer[T], len(rbs.bufs))\n	for name, rb := range rbs.bufs {\n		all[name] = rb\n	}\n\n	return all","	return maps.Clone(rbs.bufs)"),(R,"import (","import (\n	\"maps\"")]),
("r-rs-all-names",None,[(R,"	for _, rb := range rbs.bufs {\n		dropped = append(dropped, rb.Resize(cap)...)\n	}","	for name := range rbs.bufs {\n		dropped = append(dropped, rbs.bufs[name].Resize(cap)...)\n	}")]),
("r-rs-all-inner",None,[(R,"		dropped = append(dropped, rb.Resize(cap)...)\n","		for _, d := range rb.Resize(cap) {\n			dropped = append(dropped, d)\n		}\n")]),
]

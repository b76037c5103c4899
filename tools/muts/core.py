F="trace_core.go"; S="trace_static.go"; H="helpers.go"; D="decorators.go"
TR='''	switch {
	case len(tr.events) >= tr.eventsmax:
		tr.truncated++
	default:
		tr.events = append(tr.events, newCoreEvent(flagNormal|tr.nostackflag, format, args...))
	}
'''
def tmpl(flags): return TR.replace("flagNormal",flags)
LT=tmpl("flagLazy"); ER=tmpl("flagError"); LE=tmpl("flagLazy|flagError")
FIN='''	if tr.finished {
		return
	}

	tr.finished = true
	tr.duration = time.Since(tr.start)
'''
ED='''	if n <= 0 || n > len(tr.events) {
		n = len(tr.events)
	}

	latest := tr.events[len(tr.events)-n:]
	events := snapshotEvents(latest, stacks)

	if tr.truncated > 0 {
		events = append(events, Event{
			When:    time.Now().UTC(),
			What:    fmt.Sprintf("(truncated event count %d)", tr.truncated),
			Stack:   nil,
			IsError: false,
		})
		events = events[1:]
	}

	return events
'''
FREE='''	for _, ev := range tr.events {
		ev.free() // TODO: these individual frees can show up in profiles, maybe pre-allocate?
	}
	tr.events = tr.events[:0]
'''
M=[
# C01
("fin-order","C01",[(F,"	tr.finished = true\n	tr.duration = time.Since(tr.start)\n","	tr.duration = time.Since(tr.start)\n	tr.finished = tr.duration > 0\n")]),
("fin-refresh","C01",[(F,FIN,"	tr.finished = true\n	tr.duration = time.Since(tr.start)\n")]),
("fin-unlock","C01",[(F,"	if tr.finished {\n		return tr.duration\n	}\n\n	return time.Since(tr.start)","	if tr.finished && tr.duration > 0 {\n		return tr.duration\n	}\n\n	return time.Since(tr.start)")]),
("errored-after-finish","C01",[(F,"	if tr.finished {\n		return\n	}\n\n	tr.errored = true\n\n"+LE,"	tr.errored = true\n\n	if tr.finished {\n		return\n	}\n\n"+LE)]),
("trunc-after-finish","C01",[(F,"	if tr.finished {\n		return\n	}\n\n"+LT,"	if tr.finished {\n		tr.truncated++\n		return\n	}\n\n"+LT)]),
("event-reused","C01",[(F,LT,'''	if n := len(tr.events); n >= tr.eventsmax {
		tr.truncated++
		tr.events[n-1] = newCoreEvent(flagLazy|tr.nostackflag, format, args...)
	} else {
		tr.events = append(tr.events, newCoreEvent(flagLazy|tr.nostackflag, format, args...))
	}
''')]),
("dur-started","C01",[(F,"	return time.Since(tr.start)\n}","	return time.Since(tr.start).Truncate(time.Millisecond)\n}")]),
# C04
("gt-max","C04",[(F,"	case len(tr.events) >= tr.eventsmax:\n		tr.truncated++\n	default:\n		tr.events = append(tr.events, newCoreEvent(flagLazy|flagError|tr","	case len(tr.events) > tr.eventsmax:\n		tr.truncated++\n	default:\n		tr.events = append(tr.events, newCoreEvent(flagLazy|flagError|tr")]),
("no-trunc","C04",[(F,ER,'''	if len(tr.events) < tr.eventsmax {
		tr.events = append(tr.events, newCoreEvent(flagError|tr.nostackflag, format, args...))
	}
''')]),
("max-unbounded","C04",[(F,"	case max > traceMaxEventsMax:\n		tr.eventsmax = traceMaxEventsMax\n","")]),
("max-shrink","C04",[(F,"	default:\n		tr.eventsmax = max\n","	default:\n		tr.eventsmax = max\n		if len(tr.events) > max {\n			tr.truncated += len(tr.events) - max\n			tr.events = tr.events[:max]\n		}\n")]),
("set-min","C04",[(F,"	if n < traceMaxEventsMin {\n		n = traceMaxEventsMin\n	}","	if n <= 0 {\n		n = traceMaxEventsMin\n	}")]),
("trunc-notice-n","C04",[(F,"tr.truncated),","tr.truncated-1),")]),
("trunc-notice-keep","C04",[(F,"		events = events[1:]\n","		if len(events) > n {\n			events = events[2:]\n		}\n")]),
("trunc-notice-cond","C04",[(F,"	if tr.truncated > 0 {","	if tr.truncated > 1 {")]),
("detail-off","C04",[(F,"	if n <= 0 || n > len(tr.events) {\n		n = len","	if n <= 0 || n >= len(tr.events) {\n		n = -1 + len")]),
("eventsmax-zero","C04",[(F,"	tr.eventsmax = int(traceMaxEvents.Load())\n","	if tr.eventsmax == 0 {\n		tr.eventsmax = int(traceMaxEvents.Load())\n	}\n")]),
# C05
("lazy-normal","C05",[(F,"flagLazy|flagError|tr.nostackflag","flagError|tr.nostackflag")]),
("error-late","C05",[(F,"	tr.errored = true\n\n"+ER,ER.replace("	default:\n","	default:\n		tr.errored = true\n"))]),
("iserr","C05",[(F,"cev.iserr = flags&flagError != 0","cev.iserr = flags&(flagError|flagLazy) == flagError")]),
("when","C05",[(F,"	cev.when = time.Now().UTC()\n","	if cev.when.IsZero() {\n		cev.when = time.Now().UTC()\n	}\n")]),
("lazy-cas","C05",[(F,"	if z.str.CompareAndSwap(zeroNullString, ns) {\n		return ns.value\n	}","	if z.str.CompareAndSwap(zeroNullString, nullString{valid: true}) {\n		return ns.value\n	}")]),
("sprint","C05",[(F,"	z.str.Store(nullString{valid: true, value: fmt.Sprintf(z.fmt, z.args...)})","	if len(args) == 0 {\n		z.str.Store(nullString{valid: true, value: format})\n		return z\n	}\n	z.str.Store(nullString{valid: true, value: fmt.Sprintf(z.fmt, z.args...)})")]),
("lazy-sprint","C05",[(F,"	ns.value = fmt.Sprintf(z.fmt, z.args...)","	ns.value = fmt.Sprintf(strings.TrimSpace(z.fmt), z.args...)")]),
# C07
("free-unfinished","C07",[(F,"	if !tr.finished { // presumably","	if !tr.finished && !tr.errored { // presumably")]),
("no-reset-err","C07",[(F,"	tr.errored = false\n","")]),
("no-reset-trunc","C07",[(F,"	tr.truncated = 0\n","")]),
("no-reset-iserr","C07",[(F,"	cev.iserr = flags&flagError != 0\n","	if flags&flagError != 0 {\n		cev.iserr = true\n	}\n")]),
("no-reset-stack","C07",[(F,"	cev.stack = cev.stack[:0] // be safe\n\n",""),(F,"	cev.pcn = 0\n	cev.stack = cev.stack[:0]\n","	cev.pcn = 0\n")]),
("ev-put-twice","C07",[(F,"	cev.what.free()\n	cev.what = nil\n","	cev.what.free()\n"),(F,"	trcdebug.CoreEventFreeCount.Add(1)\n	coreEventPool.Put(cev)\n","	trcdebug.CoreEventFreeCount.Add(1)\n	coreEventPool.Put(cev)\n	cev.what = nil\n")]),
("free-keep-events","C07",[(F,"	tr.events = tr.events[:0]\n\n	trcdebug","	trcdebug"),(F,"	tr.events = tr.events[:0]\n	tr.eventsmax","	tr.eventsmax")]),
("lazy-str-stale","C07",[(F,"	z.str.Store(zeroNullString) // don't pre-compute the string\n","	if z.str.Load() == nil {\n		z.str.Store(zeroNullString) // don't pre-compute the string\n	}\n")]),
("free-double","C07",[(F,"		return // can't recycle, will be GC'd","		defer coreTracePool.Put(tr)\n		return // can't recycle, will be GC'd")]),
# C08
("stack-alias","C08",[(F,"stack = append([]Frame(nil), cev.getStack()...)","stack = cev.getStack()")]),
("trim-shared","C08",[(S,"		ev.Stack = nil\n		res[i] = ev\n","		events[i].Stack = nil\n		res[i] = ev\n")]),
("trim-neg","C08",[(S,"		depth = 0 // negative","		depth = -depth // negative")]),
("trim-zero","C08",[(S,"	if depth == 0 {\n		return st","	if depth <= 0 {\n		return st")]),
("trim-plus","C08",[(S,"len(ev.Stack) > depth","len(ev.Stack) > depth+1")]),
("static-errorf","C08",[(S,"func (st *StaticTrace) Errorf(format string, args ...any) {}","func (st *StaticTrace) Errorf(format string, args ...any) { st.TraceErrored = true }")]),
# C09
("put-parent","C09",[(H,"context.WithValue(ctx, traceContextVal, tr), tr","context.WithValue(context.WithoutCancel(ctx), traceContextVal, tr), tr")]),
("get-nil","C09",[(H,'	return newCoreTrace("", "(orphan)")','	return &StaticTrace{TraceCategory: "(orphan)"}')]),
("deco-skip","C09",[(F,"	for _, d := range decorators {\n		tr = d(tr)\n	}","	for i := len(decorators) - 1; i >= 0; i-- {\n		tr = decorators[i](tr)\n	}")]),
("deco-wrong","C09",[(F,"	for _, d := range decorators {\n		tr = d(tr)\n	}\n	return Put(ctx, tr)","	ctx, tr = Put(ctx, tr)\n	for _, d := range decorators {\n		tr = d(tr)\n	}\n	return ctx, tr")]),
("id-time","C09",[(F,"ulid.MustNew(ulid.Timestamp(now), traceIDEntropy)","ulid.MustNew(ulid.Timestamp(tr.start), traceIDEntropy)")]),
("src-cat","C09",[(F,"	return tr.category // immutable","	return iff(tr.category == \"\", tr.source, tr.category) // immutable")]),
# refactors
("r-record",None,[(F,TR,"	tr.record(flagNormal, format, args...)\n"),(F,LT,"	tr.record(flagLazy, format, args...)\n"),(F,ER,"	tr.record(flagError, format, args...)\n"),(F,LE,"	tr.record(flagLazy|flagError, format, args...)\n"),(F,"func (tr *coreTrace) Finish() {",'''func (tr *coreTrace) record(flags uint8, format string, args ...any) {
	if len(tr.events) >= tr.eventsmax {
		tr.truncated++
		return
	}
	tr.events = append(tr.events, newCoreEvent(flags|tr.nostackflag, format, args...))
}

func (tr *coreTrace) Finish() {'''),(F,"runtime.Callers(3,","runtime.Callers(4,")]),
("r-event-if",None,[(F,TR,'''	if len(tr.events) < tr.eventsmax {
		ev := newCoreEvent(flagNormal|tr.nostackflag, format, args...)
		tr.events = append(tr.events, ev)
	} else {
		tr.truncated += 1
	}
''')]),
("r-fin-if",None,[(F,FIN,'''	if !tr.finished {
		tr.duration = time.Since(tr.start)
		tr.finished = true
	}
''')]),
("r-dur-explicit",None,[(F,'''	tr.mtx.Lock()
	defer tr.mtx.Unlock()

	if tr.finished {
		return tr.duration
	}

	return time.Since(tr.start)
''','''	tr.mtx.Lock()
	finished, d := tr.finished, tr.duration
	tr.mtx.Unlock()
	if !finished {
		d = time.Now().Sub(tr.start)
	}
	return d
''')]),
("r-detail",None,[(F,ED,'''	total := len(tr.events)
	if n <= 0 || n > total {
		n = total
	}

	events := snapshotEvents(tr.events[total-n:], stacks)
	if tr.truncated <= 0 {
		return events
	}

	return append(events, tr.truncatedEvent())[1:]
'''),(F,"func (tr *coreTrace) SetMaxEvents",'''func (tr *coreTrace) truncatedEvent() Event {
	return Event{When: time.Now().UTC(), What: fmt.Sprintf("(truncated event count %d)", tr.truncated)}
}

func (tr *coreTrace) SetMaxEvents''')]),
("r-free-range",None,[(F,FREE,'''	for i := range tr.events {
		tr.events[i].free()
		tr.events[i] = nil
	}
	tr.events = tr.events[:0]
''')]),
("r-free-helper",None,[(F,FREE,"	tr.freeEvents()\n"),(F,"func (tr *coreTrace) Free() {",'''func (tr *coreTrace) freeEvents() {
	for _, ev := range tr.events {
		ev.free()
	}
	tr.events = tr.events[:0]
}

func (tr *coreTrace) Free() {''')]),
("r-new-reset",None,[(F,'''	tr.errored = false
	tr.finished = false
	tr.duration = 0
''','''	tr.reset()
'''),(F,"func iff[T any]",'''func (tr *coreTrace) reset() {
	tr.errored, tr.finished = false, false
	tr.duration = 0
}

func iff[T any]''')]),
("r-setmax-clamp",None,[(F,'''	switch {
	case max < traceMaxEventsMin:
		tr.eventsmax = traceMaxEventsMin
	case max > traceMaxEventsMax:
		tr.eventsmax = traceMaxEventsMax
	default:
		tr.eventsmax = max
	}
''','''	tr.eventsmax = clampMaxEvents(max)
'''),(F,'''	if n < traceMaxEventsMin {
		n = traceMaxEventsMin
	}
	if n > traceMaxEventsMax {
		n = traceMaxEventsMax
	}
	traceMaxEvents.Store(int32(n))
}
''','''	traceMaxEvents.Store(int32(clampMaxEvents(n)))
}

func clampMaxEvents(n int) int {
	switch {
	case n < traceMaxEventsMin:
		return traceMaxEventsMin
	case n > traceMaxEventsMax:
		return traceMaxEventsMax
	}
	return n
}
''')]),
("r-setmax-minmax",None,[(F,'''	if n < traceMaxEventsMin {
		n = traceMaxEventsMin
	}
	if n > traceMaxEventsMax {
		n = traceMaxEventsMax
	}
	traceMaxEvents.Store(int32(n))
''','''	traceMaxEvents.Store(int32(min(max(n, traceMaxEventsMin), traceMaxEventsMax)))
''')]),
("r-snap-append",None,[(F,'''	res := make([]Event, len(cevs))
	for i, cev := range cevs {
		var stack''','''	res := make([]Event, 0, len(cevs))
	for _, cev := range cevs {
		var stack'''),(F,"		res[i] = Event{\n			When:    cev.when,\n			What:    cev.what.String(),\n			Stack:   stack,\n			IsError: cev.iserr,\n		}\n","		res = append(res, Event{\n			When:    cev.when,\n			What:    cev.what.String(),\n			Stack:   stack,\n			IsError: cev.iserr,\n		})\n")]),
("r-snap-method",None,[(F,'''		var stack []Frame
		if stacks {
			stack = append([]Frame(nil), cev.getStack()...) // copy, as the event may be recycled
		}
		res[i] = Event{
			When:    cev.when,
			What:    cev.what.String(),
			Stack:   stack,
			IsError: cev.iserr,
		}
	}
	return res
}
''','''		res[i] = cev.snapshot(stacks)
	}
	return res
}

func (cev *coreEvent) snapshot(stacks bool) Event {
	ev := Event{When: cev.when, What: cev.what.String(), IsError: cev.iserr}
	if stacks {
		src := cev.getStack()
		ev.Stack = make([]Frame, len(src))
		copy(ev.Stack, src)
	}
	return ev
}
''')]),
("r-str-loop",None,[(F,'''	// If we don't, do the formatting work and try to swap it in.
	ns.valid = true
	ns.value = fmt.Sprintf(z.fmt, z.args...)
	if z.str.CompareAndSwap(zeroNullString, ns) {
		return ns.value
	}

	// If that didn't work, then take the value that snuck in.
	ns = z.str.Load().(nullString)
	if !ns.valid {
		panic(fmt.Errorf("invalid state in pooled stringer"))
	}
	return ns.value
''','''	// If we don't, do the formatting work and try to swap it in.
	fresh := nullString{valid: true, value: fmt.Sprintf(z.fmt, z.args...)}
	if !z.str.CompareAndSwap(zeroNullString, fresh) {
		// If that didn't work, then take the value that snuck in.
		fresh = z.str.Load().(nullString)
		if !fresh.valid {
			panic(fmt.Errorf("invalid state in pooled stringer"))
		}
	}
	return fresh.value
''')]),
("r-stringers",None,[(F,'''	trcdebug.StringerNewCount.Add(1)
	z := stringerPool.Get().(*stringer)
	z.fmt = format
	z.args = args
	z.str.Store(nullString{valid: true''','''	z := newStringer(format, args)
	z.str.Store(nullString{valid: true'''),(F,'''	trcdebug.StringerNewCount.Add(1)
	z := stringerPool.Get().(*stringer)
	z.fmt = format
	z.args = args
	z.str.Store(zero''','''	z := newStringer(format, args)
	z.str.Store(zero'''),(F,"func newLazyStringer",'''func newStringer(format string, args []any) *stringer {
	trcdebug.StringerNewCount.Add(1)
	z := stringerPool.Get().(*stringer)
	z.fmt, z.args = format, args
	return z
}

func newLazyStringer''')]),
("r-get-flip",None,[(H,'''	if tr, ok := MaybeGet(ctx); ok {
		return tr
	}

	return newCoreTrace("", "(orphan)")
''','''	tr, ok := MaybeGet(ctx)
	if !ok {
		tr = newCoreTrace("", "(orphan)")
	}
	return tr
''')]),
("r-deco-helper",None,[(F,'''	tr := Trace(newCoreTrace(source, category))
	for _, d := range decorators {
		tr = d(tr)
	}
	return Put(ctx, tr)
''','''	return Put(ctx, decorate(newCoreTrace(source, category), decorators))
'''),(F,"type traceContextKey struct{}",'''func decorate(tr Trace, decorators []DecoratorFunc) Trace {
	for i := 0; i < len(decorators); i++ {
		tr = decorators[i](tr)
	}
	return tr
}

type traceContextKey struct{}'''),("collector.go",'''	for _, d := range c.decorators {
		tr = d(tr)
	}
''','''	tr = decorate(tr, c.decorators)
''')]),
("r-trim",None,[(S,'''	if depth == 0 {
		return st // zero value (0) means don't do anything
	}
	if depth < 0 {
		depth = 0 // negative value means remove all stacks
	}
	for i, ev := range st.TraceEvents {
		if len(ev.Stack) > depth {
			ev.Stack = ev.Stack[:depth]
			st.TraceEvents[i] = ev
		}
	}
	return st
''','''	switch {
	case depth == 0:
		return st
	case depth < 0:
		depth = 0
	}
	for i := range st.TraceEvents {
		if ev := &st.TraceEvents[i]; len(ev.Stack) > depth {
			ev.Stack = ev.Stack[:depth]
		}
	}
	return st
''')]),
("r-streamtrace",None,[(S,'''	switch {
	case canDetail && isActive:
		events = detail.EventsDetail(1, false)
	case canDetail && !isActive:
		events = detail.EventsDetail(-1, false)
	case !canDetail && isActive:
		all := tr.Events()
		if n := len(all); n > 1 {
			all = all[n-1:]
		}
		events = withoutStacks(all)
	case !canDetail && !isActive:
		events = withoutStacks(tr.Events())
	}
''','''	if canDetail {
		n := -1
		if isActive {
			n = 1
		}
		events = detail.EventsDetail(n, false)
	} else {
		all := tr.Events()
		if isActive && len(all) > 1 {
			all = all[len(all)-1:]
		}
		events = withoutStacks(all)
	}
''')]),
("r-less",None,[(S,'''	switch {
	case iStarted.After(jStarted):
		return true
	case iStarted.Before(jStarted):
		return false
	default:
		return sts[i].ID() > sts[j].ID()
	}
''','''	if !iStarted.Equal(jStarted) {
		return iStarted.After(jStarted)
	}
	return sts[i].ID() > sts[j].ID()
''')]),
]

F="trace_core.go"
src=open("/repo/trace_core.go").read()
def blk(a,b):
    i=src.index(a); j=src.index(b,i); return src[i:j]
GS=blk("	stdframes := runtime.CallersFrames","	return cev.stack\n}\n\nfunc (cev *coreEvent) free")
NT=blk("	tr.id = ulid.MustNew","	return tr\n}\n\nfunc iff")
NE=blk("	cev.when = time.Now().UTC()\n","	return cev\n}")
ED=blk("	if n <= 0 || n > len(tr.events) {","//\n\nfunc (tr *coreTrace) SetMax")
ST=blk("	// If we already have a valid string, return it.","func (z *stringer) free")
SN=blk("	res := make([]Event, len(cevs))","func ignoreStack")
APP=lambda fl: "	switch {\n	case len(tr.events) >= tr.eventsmax:\n		tr.truncated++\n	default:\n		tr.events = append(tr.events, newCoreEvent("+fl+"|tr.nostackflag, format, args...))\n	}\n"
M=[
("fmt-noargs","C05",[(F,"value: fmt.Sprintf(z.fmt, z.args...)})","value: sprintf(z.fmt, z.args)})"),(F,"func (z *stringer) String()","func sprintf(format string, args []any) string {\n	if len(args) == 0 {\n		return format\n	}\n	return fmt.Sprintf(format, args...)\n}\n\nfunc (z *stringer) String()")]),
("fmt-lazy-store",None,[(F,"	if z.str.CompareAndSwap(zeroNullString, ns) {\n		return ns.value\n	}\n","	z.str.Store(ns)\n	if ns.valid {\n		return ns.value\n	}\n")]),
("cas-own",None,[(F,"	// If that didn't work, then take the value that snuck in.\n	ns = z.str.Load().(nullString)\n	if !ns.valid {\n		panic(fmt.Errorf(\"invalid state in pooled stringer\"))\n	}\n","")]),
("stack-nil","C07",[(F,"	if len(cev.stack) > 0 {\n		return cev.stack\n	}\n","	if cev.stack != nil {\n		return cev.stack\n	}\n")]),
("stack-stale2","C07",[(F,"	cev.stack = cev.stack[:0] // be safe\n\n",""),(F,"	cev.pcn = 0\n	cev.stack = cev.stack[:0]\n","	cev.pcn = 0\n")]),
("stack-shared","C08",[(F,"	res := make([]Event, len(cevs))\n	for i, cev := range cevs {\n		var stack []Frame\n		if stacks {\n			stack = append([]Frame(nil), ","	res := make([]Event, len(cevs))\n	var stack []Frame\n	for i, cev := range cevs {\n		if stacks {\n			stack = append(stack[:0], ")]),
("stack-window","C08",[(F,"	res := make([]Event, len(cevs))\n","	res := make([]Event, len(cevs))\n	var frames []Frame\n"),(F,"			stack = append([]Frame(nil), cev.getStack()...) // copy, as the event may be recycled\n","			n := len(frames)\n			frames = append(frames, cev.getStack()...)\n			stack = frames[n:]\n			if n == 0 {\n				stack = cev.getStack()\n			}\n")]),
("free-some","C07",[(F,"	for _, ev := range tr.events {\n		ev.free()","	for _, ev := range tr.events[:min(len(tr.events), 100)] {\n		ev.free()")]),
("free-late","C07",[(F,"	trcdebug.CoreTraceFreeCount.Add(1)\n	coreTracePool.Put(tr)\n","	coreTracePool.Put(tr)\n	tr.truncated = 0\n	trcdebug.CoreTraceFreeCount.Add(1)\n")]),
("free-nolock","C07",[(F,"	if !tr.finished { // presumably","	if !tr.finished && len(tr.events) > 0 { // presumably")]),
("ev-err-trunc","C05",[(F,"	tr.errored = true\n\n"+APP("flagError"),"	switch {\n	case len(tr.events) >= tr.eventsmax:\n		tr.truncated++\n	default:\n		tr.errored = true\n		tr.events = append(tr.events, newCoreEvent(flagError|tr.nostackflag, format, args...))\n	}\n")]),
("lazy-flag","C05",[(F,"newCoreEvent(flagLazy|flagError|tr","newCoreEvent(flagError|tr")]),
("dur-fin","C01",[(F,"	if tr.finished {\n		return tr.duration\n	}\n\n	return time.Since","	if tr.finished && tr.duration > 0 {\n		return tr.duration\n	}\n\n	return time.Since")]),
("max-grow","C04",[(F,"	default:\n		tr.eventsmax = max\n	}","	default:\n		tr.eventsmax = max\n		tr.truncated = 0\n	}")]),
("unlock-panic","C02",[(F,"func (tr *coreTrace) Errored() bool {\n	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n\n	return tr.errored","func (tr *coreTrace) Errored() bool {\n	if tr.finished {\n		return tr.errored\n	}\n	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n\n	return tr.errored")]),
# refactors
("r-lockfn",None,[(F,"	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n\n	if tr.finished {\n		return tr.duration","	defer tr.lock()()\n\n	if tr.finished {\n		return tr.duration"),(F,"func (tr *coreTrace) Tracef(","func (tr *coreTrace) lock() func() {\n	tr.mtx.Lock()\n	return tr.mtx.Unlock\n}\n\nfunc (tr *coreTrace) Tracef(")]),
("r-ifapp",None,[(F,APP("flagNormal"),"	if len(tr.events) < tr.eventsmax {\n		tr.events = append(tr.events, newCoreEvent(flagNormal|tr.nostackflag, format, args...))\n		return\n	}\n	tr.truncated++\n")]),
("r-full",None,[(F,"	switch {\n	case len(tr.events) >= tr.eventsmax:\n		tr.truncated++\n","	switch {\n	case tr.full():\n		tr.truncated++\n"),(F,"func (tr *coreTrace) Finish() {","func (tr *coreTrace) full() bool { return len(tr.events) >= tr.eventsmax }\n\nfunc (tr *coreTrace) Finish() {")]),
("r-getstack",None,[(F,GS,'''	frames := runtime.CallersFrames(cev.pc[:cev.pcn])
	for {
		fr, more := frames.Next()
		if !more {
			break
		}
		if ignoreStackFrameFunction(fr.Function) {
			continue
		}
		cev.stack = append(cev.stack, Frame{
			Function: fr.Function,
			FileLine: fmt.Sprintf("%s:%d", fr.File, fr.Line),
		})
	}

'''),(F,'	"strconv"\n','')]),
("r-newtrace",None,[(F,NT,'''	*tr = coreTrace{
		id:          ulid.MustNew(ulid.Timestamp(now), traceIDEntropy),
		source:      source,
		category:    category,
		start:       now,
		nostackflag: iff(traceNoStacks.Load(), flagNoStack, uint8(0)),
		events:      tr.events[:0],
		eventsmax:   int(traceMaxEvents.Load()),
	}
''')]),
("r-newtrace2",None,[(F,NT,'''	var flag uint8
	if traceNoStacks.Load() {
		flag = flagNoStack
	}
	tr.reset(flag)
	tr.id = ulid.MustNew(ulid.Timestamp(now), traceIDEntropy)
	tr.source, tr.category, tr.start = source, category, now
'''),(F,"func iff[T any]","func (tr *coreTrace) reset(flag uint8) {\n	tr.errored, tr.finished = false, false\n	tr.duration, tr.truncated = 0, 0\n	tr.events = tr.events[:0]\n	tr.eventsmax = int(traceMaxEvents.Load())\n	tr.nostackflag = flag\n}\n\nfunc iff[T any]"),(F,"func iff[T any](cond bool, yes, no T) T {\n	if cond {\n		return yes\n	}\n	return no\n}\n\n","")]),
("r-event",None,[(F,NE,'''	*cev = coreEvent{
		when:  time.Now().UTC(),
		stack: cev.stack[:0],
		iserr: flags&flagError == flagError,
	}
	switch flags & flagLazy {
	case 0:
		cev.what = newNormalStringer(format, args...)
	default:
		cev.what = newLazyStringer(format, args...)
	}
	if flags&flagNoStack == 0 {
		cev.pcn = runtime.Callers(3, cev.pc[:])
	}

''')]),
("r-event2",None,[(F,NE,'''	var (
		lazy    = flags&flagLazy > 0
		nostack = flags&flagNoStack > 0
	)
	cev.iserr = flags&flagError > 0
	cev.when = time.Now().UTC()
	cev.stack = cev.stack[:0]
	cev.pcn = 0
	if !nostack {
		cev.pcn = runtime.Callers(3, cev.pc[:])
	}
	if !lazy {
		cev.what = newNormalStringer(format, args...)
		return cev
	}
	cev.what = newLazyStringer(format, args...)

''')]),
("r-flags",None,[(F,"	flagNormal  = 0b0000_0000\n	flagLazy    = 0b0000_0001\n	flagError   = 0b0000_0010\n	flagNoStack = 0b0000_0100\n","	flagNormal uint8 = 0\n	flagLazy   uint8 = 1 << (iota - 1)\n	flagError\n	flagNoStack\n")]),
("r-detail",None,[(F,ED,'''	latest := tr.events
	if 0 < n && n < len(latest) {
		latest = latest[len(latest)-n:]
	}

	events := snapshotEvents(latest, stacks)
	if tr.truncated == 0 {
		return events
	}

	notice := Event{
		When: time.Now().UTC(),
		What: fmt.Sprintf("(truncated event count %d)", tr.truncated),
	}
	return append(events[1:], notice)
}

''')]),
("r-detail2",None,[(F,"	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n\n	if n <= 0 || n > len(tr.events) {","	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n	return tr.eventsLocked(n, stacks)\n}\n\nfunc (tr *coreTrace) eventsLocked(n int, stacks bool) []Event {\n	if n <= 0 || n > len(tr.events) {"),(F,"	return tr.EventsDetail(-1, true)","	tr.mtx.Lock()\n	defer tr.mtx.Unlock()\n	return tr.eventsLocked(-1, true)")]),
("r-string",None,[(F,ST,'''	if ns := z.str.Load().(nullString); ns.valid {
		return ns.value
	}

	z.str.CompareAndSwap(zeroNullString, nullString{valid: true, value: fmt.Sprintf(z.fmt, z.args...)})

	ns := z.str.Load().(nullString)
	if !ns.valid {
		panic(fmt.Errorf("invalid state in pooled stringer"))
	}
	return ns.value
}

''')]),
("r-string2",None,[(F,ST,'''	for {
		ns := z.str.Load().(nullString)
		if ns.valid {
			return ns.value
		}
		z.str.CompareAndSwap(ns, nullString{valid: true, value: fmt.Sprintf(z.fmt, z.args...)})
	}
}

''')]),
("r-snap",None,[(F,SN,'''	var res = make([]Event, 0, len(cevs))
	for _, cev := range cevs {
		ev := Event{When: cev.when, What: cev.what.String(), IsError: cev.iserr}
		if stacks {
			frames := cev.getStack()
			ev.Stack = make([]Frame, len(frames))
			copy(ev.Stack, frames)
		}
		res = append(res, ev)
	}
	return res
}

''')]),
("r-snap2",None,[(F,SN,'''	res := make([]Event, len(cevs))
	for i := range res {
		res[i].When = cevs[i].when
		res[i].What = cevs[i].what.String()
		res[i].IsError = cevs[i].iserr
		if stacks {
			res[i].Stack = append(res[i].Stack, cevs[i].getStack()...)
		}
	}
	return res
}

''')]),
("r-snap3",None,[(F,SN,'''	res := make([]Event, len(cevs))
	for i, cev := range cevs {
		res[i] = cev.snapshot(stacks)
	}
	return res
}

func (cev *coreEvent) snapshot(stacks bool) (ev Event) {
	ev.When = cev.when
	ev.What = cev.what.String()
	ev.IsError = cev.iserr
	if !stacks {
		return ev
	}
	ev.Stack = append(ev.Stack, cev.getStack()...)
	return ev
}

''')]),
("r-free",None,[(F,"	for _, ev := range tr.events {\n		ev.free() // TODO: these individual frees can show up in profiles, maybe pre-allocate?\n	}\n	tr.events = tr.events[:0]\n","	for i, ev := range tr.events {\n		tr.events[i] = nil\n		ev.free()\n	}\n	tr.events = tr.events[:0]\n")]),
("r-free2",None,[(F,"	for _, ev := range tr.events {\n		ev.free() // TODO: these individual frees can show up in profiles, maybe pre-allocate?\n	}\n	tr.events = tr.events[:0]\n","	for _, ev := range tr.events {\n		ev.free()\n	}\n	clear(tr.events)\n	tr.events = tr.events[:0]\n")]),
("r-free3",None,[(F,"	for _, ev := range tr.events {\n		ev.free() // TODO: these individual frees can show up in profiles, maybe pre-allocate?\n	}\n	tr.events = tr.events[:0]\n","	for n := len(tr.events); n > 0; n = len(tr.events) {\n		tr.events[n-1].free()\n		tr.events = tr.events[:n-1]\n	}\n")]),
("r-finish",None,[(F,"	tr.finished = true\n	tr.duration = time.Since(tr.start)\n","	tr.duration = time.Now().Sub(tr.start)\n	tr.finished = true\n")]),
("r-evfree",None,[(F,"	cev.what.free()\n	cev.what = nil\n	cev.pcn = 0\n	cev.stack = cev.stack[:0]\n","	what := cev.what\n	*cev = coreEvent{stack: cev.stack[:0]}\n	what.free()\n")]),
("r-stringer",None,[(F,"	z := stringerPool.Get().(*stringer)\n	z.fmt = format\n	z.args = args\n	z.str.Store(zeroNullString) // don't pre-compute the string\n	return z\n","	return getStringer(format, args, zeroNullString)\n"),(F,"	z := stringerPool.Get().(*stringer)\n	z.fmt = format\n	z.args = args\n	z.str.Store(nullString{valid: true, value: fmt.Sprintf(z.fmt, z.args...)}) // pre-compute the string\n	return z\n","	return getStringer(format, args, nullString{valid: true, value: fmt.Sprintf(format, args...)})\n"),(F,"func newLazyStringer","func getStringer(format string, args []any, ns nullString) *stringer {\n	z := stringerPool.Get().(*stringer)\n	z.fmt, z.args = format, args\n	z.str.Store(ns)\n	return z\n}\n\nfunc newLazyStringer")]),
("r-setmax",None,[(F,"	switch {\n	case max < traceMaxEventsMin:\n		tr.eventsmax = traceMaxEventsMin\n	case max > traceMaxEventsMax:\n		tr.eventsmax = traceMaxEventsMax\n	default:\n		tr.eventsmax = max\n	}","	tr.eventsmax = clampMaxEvents(max)"),(F,"	if n < traceMaxEventsMin {\n		n = traceMaxEventsMin\n	}\n	if n > traceMaxEventsMax {\n		n = traceMaxEventsMax\n	}\n	traceMaxEvents.Store(int32(n))\n}","	traceMaxEvents.Store(int32(clampMaxEvents(n)))\n}\n\nfunc clampMaxEvents(n int) int {\n	switch {\n	case n < traceMaxEventsMin:\n		return traceMaxEventsMin\n	case n > traceMaxEventsMax:\n		return traceMaxEventsMax\n	}\n	return n\n}")]),
]

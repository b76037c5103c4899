H="helpers.go"; D="decorators.go"; E="eztrc/easy.go"; T="trace.go"; U="internal/trcutil/errors.go"; A="internal/trcutil/atomic.go"
h=open("/repo/"+H).read(); d=open("/repo/"+D).read(); e=open("/repo/"+E).read()
def blk(src,a,b):
    i=src.index(a); j=src.index(b,i); return src[i:j]
PM=h[h.index("func (ptr *prefixTrace) Tracef"):]
PFX=blk(h,"	original := Get(ctx)\n","type prefixTrace struct")
REG=blk(h,"	begin := time.Now()\n","// Prefix decorates")
EZ=e[e.index("// Tracef adds"):]
LOGM=blk(d,"func (ltr *logTrace) Tracef","func (ltr *logTrace) Free")
PUBM=blk(d,"func (ptr *publishTrace) Tracef","func (ptr *publishTrace) Free")
M=[
("m-get-orphan","C09",[(H,'''	if tr, ok := MaybeGet(ctx); ok {
		return tr
	}

	return newCoreTrace''','''	if tr, ok := MaybeGet(ctx); ok && !tr.Finished() {
		return tr
	}

	return newCoreTrace''')]),
("m-put-unwrap","C09",[(H,"	return context.WithValue(ctx, traceContextVal, tr), tr","	if p, ok := tr.(*prefixTrace); ok && p.format == \"\" {\n		tr = p.Trace\n	}\n	if cur, ok := MaybeGet(ctx); ok && cur.ID() == tr.ID() {\n		return ctx, tr\n	}\n	return context.WithValue(ctx, traceContextVal, tr), tr")]),
("m-prefix-flat","C06",[(H,"	prefixed := &prefixTrace{\n		Trace:  original,","	if p, ok := original.(*prefixTrace); ok && p.format == format+\" \" {\n		return ctx, original\n	}\n	prefixed := &prefixTrace{\n		Trace:  original,")]),
("m-prefix-args","C06",[(H,"		args:   args,\n","		args:   args[:min(len(args), strings.Count(format, \"%\"))],\n")]),
("m-prefix-errlazy","C06",[(H,"	ptr.Trace.Errorf(ptr.format+format, ptr.withArgs(args)...)","	ptr.Trace.LazyErrorf(ptr.format+format, ptr.withArgs(args)...)")]),
("m-prefix-append","C06",[(H,"	return append(ptr.args[:len(ptr.args):len(ptr.args)], args...)","	return append(args[:0:0], append(args, ptr.args...)...)")]),
("m-region-err","C06",[(H,'		inputTrace.LazyTracef("← %s [%s]", name,','		outputTrace.LazyTracef("← %s [%s]", name,')]),
("m-region-get","C06",[(H,"	inputTrace := Get(ctx)\n	outputContext, outputTrace := Prefix(ctx, \"·\")\n","	outputContext, outputTrace := Prefix(ctx, \"·\")\n	inputTrace := Get(outputContext)\n")]),
("m-ez-lazy","C06",[(E,"	trc.Get(ctx).Tracef(format, args...)","	trc.Get(ctx).LazyTracef(format, args...)")]),
("m-ez-maybe","C06",[(E,"	trc.Get(ctx).Errorf(format, args...)","	if tr, ok := trc.MaybeGet(ctx); ok && !tr.Errored() {\n		tr.Errorf(format, args...)\n	}")]),
("m-ez-args","C06",[(E,"	trc.Get(ctx).LazyErrorf(format, args...)","	trc.Get(ctx).LazyErrorf(format, args)")]),
("m-ez-mw","C24",[(E,"	return trcweb.Middleware(collector.NewTrace, categorize)","	return trcweb.Middleware(func(ctx context.Context, c string) (context.Context, trc.Trace) { return trc.New(ctx, \"default\", c) }, categorize)")]),
("m-setmax","C04",[(H,"	m.SetMaxEvents(maxEvents)\n","	if maxEvents > 0 {\n		m.SetMaxEvents(maxEvents)\n	}\n")]),
("m-setmax2","C04",[(H,"	if !ok {\n		return tr, false\n	}\n	m.Set","	if !ok || tr.Finished() {\n		return tr, false\n	}\n	m.Set")]),
("m-flat","C13",[(U,"		strs[i] = errs[i].Error()\n","		strs[0] = errs[i].Error()\n")]),
("m-atomic","C02",[(A,"func (a *Atomic[T]) Get() T { a.mtx.Lock(); defer a.mtx.Unlock(); return a.val }","func (a *Atomic[T]) Get() T { return a.val }")]),
("m-log-lazyargs","C06",[(D,'	ltr.logEvent("ERROR: "+format, args...)\n	ltr.Trace.LazyErrorf(format, args...)','	ltr.logEvent("ERROR: "+format, args...)\n	ltr.Trace.Errorf(format, args...)')]),
("m-log-mark","C06",[(D,'	ltr.logEvent("ERROR: "+format, args...)\n	ltr.Trace.LazyErrorf(format, args...)','	ltr.logEvent(format, args...)\n	ltr.Trace.LazyErrorf(format, args...)')]),
# refactors
("r-prefix-fn",None,[(H,PM,'''func (ptr *prefixTrace) Tracef(format string, args ...any) {
	ptr.apply(ptr.Trace.Tracef, format, args)
}

func (ptr *prefixTrace) LazyTracef(format string, args ...any) {
	ptr.apply(ptr.Trace.LazyTracef, format, args)
}

func (ptr *prefixTrace) Errorf(format string, args ...any) {
	ptr.apply(ptr.Trace.Errorf, format, args)
}

func (ptr *prefixTrace) LazyErrorf(format string, args ...any) {
	ptr.apply(ptr.Trace.LazyErrorf, format, args)
}

func (ptr *prefixTrace) apply(f func(string, ...any), format string, args []any) {
	f(ptr.format+format, ptr.withArgs(args)...)
}
''')]),
("r-prefix-expand",None,[(H,PM,'''func (ptr *prefixTrace) Tracef(format string, args ...any) {
	format, args = ptr.expand(format, args)
	ptr.Trace.Tracef(format, args...)
}

func (ptr *prefixTrace) LazyTracef(format string, args ...any) {
	format, args = ptr.expand(format, args)
	ptr.Trace.LazyTracef(format, args...)
}

func (ptr *prefixTrace) Errorf(format string, args ...any) {
	format, args = ptr.expand(format, args)
	ptr.Trace.Errorf(format, args...)
}

func (ptr *prefixTrace) LazyErrorf(format string, args ...any) {
	format, args = ptr.expand(format, args)
	ptr.Trace.LazyErrorf(format, args...)
}

func (ptr *prefixTrace) expand(format string, args []any) (string, []any) {
	all := make([]any, 0, len(ptr.args)+len(args))
	all = append(all, ptr.args...)
	all = append(all, args...)
	return ptr.format + format, all
}
''')]),
("r-prefix-copy",None,[(H,"	return append(ptr.args[:len(ptr.args):len(ptr.args)], args...)","	if len(ptr.args) == 0 {\n		return args\n	}\n	res := make([]any, len(ptr.args)+len(args))\n	n := copy(res, ptr.args)\n	copy(res[n:], args)\n	return res")]),
("r-prefix-clip",None,[(H,"	return append(ptr.args[:len(ptr.args):len(ptr.args)], args...)","	return append(slices.Clip(ptr.args), args...)"),(H,'	"runtime/trace"\n','	"runtime/trace"\n	"slices"\n')]),
("r-pfx",None,[(H,PFX,'''	tr := Get(ctx)
	if format = strings.TrimSpace(format); format != "" {
		return Put(ctx, newPrefixTrace(tr, format, args))
	}
	return ctx, tr
}

func newPrefixTrace(tr Trace, format string, args []any) *prefixTrace {
	return &prefixTrace{tr, format + " ", args}
}

''')]),
("r-region",None,[(H,REG,'''	r := &regionState{name: name, tr: Get(ctx), begin: time.Now()}
	ctx, tr := Prefix(ctx, "·")
	r.region = trace.StartRegion(ctx, name)
	r.tr.LazyTracef("→ %s", name)
	return ctx, tr, r.finish
}

type regionState struct {
	name   string
	tr     Trace
	begin  time.Time
	region *trace.Region
}

func (r *regionState) finish() {
	r.tr.LazyTracef("← %s [%s]", r.name, trcutil.HumanizeDuration(time.Since(r.begin)))
	r.region.End()
}

''')]),
("r-region2",None,[(H,REG,'''	begin := time.Now()
	input, ok := MaybeGet(ctx)
	if !ok {
		input = Get(ctx)
	}
	outctx, output := Prefix(ctx, "·")
	region := trace.StartRegion(outctx, name)
	input.LazyTracef("→ %s", name)
	return outctx, output, func() {
		defer region.End()
		input.LazyTracef("← %s [%s]", name, trcutil.HumanizeDuration(time.Since(begin)))
	}
}

''')]),
("r-ez",None,[(E,EZ,'''// Tracef adds a new normal event to the trace in the context.
func Tracef(ctx context.Context, format string, args ...any) {
	Get(ctx).Tracef(format, args...)
}

// LazyTracef adds a new normal event to the trace in the context.
func LazyTracef(ctx context.Context, format string, args ...any) {
	tr := Get(ctx)
	tr.LazyTracef(format, args...)
}

// Errorf adds a new error event to the trace in the context.
func Errorf(ctx context.Context, format string, args ...any) {
	if tr, ok := MaybeGet(ctx); ok {
		tr.Errorf(format, args...)
	}
}

// LazyErrorf adds a new error event to the trace in the context.
func LazyErrorf(ctx context.Context, format string, args ...any) {
	f := Get(ctx).LazyErrorf
	f(format, args...)
}
''')]),
("r-log",None,[(D,LOGM,'''func (ltr *logTrace) Tracef(format string, args ...any) {
	ltr.record(ltr.Trace.Tracef, "", format, args)
}

func (ltr *logTrace) LazyTracef(format string, args ...any) {
	ltr.record(ltr.Trace.LazyTracef, "", format, args)
}

func (ltr *logTrace) Errorf(format string, args ...any) {
	ltr.record(ltr.Trace.Errorf, "ERROR: ", format, args)
}

func (ltr *logTrace) LazyErrorf(format string, args ...any) {
	ltr.record(ltr.Trace.LazyErrorf, "ERROR: ", format, args)
}

func (ltr *logTrace) record(f func(string, ...any), prefix, format string, args []any) {
	ltr.logEvent(prefix+format, args...)
	f(format, args...)
}

func (ltr *logTrace) Finish() {
	ltr.Trace.Finish()
	outcome := "success"
	if ltr.Errored() {
		outcome = "errored"
	}
	ltr.logEvent("done, %s, %s", outcome, trcutil.HumanizeDuration(ltr.Trace.Duration()))
}

func (ltr *logTrace) logEvent(format string, args ...any) {
	fmt.Fprintf(ltr.dst, ltr.id+" "+strings.TrimSuffix(format, "\\n")+"\\n", args...)
}

''')]),
("r-pub",None,[(D,PUBM,'''func (ptr *publishTrace) Tracef(format string, args ...any) {
	defer ptr.publish()
	ptr.Trace.Tracef(format, args...)
}

func (ptr *publishTrace) LazyTracef(format string, args ...any) {
	defer ptr.publish()
	ptr.Trace.LazyTracef(format, args...)
}

func (ptr *publishTrace) Errorf(format string, args ...any) {
	ptr.Trace.Errorf(format, args...)
	ptr.publish()
}

func (ptr *publishTrace) LazyErrorf(format string, args ...any) {
	ptr.Trace.LazyErrorf(format, args...)
	ptr.publish()
}

func (ptr *publishTrace) Finish() {
	ptr.Trace.Finish()
	ptr.publish()
}

func (ptr *publishTrace) publish() {
	ptr.p.Publish(context.Background(), ptr.Trace)
}

''')]),
("r-setmax",None,[(H,'''	m, ok := tr.(interface{ SetMaxEvents(int) })
	if !ok {
		return tr, false
	}
	m.SetMaxEvents(maxEvents)
	return tr, true''','''	switch m := tr.(type) {
	case interface{ SetMaxEvents(int) }:
		m.SetMaxEvents(maxEvents)
		return tr, true
	default:
		return tr, false
	}''')]),
("r-flat",None,[(U,'''	if len(errs) <= 0 {
		return nil
	}
	strs := make([]string, len(errs))
	for i := range errs {
		strs[i] = errs[i].Error()
	}
	return strs''','''	var strs []string
	for _, err := range errs {
		strs = append(strs, err.Error())
	}
	return strs''')]),
("r-atomic",None,[(A,"	mtx sync.Mutex\n	val T\n","	val atomic.Pointer[T]\n"),(A,'import "sync"','import "sync/atomic"'),(A,"	return &Atomic[T]{val: val}","	a := &Atomic[T]{}\n	a.Set(val)\n	return a"),(A,"{ a.mtx.Lock(); defer a.mtx.Unlock(); a.val = val }","{ a.val.Store(&val) }"),(A,"{ a.mtx.Lock(); defer a.mtx.Unlock(); return a.val }","{ return *a.val.Load() }")]),
]

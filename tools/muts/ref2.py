H="helpers.go"; D="decorators.go"; C="collector.go"; R="trace.go"
h=open("/repo/helpers.go").read(); d=open("/repo/decorators.go").read()
def blk(src,a,b):
    i=src.index(a); j=src.index(b,i); return src[i:j]
REG=blk(h,"	begin := time.Now()\n","// Prefix")
PFX=blk(h,"	original := Get(ctx)\n","type prefixTrace")
M=[
("h-put-val","C09",[(H,"	return context.WithValue(ctx, traceContextVal, tr), tr\n","	if tr == nil {\n		return ctx, tr\n	}\n	return context.WithValue(ctx, traceContextVal, tr), tr\n")]),
("h-reg-prefix","C06",[(H,'	outputContext, outputTrace := Prefix(ctx, "·")\n','	outputContext, outputTrace := Prefix(ctx, "· "+name)\n')]),
("h-reg-out","C06",[(H,'		inputTrace.LazyTracef("← %s [%s]"','		outputTrace.LazyTracef("← %s [%s]"')]),
("h-reg-end","C06",[(H,"		region.End()\n","		if !inputTrace.Finished() {\n			region.End()\n		}\n")]),
("h-prefix-fmt","C06",[(H,'		format: format + " ",\n','		format: strings.TrimSpace(fmt.Sprintf(format, args...)) + " ",\n'),(H,'	"context"\n','	"context"\n	"fmt"\n'),(H,"		args:   args,\n","		args:   nil,\n")]),
("d-log-order","C06",[(D,"	ltr.logEvent(\"done, %s, %s\", outcome, duration)","	if ltr.Finished() {\n		ltr.logEvent(\"done, %s, %s\", outcome, duration)\n	}")]),
("d-log-dur","C06",[(D,"	ltr.Trace.Finish()\n	var (\n		outcome  = \"unknown\"\n		duration = trcutil.HumanizeDuration(ltr.Trace.Duration())\n	)\n","	var (\n		outcome  = \"unknown\"\n		duration = trcutil.HumanizeDuration(ltr.Trace.Duration())\n	)\n	ltr.Trace.Finish()\n")]),
("d-log-err","C06",[(D,"	case ltr.Errored():","	case ltr.Errored() && len(ltr.Events()) > 0:")]),
("d-pub-skip","C18",[(D,"func (ptr *publishTrace) LazyErrorf(format string, args ...any) {\n	ptr.Trace.LazyErrorf(format, args...)\n	ptr.p.Publish","func (ptr *publishTrace) LazyErrorf(format string, args ...any) {\n	ptr.Trace.LazyErrorf(format, args...)\n	if ptr.Finished() {\n		return\n	}\n	ptr.p.Publish")]),
("d-pub-before","C18",[(D,"	ptr.Trace.Finish()\n	ptr.p.Publish(context.Background(), ptr.Trace)\n","	ptr.p.Publish(context.Background(), ptr.Trace)\n	ptr.Trace.Finish()\n")]),
("d-pub-once","C18",[(D,"	ptr.Trace.Finish()\n	ptr.p.Publish(","	if ptr.Trace.Finished() && ptr.Trace.Errored() {\n		return\n	}\n	ptr.Trace.Finish()\n	ptr.p.Publish(")]),
("d-logger","C06",[(D,"	lw.logger.Print(string(p))\n","	lw.logger.Printf(string(p))\n")]),
# refactors
("r-reg",None,[(H,REG,'''	input := Get(ctx)
	start := time.Now()
	ctx, output := Prefix(ctx, "·")
	region := trace.StartRegion(ctx, name)

	input.LazyTracef("→ %s", name)

	return ctx, output, func() {
		defer region.End()
		input.LazyTracef("← %s [%s]", name, trcutil.HumanizeDuration(time.Since(start)))
	}
}

''')]),
("r-reg2",None,[(H,REG,'''	inputTrace := Get(ctx)
	outputContext, outputTrace := Prefix(ctx, "·")
	r := &regionEnd{tr: inputTrace, name: name, begin: time.Now(), region: trace.StartRegion(outputContext, name)}
	inputTrace.LazyTracef("→ %s", name)
	return outputContext, outputTrace, r.finish
}

type regionEnd struct {
	tr     Trace
	name   string
	begin  time.Time
	region *trace.Region
}

func (r *regionEnd) finish() {
	took := time.Since(r.begin)
	r.tr.LazyTracef("← %s [%s]", r.name, trcutil.HumanizeDuration(took))
	r.region.End()
}

''')]),
("r-pfx",None,[(H,PFX,'''	tr := Get(ctx)
	if format = strings.TrimSpace(format); format != "" {
		ptr := newPrefixTrace(tr, format, args)
		return Put(ctx, ptr)
	}
	return ctx, tr
}

func newPrefixTrace(tr Trace, format string, args []any) *prefixTrace {
	ptr := new(prefixTrace)
	ptr.Trace = tr
	ptr.format = format + " "
	ptr.args = args
	return ptr
}

''')]),
("r-pfx2",None,[(H,"	return append(ptr.args[:len(ptr.args):len(ptr.args)], args...)\n","	n := len(ptr.args)\n	all := make([]any, n+len(args))\n	copy(all, ptr.args)\n	copy(all[n:], args)\n	return all\n")]),
("r-pfx3",None,[(H,"	ptr.Trace.Tracef(ptr.format+format, ptr.withArgs(args)...)\n","	format, args = ptr.with(format, args)\n	ptr.Trace.Tracef(format, args...)\n"),(H,"	ptr.Trace.Errorf(ptr.format+format, ptr.withArgs(args)...)\n","	format, args = ptr.with(format, args)\n	ptr.Trace.Errorf(format, args...)\n"),(H,"func (ptr *prefixTrace) Tracef(","func (ptr *prefixTrace) with(format string, args []any) (string, []any) {\n	return ptr.format + format, ptr.withArgs(args)\n}\n\nfunc (ptr *prefixTrace) Tracef(")]),
("r-get",None,[(H,"	if tr, ok := MaybeGet(ctx); ok {\n		return tr\n	}\n\n	return newCoreTrace(\"\", \"(orphan)\")","	tr, ok := MaybeGet(ctx)\n	if !ok {\n		tr = newCoreTrace(\"\", \"(orphan)\")\n	}\n	return tr")]),
("r-maybe",None,[(H,"	tr, ok := ctx.Value(traceContextVal).(Trace)\n	return tr, ok\n","	if tr, ok := ctx.Value(traceContextVal).(Trace); ok {\n		return tr, true\n	}\n	return nil, false\n")]),
("r-maybe2",None,[(H,"	tr, ok := ctx.Value(traceContextVal).(Trace)\n	return tr, ok\n","	switch v := ctx.Value(traceContextKey{}).(type) {\n	case Trace:\n		return v, true\n	default:\n		return nil, false\n	}\n")]),
("r-setmax",None,[(H,"	m, ok := tr.(interface{ SetMaxEvents(int) })\n	if !ok {\n		return tr, false\n	}\n	m.SetMaxEvents(maxEvents)\n	return tr, true\n","	m, ok := tr.(maxSetter)\n	if ok {\n		m.SetMaxEvents(maxEvents)\n	}\n	return tr, ok\n"),(H,"// Region ","type maxSetter interface{ SetMaxEvents(max int) }\n\n// Region ")]),
("r-log",None,[(D,"	var (\n		outcome  = \"unknown\"\n		duration = trcutil.HumanizeDuration(ltr.Trace.Duration())\n	)\n	switch {\n	case ltr.Errored():\n		outcome = \"errored\"\n	default:\n		outcome = \"success\"\n	}\n	ltr.logEvent(\"done, %s, %s\", outcome, duration)\n","	ltr.logEvent(\"done, %s, %s\", iff(ltr.Trace.Errored(), \"errored\", \"success\"), trcutil.HumanizeDuration(ltr.Duration()))\n")]),
("r-log2",None,[(D,"	format = ltr.id + \" \" + strings.TrimSuffix(format, \"\\n\") + \"\\n\"\n	fmt.Fprintf(ltr.dst, format, args...)\n","	var b strings.Builder\n	b.WriteString(ltr.id)\n	b.WriteByte(' ')\n	fmt.Fprintf(&b, strings.TrimSuffix(format, \"\\n\"), args...)\n	b.WriteByte('\\n')\n	io.WriteString(ltr.dst, b.String())\n")]),
("r-log3",None,[(D,"		ltr := &logTrace{\n			Trace: tr,\n			id:    tr.ID(),\n			dst:   dst,\n		}\n		ltr.logEvent(\"started, source '%s', category '%s'\", tr.Source(), tr.Category())\n		return ltr\n	}\n","		ltr := newLogTrace(tr, dst)\n		ltr.logStarted()\n		return ltr\n	}\n"),(D,"// LoggerDecorator","func newLogTrace(tr Trace, dst io.Writer) *logTrace { return &logTrace{Trace: tr, id: tr.ID(), dst: dst} }\n\nfunc (ltr *logTrace) logStarted() {\n	ltr.logEvent(\"started, source '%s', category '%s'\", ltr.Source(), ltr.Category())\n}\n\n// LoggerDecorator")]),
("r-free",None,[(D,"func (ltr *logTrace) Free() {\n	if f, ok := ltr.Trace.(interface{ Free() }); ok {\n		f.Free()\n	}\n}","func (ltr *logTrace) Free() { maybeFree(ltr.Trace) }"),(D,"func (ptr *publishTrace) Free() {\n	if f, ok := ptr.Trace.(interface{ Free() }); ok {\n		f.Free()\n	}\n}","func (ptr *publishTrace) Free() {\n	maybeFree(ptr.Trace)\n}")]),
("r-pub",None,[(D,"	ptr.p.Publish(context.Background(), ptr.Trace)\n}\n\nfunc (ptr *publishTrace) LazyTracef","	ptr.publish()\n}\n\nfunc (ptr *publishTrace) publish() { ptr.p.Publish(context.TODO(), ptr.Trace) }\n\nfunc (ptr *publishTrace) LazyTracef"),(D,"	ptr.Trace.LazyErrorf(format, args...)\n	ptr.p.Publish(context.Background(), ptr.Trace)\n","	defer ptr.publish()\n	ptr.Trace.LazyErrorf(format, args...)\n")]),
("r-pub2",None,[(D,"		ptr := &publishTrace{\n			Trace: tr,\n			p:     p,\n		}\n		p.Publish(context.Background(), ptr.Trace)\n		return ptr\n","		p.Publish(context.Background(), tr)\n		return &publishTrace{tr, p}\n")]),
("r-pub3",None,[(D,"func publishDecorator(p publisher) DecoratorFunc {","func publishDecorator(p *Broker) DecoratorFunc {"),(D,"type publisher interface {\n	Publish(ctx context.Context, tr Trace)\n}\n\n",""),(D,"	p publisher\n","	p *Broker\n")]),
("r-newtrace",None,[(C,"	ctx, tr := c.newTrace(ctx, c.source, category, publishDecorator(c.broker))\n\n	for _, d := range c.decorators {\n		tr = d(tr)\n	}\n","	_, tr := c.newTrace(ctx, c.source, category, publishDecorator(c.broker))\n	tr = decorate(tr, c.decorators)\n"),(C,"// NewTrace produces","func decorate(tr Trace, ds []DecoratorFunc) Trace {\n	for i := range ds {\n		tr = ds[i](tr)\n	}\n	return tr\n}\n\n// NewTrace produces")]),
]

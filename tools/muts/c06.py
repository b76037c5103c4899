H="helpers.go"; D="decorators.go"; EZ="eztrc/eztrc.go"
def wa(new): return (H,"	return append(ptr.args[:len(ptr.args):len(ptr.args)], args...)",new)
M=[
("pre-share","C06",[wa("	return append(ptr.args, args...)")]),
("pre-order","C06",[wa("	return append(args[:len(args):len(args)], ptr.args...)")]),
("pre-reuse","C06",[(H,"	format string\n	args   []any\n}","	format string\n	args   []any\n	buf    []any\n}"),wa("	ptr.buf = append(append(ptr.buf[:0], ptr.args...), args...)\n	return ptr.buf")]),
("pre-noargs","C06",[wa("	if len(args) == 0 {\n		return nil\n	}\n	return append(ptr.args[:len(ptr.args):len(ptr.args)], args...)")]),
("pre-sprintf","C06",[(H,"		format: format + \" \",\n		args:   args,\n","		format: fmt.Sprintf(format, args...) + \" \",\n"),(H,'import (\n','import (\n	"fmt"\n')]),
("pre-kind","C06",[(H,"	ptr.Trace.LazyErrorf(ptr.format+format","	ptr.Trace.Errorf(ptr.format+format")]),
("pre-trim","C06",[(H,"	ptr.Trace.LazyTracef(ptr.format+format","	ptr.Trace.LazyTracef(ptr.format+strings.TrimSpace(format)")]),
("pre-nested","C06",[(H,"	prefixed := &prefixTrace{","	if p, ok := original.(*prefixTrace); ok && p.format == format+\" \" {\n		return Put(ctx, original)\n	}\n	prefixed := &prefixTrace{")]),
("region-name-fmt","C06",[(H,'	inputTrace.LazyTracef("→ %s", name)','	inputTrace.LazyTracef("→ " + name)')]),
("region-finish-fmt","C06",[(H,'inputTrace.LazyTracef("← %s [%s]", name, trcutil.HumanizeDuration(took))','inputTrace.LazyTracef("← "+name+" [%s]", trcutil.HumanizeDuration(took))')]),
("region-noend","C06",[(H,"		region.End()\n","		if took > 0 {\n			region.End()\n		}\n")]),
("region-out","C06",[(H,'		inputTrace.LazyTracef("← %s','		outputTrace.LazyTracef("← %s')]),
("log-fmt","C06",[(D,'ltr.logEvent("started, source \'%s\', category \'%s\'", tr.Source(), tr.Category())','ltr.logEvent("started, source \'" + tr.Source() + "\', category \'" + tr.Category() + "\'")')]),
("log-noforward","C06",[(D,"	ltr.logEvent(format, args...)\n	ltr.Trace.LazyTracef(format, args...)\n","	if ltr.dst != nil {\n		ltr.logEvent(format, args...)\n	}\n	if !ltr.Finished() {\n		ltr.Trace.LazyTracef(format, args...)\n	}\n")]),
("log-twice","C06",[(D,"	ltr.logEvent(\"ERROR: \"+format, args...)\n	ltr.Trace.LazyErrorf(format, args...)","	ltr.logEvent(\"ERROR: \"+format, args...)\n	ltr.Trace.LazyErrorf(\"ERROR: \"+format, args...)")]),
("log-fin-order","C06",[(D,"	ltr.Trace.Finish()\n	var (","	defer ltr.Trace.Finish()\n	var (")]),
("log-finished-skip","C06",[(D,"	ltr.Trace.Finish()\n	var (","	if ltr.Trace.Finished() {\n		return\n	}\n	ltr.Trace.Finish()\n	var (")]),
("log-two-writes","C06",[(D,"	format = ltr.id + \" \" + strings.TrimSuffix(format, \"\\n\") + \"\\n\"\n	fmt.Fprintf(ltr.dst, format, args...)","	fmt.Fprint(ltr.dst, ltr.id+\" \")\n	fmt.Fprintf(ltr.dst, strings.TrimSuffix(format, \"\\n\")+\"\\n\", args...)")]),
("log-src-trim","C06",[(D,'fmt.Fprintf(ltr.dst, format, args...)','fmt.Fprintf(ltr.dst, "%s", fmt.Sprintf(format, args...)[:80])')]),
("logger-printf","C06",[(D,"lw.logger.Print(string(p))","lw.logger.Printf(string(p))")]),
("logger-len","C06",[(D,"	lw.logger.Print(string(p))\n	return len(p), nil","	if len(p) > 1024 {\n		p = p[:1024]\n	}\n	lw.logger.Print(string(p))\n	return len(p), nil")]),
("pub-before","C06",[(D,"	ptr.Trace.LazyErrorf(format, args...)\n	ptr.p.Publish(context.Background(), ptr.Trace)","	defer ptr.Trace.LazyErrorf(format, args...)\n	ptr.p.Publish(context.Background(), ptr.Trace)")]),
("pub-active","C06",[(D,"	ptr.Trace.LazyTracef(format, args...)\n	ptr.p.Publish(context.Background(), ptr.Trace)","	ptr.Trace.LazyTracef(format, args...)\n	if !ptr.Trace.Errored() {\n		ptr.p.Publish(context.Background(), ptr.Trace)\n	}")]),
("pub-go","C06",[(D,"	ptr.Trace.LazyTracef(format, args...)\n	ptr.p.Publish(context.Background(), ptr.Trace)","	ptr.Trace.LazyTracef(format, args...)\n	go ptr.p.Publish(context.Background(), ptr.Trace)")]),
("pub-new","C06",[(D,"		p.Publish(context.Background(), ptr.Trace)\n		return ptr","		return ptr")]),
("free-drop","C06",[(D,"func (ptr *publishTrace) Free() {\n	if f, ok","func (ptr *publishTrace) Free() {\n	if ptr.Trace.Errored() {\n		return\n	}\n	if f, ok")]),
# refactors
("r-full",None,[wa("	all := make([]any, 0, len(ptr.args)+len(args))\n	all = append(all, ptr.args...)\n	all = append(all, args...)\n	return all")]),
("r-copy",None,[wa("	all := make([]any, len(ptr.args)+len(args))\n	n := copy(all, ptr.args)\n	copy(all[n:], args)\n	return all")]),
("r-nilappend",None,[wa("	return append(append([]any(nil), ptr.args...), args...)")]),
("r-region-defer",None,[(H,'''		took := time.Since(begin)
		inputTrace.LazyTracef("← %s [%s]", name, trcutil.HumanizeDuration(took))
		region.End()
''','''		defer region.End()
		inputTrace.LazyTracef("← %s [%s]", name, trcutil.HumanizeDuration(time.Since(begin)))
''')]),
("r-log-helper",None,[(D,"	ltr.logEvent(\"ERROR: \"+format, args...)\n	ltr.Trace.Errorf","	ltr.logError(format, args...)\n	ltr.Trace.Errorf"),(D,"	ltr.logEvent(\"ERROR: \"+format, args...)\n	ltr.Trace.LazyErrorf","	ltr.logError(format, args...)\n	ltr.Trace.LazyErrorf"),(D,"func (ltr *logTrace) Finish() {","func (ltr *logTrace) logError(format string, args ...any) {\n	ltr.logEvent(\"ERROR: \"+format, args...)\n}\n\nfunc (ltr *logTrace) Finish() {")]),
("r-log-out",None,[(D,'''	var (
		outcome  = "unknown"
		duration = trcutil.HumanizeDuration(ltr.Trace.Duration())
	)
	switch {
	case ltr.Errored():
		outcome = "errored"
	default:
		outcome = "success"
	}
''','''	duration := trcutil.HumanizeDuration(ltr.Trace.Duration())
	outcome := "success"
	if ltr.Trace.Errored() {
		outcome = "errored"
	}
''')]),
("r-log-sprintf",None,[(D,"	fmt.Fprintf(ltr.dst, format, args...)","	io.WriteString(ltr.dst, fmt.Sprintf(format, args...))")]),
("r-pub-helper",None,[(D,"	ptr.p.Publish(context.Background(), ptr.Trace)\n","	ptr.publish()\n")]*5+[(D,"func (ptr *publishTrace) Free() {","func (ptr *publishTrace) publish() {\n	ptr.p.Publish(context.Background(), ptr.Trace)\n}\n\nfunc (ptr *publishTrace) Free() {")]),
("r-free",None,[(D,'''func (ptr *publishTrace) Free() {
	if f, ok := ptr.Trace.(interface{ Free() }); ok {
		f.Free()
	}
}''','''func (ptr *publishTrace) Free() {
	maybeFree(ptr.Trace)
}''')]),
("r-prefix-else",None,[(H,'''	format = strings.TrimSpace(format)
	if format == "" {
		return ctx, original
	}

	prefixed := &prefixTrace{
		Trace:  original,
		format: format + " ",
		args:   args,
	}

	return Put(ctx, prefixed)
''','''	if prefix := strings.TrimSpace(format); prefix != "" {
		return Put(ctx, newPrefixTrace(original, prefix, args))
	}

	return ctx, original
'''),(H,"type prefixTrace struct","func newPrefixTrace(tr Trace, prefix string, args []any) *prefixTrace {\n	return &prefixTrace{Trace: tr, format: prefix + \" \", args: args}\n}\n\ntype prefixTrace struct")]),
]

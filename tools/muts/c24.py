W='trcweb/middleware.go'
E='eztrc/easy.go'
S='trcweb/trace_server.go'
DEF='''			defer func(b time.Time) {
				code := iw.Code()
				sent := trcutil.HumanizeBytes(iw.Written())
				took := trcutil.HumanizeDuration(time.Since(b))
				tr.LazyTracef("HTTP %d, %s, %s", code, sent, took)
			}(time.Now())

			w = iw
			r = r.WithContext(ctx)
			next.ServeHTTP(w, r)
'''
M=[
("nodefer-finish","C24",[(W,'			defer tr.Finish()\n',''),(W,'			next.ServeHTTP(w, r)\n','			next.ServeHTTP(w, r)\n			tr.Finish()\n')]),
("order-defer","C24",[(W,'			defer tr.Finish()\n',''),(W,'			w = iw\n','			defer tr.Finish()\n			w = iw\n')]),
("nodefer-record","C24",[(W,DEF,'''			b := time.Now()
			w = iw
			r = r.WithContext(ctx)
			next.ServeHTTP(w, r)
			tr.LazyTracef("HTTP %d, %s, %s", iw.Code(), trcutil.HumanizeBytes(iw.Written()), trcutil.HumanizeDuration(time.Since(b)))
''')]),
("recover","C24",[(W,'			w = iw\n','			defer func() {\n				if x := recover(); x != nil {\n					tr.Errorf("PANIC: %v", x)\n				}\n			}()\n			w = iw\n')]),
("code-last","C24",[(W,'	if i.code == 0 {\n		i.code = code\n	}\n	i.Resp','	i.code = code\n	i.Resp')]),
("drop-second-header","C24",[(W,'		i.code = code\n	}\n	i.ResponseWriter.WriteHeader(code)','		i.code = code\n		i.ResponseWriter.WriteHeader(code)\n	}')]),
("n-len","C24",[(W,'i.n += n','i.n += len(p)')]),
("n-assign","C24",[(W,'i.n += n','i.n = n')]),
("ctx-missing","C24",[(W,'r = r.WithContext(ctx)','r = r.WithContext(r.Context())')]),
("ctx-bg","C24",[(W,'constructor(r.Context(), categorize(r))','constructor(context.Background(), categorize(r))')]),
("no-flush","C24",[(W,'func (i *interceptor) Flush() {\n	i.flush()\n}\n','')]),
("flush-noop","C24",[(W,'		flush = f.Flush\n','		flush = func() { _ = f }\n')]),
("write-err","C24",[(W,'	return n, err\n','	return len(p), err\n')]),
("skip-health","C24",[(W,'			ctx, tr := constructor','			if r.URL.Path == "/health" {\n				next.ServeHTTP(w, r)\n				return\n			}\n			ctx, tr := constructor')]),
("code-eval-early","C24",[(W,'			w = iw\n			r = r.With','			defer tr.LazyTracef("HTTP %d, %s", iw.Code(), trcutil.HumanizeBytes(iw.Written()))\n			w = iw\n			r = r.With'),(W,'				tr.LazyTracef("HTTP %d, %s, %s", code, sent, took)\n','				_, _, _ = code, sent, took\n')]),
("ez-other","C24",[(E,'var handler = trcweb.NewTraceServer(collector)','var handler = trcweb.NewTraceServer(trc.NewDefaultCollector())')]),
("ez-mw","C24",[(E,'return trcweb.Middleware(collector.NewTrace, categorize)','return trcweb.Middleware(trc.NewDefaultCollector().NewTrace, categorize)')]),
("srv-collector","C24",[(S,'		Collector: c,\n','		Collector: trc.NewDefaultCollector(),\n')]),
("write-header-implicit","C24",[(W,'	n, err := i.ResponseWriter.Write(p)','	if i.code == 0 {\n		i.code = http.StatusAccepted\n	}\n	n, err := i.ResponseWriter.Write(p)')]),
# preserving
("r-helper",None,[(W,'''				code := iw.Code()
				sent := trcutil.HumanizeBytes(iw.Written())
				took := trcutil.HumanizeDuration(time.Since(b))
				tr.LazyTracef("HTTP %d, %s, %s", code, sent, took)
''','				recordResponse(tr, iw, b)\n'),(W,'//\n//\n//\n\ntype interceptor','''func recordResponse(tr trc.Trace, iw *interceptor, b time.Time) {
	code := iw.Code()
	sent := trcutil.HumanizeBytes(iw.Written())
	took := trcutil.HumanizeDuration(time.Since(b))
	tr.LazyTracef("HTTP %d, %s, %s", code, sent, took)
}

type interceptor''')]),
("r-one-defer",None,[(W,'			defer tr.Finish()\n',''),(W,'				tr.LazyTracef("HTTP %d, %s, %s", code, sent, took)\n','				tr.LazyTracef("HTTP %d, %s, %s", code, sent, took)\n				tr.Finish()\n'),(W,'''			tr.LazyTracef("%s %s %s", r.RemoteAddr, r.Method, r.URL.String())

			for _, header := range []string{"User-Agent", "Accept", "Content-Type"} {
				if val := r.Header.Get(header); val != "" {
					tr.LazyTracef("%s: %s", header, val)
				}
			}

			iw := newInterceptor(w)
''','			iw := newInterceptor(w)\n'),(W,'			w = iw\n','''			tr.LazyTracef("%s %s %s", r.RemoteAddr, r.Method, r.URL.String())

			for _, header := range []string{"User-Agent", "Accept", "Content-Type"} {
				if val := r.Header.Get(header); val != "" {
					tr.LazyTracef("%s: %s", header, val)
				}
			}
			w = iw
''')]),
("r-direct",None,[(W,'			w = iw\n			r = r.WithContext(ctx)\n			next.ServeHTTP(w, r)\n','			next.ServeHTTP(iw, r.WithContext(ctx))\n')]),
("r-inline-iw",None,[(W,'			iw := newInterceptor(w)\n','			flush := func() {}\n			if f, ok := w.(http.Flusher); ok {\n				flush = f.Flush\n			}\n			iw := &interceptor{ResponseWriter: w, flush: flush}\n'),(W,'''func newInterceptor(w http.ResponseWriter) *interceptor {
	flush := func() {}
	if f, ok := w.(http.Flusher); ok {
		flush = f.Flush
	}
	return &interceptor{ResponseWriter: w, flush: flush}
}
''','')]),
("r-flush-assert",None,[(W,'func (i *interceptor) Flush() {\n	i.flush()\n}','func (i *interceptor) Flush() {\n	if f, ok := i.ResponseWriter.(http.Flusher); ok {\n		f.Flush()\n	}\n}'),(W,'	flush := func() {}\n	if f, ok := w.(http.Flusher); ok {\n		flush = f.Flush\n	}\n	return &interceptor{ResponseWriter: w, flush: flush}','	return &interceptor{ResponseWriter: w}'),(W,'	flush func()\n','')]),
("r-code-init",None,[(W,'	if i.code == 0 {\n		i.code = code\n	}\n	i.Resp','	if i.code != 0 {\n		i.ResponseWriter.WriteHeader(code)\n		return\n	}\n	i.code = code\n	i.Resp')]),
("r-write-implicit",None,[(W,'	n, err := i.ResponseWriter.Write(p)','	if i.code == 0 {\n		i.code = http.StatusOK\n	}\n	n, err := i.ResponseWriter.Write(p)')]),
("r-struct-handler",None,[(W,'		return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {','		serve := func(w http.ResponseWriter, r *http.Request) {'),(W,'			next.ServeHTTP(w, r)\n		})\n','			next.ServeHTTP(w, r)\n		}\n		return http.HandlerFunc(serve)\n')]),
("r-named-result",None,[(W,'func (i *interceptor) Write(p []byte) (int, error) {\n	n, err := ','func (i *interceptor) Write(p []byte) (n int, err error) {\n	defer func() { i.n += n }()\n	n, err = '),(W,'	i.n += n\n	return n, err\n','	return n, err\n')]),
("r-ez-accessor",None,[(E,'return trcweb.Middleware(collector.NewTrace, categorize)','return trcweb.Middleware(New, categorize)')]),
("r-ez-col",None,[(E,'return collector.NewTrace(ctx, category)','return Collector().NewTrace(ctx, category)')]),
]

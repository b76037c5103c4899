T="trcweb/trace_server.go"; U="trcweb/util.go"; N="trcweb/render.go"; W="trcweb/middleware.go"; H="trcweb/assets/traces.html"
n=open("/repo/"+N).read(); u=open("/repo/"+U).read(); w=open("/repo/"+W).read()
def blk(src,a,b):
    i=src.index(a); j=src.index(b,i); return src[i:j]
EV=blk(n,"func renderEvents(","type renderEvent struct")
RJ=blk(n,"	var buf bytes.Buffer\n	enc := json","func requestExplicitlyAccepts")
RH=blk(n,"func renderHTML(","func renderJSON")
RT=blk(n,"	templateRoot, err := template.New","//\n//\n//\n\nconst timeFormat")
MWB=blk(w,"			ctx, tr := constructor(","		})\n	}\n}")
IW=w[w.index("type interceptor struct"):]
ACC=blk(n,"func requestExplicitlyAccepts","// AssetsDirEnvKey")
LOC=blk(n,"	{\n		var (\n			localPath","	templateFile := templateRoot.Lookup")
M=[
# C23
("ev-prev-start","C23",[(N,"	delta := when.Sub(prev)\n	what","	delta := when.Sub(st.TraceStarted)\n	what")]),
("ev-tailrep","C23",[(N,"	for i, ev := range st.TraceEvents {\n","	for i, ev := range st.TraceEvents {\n		if i > 0 && ev.When.Before(prev) {\n			ev.When = prev\n		}\n")]),
("ev-err","C23",[(N,"			IsError:      ev.IsError,","			IsError:      ev.IsError && st.TraceErrored,")]),
("ev-loopptr","C23",[(N,"	prev := st.TraceStarted\n	for i, ev := range st.TraceEvents {\n","	prev := st.TraceStarted\n	var last trc.Event\n	for i, ev := range st.TraceEvents {\n		if ev.What == \"\" {\n			ev.What = last.What\n		}\n		last = ev\n")]),
("ev-start-missing","C23",[(N,"	events = append(events, renderEvent{\n		IsStart: true,","	events = append(events[:0], renderEvent{\n		IsStart: len(st.TraceEvents) == 0,")]),
("ev-what-trim","C23",[(N,"			What:         ev.What,","			What:         strings.TrimSpace(ev.What),")]),
("ev-dedup","C23",[(N,"		delta := ev.When.Sub(prev)\n		events","		delta := ev.When.Sub(prev)\n		if i > 0 && delta == 0 && ev.What == st.TraceEvents[i-1].What {\n			continue\n		}\n		events")]),

("breaks-tab","C23",[(N,"	`;`, `;<wbr>`,","	`;`, `;<wbr>`,\n	`&amp;`, `&`,")]),

("hl-safe","C23",[(N,'"QueryEscape":          func(s string) string { return url.QueryEscape(s) }','"QueryEscape":          func(s string) string { return strings.ReplaceAll(url.QueryEscape(s), "%26", "&") }')]),
("safe-html","C23",[(N,'"TimeTrunc":            func(t time.Time) string { return t.Format(timeFormat) }','"SafeHTML": func(s string) template.HTML { return template.HTML(s) },\n	"TimeTrunc":            func(t time.Time) string { return t.Format(timeFormat) }'),(H,"{{ .What | HTMLEscape | InsertBreaks }}","{{ .What | SafeHTML }}")]),
("humfn","C23",[(N,"		s = s[index+1:]","		s = s[index+2:]")]),
("percent-panic","C23",[(N,'func(n, d int) int { return int(100 * float64(n) / float64(d)) }','func(n, d int) int { return 100 * n / d }')]),
# C21
("html-500-200","C21",[(N,"		tr.LazyErrorf(\"render template: %v\", err)\n		code = http.StatusInternalServerError\n","		tr.LazyErrorf(\"render template: %v\", err)\n		if body == nil {\n			code = http.StatusInternalServerError\n		}\n"),(N,'		return nil, fmt.Errorf("execute template: %w", err)','		return templateBuf.Bytes(), fmt.Errorf("execute template: %w", err)')]),
("html-partial","C21",[(N,"	if err != nil {\n		tr.LazyErrorf(\"render template: %v\", err)","	if err != nil && len(body) == 0 {\n		tr.LazyErrorf(\"render template: %v\", err)"),(N,'		return nil, fmt.Errorf("execute template: %w", err)','		return templateBuf.Bytes(), fmt.Errorf("execute template: %w", err)')]),
("recover-cond","C21",[(N,"		if x := recover(); x != nil {\n","		if x := recover(); x != nil && err == nil {\n			panic(x)\n		} else if x != nil {\n")]),
("recover-late","C21",[(N,'''	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("PANIC: %v", x)
		}
	}()

	templateRoot, err :=''','''	templateRoot, err :='''),(N,'''	var templateBuf bytes.Buffer
	if err := templateFile''','''	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("PANIC: %v", x)
		}
	}()

	var templateBuf bytes.Buffer
	if err := templateFile''')]),

("json-esc-ct","C21",[(N,'	w.Header().Set("content-type", "application/json; charset=utf-8")','	if w.Header().Get("content-type") == "" {\n		w.Header().Set("content-type", "application/json; charset=utf-8")\n	}')]),
("json-hdr-add","C21",[(N,'	w.Header().Set("content-type", "application/json; charset=utf-8")\n	w.WriteHeader(code)','	w.WriteHeader(code)\n	w.Header().Set("content-type", "application/json; charset=utf-8")')]),
("json-empty-noreply","C21",[(N,"	buf.WriteTo(w)\n","	if code == http.StatusOK {\n		buf.WriteTo(w)\n	}\n")]),
("accept-prefix","C21",[(N,"		if _, ok := accept[want]; ok {","		if _, ok := accept[want]; ok && len(accept) == 1 {")]),
("accept-first","C21",[(N,'strings.Split(r.Header.Get("accept"), ",")','strings.SplitN(r.Header.Get("accept"), ",", 4)')]),
("accept-err-ret","C21",[(N,"		if err != nil {\n			continue\n		}\n		mediaTypes","		if err != nil {\n			return mediaTypes\n		}\n		mediaTypes")]),
("asks-json","C21",[(N,'asksForJSON = r.URL.Query().Has("json")','asksForJSON = r.URL.Query().Get("json") != ""')]),
# C20


("pd-zero","C20",[(U,"	return &d, nil","	if d == 0 {\n		return nil, nil\n	}\n	return &d, nil")]),
("pd-abs","C20",[(U,"	return &d, nil","	d = d.Abs()\n	return &d, nil")]),
("ne-trim","C20",[(U,'		if s != "" {\n','		if len(s) > 1 {\n')]),
("prange-def","C20",[(U,"	case err == nil && v < min:\n		return min","	case err == nil && v <= min:\n		return def")]),
# C24
("mw-code-1xx","C24",[(W,"	if i.code == 0 {\n		i.code = code\n	}\n	i.Resp","	if i.code == 0 || code >= 500 {\n		i.code = code\n	}\n	i.Resp")]),
("mw-wh-skip200","C24",[(W,"	i.ResponseWriter.WriteHeader(code)\n","	if code != http.StatusOK {\n		i.ResponseWriter.WriteHeader(code)\n	}\n")]),
("mw-write-empty","C24",[(W,"	n, err := i.ResponseWriter.Write(p)","	if len(p) == 0 {\n		return 0, nil\n	}\n	n, err := i.ResponseWriter.Write(p)")]),
("mw-n-err","C24",[(W,"	i.n += n\n","	if err == nil {\n		i.n += n\n	}\n")]),
("mw-cat-empty","C24",[(W,"			ctx, tr := constructor(r.Context(), categorize(r))","			category := categorize(r)\n			if category == \"\" {\n				category = r.URL.Path\n			}\n			ctx, tr := constructor(r.Context(), category)")]),
("mw-cat-cache","C24",[(W,"	return func(next http.Handler) http.Handler {\n","	return func(next http.Handler) http.Handler {\n		var category string\n"),(W,"			ctx, tr := constructor(r.Context(), categorize(r))","			if category == \"\" {\n				category = categorize(r)\n			}\n			ctx, tr := constructor(r.Context(), category)")]),
("mw-shared-iw","C24",[(W,"		return http.HandlerFunc(","		var iw *interceptor\n		return http.HandlerFunc("),(W,"			iw := newInterceptor(w)","			iw = newInterceptor(w)")]),
("mw-clone","C24",[(W,"			r = r.WithContext(ctx)","			r = r.Clone(ctx)\n			r.Header.Del(\"Accept-Encoding\")")]),
("mw-finish-twice","C24",[(W,"				tr.LazyTracef(\"HTTP %d, %s, %s\", code, sent, took)","				tr.LazyTracef(\"HTTP %d, %s, %s\", code, sent, took)\n				if code >= 500 {\n					tr.Finish()\n				}")]),
("mw-err-hide","C24",[(W,"	return n, err\n","	if err != nil && n == len(p) {\n		err = nil\n	}\n	return n, err\n")]),
("mw-goexit","C24",[(W,"			next.ServeHTTP(w, r)\n","			done := make(chan struct{})\n			go func() {\n				defer close(done)\n				next.ServeHTTP(w, r)\n			}()\n			<-done\n")]),
("mw-flush-iw","C24",[(W,"	if f, ok := w.(http.Flusher); ok {","	if f, ok := w.(*interceptor); ok {")]),
# refactors
("r-ev",None,[(N,EV,'''func renderEvents(st *trc.StaticTrace) []renderEvent {
	n := len(st.TraceEvents)
	events := make([]renderEvent, n+2)

	events[0] = renderEvent{IsStart: true, Index: -1, When: st.TraceStarted, What: "start"}

	prev := st.TraceStarted
	for i, ev := range st.TraceEvents {
		delta := ev.When.Sub(prev)
		events[i+1] = renderEvent{
			Index:        i,
			When:         ev.When,
			Delta:        delta,
			DeltaPercent: 100 * float64(delta) / float64(st.TraceDuration),
			Cumulative:   ev.When.Sub(st.TraceStarted),
			What:         ev.What,
			IsError:      ev.IsError,
			Stack:        ev.Stack,
		}
		prev = ev.When
	}

	when := st.TraceStarted.Add(st.TraceDuration)
	delta := when.Sub(prev)
	events[n+1] = renderEvent{
		IsEnd:        true,
		Index:        n,
		When:         when,
		Delta:        delta,
		DeltaPercent: 100 * float64(delta) / float64(st.TraceDuration),
		Cumulative:   st.TraceDuration,
		What:         iff(st.TraceFinished, "finished", "active..."),
	}

	return events
}

''')]),
("r-ev2",None,[(N,EV,'''func renderEvents(st *trc.StaticTrace) []renderEvent {
	var (
		events []renderEvent
		prev   = st.TraceStarted
	)

	add := func(when time.Time, re renderEvent) {
		re.When = when
		re.Delta = when.Sub(prev)
		re.DeltaPercent = 100 * float64(re.Delta) / float64(st.TraceDuration)
		re.Cumulative = when.Sub(st.TraceStarted)
		events = append(events, re)
		prev = when
	}

	events = append(events, renderEvent{
		IsStart: true,
		Index:   -1,
		When:    st.TraceStarted,
		What:    "start",
	})

	for i, ev := range st.TraceEvents {
		add(ev.When, renderEvent{Index: i, What: ev.What, IsError: ev.IsError, Stack: ev.Stack})
	}

	what := "active..."
	if st.TraceFinished {
		what = "finished"
	}
	add(st.TraceStarted.Add(st.TraceDuration), renderEvent{IsEnd: true, Index: len(st.TraceEvents), What: what})

	return events
}

''')]),
("r-ev3",None,[(N,EV,'''func renderEvents(st *trc.StaticTrace) []renderEvent {
	events := []renderEvent{startEvent(st)}
	for i := range st.TraceEvents {
		prev := st.TraceStarted
		if i > 0 {
			prev = st.TraceEvents[i-1].When
		}
		events = append(events, newRenderEvent(st, i, prev))
	}
	return append(events, endEvent(st, events))
}

func startEvent(st *trc.StaticTrace) renderEvent {
	return renderEvent{IsStart: true, Index: -1, When: st.TraceStarted, What: "start"}
}

func newRenderEvent(st *trc.StaticTrace, i int, prev time.Time) renderEvent {
	ev := st.TraceEvents[i]
	re := renderEvent{Index: i, When: ev.When, What: ev.What, IsError: ev.IsError, Stack: ev.Stack}
	re.Delta = re.When.Sub(prev)
	re.DeltaPercent = 100 * float64(re.Delta) / float64(st.TraceDuration)
	re.Cumulative = re.When.Sub(st.TraceStarted)
	return re
}

func endEvent(st *trc.StaticTrace, events []renderEvent) renderEvent {
	prev := events[len(events)-1].When
	when := st.TraceStarted.Add(st.TraceDuration)
	delta := when.Sub(prev)
	return renderEvent{
		IsEnd:        true,
		Index:        len(st.TraceEvents),
		When:         when,
		Delta:        delta,
		DeltaPercent: 100 * float64(delta) / float64(st.TraceDuration),
		Cumulative:   st.TraceDuration,
		What:         iff(st.TraceFinished, "finished", "active..."),
	}
}

''')]),
("r-html",None,[(N,RH,'''func renderHTML(ctx context.Context, w http.ResponseWriter, fs fs.FS, templateName string, funcs template.FuncMap, data any) {
	code, body := htmlBody(ctx, fs, templateName, funcs, data)
	respond(w, "text/html; charset=utf-8", code, body)
}

func htmlBody(ctx context.Context, fs fs.FS, templateName string, funcs template.FuncMap, data any) (int, []byte) {
	body, err := renderTemplate(ctx, fs, templateName, funcs, data)
	if err == nil {
		return http.StatusOK, body
	}
	trc.Get(ctx).LazyErrorf("render template: %v", err)
	var buf bytes.Buffer
	buf.WriteString("<html><body><h1>Error</h1><p>")
	template.HTMLEscape(&buf, []byte(err.Error()))
	buf.WriteString("</p>")
	return http.StatusInternalServerError, buf.Bytes()
}

func respond(w http.ResponseWriter, contentType string, code int, body []byte) {
	w.Header().Set("content-type", contentType)
	w.WriteHeader(code)
	w.Write(body)
}

'''),(N,RJ,'''	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetIndent("", "    ")

	if err := enc.Encode(data); err != nil {
		tr.LazyErrorf("marshal JSON: %v", err)
		respond(w, "application/json; charset=utf-8", http.StatusInternalServerError, []byte(`{"error":"failed to marshal response"}`))
		return
	}

	tr.LazyTracef("marshaled JSON response (%s)", trcutil.HumanizeBytes(buf.Len()))
	respond(w, "application/json; charset=utf-8", http.StatusOK, buf.Bytes())
}

''')]),
("r-tmpl",None,[(N,RT,'''	templateRoot, err := loadTemplates(tr, fs, userFuncs)
	if err != nil {
		return nil, err
	}

	templateFile := templateRoot.Lookup(templateName)
	if templateFile == nil {
		return nil, fmt.Errorf("template (%s) not found", templateName)
	}

	tr.LazyTracef("template.Lookup(%s) OK", templateName)

	templateBuf := new(bytes.Buffer)
	err = templateFile.Execute(templateBuf, data)
	if err != nil {
		return nil, fmt.Errorf("execute template: %w", err)
	}

	tr.LazyTracef("template.Execute OK, %s", trcutil.HumanizeBytes(templateBuf.Len()))

	return templateBuf.Bytes(), nil
}

func loadTemplates(tr trc.Trace, fs fs.FS, userFuncs template.FuncMap) (*template.Template, error) {
	root, err := template.New("root").Funcs(templateFuncs).Funcs(userFuncs).ParseFS(fs, "*")
	if err != nil {
		return nil, fmt.Errorf("parse assets: %w", err)
	}

	tr.LazyTracef("template.ParseFS OK")

	localFiles := localTemplates(root)
	if len(localFiles) == 0 {
		return root, nil
	}

	root, err = root.ParseFiles(localFiles...)
	if err != nil {
		return nil, fmt.Errorf("parse local files: %w", err)
	}

	tr.LazyTracef("local files %v", localFiles)
	return root, nil
}

func localTemplates(root *template.Template) []string {
	localPath := filepath.Clean(os.Getenv(AssetsDirEnvKey)) // pwd by default
	var localFiles []string
	for _, tp := range root.Templates() {
		if tp.Name() == "" {
			continue
		}
		assetName := filepath.Join(localPath, tp.Name())
		if fi, err := os.Stat(assetName); err == nil && fi.Mode().IsRegular() {
			localFiles = append(localFiles, assetName)
		}
	}
	return localFiles
}

''')]),
("r-mw1",None,[(W,MWB,'''			ctx, tr := constructor(r.Context(), categorize(r))
			iw := newInterceptor(w)
			begin := time.Now()
			defer finishRequest(tr, iw, begin)

			traceRequest(tr, r)

			next.ServeHTTP(iw, r.WithContext(ctx))
'''),(W,"//\n//\n//\n\ntype interceptor struct",'''func traceRequest(tr trc.Trace, r *http.Request) {
	tr.LazyTracef("%s %s %s", r.RemoteAddr, r.Method, r.URL.String())

	for _, header := range []string{"User-Agent", "Accept", "Content-Type"} {
		if val := r.Header.Get(header); val != "" {
			tr.LazyTracef("%s: %s", header, val)
		}
	}
}

func finishRequest(tr trc.Trace, iw *interceptor, begin time.Time) {
	defer tr.Finish()
	tr.LazyTracef("HTTP %d, %s, %s", iw.Code(), trcutil.HumanizeBytes(iw.Written()), trcutil.HumanizeDuration(time.Since(begin)))
}

type interceptor struct''')]),
("r-mw2",None,[(W,IW,'''type interceptor struct {
	http.ResponseWriter

	flusher http.Flusher
	code    int
	n       int
}

func newInterceptor(w http.ResponseWriter) *interceptor {
	flusher, _ := w.(http.Flusher)
	return &interceptor{ResponseWriter: w, flusher: flusher}
}

func (i *interceptor) WriteHeader(code int) {
	i.setCode(code)
	i.ResponseWriter.WriteHeader(code)
}

func (i *interceptor) setCode(code int) {
	if i.code == 0 {
		i.code = code
	}
}

func (i *interceptor) Write(p []byte) (n int, err error) {
	defer func() { i.n += n }()
	return i.ResponseWriter.Write(p)
}

func (i *interceptor) Code() int {
	return iff(i.code == 0, http.StatusOK, i.code)
}

func (i *interceptor) Written() int {
	return i.n
}

func (i *interceptor) Flush() {
	if i.flusher != nil {
		i.flusher.Flush()
	}
}
''')]),
("r-mw3",None,[(W,IW,'''type interceptor struct {
	http.ResponseWriter

	code    int
	started bool
	n       int
}

func newInterceptor(w http.ResponseWriter) *interceptor {
	return &interceptor{ResponseWriter: w, code: http.StatusOK}
}

func (i *interceptor) WriteHeader(code int) {
	if !i.started {
		i.started = true
		i.code = code
	}
	i.ResponseWriter.WriteHeader(code)
}

func (i *interceptor) Write(p []byte) (int, error) {
	i.started = true
	n, err := i.ResponseWriter.Write(p)
	i.n += n
	return n, err
}

func (i *interceptor) Code() int { return i.code }

func (i *interceptor) Written() int { return i.n }

func (i *interceptor) Flush() {
	if f, ok := i.ResponseWriter.(http.Flusher); ok {
		f.Flush()
	}
}
''')]),
("r-acc",None,[(N,ACC,'''func requestExplicitlyAccepts(r *http.Request, acceptable ...string) bool {
	for _, a := range strings.Split(r.Header.Get("accept"), ",") {
		mediaType, _, err := mime.ParseMediaType(a)
		if err == nil && contains(acceptable, mediaType) {
			return true
		}
	}
	return false
}

''')]),
("r-acc2",None,[(N,ACC,'''func requestExplicitlyAccepts(r *http.Request, acceptable ...string) bool {
	var (
		rest  = r.Header.Get("accept")
		entry string
		more  = true
	)
	for more {
		entry, rest, more = strings.Cut(rest, ",")
		mediaType, _, err := mime.ParseMediaType(entry)
		if err != nil {
			continue
		}
		for _, want := range acceptable {
			if mediaType == want {
				return true
			}
		}
	}
	return false
}

''')]),
("r-pb",None,[(U,"	var ds []time.Duration\n	for _, s := range bs {\n		if d, err := time.ParseDuration(s); err == nil {\n			ds = append(ds, d)\n		}\n	}\n","	ds := make([]time.Duration, 0, len(bs)+1)\n	for _, s := range bs {\n		d, err := time.ParseDuration(s)\n		if err != nil {\n			continue\n		}\n		ds = append(ds, d)\n	}\n"),(U,"		ds = append([]time.Duration{0}, ds...)\n","		ds = append(ds, 0)\n		copy(ds[1:], ds)\n		ds[0] = 0\n")]),
("r-ne",None,[(U,"	var res []string\n	for _, s := range ss {\n		if s != \"\" {\n			res = append(res, s)\n		}\n	}\n	return res\n","	return filterStrings(ss, func(s string) bool { return s != \"\" })\n"),(U,"func parseDefault[","func filterStrings(ss []string, keep func(string) bool) (res []string) {\n	for i := range ss {\n		if !keep(ss[i]) {\n			continue\n		}\n		res = append(res, ss[i])\n	}\n	return res\n}\n\nfunc parseDefault[")]),
]
M=[m for m in M if m]

P="cmd/trc/main.go"; S="cmd/trc/search.go"; T="cmd/trc/stream.go"; R="cmd/trc/trc.go"; U="cmd/trc/util.go"
import re
p=open("/repo/"+P).read(); s=open("/repo/"+S).read(); t=open("/repo/"+T).read(); r=open("/repo/"+R).read()
def blk(src,a,b):
    i=src.index(a); j=src.index(b,i); return src[i:j]
LOG=blk(p,"	// Validation and set-up.","	if len(rootConfig.uris) <= 0")
URI=blk(p,"	for i, uri := range rootConfig.uris {","	{\n		var minDuration")
FIL=blk(p,"	{\n		var minDuration","	// Run errors shouldn't")
MAIN=blk(p,"	err := exec(ctx","func exec(")
GRP=blk(t,"	var g run.Group\n","func (cfg *streamConfig) runStreams")
RUNS=blk(t,"	ctx, cancel := context.WithCancel(ctx)\n\n	var wg","func (cfg *streamConfig) runStream(")
FOR=blk(t,"	for ctx.Err() == nil {","func (cfg *streamConfig) writeTraces")
WT=blk(t,"	var encode func(tr trc.Trace)","zzz") if False else t[t.index("	var encode func(tr trc.Trace)"):]
FLT=blk(t,"	var streaming string\n","	{\n		cfg.info.Printf")
REG=blk(r,"func (cfg *rootConfig) registerFilterFlags","func (cfg *rootConfig) newTrace")
SREG=blk(s,"	fs.AddFlag","}\n\nfunc (cfg *searchConfig) writeResult")
EX=blk(s,"	res, err := searcher.Search","zzz") if False else s[s.index("	res, err := searcher.Search"):]
M=[
("m-order","C22",[(T,"			cancel()                                 // signal the Stream goroutine to stop\n			<-errc                                   // wait for it to stop\n","			cancel()\n")]),
("m-retry-stop","C27",[(T,"			continue                                                        // try again","			if err == nil {\n				return\n			}\n			continue")]),
("m-retry-noerr","C22",[(T,"			contextSleep(ctx, cfg.retryInterval)                            // can","			contextSleep(subctx, cfg.retryInterval)                            // can")]),
("m-path-join","C27",[(P,"			u.Path = rootConfig.uriPath\n","			u = u.JoinPath(rootConfig.uriPath)\n")]),
("m-path-if-empty","C27",[(P,'		if rootConfig.uriPath != "" {','		if rootConfig.uriPath != "" && u.Path == "" {')]),
("m-uris-write","C27",[(P,"		uri = u.String()\n		rootConfig.uris[i] = uri\n","		uri = u.String()\n		rootConfig.uris[0] = uri\n		_ = i\n")]),
("m-dur-zero","C27",[(P,'ok && f.IsSet() {','ok && f.IsSet() && rootConfig.minDuration > 0 {')]),
("m-limit-clamp","C27",[(S,"		Limit:      cfg.limit,","		Limit:      max(cfg.limit, 10),")]),
("m-stats-drop","C27",[(S,"	if !cfg.includeStats {\n","	if !cfg.includeStats || !cfg.includeRequest {\n")]),
("m-out-stderr","C27",[(T,'		enc := json.NewEncoder(cfg.stdout)\n		enc.SetIndent','		enc := json.NewEncoder(cfg.stderr)\n		enc.SetIndent')]),
("m-count","C27",[(T,"			count++\n			encode(tr)","			if count++; count%1000 != 0 {\n				encode(tr)\n			}")]),
("m-exit2","C27",[(P,"errors.Is(err, context.Canceled), ","errors.Is(err, context.Canceled), errors.Is(err, context.DeadlineExceeded), ")]),
("m-exit3","C27",[(P,"	case err == nil, errors.Is(err, context.Canceled),","	case err == nil, errors.Is(err, context.Canceled), strings.Contains(err.Error(), \"search\"),")]),
("m-uris-skip","C27",[(T,"	for _, uri := range cfg.uris {\n		wg.Add(1)","	for i, uri := range cfg.uris {\n		if i > 0 && uri == cfg.uris[i-1] || i > 16 {\n			continue\n		}\n		wg.Add(1)")]),
("m-flag-swap","C27",[(R,'Value: ffval.NewValue(&cfg.isSuccess)','Value: ffval.NewValue(&cfg.isErrored)'),(R,'LongName: "errored" /*  */, Value: ffval.NewValue(&cfg.isErrored)','LongName: "errored" /*  */, Value: ffval.NewValue(&cfg.isSuccess)')]),
("m-fin","C27",[(T,"			cfg.filter.IsFinished = true\n","			cfg.filter.IsFinished = !cfg.filter.IsErrored\n")]),
("m-stack","C27",[(S,"	if cfg.stackDepth == 0 {","	if cfg.stackDepth <= 1 {")]),
("m-sendbuf","C27",[(T,"		SendBuffer:    cfg.sendBuf,","		SendBuffer:    cfg.recvBuf,")]),
("m-invalid-skip","C27",[(P,'			return fmt.Errorf("%s: invalid: %w", uri, err)','			rootConfig.info.Printf("%s: invalid: %v", uri, err)\n			continue')]),
("m-err-swallow","C27",[(S,'		return fmt.Errorf("marshal response: %w", err)','		cfg.info.Printf("marshal response: %v", err)')]),
("m-writeres","C27",[(S,"	if err := cfg.writeResult(ctx, res); err != nil {\n		return err\n	}\n","	if len(res.Traces) > 0 {\n		if err := cfg.writeResult(ctx, res); err != nil {\n			return err\n		}\n	}\n")]),
# refactors
("r-log",None,[(P,LOG,'''	if err := rootConfig.setupLoggers(); err != nil {
		return err
	}

'''),(P,"func exec(",'''func (cfg *rootConfig) setupLoggers() error {
	levels := map[string]int{"n": 0, "none": 0, "i": 1, "info": 1, "d": 2, "debug": 2, "t": 3, "trace": 3}
	level, ok := levels[cfg.logLevel]
	if !ok {
		return fmt.Errorf("invalid log level %q", cfg.logLevel)
	}
	dst := func(min int) io.Writer {
		if level >= min {
			return cfg.stderr
		}
		return io.Discard
	}
	cfg.info = log.New(dst(1), "", 0)
	cfg.debug = log.New(dst(2), "[DEBUG] ", log.Lmsgprefix)
	cfg.trace = log.New(dst(3), "[TRACE] ", log.Lmsgprefix)
	return nil
}

func exec(''')]),
("r-uri",None,[(P,URI,'''	if err := rootConfig.normalizeURIs(); err != nil {
		return err
	}

'''),(P,"func exec(",'''func (cfg *rootConfig) normalizeURIs() error {
	for i := range cfg.uris {
		uri := strings.TrimSpace(cfg.uris[i])
		if uri == "" {
			continue
		}
		u, err := parseURI(uri, cfg.uriPath)
		if err != nil {
			return err
		}
		cfg.uris[i] = u
		cfg.debug.Printf("URI: %s", u)
	}
	return nil
}

func parseURI(uri, path string) (string, error) {
	if !strings.HasPrefix(uri, "http") {
		uri = "http://" + uri
	}
	u, err := url.ParseRequestURI(uri)
	if err != nil {
		return "", fmt.Errorf("%s: invalid: %w", uri, err)
	}
	if path != "" {
		u.Path = path
	}
	return u.String(), nil
}

func exec(''')]),
("r-filter",None,[(P,FIL,'''	rootConfig.filter = rootConfig.makeFilter(isSet(filterFlags, "duration"))

'''),(P,"func exec(",'''func isSet(fs *ff.FlagSet, name string) bool {
	f, ok := fs.GetFlag(name)
	return ok && f.IsSet()
}

func (cfg *rootConfig) makeFilter(haveDuration bool) trc.Filter {
	f := trc.Filter{
		Sources:    cfg.sources,
		IDs:        cfg.ids,
		Category:   cfg.category,
		IsActive:   cfg.isActive,
		IsFinished: cfg.isFinished,
		IsSuccess:  cfg.isSuccess,
		IsErrored:  cfg.isErrored,
		Query:      cfg.query,
	}
	if haveDuration {
		cfg.debug.Printf("using --duration %s", cfg.minDuration)
		min := cfg.minDuration
		f.MinDuration = &min
	}
	return f
}

func exec('''),(P,'	"time"\n',"")]),
("r-main",None,[(P,MAIN,'''	os.Exit(exitCode(stderr, exec(ctx, stdin, stdout, stderr, args)))
}

func exitCode(stderr io.Writer, err error) int {
	var sig run.SignalError
	if err == nil || errors.Is(err, context.Canceled) || errors.As(err, &sig) {
		return 0
	}
	fmt.Fprintf(stderr, "error: %v\\n", err)
	return 1
}

''')]),
("r-main2",None,[(P,MAIN,'''	err := exec(ctx, stdin, stdout, stderr, args)
	if isFailure(err) {
		fmt.Fprintf(stderr, "error: %v\\n", err)
		os.Exit(1)
	}
}

func isFailure(err error) bool {
	switch {
	case err == nil:
		return false
	case errors.Is(err, context.Canceled):
		return false
	case errors.As(err, new(run.SignalError)):
		return false
	default:
		return true
	}
}

''')]),
("r-group",None,[(T,GRP,'''	var g run.Group
	addActor(&g, ctx, cfg.runStreams)
	addActor(&g, ctx, cfg.writeTraces)
	g.Add(run.SignalHandler(ctx, os.Interrupt, os.Kill))
	return g.Run()
}

func addActor(g *run.Group, ctx context.Context, f func(context.Context) error) {
	ctx, cancel := context.WithCancel(ctx)
	g.Add(func() error { return f(ctx) }, func(error) { cancel() })
}

''')]),
("r-group2",None,[(T,GRP,'''	var g run.Group
	for _, f := range []func(context.Context) error{cfg.runStreams, cfg.writeTraces} {
		f := f
		ctx, cancel := context.WithCancel(ctx)
		g.Add(func() error { return f(ctx) }, func(error) { cancel() })
	}
	g.Add(run.SignalHandler(ctx, os.Interrupt, os.Kill))
	return g.Run()
}

''')]),
("r-runs",None,[(T,RUNS,'''	ctx, cancel := context.WithCancel(ctx)
	defer cancel()

	var wg sync.WaitGroup
	wg.Add(len(cfg.uris))
	for i := range cfg.uris {
		uri := cfg.uris[i]
		go func() {
			defer wg.Done()
			cfg.runStream(ctx, uri)
		}()
	}

	<-ctx.Done()
	wg.Wait()
	return nil
}

''')]),
("r-for",None,[(T,FOR,'''	for {
		if ctx.Err() != nil {
			return
		}
		if err := cfg.streamOnce(ctx, sc); ctx.Err() == nil {
			cfg.debug.Printf("%s: stream error, will retry (%v)", uri, err)
			contextSleep(ctx, cfg.retryInterval)
		}
	}
}

func (cfg *streamConfig) streamOnce(ctx context.Context, sc *trcweb.StreamClient) error {
	subctx, cancel := context.WithCancel(ctx)
	defer cancel()
	return sc.Stream(subctx, cfg.filter, cfg.traces)
}

''')]),
("r-for2",None,[(T,FOR,'''	for ctx.Err() == nil {
		err := sc.Stream(ctx, cfg.filter, cfg.traces)
		if ctx.Err() != nil {
			cfg.debug.Printf("%s: stream done", uri)
			return
		}
		cfg.debug.Printf("%s: stream error, will retry (%v)", uri, err)
		contextSleep(ctx, cfg.retryInterval)
	}
}

''')]),
("r-wt",None,[(T,WT,'''	enc := json.NewEncoder(cfg.stdout)
	switch cfg.output {
	case "ndjson":
	case "prettyjson":
		enc.SetIndent("", "    ")
	default:
		enc = json.NewEncoder(io.Discard)
	}

	var count uint64
	for {
		select {
		case <-ctx.Done():
			cfg.debug.Printf("emitted trace count %d", count)
			return ctx.Err()
		case tr := <-cfg.traces:
			enc.Encode(tr)
			count++
		}
	}
}
'''),(T,'	"fmt"\n','	"fmt"\n	"io"\n')]),
("r-wt2",None,[(T,WT,'''	write := cfg.newWriter()
	n := 0
	for {
		select {
		case tr := <-cfg.traces:
			n++
			write(tr)
			continue
		case <-ctx.Done():
		}
		break
	}
	cfg.debug.Printf("emitted trace count %d", n)
	return ctx.Err()
}

func (cfg *streamConfig) newWriter() func(trc.Trace) {
	enc := json.NewEncoder(cfg.stdout)
	if cfg.output == "prettyjson" {
		enc.SetIndent("", "    ")
	}
	return func(tr trc.Trace) { enc.Encode(tr) }
}
''')]),
("r-flt",None,[(T,FLT,'''	cfg.filter.IsActive = false
	cfg.filter.IsFinished = !cfg.streamEvents

	streaming := "traces"
	if cfg.streamEvents {
		streaming = "events"
	}

''')]),
("r-flt2",None,[(T,FLT,'''	f, streaming := streamFilter(cfg.filter, cfg.streamEvents)
	cfg.filter = f

'''),(T,"func (cfg *streamConfig) runStreams",'''func streamFilter(f trc.Filter, events bool) (trc.Filter, string) {
	f.IsActive = false
	f.IsFinished = true
	if events {
		f.IsFinished = false
		return f, "events"
	}
	return f, "traces"
}

func (cfg *streamConfig) runStreams''')]),
("r-reg",None,[(R,REG,'''func (cfg *rootConfig) registerFilterFlags(fs *ff.FlagSet) {
	for _, f := range []ff.FlagConfig{
		{LongName: "source", Value: ffval.NewUniqueList(&cfg.sources), Usage: "trace source (repeatable)"},
		{ShortName: 'i', LongName: "id", Value: ffval.NewUniqueList(&cfg.ids), Usage: "trace ID (repeatable)"},
		{ShortName: 'c', LongName: "category", Value: ffval.NewValue(&cfg.category), Usage: "trace category"},
		{ShortName: 'q', LongName: "query", Value: ffval.NewValue(&cfg.query), Usage: "query expression", Placeholder: "REGEX"},
		{ShortName: 'a', LongName: "active", Value: ffval.NewValue(&cfg.isActive), Usage: "only active traces"},
		{ShortName: 'f', LongName: "finished", Value: ffval.NewValue(&cfg.isFinished), Usage: "only finished traces"},
		{ShortName: 'd', LongName: "duration", Value: ffval.NewValue(&cfg.minDuration), Usage: "only finished traces of at least this duration"},
		{LongName: "success", Value: ffval.NewValue(&cfg.isSuccess), Usage: "only successful (non-errored) traces"},
		{LongName: "errored", Value: ffval.NewValue(&cfg.isErrored), Usage: "only errored traces"},
	} {
		f.NoDefault = true
		fs.AddFlag(f)
	}
}

''')]),
("r-sreg",None,[(S,SREG,'''	add := func(short rune, long string, v flagValue, usage string, nodef bool) {
		fs.AddFlag(ff.FlagConfig{ShortName: short, LongName: long, Value: v, Usage: usage, NoDefault: nodef})
	}
	add('n', "limit", ffval.NewValueDefault(&cfg.limit, 10), "maximum number of traces to return", false)
	add(0, "stack-depth", ffval.NewValue(&cfg.stackDepth), "number of stack frames to include with each event", false)
	add(0, "include-request", ffval.NewValue(&cfg.includeRequest), "include search request in output", true)
	add(0, "include-stats", ffval.NewValue(&cfg.includeStats), "include search statistics in output", true)
'''),(S,"type searchConfig struct","type flagValue interface {\n	String() string\n	Set(string) error\n}\n\ntype searchConfig struct")]),
("r-exec",None,[(S,EX,'''	res, err := searcher.Search(ctx, req)
	if err != nil {
		return fmt.Errorf("execute search: %w", err)
	}
	cfg.logResponse(res)
	return cfg.writeResult(ctx, cfg.trim(res))
}

func (cfg *searchConfig) logResponse(res *trc.SearchResponse) {
	cfg.debug.Printf("response: sources: %d (%s)", len(res.Sources), strings.Join(res.Sources, " "))
	cfg.debug.Printf("response: total: %d", res.TotalCount)
}

func (cfg *searchConfig) trim(res *trc.SearchResponse) *trc.SearchResponse {
	out := *res
	if !cfg.includeRequest {
		out.Request = nil
	}
	if !cfg.includeStats {
		out.Stats = nil
	}
	return &out
}
''')]),
("r-wres",None,[(S,blk(s,"	enc := json.NewEncoder(cfg.stdout)","func (cfg *searchConfig) Exec"),'''	marshal := json.Marshal
	if cfg.output == "prettyjson" {
		marshal = func(v any) ([]byte, error) { return json.MarshalIndent(v, "", "    ") }
	}
	data, err := marshal(res)
	if err != nil {
		return fmt.Errorf("marshal response: %w", err)
	}
	if _, err := fmt.Fprintln(cfg.stdout, string(data)); err != nil {
		return fmt.Errorf("write response: %w", err)
	}
	return nil
}

''')]),
("r-searcher",None,[(S,"	var searcher trc.MultiSearcher\n	for _, uri := range cfg.uris {\n		searcher = append(searcher, trcweb.NewSearchClient(http.DefaultClient, uri))\n	}\n","	searcher := newSearcher(http.DefaultClient, cfg.uris...)\n"),(S,"func (cfg *searchConfig) Exec","func newSearcher(client trcweb.HTTPClient, uris ...string) trc.MultiSearcher {\n	ms := make(trc.MultiSearcher, len(uris))\n	for i := range uris {\n		ms[i] = trcweb.NewSearchClient(client, uris[i])\n	}\n	return ms\n}\n\nfunc (cfg *searchConfig) Exec")]),
("r-newtrace",None,[(R,"	ctx, tr := trc.New(ctx, \"trc\", category)\n	tr = trc.LogDecorator(&logWriter{Logger: cfg.trace})(tr)\n	ctx, tr = trc.Put(ctx, tr)\n	return ctx, tr\n","	logged := trc.LogDecorator(&logWriter{Logger: cfg.trace})\n	return trc.New(ctx, \"trc\", category, logged)\n")]),
]
M=[m for m in M if m[0]!="m-retry-noerr"]

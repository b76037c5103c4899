R="cmd/trc/main.go"; S="cmd/trc/search.go"; T="cmd/trc/stream.go"; C="cmd/trc/trc.go"
M=[
("swap-active-flag","C27",[(C,"ffval.NewValue(&cfg.isActive)","ffval.NewValue(&cfg.isFinished)"),(C,"ffval.NewValue(&cfg.isFinished) /*   */, NoDefault: true, Usage: \"only finished traces\"","ffval.NewValue(&cfg.isActive) /*   */, NoDefault: true, Usage: \"only finished traces\"")]),
("dup-target","C27",[(C,"ffval.NewValue(&cfg.isErrored)","ffval.NewValue(&cfg.isSuccess)")]),
("filter-errored","C27",[(R,"IsErrored:   rootConfig.isErrored","IsErrored:   rootConfig.isSuccess")]),
("filter-drop-ids","C27",[(R,"			IDs:         rootConfig.ids,\n","")]),
("duration-always","C27",[(R,"f, ok := filterFlags.GetFlag(\"duration\"); ok && f.IsSet()","_, ok := filterFlags.GetFlag(\"duration\"); ok")]),
("duration-never","C27",[(R,"ok && f.IsSet()","ok && !f.IsSet()")]),
("uri-break","C27",[(R,"			continue\n","			break\n")]),
("uri-path-always","C27",[(R,"		if rootConfig.uriPath != \"\" {\n			u.Path = rootConfig.uriPath\n		}","		u.Path = rootConfig.uriPath")]),
("uri-not-stored","C27",[(R,"		rootConfig.uris[i] = uri\n","		_ = i\n")]),
("uri-first","C27",[(R,"rootConfig.uris[i] = uri","rootConfig.uris[0] = uri; _ = i")]),
("exit0","C27",[(R,"		os.Exit(1)","		os.Exit(0)")]),
("uri-invalid-ignored","C27",[(R,"			return fmt.Errorf(\"%s: invalid: %w\", uri, err)","			continue")]),
("search-first-only","C27",[(S,"		searcher = append(searcher, trcweb.NewSearchClient(http.DefaultClient, uri))","		searcher = append(searcher, trcweb.NewSearchClient(http.DefaultClient, uri))\n		if len(searcher) >= 10 {\n			break\n		}")]),
("search-overwrite","C27",[(S,"searcher = append(searcher, trcweb","searcher = append(searcher[:0], trcweb")]),
("search-uri0","C27",[(S,"trcweb.NewSearchClient(http.DefaultClient, uri)","trcweb.NewSearchClient(http.DefaultClient, cfg.uris[len(uri)*0])")]),
("stack-depth-zero","C27",[(S,"cfg.stackDepth == 0","cfg.stackDepth < 0")]),
("limit-swap","C27",[(S,"Limit:      cfg.limit","Limit:      cfg.stackDepth")]),
("no-limit","C27",[(S,"		Limit:      cfg.limit,\n","")]),
("search-err-print","C27",[(S,"	if err != nil {\n		return fmt.Errorf(\"execute search: %w\", err)\n	}","	if err != nil {\n		cfg.info.Printf(\"execute search: %v\", err)\n		return nil\n	}")]),
("incl-swap","C27",[(S,"if !cfg.includeRequest {","if !cfg.includeStats {"),(S,"	if !cfg.includeStats {\n		cfg.debug.Printf(\"removing stats","	if !cfg.includeRequest {\n		cfg.debug.Printf(\"removing stats")]),
("incl-invert","C27",[(S,"if !cfg.includeStats {","if cfg.includeStats {")]),
("problems-dropped","C27",[(S,"		res.Stats = nil\n","		res.Stats = nil\n		res.Problems = nil\n")]),
("write-err","C27",[(S,"	if err := cfg.writeResult(ctx, res); err != nil {\n		return err\n	}","	cfg.writeResult(ctx, res)")]),
("write-stderr","C27",[(S,"json.NewEncoder(cfg.stdout)","json.NewEncoder(cfg.stderr)")]),
("pretty-swap","C27",[(S,"case \"prettyjson\":\n		enc.SetIndent(\"\", \"    \")\n	case \"ndjson\":\n		//","case \"ndjson\":\n		enc.SetIndent(\"\", \"    \")\n	case \"prettyjson\":\n		//")]),
("stream-active","C27",[(T,"		cfg.filter.IsActive = false\n","")]),
("stream-finished","C27",[(T,"			cfg.filter.IsFinished = true","			cfg.filter.IsFinished = cfg.isFinished")]),
("stream-events-inv","C27",[(T,"if cfg.streamEvents {","if !cfg.streamEvents {")]),
("stream-wait","C27",[(T,"		go func(uri string) {","		func(uri string) {")]),
("stream-shared","C27",[(T,"		go func(uri string) {\n			defer wg.Done()\n			cfg.runStream(ctx, uri)\n		}(uri)","		go func() {\n			defer wg.Done()\n			cfg.runStream(ctx, uri)\n		}()")]),
("stream-noretry","C27",[(T,"			continue                                                        // try again","			return")]),
("stream-sendbuf","C27",[(T,"SendBuffer:    cfg.sendBuf","SendBuffer:    cfg.recvBuf")]),
("stream-intervals","C27",[(T,"RetryInterval: cfg.retryInterval","RetryInterval: cfg.statsInterval")]),
("stream-nofilter","C27",[(T,"sc.Stream(subctx, cfg.filter, cfg.traces)","sc.Stream(subctx, trc.Filter{IsFinished: cfg.filter.IsFinished}, cfg.traces)"),]),
("stream-drop","C27",[(T,"			count++\n			encode(tr)","			count++\n			if len(cfg.traces) < cap(cfg.traces) {\n				encode(tr)\n			}")]),
("stream-twice","C27",[(T,"			count++\n			encode(tr)","			if count++; count == 1 {\n				encode(tr)\n			}\n			encode(tr)")]),
("stream-indent","C27",[(T,"	case \"ndjson\":\n		enc := json.NewEncoder(cfg.stdout)\n","	case \"ndjson\":\n		enc := json.NewEncoder(cfg.stdout)\n		enc.SetIndent(\"\", \" \")\n")]),
("stream-nottl","C27",[(T,"		encode = func(tr trc.Trace) { enc.Encode(tr) }\n	default:","		encode = func(tr trc.Trace) { if tr.Finished() { enc.Encode(tr) } }\n	default:")]),
("exit-deadline","C27",[(R,"errors.Is(err, context.Canceled), ","errors.Is(err, context.Canceled), errors.Is(err, context.DeadlineExceeded), ")]),
# behaviour preserving
("r-helper-filter",None,[(R,'	"github.com/peterbourgon/trc"\n',""),(R,"""		rootConfig.filter = trc.Filter{
			Sources:     rootConfig.sources,
			IDs:         rootConfig.ids,
			Category:    rootConfig.category,
			IsActive:    rootConfig.isActive,
			IsFinished:  rootConfig.isFinished,
			MinDuration: minDuration,
			IsSuccess:   rootConfig.isSuccess,
			IsErrored:   rootConfig.isErrored,
			Query:       rootConfig.query,
		}
""","""		rootConfig.filter = rootConfig.makeFilter(minDuration)
"""),(C,"func (cfg *rootConfig) newTrace(","""func (cfg *rootConfig) makeFilter(minDuration *time.Duration) trc.Filter {
	f := trc.Filter{Sources: cfg.sources, IDs: cfg.ids, Category: cfg.category, Query: cfg.query}
	f.IsActive, f.IsFinished = cfg.isActive, cfg.isFinished
	f.IsSuccess, f.IsErrored = cfg.isSuccess, cfg.isErrored
	f.MinDuration = minDuration
	return f
}

func (cfg *rootConfig) newTrace(""")]),
("r-exit",None,[(R,"""	switch {
	case err == nil, errors.Is(err, context.Canceled), errors.As(err, &(run.SignalError{})):
		os.Exit(0)
	case err != nil:
		fmt.Fprintf(stderr, "error: %v\\n", err)
		os.Exit(1)
	}
""","""	os.Exit(exitCode(stderr, err))
"""),(R,"func exec(","""func exitCode(stderr io.Writer, err error) int {
	if err == nil || errors.Is(err, context.Canceled) || errors.As(err, &(run.SignalError{})) {
		return 0
	}
	fmt.Fprintf(stderr, "error: %v\\n", err)
	return 1
}

func exec(""")]),
("r-exit-ret",None,[(R,"""		os.Exit(0)
	case err != nil:
""","""		return
	default:
""")]),
("r-uri-helper",None,[(R,"""		if !strings.HasPrefix(uri, "http") {
			uri = "http://" + uri
		}

		u, err := url.ParseRequestURI(uri)
		if err != nil {
			return fmt.Errorf("%s: invalid: %w", uri, err)
		}

		if rootConfig.uriPath != "" {
			u.Path = rootConfig.uriPath
		}

		uri = u.String()
		rootConfig.uris[i] = uri
""","""		uri, err := rootConfig.normalizeURI(uri)
		if err != nil {
			return err
		}
		rootConfig.uris[i] = uri
"""),(R,"func exec(","""func (cfg *rootConfig) normalizeURI(uri string) (string, error) {
	if !strings.HasPrefix(uri, "http") {
		uri = "http://" + uri
	}
	u, err := url.ParseRequestURI(uri)
	if err != nil {
		return "", fmt.Errorf("%s: invalid: %w", uri, err)
	}
	if cfg.uriPath != "" {
		u.Path = cfg.uriPath
	}
	return u.String(), nil
}

func exec(""")]),
("r-search-make",None,[(S,"""	var searcher trc.MultiSearcher
	for _, uri := range cfg.uris {
		searcher = append(searcher, trcweb.NewSearchClient(http.DefaultClient, uri))
	}
""","""	searcher := make(trc.MultiSearcher, len(cfg.uris))
	for i, uri := range cfg.uris {
		searcher[i] = trcweb.NewSearchClient(http.DefaultClient, uri)
	}
""")]),
("r-search-helper",None,[(S,"""	var searcher trc.MultiSearcher
	for _, uri := range cfg.uris {
		searcher = append(searcher, trcweb.NewSearchClient(http.DefaultClient, uri))
	}
""","""	searcher := cfg.newSearcher()
"""),(S,"func (cfg *searchConfig) Exec","""func (cfg *searchConfig) newSearcher() trc.MultiSearcher {
	ms := make(trc.MultiSearcher, 0, len(cfg.uris))
	for i := 0; i < len(cfg.uris); i++ {
		ms = append(ms, trcweb.NewSearchClient(http.DefaultClient, cfg.uris[i]))
	}
	return ms
}

func (cfg *searchConfig) Exec""")]),
("r-stack-local",None,[(S,"""	if cfg.stackDepth == 0 {
		cfg.stackDepth = -1 // 0 means all available stacks, -1 means no stacks
	}
""","""	stackDepth := cfg.stackDepth
	if stackDepth == 0 {
		stackDepth = -1
	}
"""),(S,"StackDepth: cfg.stackDepth,","StackDepth: stackDepth,"),(S,"depth: %d\", cfg.stackDepth","depth: %d\", stackDepth")]),
("r-req-fields",None,[(S,"""	req := &trc.SearchRequest{
		Filter:     cfg.filter,
		Limit:      cfg.limit,
		StackDepth: cfg.stackDepth,
	}
""","""	var req trc.SearchRequest
	req.Filter = cfg.filter
	req.Limit = cfg.limit
	req.StackDepth = cfg.stackDepth
"""),(S,"searcher.Search(ctx, req)","searcher.Search(ctx, &req)")]),
("r-write-direct",None,[(S,"""	if err := cfg.writeResult(ctx, res); err != nil {
		return err
	}

	return nil
}""","""	return cfg.writeResult(ctx, res)
}""")]),
("r-write-if",None,[(S,"""	switch cfg.output {
	case "prettyjson":
		enc.SetIndent("", "    ")
	case "ndjson":
		//
	default:
		//
	}
""","""	if cfg.output == "prettyjson" {
		enc.SetIndent("", "    ")
	}
""")]),
("r-stream-bool",None,[(T,"""		if cfg.streamEvents {
			streaming = "events"
			cfg.filter.IsFinished = false
		} else {
			streaming = "traces"
			cfg.filter.IsFinished = true
		}
""","""		cfg.filter.IsFinished = !cfg.streamEvents
		streaming = "traces"
		if cfg.streamEvents {
			streaming = "events"
		}
""")]),
("r-stream-one-enc",None,[(T,"""	var encode func(tr trc.Trace)
	switch cfg.output {
	case "ndjson":
		enc := json.NewEncoder(cfg.stdout)
		encode = func(tr trc.Trace) { enc.Encode(tr) }
	case "prettyjson":
		enc := json.NewEncoder(cfg.stdout)
		enc.SetIndent("", "    ")
		encode = func(tr trc.Trace) { enc.Encode(tr) }
	default:
		encode = func(tr trc.Trace) {}
	}
""","""	enc := json.NewEncoder(cfg.stdout)
	if cfg.output == "prettyjson" {
		enc.SetIndent("", "    ")
	}
	encode := func(tr trc.Trace) { enc.Encode(tr) }
""")]),
("r-stream-client",None,[(T,"""	sc := &trcweb.StreamClient{
		HTTPClient:    http.DefaultClient,
		URI:           uri,
		SendBuffer:    cfg.sendBuf,
		OnRead:        onRead,
		RetryInterval: cfg.retryInterval,
		StatsInterval: cfg.statsInterval,
	}
""","""	sc := cfg.newClient(uri, onRead)
"""),(T,"func (cfg *streamConfig) writeTraces","""func (cfg *streamConfig) newClient(uri string, onRead func(context.Context, string, []byte)) *trcweb.StreamClient {
	sc := trcweb.NewStreamClient(uri)
	sc.HTTPClient = http.DefaultClient
	sc.SendBuffer = cfg.sendBuf
	sc.OnRead = onRead
	sc.RetryInterval = cfg.retryInterval
	sc.StatsInterval = cfg.statsInterval
	return sc
}

func (cfg *streamConfig) writeTraces""")]),
("r-stream-uri-local",None,[(T,"""		go func(uri string) {
			defer wg.Done()
			cfg.runStream(ctx, uri)
		}(uri)""","""		uri := uri
		go func() {
			defer wg.Done()
			cfg.runStream(ctx, uri)
		}()""")]),
("r-stream-filter-local",None,[(T,"	sc := &trcweb.StreamClient{","	filter, traces := cfg.filter, cfg.traces\n	sc := &trcweb.StreamClient{"),(T,"sc.Stream(subctx, cfg.filter, cfg.traces)","sc.Stream(subctx, filter, traces)")]),
("r-stream-once-helper",None,[(T,"""		case err := <-errc:
			cfg.debug.Printf("%s: stream error, will retry (%v)", uri, err) // our stream failed (usually) independently, so we try again
			cancel()                                                        // just to be safe, but note this means contextSleep needs ctx, not subctx
			contextSleep(ctx, cfg.retryInterval)                            // can be interrupted by parent context
			continue                                                        // try again
""","""		case err := <-errc:
			cancel()
			cfg.retry(ctx, uri, err)
"""),(T,"func (cfg *streamConfig) writeTraces","""func (cfg *streamConfig) retry(ctx context.Context, uri string, err error) {
	cfg.debug.Printf("%s: stream error, will retry (%v)", uri, err)
	contextSleep(ctx, cfg.retryInterval)
}

func (cfg *streamConfig) writeTraces""")]),
]

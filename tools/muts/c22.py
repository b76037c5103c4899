S='trcweb/trace_server.go'
T='search_types.go'
C='cmd/trc/stream.go'
M=[
("no-defer-cancel","C22",[(S,'	defer cancel()\n\n	es := ','	_ = cancel\n\n	es := ')]),
("cancel-some","C22",[(S,'	defer cancel()\n\n	es := ','	es := '),(S,'			return fmt.Errorf("read server-sent event: %w", err)\n','			cancel()\n			return fmt.Errorf("read server-sent event: %w", err)\n'),(S,'''		if errors.Is(err, eventsource.ErrClosed) {
			return nil
''','''		if errors.Is(err, eventsource.ErrClosed) {
			cancel()
			return nil
''')]),
("no-wait","C22",[(S,'		cancel()\n		<-donec\n','		cancel()\n')]),
("no-cancel","C22",[(S,'		cancel()\n		<-donec\n','		<-donec\n')]),
("wait-first","C22",[(S,'		cancel()\n		<-donec\n','		<-donec\n		cancel()\n')]),
("ticker","C22",[(S,'		defer stats.Stop()\n','')]),
("ticker-tick","C22",[(S,'''		stats := time.NewTicker(stats)
		defer stats.Stop()
''','''		ticks := time.Tick(stats)
'''),(S,'case <-stats.C:','case <-ticks:')]),
("body-after-status","C22",[(S,'''	defer func() {
		io.Copy(io.Discard, httpRes.Body)
		httpRes.Body.Close()
	}()

	if httpRes.StatusCode != http.StatusOK {
		return nil, fmt.Errorf("read HTTP response: server gave HTTP %d (%s)", httpRes.StatusCode, http.StatusText(httpRes.StatusCode))
	}
''','''	if httpRes.StatusCode != http.StatusOK {
		return nil, fmt.Errorf("read HTTP response: server gave HTTP %d (%s)", httpRes.StatusCode, http.StatusText(httpRes.StatusCode))
	}
	defer func() {
		io.Copy(io.Discard, httpRes.Body)
		httpRes.Body.Close()
	}()
''')]),
("body-noclose","C22",[(S,'		httpRes.Body.Close()\n','')]),
("req-noctx","C22",[(S,'http.NewRequestWithContext(ctx, "GET", c.uri','http.NewRequest("GET", c.uri')]),
("multi-unbuf","C22",[(T,'make(chan tuple, len(ms))','make(chan tuple)'),(T,'		t := <-tuplec\n','''		var t tuple
		select {
		case t = <-tuplec:
		case <-ctx.Done():
			return nil, ctx.Err()
		}
''')]),
("errc-unbuf","C22",[(C,'make(chan error, 1)  ','make(chan error)  '),(C,'			<-errc                                   // wait for it to stop\n','')]),
("run-nocancel","C22",[(C,'			cancel()                                 // signal the Stream goroutine to stop\n			<-errc                                   // wait for it to stop\n','')]),
("run-err-nocancel","C22",[(C,'			cancel()                                                        // just to be safe, but note this means contextSleep needs ctx, not subctx\n','')]),
("reporter-nostop","C22",[(C,'		defer ticker.Stop()\n','')]),
("reporter-nowait","C22",[(C,'''			case <-ctx.Done():
				return
			}
		}
	}()
	defer func() {
		<-reporterDone
	}()
''','''			}
		}
	}()
''')]),
("es-close-late","C22",[(S,'''	go func() {
		<-ctx.Done()
		es.Close()
	}()
''','''	go func(ctx context.Context) {
		<-ctx.Done()
		es.Close()
	}(context.Background())
''')]),
("nowg","C22",[(C,'	wg.Wait()\n',''),(C,'	cancel()\n	cfg.debug','	cfg.debug'),(C,'''func (cfg *streamConfig) runStreams(ctx context.Context) error {
	ctx, cancel := context.WithCancel(ctx)
''','''func (cfg *streamConfig) runStreams(ctx context.Context) error {
''')]),
# preserving
("r-two-defers",None,[(S,'''	defer func() {
		cancel()
		<-donec
	}()
''','''	defer func() { <-donec }()
	defer cancel()
''')]),
("r-wg",None,[(S,'''		close(donec)
	}()
	defer func() {
		cancel()
		<-donec
	}()
''','''		wg.Done()
	}()
	defer func() {
		cancel()
		wg.Wait()
	}()
'''),(S,'	go func() {\n		stats, err := s','	var wg sync.WaitGroup\n	wg.Add(1)\n	go func() {\n		stats, err := s'),(S,'		donec   = make(chan struct{})\n',''),(S,'	"strings"\n	"time"\n','	"strings"\n	"sync"\n	"time"\n')]),
("r-defer-close",None,[(S,'''	go func() {
		stats, err := s.streamer().Stream(ctx, f, tracec)
		tr.LazyTracef("%s (error: %v)", stats, err)
		close(donec)
	}()
''','''	go func() {
		defer close(donec)
		stats, err := s.streamer().Stream(ctx, f, tracec)
		tr.LazyTracef("%s (error: %v)", stats, err)
	}()
''')]),
("r-body-simple",None,[(S,'''	defer func() {
		io.Copy(io.Discard, httpRes.Body)
		httpRes.Body.Close()
	}()
''','''	defer drain(httpRes)
'''),(S,'''//
//
//

func (s *TraceServer) handleStream''','''func drain(res *http.Response) {
	io.Copy(io.Discard, res.Body)
	res.Body.Close()
}

func (s *TraceServer) handleStream''')]),
("r-es-defer",None,[(S,'	es := eventsource.New(req, c.RetryInterval)\n','	es := eventsource.New(req, c.RetryInterval)\n	defer es.Close()\n')]),
("r-ticker-name",None,[(S,'		stats := time.NewTicker(stats)\n		defer stats.Stop()\n','		ticker := time.NewTicker(stats)\n		defer func() { ticker.Stop() }()\n'),(S,'case <-stats.C:','case <-ticker.C:')]),
("r-run-defer",None,[(C,'''	cfg.debug.Printf("started streams")
	<-ctx.Done()
	cfg.debug.Printf("stopping streams...")
	cancel()
	wg.Wait()
''','''	defer cancel()
	cfg.debug.Printf("started streams")
	<-ctx.Done()
	cfg.debug.Printf("stopping streams...")
	wg.Wait()
''')]),
("r-run-helper",None,[(C,'''	for ctx.Err() == nil {
		subctx, cancel := context.WithCancel(ctx)                         // per-iteration sub-context
		errc := make(chan error, 1)                                       // per-iteration stream result
		go func() { errc <- sc.Stream(subctx, cfg.filter, cfg.traces) }() // returns only on terminal errors

		select {
		case <-subctx.Done():
			cfg.debug.Printf("%s: stream done", uri) // parent context was canceled, so we should stop
			cancel()                                 // signal the Stream goroutine to stop
			<-errc                                   // wait for it to stop
			return                                   // we're done

		case err := <-errc:
			cfg.debug.Printf("%s: stream error, will retry (%v)", uri, err) // our stream failed (usually) independently, so we try again
			cancel()                                                        // just to be safe, but note this means contextSleep needs ctx, not subctx
			contextSleep(ctx, cfg.retryInterval)                            // can be interrupted by parent context
			continue                                                        // try again
		}
	}
}
''','''	for ctx.Err() == nil {
		if done := cfg.streamOnce(ctx, uri, sc); done {
			return
		}
		contextSleep(ctx, cfg.retryInterval)
	}
}

func (cfg *streamConfig) streamOnce(ctx context.Context, uri string, sc *trcweb.StreamClient) bool {
	subctx, cancel := context.WithCancel(ctx)
	defer cancel()
	errc := make(chan error, 1)
	go func() { errc <- sc.Stream(subctx, cfg.filter, cfg.traces) }()

	select {
	case <-subctx.Done():
		cfg.debug.Printf("%s: stream done", uri)
		cancel()
		<-errc
		return true

	case err := <-errc:
		cfg.debug.Printf("%s: stream error, will retry (%v)", uri, err)
		return false
	}
}
''')]),
("r-multi-wg",None,[(T,'''		go func(id string, s Searcher) {''','''		go func(id string, s Searcher) {
			defer func() {}()''')]),
]

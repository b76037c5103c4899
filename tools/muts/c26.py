S='trcweb/trace_server.go'
RECV='''				if recv.ID() == tr.ID() {
					continue // don't publish our own trace events
				}
'''
ENC='''				data, err := json.Marshal(recv)
				if err != nil {
					tr.Errorf("JSON marshal trace: %v", err)
					continue
				}

				if err := encoder.Encode(eventsource.Event{
					Type: "trace",
					Data: data,
				}); err != nil {
					tr.Errorf("encode trace: %v", err)
					continue
				}
'''
STATS='''				stats, err := s.streamer().StreamStats(ctx, tracec)
				if err != nil {
					tr.Errorf("get stats: %v", err)
					continue
				}

				data, err := json.Marshal(stats)
				if err != nil {
					tr.Errorf("JSON marshal stats: %v", err)
					continue
				}

				if err := encoder.Encode(eventsource.Event{
					Type: "stats",
					Data: data,
				}); err != nil {
					tr.Errorf("encode stats: %v", err)
					continue
				}
'''
GO='''	go func() {
		stats, err := s.streamer().Stream(ctx, f, tracec)
		tr.LazyTracef("%s (error: %v)", stats, err)
		close(donec)
	}()
'''
UNM='''			var str trc.StaticTrace
			if err := json.Unmarshal(ev.Data, &str); err != nil {
				return fmt.Errorf("decode trace event: %w", err)
			}
			select {
			case <-ctx.Done():
			case ch <- &str:
			}
'''
FOR='''	for {
		ev, err := es.Read()
'''
M=[
("skip-category","C26",[(S,'if recv.ID() == tr.ID() {','if recv.ID() == tr.ID() || recv.Category() == tr.Category() {')]),
("skip-source","C26",[(S,'if recv.ID() == tr.ID() {','if recv.Source() == tr.Source() {')]),
("trace-type-typo","C26",[(S,'Type: "trace",','Type: "traces",')]),
("client-type-typo","C26",[(S,'case "trace":','case "event":')]),
("coalesce","C26",[(S,ENC,'''				for len(tracec) > 0 {
					recv = <-tracec
				}
'''+ENC)]),
("encode-err-twice","C26",[(S,ENC,ENC.replace('''					tr.Errorf("encode trace: %v", err)
					continue
''','''					tr.Errorf("encode trace: %v", err)
					encoder.Encode(eventsource.Event{Type: "trace", Data: data})
					continue
'''))]),
("skip-active","C26",[(S,RECV,RECV+'''				if f.IsFinished && !recv.Finished() {
					continue
				}
''')]),
("bg-context","C26",[(S,'ctx, cancel := context.WithCancel(ctx)\n\n	go func','ctx, cancel := context.WithCancel(context.Background())\n\n	go func')]),
("client-default","C26",[(S,'			case ch <- &str:\n			}','			case ch <- &str:\n			default:\n			}')]),
("client-noctx","C26",[(S,'''			select {
			case <-ctx.Done():
			case ch <- &str:
			}
''','''			ch <- &str
''')]),
("client-shared","C26",[(S,UNM,UNM.replace("			var str trc.StaticTrace\n","")),(S,FOR,"	var str trc.StaticTrace\n"+FOR)]),
("client-skip-bad","C26",[(S,'return fmt.Errorf("decode trace event: %w", err)','tr.Errorf("decode trace event: %v", err)\n				continue')]),
("client-errclosed","C26",[(S,'''		if err != nil {
			return fmt.Errorf("read server-sent event: %w", err)
		}
''','''		if err != nil {
			tr.Errorf("read server-sent event: %v", err)
			return nil
		}
''')]),
("client-nofilter","C26",[(S,'encodeFilter(f, r)','encodeFilter(trc.Filter{Query: f.Query}, r)')]),
("client-order","C26",[(S,'''		encodeFilter(f, r)

		req = r''','''		encodeFilter(f, r)
		r.URL.RawQuery = query.Encode()

		req = r''')]),
("client-stats-buf","C26",[(S,'query.Set("stats", c.StatsInterval.String())','query.Set("stats", c.RetryInterval.String())')]),
("client-swap","C26",[(S,'query.Set("sendbuf", strconv.Itoa(c.SendBuffer))','query.Set("sendbuf", strconv.Itoa(int(c.StatsInterval)))')]),
("server-buf-key","C26",[(S,'Query().Get("sendbuf"), strconv.Atoi','Query().Get("sendbuffer"), strconv.Atoi')]),
("onread-traces","C26",[(S,'''		c.OnRead(ctx, ev.Type, ev.Data)

		switch ev.Type {
		case "init":
''','''		switch ev.Type {
		case "init":
			c.OnRead(ctx, ev.Type, ev.Data)
''')]),
("normalize-ignored","C26",[(S,'''		http.Error(w, err.Error(), http.StatusBadRequest)
		return
	}

	tr.LazyTracef("stream filter %s", f)''','''		tr.Errorf("%v", err)
	}

	tr.LazyTracef("stream filter %s", f)''')]),
("retry-max","C26",[(S,'c.RetryInterval = max','c.RetryInterval = def')]),
("stats-min","C26",[(S,'c.StatsInterval = min','c.StatsInterval = 0')]),
("retry-zero","C26",[(S,'c.RetryInterval == 0 {','c.RetryInterval < 0 {')]),
("retry-swap","C26",[(S,'es := eventsource.New(req, c.RetryInterval)','es := eventsource.New(req, c.StatsInterval)')]),
("filter-finished","C26",[(S,'s.streamer().Stream(ctx, f, tracec)','s.streamer().Stream(ctx, trc.Filter{Sources: f.Sources, IDs: f.IDs, Category: f.Category, IsActive: f.IsActive, IsFinished: true, MinDuration: f.MinDuration, IsSuccess: f.IsSuccess, IsErrored: f.IsErrored, Query: f.Query}, tracec)')]),
("collector-only","C26",[(S,'s.streamer().Stream(ctx, f, tracec)','s.Collector.Stream(ctx, f, tracec)')]),
("stop-on-stats-err","C26",[(S,'''					tr.Errorf("get stats: %v", err)
					continue''','''					tr.Errorf("get stats: %v", err)
					return''')]),
("client-stop-on-finished","C26",[(S,'''			case ch <- &str:
			}
''','''			case ch <- &str:
			}
			if f.IsFinished && len(f.IDs) == 1 {
				return nil
			}
''')]),
("stats-other","C26",[(S,'s.streamer().StreamStats(ctx, tracec)','s.streamer().StreamStats(ctx, make(chan trc.Trace))')]),
("client-finished-only","C26",[(S,'''			select {
			case <-ctx.Done():
			case ch <- &str:
			}
''','''			if !str.TraceFinished && f.IsFinished {
				continue
			}
			select {
			case <-ctx.Done():
			case ch <- &str:
			}
''')]),
# behaviour-preserving
("r-helper",None,[(S,ENC,'''				if err := sendEvent(encoder, "trace", recv); err != nil {
					tr.Errorf("trace: %v", err)
				}
'''),(S,STATS,'''				stats, err := s.streamer().StreamStats(ctx, tracec)
				if err != nil {
					tr.Errorf("get stats: %v", err)
					continue
				}
				if err := sendEvent(encoder, "stats", stats); err != nil {
					tr.Errorf("stats: %v", err)
					continue
				}
'''),(S,'// StreamClient streams trace data','''func sendEvent(encoder *eventsource.Encoder, typ string, v any) error {
	data, err := json.Marshal(v)
	if err != nil {
		return fmt.Errorf("marshal %s: %w", typ, err)
	}
	if err := encoder.Encode(eventsource.Event{Type: typ, Data: data}); err != nil {
		return fmt.Errorf("encode %s: %w", typ, err)
	}
	return nil
}

// StreamClient streams trace data''')]),
("r-method",None,[(S,'	eventsource.Handler(func(lastId string, encoder *eventsource.Encoder, stop <-chan bool) {','	handler := func(lastId string, encoder *eventsource.Encoder, stop <-chan bool) {'),(S,'	}).ServeHTTP(w, r)\n','	}\n	eventsource.Handler(handler).ServeHTTP(w, r)\n')]),
("r-consts",None,[(S,'Type: "trace",','Type: evTrace,'),(S,'case "trace":','case evTrace:'),(S,'//\n\n// StreamClient','const evTrace = "trace"\n\n// StreamClient')]),
("r-invert",None,[(S,RECV+'\n'+ENC,'''				if recv.ID() != tr.ID() {
					data, err := json.Marshal(recv)
					if err != nil {
						tr.Errorf("JSON marshal trace: %v", err)
					} else if err := encoder.Encode(eventsource.Event{Type: "trace", Data: data}); err != nil {
						tr.Errorf("encode trace: %v", err)
					}
				}
''')]),
("r-ownid",None,[(S,'if recv.ID() == tr.ID() {','if own := tr.ID(); recv.ID() == own {')]),
("r-client-helper",None,[(S,UNM,'''			str, err := decodeTrace(ev.Data)
			if err != nil {
				return err
			}
			select {
			case <-ctx.Done():
			case ch <- str:
			}
'''),(S,'//\n\n// StreamClient','''func decodeTrace(data []byte) (*trc.StaticTrace, error) {
	var str trc.StaticTrace
	if err := json.Unmarshal(data, &str); err != nil {
		return nil, fmt.Errorf("decode trace event: %w", err)
	}
	return &str, nil
}

// StreamClient''')]),
("r-client-ifelse",None,[(S,'''		if errors.Is(err, eventsource.ErrClosed) {
			return nil
		}
		if err != nil {
			return fmt.Errorf("read server-sent event: %w", err)
		}
''','''		if err != nil {
			if errors.Is(err, eventsource.ErrClosed) {
				return nil
			}
			return fmt.Errorf("read server-sent event: %w", err)
		}
''')]),
("r-client-switch",None,[(S,'''		if errors.Is(err, eventsource.ErrClosed) {
			return nil
		}
		if err != nil {
			return fmt.Errorf("read server-sent event: %w", err)
		}
''','''		switch {
		case err == nil:
		case errors.Is(err, eventsource.ErrClosed):
			return nil
		default:
			return fmt.Errorf("read server-sent event: %w", err)
		}
''')]),
("r-newreq",None,[(S,'''	var req *http.Request
	{
		uri, err := url.Parse(c.URI)
		if err != nil {
			return err
		}

		query := uri.Query()
		if c.SendBuffer > 0 {
			query.Set("sendbuf", strconv.Itoa(c.SendBuffer))
		}
		if c.StatsInterval > 0 {
			query.Set("stats", c.StatsInterval.String())
		}
		uri.RawQuery = query.Encode()

		r, err := http.NewRequest("GET", uri.String(), nil)
		if err != nil {
			return err
		}

		encodeFilter(f, r)

		req = r
	}
''','''	req, err := c.newRequest(f)
	if err != nil {
		return err
	}
'''),(S,'// Stream trace data from the remote','''func (c *StreamClient) newRequest(f trc.Filter) (*http.Request, error) {
	uri, err := url.Parse(c.URI)
	if err != nil {
		return nil, err
	}

	query := uri.Query()
	if c.SendBuffer > 0 {
		query.Set("sendbuf", strconv.Itoa(c.SendBuffer))
	}
	if c.StatsInterval > 0 {
		query.Set("stats", c.StatsInterval.String())
	}
	uri.RawQuery = query.Encode()

	r, err := http.NewRequest("GET", uri.String(), nil)
	if err != nil {
		return nil, err
	}

	encodeFilter(f, r)
	return r, nil
}

// Stream trace data from the remote''')]),
("r-encode-first",None,[(S,'''		r, err := http.NewRequest("GET", uri.String(), nil)
		if err != nil {
			return err
		}

		encodeFilter(f, r)
''','''		r, err := http.NewRequest("GET", c.URI, nil)
		if err != nil {
			return err
		}
		r.URL = uri
		encodeFilter(f, r)
''')]),
("r-clamp",None,[(S,'''	if def, min, max := 3*time.Second, 1*time.Second, 60*time.Second; c.RetryInterval == 0 {
		c.RetryInterval = def
	} else if c.RetryInterval < min {
		c.RetryInterval = min
	} else if c.RetryInterval > max {
		c.RetryInterval = max
	}

	if def, min, max := 10*time.Second, 1*time.Second, 60*time.Second; c.StatsInterval == 0 {
		c.StatsInterval = def
	} else if c.StatsInterval < min {
		c.StatsInterval = min
	} else if c.StatsInterval > max {
		c.StatsInterval = max
	}
''','''	c.RetryInterval = clamp(c.RetryInterval, 3*time.Second, 1*time.Second, 60*time.Second)
	c.StatsInterval = clamp(c.StatsInterval, 10*time.Second, 1*time.Second, 60*time.Second)
'''),(S,'// NewStreamClient constructs','''func clamp(d, def, lo, hi time.Duration) time.Duration {
	switch {
	case d == 0:
		return def
	case d < lo:
		return lo
	case d > hi:
		return hi
	}
	return d
}

// NewStreamClient constructs''')]),
("r-streamer-var",None,[(S,'	go func() {\n		stats, err := s.streamer().Stream','	str := s.streamer()\n	go func() {\n		stats, err := str.Stream'),(S,'stats, err := s.streamer().StreamStats','stats, err := str.StreamStats')]),
("r-split-handler",None,[(S,'''	var f trc.Filter
	switch {
	case strings.Contains(r.Header.Get("content-type"), "application/json"):
		body := http.MaxBytesReader(w, r.Body, maxRequestBodySizeBytes)
		if err := json.NewDecoder(body).Decode(&f); err != nil {
			tr.Errorf("decode filter error (%v), using default", err)
		}
	default:
		f = parseFilter(r)
	}
''','''	f := streamFilter(w, r, tr)
'''),(S,'func (s *TraceServer) handleStream','''func streamFilter(w http.ResponseWriter, r *http.Request, tr trc.Trace) trc.Filter {
	if !strings.Contains(r.Header.Get("content-type"), "application/json") {
		return parseFilter(r)
	}
	var f trc.Filter
	body := http.MaxBytesReader(w, r.Body, maxRequestBodySizeBytes)
	if err := json.NewDecoder(body).Decode(&f); err != nil {
		tr.Errorf("decode filter error (%v), using default", err)
	}
	return f
}

func (s *TraceServer) handleStream''')]),
]

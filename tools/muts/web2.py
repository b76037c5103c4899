T="trcweb/trace_server.go"; U="trcweb/util.go"; N="trcweb/render.go"; W="trcweb/middleware.go"
t=open("/repo/"+T).read(); u=open("/repo/"+U).read(); n=open("/repo/"+N).read(); w=open("/repo/"+W).read()
def blk(src,a,b):
    i=src.index(a); j=src.index(b,i); return src[i:j]
REQ=blk(t,"	switch {\n	case isJSON:","	data.Problems = append(data.Problems, data.Request.Normalize()")
SEARCH=blk(t,"	body, err := json.Marshal(req)\n","//\n//\n//\n\nfunc (s *TraceServer) handleStream")
LOOP=blk(t,"		initc := make(chan struct{}, 1)","	}).ServeHTTP(w, r)")
INIT=blk(t,"	if min, max := 0, 100000; c.SendBuffer","// NewStreamClient")
MKREQ=blk(t,"	var req *http.Request\n	{","	// Ensure the connection is closed")
CLOOP=blk(t,"	for {\n		ev, err := es.Read()","zzz") if False else t[t.index("	for {\n		ev, err := es.Read()"):]
ENC=blk(u,"	if f.IsActive {\n","	r.URL.RawQuery")
PAR=blk(u,"	return trc.Filter{\n","func nonEmpty")
RNG=blk(u,"	v, err := parse(s)\n	switch {","func parseDurationPointer")
RJ=blk(n,"	var buf bytes.Buffer\n	enc := json","func requestExplicitlyAccepts")
RR=blk(n,"	var (\n		asksForJSON","func renderHTML")
RH=blk(n,"	code := http.StatusOK\n	body, err := renderTemplate","func renderJSON")
M=[
# mutants
("m-init-block","C26",[(T,"		initc := make(chan struct{}, 1)\n","		initc := make(chan struct{}, 1)\n		if sendbuf == 0 {\n			initc = nil\n		}\n"),(T,"		initc <- struct{}{}\n","		if initc != nil {\n			initc <- struct{}{}\n		}\n")]),
("m-same-id","C26",[(T,"				if recv.ID() == tr.ID() {","				if recv.Category() == tr.Category() {")]),
("m-same-src","C26",[(T,"				if recv.ID() == tr.ID() {","				if recv.ID() == tr.ID() || recv.Source() == tr.Source() && recv.Category() == tr.Category() {")]),
("m-marshal-ret","C26",[(T,'					tr.Errorf("get stats: %v", err)\n					continue','					tr.Errorf("get stats: %v", err)\n					return')]),
("m-client-stats-skip","C26",[(T,"		case \"stats\":\n			var stats trc.StreamStats\n","		case \"stats\":\n			if f.IsFinished {\n				return nil\n			}\n			var stats trc.StreamStats\n")]),
("m-client-eof","C26",[(T,"		if errors.Is(err, eventsource.ErrClosed) {","		if errors.Is(err, eventsource.ErrClosed) || errors.Is(err, io.EOF) {")]),
("m-client-ctxdone-ret","C26",[(T,"			select {\n			case <-ctx.Done():\n			case ch <- &str:\n			}","			select {\n			case ch <- &str:\n			default:\n				select {\n				case ch <- &str:\n				case <-time.After(c.RetryInterval):\n				case <-ctx.Done():\n				}\n			}")]),
("m-client-hoist","C26",[(T,"	for {\n		ev, err := es.Read()","	var str trc.StaticTrace\n	for {\n		ev, err := es.Read()"),(T,"			var str trc.StaticTrace\n			if err := json","			str = trc.StaticTrace{}\n			if err := json")]),
("m-sendbuf-cap","C26",[(T,'query.Set("sendbuf", strconv.Itoa(c.SendBuffer))','query.Set("sendbuf", strconv.Itoa(c.SendBuffer-1))')]),
("m-stats-str","C26",[(T,'query.Set("stats", c.StatsInterval.String())','query.Set("stats", strconv.Itoa(int(c.StatsInterval.Seconds())))')]),
("m-encode-lost","C26",[(T,"		uri.RawQuery = query.Encode()\n\n		r, err := http.NewRequest(\"GET\", uri.String(), nil)\n		if err != nil {\n			return err\n		}\n\n		encodeFilter(f, r)\n","		r, err := http.NewRequest(\"GET\", uri.String(), nil)\n		if err != nil {\n			return err\n		}\n\n		encodeFilter(f, r)\n\n		r.URL.RawQuery = query.Encode()\n")]),
("m-json-lim","C20",[(T,"		data.Request = req\n","		data.Request = req\n		if data.Request.StackDepth < 0 {\n			data.Request.StackDepth = 0\n		}\n")]),
("m-json-content","C20",[(T,'isJSON = strings.Contains(r.Header.Get("content-type"), "application/json")','isJSON = r.Header.Get("content-type") == "application/json"')]),
("m-204","C20",[(T,"	if httpRes.StatusCode != http.StatusOK {\n		return nil,","	if httpRes.StatusCode >= 400 {\n		return nil,")]),
("m-decode-eof","C20",[(T,"	if err := json.NewDecoder(httpRes.Body).Decode(&res); err != nil {","	if err := json.NewDecoder(httpRes.Body).Decode(&res); err != nil && err != io.EOF {")]),
("m-req-eof","C20",[(T,"Decode(&req); err != nil {","Decode(&req); err != nil && err != io.EOF {")]),
("m-srv-merge","C20",[(T,"	} else if res != nil {\n		data.Response = *res\n	}","	} else if res != nil && len(res.Traces) > 0 {\n		data.Response = *res\n	}")]),
("m-url-query","C20",[(U,'		IDs:         urlquery["id"],','		IDs:         strings.Split(urlquery.Get("id"), ","),'),(U,'	"sort"\n','	"sort"\n	"strings"\n')]),
("m-min0","C20",[(U,"	if f.MinDuration != nil {\n		q.Set","	if f.MinDuration != nil && *f.MinDuration > 0 {\n		q.Set")]),
("m-min-ms","C20",[(U,'q.Set("min", f.MinDuration.String())','q.Set("min", f.MinDuration.Truncate(time.Microsecond).String())')]),
("m-filt-over","C20",[(U,'		q.Set("category", f.Category)','		q.Add("category", f.Category)')]),
("m-trim","C20",[(U,'		Query:       urlquery.Get("q"),','		Query:       strings.TrimSpace(urlquery.Get("q")),'),(U,'	"sort"\n','	"sort"\n	"strings"\n')]),
("m-body-close","C22",[(T,"	defer func() {\n		io.Copy(io.Discard, httpRes.Body)\n		httpRes.Body.Close()\n	}()\n\n	if httpRes.StatusCode != http.StatusOK {","	defer func() {\n		if err == nil {\n			io.Copy(io.Discard, httpRes.Body)\n			httpRes.Body.Close()\n		}\n	}()\n\n	if httpRes.StatusCode != http.StatusOK {")]),
("m-wait-first","C22",[(T,"		cancel()\n		<-donec\n","		<-donec\n		cancel()\n")]),
("m-json-partial","C21",[(N,"		buf.Reset()\n","")]),
("m-json-direct","C21",[(N,"	enc := json.NewEncoder(&buf)","	enc := json.NewEncoder(w)"),]),
("m-html-code","C21",[(N,"	w.WriteHeader(code)\n	w.Write(body)","	if code != http.StatusOK {\n		w.WriteHeader(code)\n	}\n	w.Write(body[:len(body):len(body)])\n	if tr.Errored() {\n		w.WriteHeader(http.StatusInternalServerError)\n	}")]),
("m-both","C21",[(N,"		useHTML     = acceptsHTML && !asksForJSON","		useHTML     = acceptsHTML && !asksForJSON && !acceptsJSON")]),
("m-ctype","C21",[(N,'	w.Header().Set("content-type", "text/html; charset=utf-8")\n	w.WriteHeader(code)\n','	w.WriteHeader(code)\n	w.Header().Set("content-type", "text/html; charset=utf-8")\n')]),
("m-rng","C21",[(U,"	case err == nil && v > max:\n		return max","	case err == nil && v > max && max > 0:\n		return def + max")]),
("m-rng2","C21",[(T,"parseRange(r.URL.Query().Get(\"stats\"), time.ParseDuration, 1*time.Second, 10*time.Second, 60*time.Second)","parseDefault(r.URL.Query().Get(\"stats\"), time.ParseDuration, 10*time.Second)")]),
("m-accept-lower","C21",[(N,"		if err != nil {\n			continue\n		}\n		mediaTypes[mediaType]","		if err != nil {\n			break\n		}\n		mediaTypes[mediaType]")]),
("m-accept-q","C21",[(N,"		mediaTypes[mediaType] = params","		if params[\"q\"] == \"\" {\n			mediaTypes[mediaType] = params\n		}")]),
# refactors
("r-parsereq",None,[(T,REQ,'''	req, err := readSearchRequest(w, r, isJSON)
	if err != nil {
		tr.Errorf("decode JSON request failed (%v) -- returning error", err)
		http.Error(w, err.Error(), http.StatusBadRequest)
		return
	}
	data.Request = req

'''),(T,"	res, err := s.searcher()","	res, err2 := s.searcher()"),(T,"	if err != nil {\n		data.Problems = append(data.Problems, fmt.Errorf(\"execute select request: %w\", err))","	if err2 != nil {\n		data.Problems = append(data.Problems, fmt.Errorf(\"execute select request: %w\", err2))"),(T,"// SearchClient implements",'''func readSearchRequest(w http.ResponseWriter, r *http.Request, isJSON bool) (req trc.SearchRequest, err error) {
	if isJSON {
		err = json.NewDecoder(http.MaxBytesReader(w, r.Body, maxRequestBodySizeBytes)).Decode(&req)
		return req, err
	}

	q := r.URL.Query()
	req.Bucketing = parseBucketing(q["b"])
	req.Filter = parseFilter(r)
	req.Limit = parseRange(q.Get("n"), strconv.Atoi, trc.SearchLimitMin, trc.SearchLimitDefault, trc.SearchLimitMax)
	req.StackDepth = parseDefault(q.Get("stack"), strconv.Atoi, 0)
	return req, nil
}

// SearchClient implements''')]),
("r-search",None,[(T,SEARCH,'''	httpReq, err := c.newRequest(ctx, req)
	if err != nil {
		return nil, err
	}

	httpRes, err := c.client.Do(httpReq)
	if err != nil {
		return nil, fmt.Errorf("execute HTTP request: %w", err)
	}
	defer drain(httpRes.Body)

	res, err := decodeSearchResponse(httpRes)
	if err != nil {
		return nil, err
	}

	tr.LazyTracef("%s -> total %d, matched %d, returned %d", c.uri, res.TotalCount, res.MatchCount, len(res.Traces))

	return res, nil
}

func drain(rc io.ReadCloser) {
	defer rc.Close()
	io.Copy(io.Discard, rc)
}

func (c *SearchClient) newRequest(ctx context.Context, req *trc.SearchRequest) (*http.Request, error) {
	var buf bytes.Buffer
	if err := json.NewEncoder(&buf).Encode(req); err != nil {
		return nil, fmt.Errorf("encode search request: %w", err)
	}
	httpReq, err := http.NewRequestWithContext(ctx, http.MethodGet, c.uri, &buf)
	if err != nil {
		return nil, fmt.Errorf("create HTTP request: %w", err)
	}
	h := httpReq.Header
	h.Set("Content-Type", "application/json; charset=utf-8")
	h.Set("Accept", "application/json")
	return httpReq, nil
}

func decodeSearchResponse(httpRes *http.Response) (*trc.SearchResponse, error) {
	if code := httpRes.StatusCode; code != http.StatusOK {
		return nil, fmt.Errorf("read HTTP response: server gave HTTP %d (%s)", code, http.StatusText(code))
	}
	res := new(SearchData)
	if err := json.NewDecoder(httpRes.Body).Decode(res); err != nil {
		return nil, fmt.Errorf("decode search response: %w", err)
	}
	return &res.Response, nil
}

''')]),
("r-search2",None,[(T,SEARCH,'''	var res SearchData
	if err := c.roundTrip(ctx, req, &res); err != nil {
		return nil, err
	}

	tr.LazyTracef("%s -> total %d, matched %d, returned %d", c.uri, res.Response.TotalCount, res.Response.MatchCount, len(res.Response.Traces))

	return &res.Response, nil
}

func (c *SearchClient) roundTrip(ctx context.Context, in, out any) error {
	body, err := json.Marshal(in)
	if err != nil {
		return fmt.Errorf("encode search request: %w", err)
	}

	httpReq, err := http.NewRequestWithContext(ctx, "GET", c.uri, bytes.NewReader(body))
	if err != nil {
		return fmt.Errorf("create HTTP request: %w", err)
	}

	for k, v := range map[string]string{
		"content-type": "application/json; charset=utf-8",
		"accept":       "application/json",
	} {
		httpReq.Header.Set(k, v)
	}

	httpRes, err := c.client.Do(httpReq)
	if err != nil {
		return fmt.Errorf("execute HTTP request: %w", err)
	}
	defer httpRes.Body.Close()
	defer io.Copy(io.Discard, httpRes.Body)

	switch httpRes.StatusCode {
	case http.StatusOK:
		if err := json.NewDecoder(httpRes.Body).Decode(out); err != nil {
			return fmt.Errorf("decode search response: %w", err)
		}
		return nil
	default:
		return fmt.Errorf("read HTTP response: server gave HTTP %d (%s)", httpRes.StatusCode, http.StatusText(httpRes.StatusCode))
	}
}

''')]),
("r-loop",None,[(T,LOOP,'''		send := func(typ string, v any) error {
			data, err := json.Marshal(v)
			if err != nil {
				return fmt.Errorf("JSON marshal %s: %w", typ, err)
			}
			if err := encoder.Encode(eventsource.Event{Type: typ, Data: data}); err != nil {
				return fmt.Errorf("encode %s: %w", typ, err)
			}
			return nil
		}

		if err := send("init", map[string]any{"filter": f, "sendbuf": cap(tracec)}); err != nil {
			tr.Errorf("%v", err)
		}

		for {
			select {
			case <-stats.C:
				stats, err := s.streamer().StreamStats(ctx, tracec)
				if err != nil {
					tr.Errorf("get stats: %v", err)
					continue
				}
				if err := send("stats", stats); err != nil {
					tr.Errorf("%v", err)
					continue
				}
				tr.Tracef("stats: %s", stats.String())

			case recv := <-tracec:
				if recv.ID() == tr.ID() {
					continue // don't publish our own trace events
				}
				if err := send("trace", recv); err != nil {
					tr.Errorf("%v", err)
				}

			case <-ctx.Done():
				tr.LazyTracef("stopping: context done (%v)", ctx.Err())
				return

			case <-stop:
				tr.LazyTracef("stopping: stop signal (canceling context)")
				cancel()
				return
			}
		}
''')]),
("r-loop2",None,[(T,"		initc := make(chan struct{}, 1)\n		initc <- struct{}{}\n\n","		initc := make(chan struct{}, 1)\n		initc <- struct{}{}\n		self := tr.ID()\n\n"),(T,"				if recv.ID() == tr.ID() {\n					continue // don't publish our own trace events\n				}\n","				if id := recv.ID(); id == self {\n					continue\n				}\n"),(T,"			case <-stop:\n				tr.LazyTracef(\"stopping: stop signal (canceling context)\")\n				cancel()\n				return\n","			case <-stop:\n				tr.LazyTracef(\"stopping: stop signal\")\n				return\n")]),
("r-loop3",None,[(T,LOOP,'''		sess := &streamSession{tr: tr, enc: encoder, in: tracec, streamer: s.streamer()}
		sess.init(f)
		sess.run(ctx, stats.C, stop)
'''),(T,"// StreamClient streams",'''type streamSession struct {
	tr       trc.Trace
	enc      *eventsource.Encoder
	in       chan trc.Trace
	streamer Streamer
}

func (ss *streamSession) encode(typ string, v any) bool {
	data, err := json.Marshal(v)
	if err != nil {
		ss.tr.Errorf("JSON marshal %s: %v", typ, err)
		return false
	}
	if err := ss.enc.Encode(eventsource.Event{Type: typ, Data: data}); err != nil {
		ss.tr.Errorf("encode %s: %v", typ, err)
		return false
	}
	return true
}

func (ss *streamSession) init(f trc.Filter) {
	ss.encode("init", map[string]any{"filter": f, "sendbuf": cap(ss.in)})
}

func (ss *streamSession) run(ctx context.Context, tick <-chan time.Time, stop <-chan bool) {
	for {
		select {
		case <-tick:
			stats, err := ss.streamer.StreamStats(ctx, ss.in)
			if err != nil {
				ss.tr.Errorf("get stats: %v", err)
				continue
			}
			if ss.encode("stats", stats) {
				ss.tr.Tracef("stats: %s", stats.String())
			}
		case tr := <-ss.in:
			if tr.ID() != ss.tr.ID() {
				ss.encode("trace", tr)
			}
		case <-ctx.Done():
			ss.tr.LazyTracef("stopping: context done (%v)", ctx.Err())
			return
		case <-stop:
			ss.tr.LazyTracef("stopping: stop signal")
			return
		}
	}
}

// StreamClient streams''')]),
("r-done",None,[(T,'''	go func() {
		stats, err := s.streamer().Stream(ctx, f, tracec)
		tr.LazyTracef("%s (error: %v)", stats, err)
		close(donec)
	}()
	defer func() {
		cancel()
		<-donec
	}()
''','''	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		defer wg.Done()
		stats, err := s.streamer().Stream(ctx, f, tracec)
		tr.LazyTracef("%s (error: %v)", stats, err)
	}()
	defer wg.Wait()
	defer cancel()
'''),(T,"		donec   = make(chan struct{})\n",""),(T,'	"strings"\n','	"strings"\n	"sync"\n')]),
("r-init",None,[(T,INIT,'''	c.SendBuffer = clamp(c.SendBuffer, 0, 100000)

	if c.OnRead == nil {
		c.OnRead = func(context.Context, string, []byte) {}
	}

	c.RetryInterval = clamp(orDefault(c.RetryInterval, 3*time.Second), 1*time.Second, 60*time.Second)
	c.StatsInterval = clamp(orDefault(c.StatsInterval, 10*time.Second), 1*time.Second, 60*time.Second)
}

func orDefault[T comparable](v, def T) T {
	var zero T
	if v == zero {
		return def
	}
	return v
}

func clamp[T int | time.Duration](v, lo, hi T) T {
	return max(lo, min(v, hi))
}

''')]),
("r-mkreq",None,[(T,"	\"net/url\"\n",""),(T,MKREQ,'''	req, err := c.newRequest(f)
	if err != nil {
		return err
	}

'''),(T,"// Stream trace data from",'''func (c *StreamClient) newRequest(f trc.Filter) (*http.Request, error) {
	req, err := http.NewRequest(http.MethodGet, c.URI, nil)
	if err != nil {
		return nil, err
	}

	q := req.URL.Query()
	if n := c.SendBuffer; n > 0 {
		q.Set("sendbuf", strconv.Itoa(n))
	}
	q.Set("stats", c.StatsInterval.String())
	req.URL.RawQuery = q.Encode()

	encodeFilter(f, req)

	return req, nil
}

// Stream trace data from''')]),
("r-cloop",None,[(T,CLOOP,'''	for {
		ev, err := es.Read()
		switch {
		case err == nil:
			// OK
		case errors.Is(err, eventsource.ErrClosed):
			return nil
		default:
			return fmt.Errorf("read server-sent event: %w", err)
		}
		c.OnRead(ctx, ev.Type, ev.Data)
		if err := handleEvent(ctx, tr, ev, ch); err != nil {
			return err
		}
	}
}

func handleEvent(ctx context.Context, tr trc.Trace, ev eventsource.Event, ch chan<- trc.Trace) error {
	switch ev.Type {
	case "init":
		tr.LazyTracef("init: %s", string(ev.Data))

	case "trace":
		str := &trc.StaticTrace{}
		if err := json.Unmarshal(ev.Data, str); err != nil {
			return fmt.Errorf("decode trace event: %w", err)
		}
		select {
		case ch <- str:
		case <-ctx.Done():
		}

	case "stats":
		var stats trc.StreamStats
		if err := json.Unmarshal(ev.Data, &stats); err != nil {
			return fmt.Errorf("invalid stats event: %w", err)
		}
		tr.LazyTracef("%s", stats)

	default:
		tr.LazyTracef("unknown event type %q", ev.Type)
	}
	return nil
}
''')]),
("r-cloop2",None,[(T,"	es := eventsource.New(req, c.RetryInterval)\n	go func() {\n		<-ctx.Done()\n		es.Close()\n	}()\n","	es := eventsource.New(req, c.RetryInterval)\n	go closeWhenDone(ctx, es)\n"),(T,"// NewStreamClient constructs","func closeWhenDone(ctx context.Context, c interface{ Close() }) {\n	<-ctx.Done()\n	c.Close()\n}\n\n// NewStreamClient constructs")]),
("r-cloop3",None,[(T,"	ctx, cancel := context.WithCancel(ctx)\n	defer cancel()\n\n	es := eventsource.New(req, c.RetryInterval)\n	go func() {\n		<-ctx.Done()\n		es.Close()\n	}()\n","	es := eventsource.New(req, c.RetryInterval)\n	stop := context.AfterFunc(ctx, func() { es.Close() })\n	defer func() {\n		if stop() {\n			es.Close()\n		}\n	}()\n")]),
("r-enc",None,[(U,ENC,'''	for _, b := range []struct {
		key string
		val bool
	}{
		{"active", f.IsActive},
		{"finished", f.IsFinished},
		{"success", f.IsSuccess},
		{"errored", f.IsErrored},
	} {
		if b.val {
			q.Set(b.key, "true")
		}
	}
	if d := f.MinDuration; d != nil {
		q.Set("min", d.String())
	}
	if f.Query != "" {
		q.Set("q", f.Query)
	}
''')]),
("r-enc2",None,[(U,ENC,'''	setBool := func(k string, v bool) {
		if v {
			q.Set(k, "true")
		}
	}
	setBool("active", f.IsActive)
	setBool("finished", f.IsFinished)
	setBool("success", f.IsSuccess)
	setBool("errored", f.IsErrored)
	if f.MinDuration != nil {
		q["min"] = []string{f.MinDuration.String()}
	}
	if len(f.Query) > 0 {
		q.Set("q", f.Query)
	}
'''),(U,"	for _, source := range f.Sources {\n		q.Add(\"source\", source)\n	}\n	for _, id := range f.IDs {\n		q.Add(\"id\", id)\n	}\n",'	addAll(q, "source", f.Sources)\n	addAll(q, "id", f.IDs)\n'),(U,"func parseFilter",'func addAll(q map[string][]string, k string, vs []string) {\n	for i := range vs {\n		q[k] = append(q[k], vs[i])\n	}\n}\n\nfunc parseFilter')]),
("r-par",None,[(U,PAR,'''	var f trc.Filter
	f.Sources = nonEmpty(urlquery["source"])
	f.IDs = append(f.IDs, urlquery["id"]...)
	f.Category = urlquery.Get("category")
	f.Query = urlquery.Get("q")
	_, f.IsActive = urlquery["active"]
	_, f.IsFinished = urlquery["finished"]
	_, f.IsSuccess = urlquery["success"]
	_, f.IsErrored = urlquery["errored"]
	if d, err := time.ParseDuration(urlquery.Get("min")); err == nil {
		f.MinDuration = &d
	}
	return f
}

''')]),
("r-rng",None,[(U,RNG,'''	v, err := parse(s)
	if err != nil {
		return def
	}
	if v < min {
		v = min
	}
	if v > max {
		v = max
	}
	return v
}

''')]),
("r-json",None,[(N,RJ,'''	body, err := json.MarshalIndent(data, "", "    ")
	if err != nil {
		tr.LazyErrorf("marshal JSON: %v", err)
		writeBody(w, http.StatusInternalServerError, "application/json; charset=utf-8", []byte(`{"error":"failed to marshal response"}`))
		return
	}
	tr.LazyTracef("marshaled JSON response (%s)", trcutil.HumanizeBytes(len(body)))
	writeBody(w, http.StatusOK, "application/json; charset=utf-8", append(body, '\\n'))
}

func writeBody(w http.ResponseWriter, code int, contentType string, body []byte) {
	w.Header().Set("content-type", contentType)
	w.WriteHeader(code)
	w.Write(body)
}

''')]),
("r-rr",None,[(N,RR,'''	if requestExplicitlyAccepts(r, "text/html") && !r.URL.Query().Has("json") {
		renderHTML(ctx, w, fs, templateName, funcs, data)
		return
	}
	renderJSON(ctx, w, data)
}

''')]),
("r-rr2",None,[(N,RR,'''	_, asksForJSON := r.URL.Query()["json"]
	render := renderJSON
	if !asksForJSON && requestExplicitlyAccepts(r, "text/html") {
		render = func(ctx context.Context, w http.ResponseWriter, data any) {
			renderHTML(ctx, w, fs, templateName, funcs, data)
		}
	}
	render(ctx, w, data)
}

''')]),
("r-html",None,[(N,RH,'''	w.Header().Set("Content-Type", "text/html; charset=utf-8")

	body, err := renderTemplate(ctx, fs, templateName, funcs, data)
	if err != nil {
		tr.LazyErrorf("render template: %v", err)
		w.WriteHeader(http.StatusInternalServerError)
		fmt.Fprintf(w, `<html><body><h1>Error</h1><p>%s</p>`, template.HTMLEscapeString(err.Error()))
		return
	}

	w.WriteHeader(http.StatusOK)
	w.Write(body)
}

''')]),
("r-accept",None,[(N,'	accept := parseAcceptMediaTypes(r)\n	for _, want := range acceptable {\n		if _, ok := accept[want]; ok {\n			return true\n		}\n	}\n	return false\n','	for _, a := range strings.Split(r.Header.Get("accept"), ",") {\n		mediaType, _, err := mime.ParseMediaType(a)\n		if err == nil && contains(acceptable, mediaType) {\n			return true\n		}\n	}\n	return false\n')]),
("r-serve",None,[(T,'	switch Categorize(r) {\n	case "stream":\n		s.handleStream(w, r)\n	default:\n		s.handleSearch(w, r)\n	}\n','	if Categorize(r) == "stream" {\n		s.handleStream(w, r)\n		return\n	}\n	s.handleSearch(w, r)\n')]),
("r-mw",None,[(W,w[w.index("			iw := newInterceptor(w)"):w.index("//\n//\n//\n\ntype interceptor")],'''			iw := newInterceptor(w)
			begin := time.Now()
			defer logResponse(tr, iw, begin)

			next.ServeHTTP(iw, r.WithContext(ctx))
		})
	}
}

func logResponse(tr trc.Trace, iw *interceptor, begin time.Time) {
	tr.LazyTracef("HTTP %d, %s, %s", iw.Code(), trcutil.HumanizeBytes(iw.Written()), trcutil.HumanizeDuration(time.Since(begin)))
}

''')]),
]
M+=[("m-100","C20",[(T,"	if httpRes.StatusCode != http.StatusOK {\n		return nil,","	if httpRes.StatusCode/100 != 2 {\n		return nil,")]),
("m-3xx","C20",[(T,"	if httpRes.StatusCode != http.StatusOK {\n		return nil,","	if httpRes.StatusCode < 200 || httpRes.StatusCode > 299 {\n		return nil,")]),
("r-200",None,[(T,"	if httpRes.StatusCode != http.StatusOK {\n		return nil,","	if httpRes.StatusCode < 200 || httpRes.StatusCode > 200 {\n		return nil,")]),
("r-200b",None,[(T,"	if httpRes.StatusCode != http.StatusOK {\n		return nil,","	if ok := httpRes.StatusCode == 200; !ok {\n		return nil,")]),
]
M=[m for m in M if m[0] not in ("m-init-block","m-json-content","m-filt-over","m-json-partial")]

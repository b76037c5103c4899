S='trcweb/trace_server.go'
U='trcweb/util.go'
R='trcweb/render.go'
M=[
("nobody-limit","C21",[(S,'''		body := http.MaxBytesReader(w, r.Body, maxRequestBodySizeBytes)
		var req trc''','''		body := r.Body
		var req trc''')]),
("body-limit-big","C21",[(U,'maxRequestBodySizeBytes = 1 * 1024 * 1024','maxRequestBodySizeBytes = 1 * 1024 * 1024 * 1024')]),
("stream-body","C21",[(S,'''		body := http.MaxBytesReader(w, r.Body, maxRequestBodySizeBytes)
		if err''','''		body := io.Reader(r.Body)
		if err''')]),
("readall","C21",[(S,'''		body := http.MaxBytesReader(w, r.Body, maxRequestBodySizeBytes)
		var req trc.SearchRequest
		if err := json.NewDecoder(body).Decode(&req); err != nil {''','''		var req trc.SearchRequest
		body, err := io.ReadAll(r.Body)
		if err == nil {
			err = json.Unmarshal(body, &req)
		}
		if err != nil {''')]),
("ticker-zero","C21",[(S,'time.ParseDuration, 1*time.Second, 10*time.Second','time.ParseDuration, 0*time.Second, 10*time.Second')]),
("range-nomin","C21",[(U,'''	case err == nil && v < min:
		return min
''','')]),
("range-nomax","C21",[(U,'''	case err == nil && v > max:
		return max
''','')]),
("range-swap","C21",[(U,'''	case err == nil && v < min:
		return min
''','''	case err == nil && v < min:
		return v
''')]),
("sendbuf-default","C21",[(S,'parseRange(r.URL.Query().Get("sendbuf"), strconv.Atoi, 0, 100, 100000)','parseDefault(r.URL.Query().Get("sendbuf"), strconv.Atoi, 100)')]),
("sendbuf-huge","C21",[(S,'strconv.Atoi, 0, 100, 100000)','strconv.Atoi, 0, 100, 1000000000)')]),
("stats-nil","C21",[(S,'''	if data.Response.Stats == nil {
		data.Response.Stats = trc.NewSearchStats(data.Request.Bucketing)
	}
''','')]),
("res-nil","C21",[(S,'	} else if res != nil {\n','	} else {\n')]),
("neg-json-first","C21",[(R,'useHTML     = acceptsHTML && !asksForJSON','useHTML     = acceptsHTML && !asksForJSON && !acceptsJSON')]),
("neg-ignore-json","C21",[(R,'useHTML     = acceptsHTML && !asksForJSON','useHTML     = acceptsHTML')]),
("neg-default-html","C21",[(R,'''	default:
		renderJSON(ctx, w, data)
''','''	default:
		renderHTML(ctx, w, fs, templateName, funcs, data)
''')]),
("ctype-late","C21",[(R,'''	w.Header().Set("content-type", "application/json; charset=utf-8")
	w.WriteHeader(code)
''','''	w.WriteHeader(code)
	w.Header().Set("content-type", "application/json; charset=utf-8")
''')]),
("ctype-wrong","C21",[(R,'"application/json; charset=utf-8"','"text/html; charset=utf-8"')]),
("html-200","C21",[(R,'''		code = http.StatusInternalServerError
		body =''','''		body =''')]),
("json-200","C21",[(R,'''		code = http.StatusInternalServerError
		tr.''','''		tr.''')]),
("json-direct","C21",[(R,'enc := json.NewEncoder(&buf)','enc := json.NewEncoder(w)')]),
("json-badbody","C21",[(R,'{"error":"failed to marshal response"}','{"error":failed to marshal response}')]),
("norecover","C21",[(R,'''	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("PANIC: %v", x)
		}
	}()
''','')]),
("recover-noerr","C21",[(R,'			err = fmt.Errorf("PANIC: %v", x)\n','			tr.Errorf("PANIC: %v", x)\n')]),
("exec-err","C21",[(R,'''		return nil, fmt.Errorf("execute template: %w", err)
''','''		tr.Errorf("execute template: %v", err)
''')]),
("accept-break","C21",[(R,'''		if err != nil {
			continue
		}
		mediaTypes''','''		if err != nil {
			break
		}
		mediaTypes''')]),
("accept-sep","C21",[(R,'r.Header.Get("accept"), ",")','r.Header.Get("accept"), ";")')]),
("cat","C21",[(S,'''		return "stream"
	}
	return "traces"''','''		return "events"
	}
	return "traces"''')]),
("idx","C21",[(S,'parseRange(urlquery.Get("n")','parseRange(urlquery["n"][0]')]),
("bucket-idx","C21",[(U,'''	if len(ds) <= 0 {
		return nil
	}

''','')]),
("double-status","C21",[(S,'''			http.Error(w, err.Error(), http.StatusBadRequest)
			return
		}
		data.Req''','''			http.Error(w, err.Error(), http.StatusBadRequest)
		}
		data.Req''')]),
# preserving
("r-switch",None,[(R,'''	switch {
	case useHTML:
		renderHTML(ctx, w, fs, templateName, funcs, data)
	case useJSON:
		renderJSON(ctx, w, data)
	default:
		renderJSON(ctx, w, data)
	}
''','''	_ = useJSON
	if useHTML {
		renderHTML(ctx, w, fs, templateName, funcs, data)
		return
	}
	renderJSON(ctx, w, data)
''')]),
("r-inline-render",None,[(S,'renderResponse(ctx, w, r, assets.FS, "traces.html", nil, data)','''if !r.URL.Query().Has("json") && requestExplicitlyAccepts(r, "text/html") {
		renderHTML(ctx, w, assets.FS, "traces.html", nil, data)
	} else {
		renderJSON(ctx, w, data)
	}
	_ = renderResponse'''),]),
("r-write",None,[(R,'	buf.WriteTo(w)\n','	w.Write(buf.Bytes())\n')]),
("r-marshal",None,[(R,'''	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetIndent("", "    ")

	code := http.StatusOK
	if err := enc.Encode(data); err != nil {
		code = http.StatusInternalServerError
		tr.LazyErrorf("marshal JSON: %v", err)
		buf.Reset()
		buf.WriteString(`{"error":"failed to marshal response"}`)
	} else {
		tr.LazyTracef("marshaled JSON response (%s)", trcutil.HumanizeBytes(buf.Len()))
	}
''','''	code := http.StatusOK
	body, err := json.MarshalIndent(data, "", "    ")
	if err != nil {
		code = http.StatusInternalServerError
		tr.LazyErrorf("marshal JSON: %v", err)
		body = []byte(`{"error":"failed to marshal response"}`)
	} else {
		tr.LazyTracef("marshaled JSON response (%s)", trcutil.HumanizeBytes(len(body)))
	}
'''),(R,'	buf.WriteTo(w)\n','	w.Write(body)\n')]),
("r-respond",None,[(R,'''	w.Header().Set("content-type", "application/json; charset=utf-8")
	w.WriteHeader(code)
	buf.WriteTo(w)
''','''	respond(w, code, "application/json; charset=utf-8", buf.Bytes())
'''),(R,'''	w.Header().Set("content-type", "text/html; charset=utf-8")
	w.WriteHeader(code)
	w.Write(body)
}
''','''	respond(w, code, "text/html; charset=utf-8", body)
}

func respond(w http.ResponseWriter, code int, contentType string, body []byte) {
	w.Header().Set("content-type", contentType)
	w.WriteHeader(code)
	w.Write(body)
}
''')]),
("r-range-if",None,[(U,'''	v, err := parse(s)
	switch {
	case err != nil:
		return def
	case err == nil && v < min:
		return min
	case err == nil && v > max:
		return max
	default:
		return v
	}
''','''	v, err := parse(s)
	if err != nil {
		return def
	}
	if v < min {
		v = min
	}
	if v > max {
		v = max
	}
	return v
''')]),
("r-accept-single",None,[(R,'''func requestExplicitlyAccepts(r *http.Request, acceptable ...string) bool {
	accept := parseAcceptMediaTypes(r)
	for _, want := range acceptable {
		if _, ok := accept[want]; ok {
			return true
		}
	}
	return false
}''','''func requestExplicitlyAccepts(r *http.Request, want string) bool {
	_, ok := parseAcceptMediaTypes(r)[want]
	return ok
}''')]),
("r-accept-set",None,[(R,'''			continue
		}
		mediaTypes[mediaType] = params
''','''			continue
		}
		if _, dup := mediaTypes[mediaType]; !dup {
			mediaTypes[mediaType] = params
		} else {
			mediaTypes[mediaType] = params
		}
''')]),
("r-accept-nest",None,[(R,'''		if err != nil {
			continue
		}
		mediaTypes[mediaType] = params
''','''		if err == nil {
			mediaTypes[mediaType] = params
		}
''')]),
("r-body-var",None,[(S,'''		body := http.MaxBytesReader(w, r.Body, maxRequestBodySizeBytes)
		var req trc.SearchRequest
		if err := json.NewDecoder(body).Decode(&req); err != nil {''','''		r.Body = http.MaxBytesReader(w, r.Body, maxRequestBodySizeBytes)
		var req trc.SearchRequest
		if err := json.NewDecoder(r.Body).Decode(&req); err != nil {''')]),
("r-body-helper",None,[(S,'''		body := http.MaxBytesReader(w, r.Body, maxRequestBodySizeBytes)
		var req trc.SearchRequest
		if err := json.NewDecoder(body).Decode(&req); err != nil {''','''		var req trc.SearchRequest
		if err := decodeBody(w, r, &req); err != nil {'''),(S,'''		body := http.MaxBytesReader(w, r.Body, maxRequestBodySizeBytes)
		if err := json.NewDecoder(body).Decode(&f); err != nil {''','''		if err := decodeBody(w, r, &f); err != nil {'''),(S,'''// SearchClient implements [trc''','''func decodeBody(w http.ResponseWriter, r *http.Request, dst any) error {
	body := http.MaxBytesReader(w, r.Body, maxRequestBodySizeBytes)
	return json.NewDecoder(body).Decode(dst)
}

// SearchClient implements [trc''')]),
("r-tmpl-split",None,[(R,'''	var templateBuf bytes.Buffer
	if err := templateFile.Execute(&templateBuf, data); err != nil {
		return nil, fmt.Errorf("execute template: %w", err)
	}
''','''	templateBuf := &bytes.Buffer{}
	if execErr := templateFile.Execute(templateBuf, data); execErr != nil {
		return nil, fmt.Errorf("execute template: %w", execErr)
	}
''')]),
("r-stats-init",None,[(S,'''	if err != nil {
		data.Problems = append(data.Problems, fmt.Errorf("execute select request: %w", err))
	} else if res != nil {
		data.Response = *res
	}
''','''	switch {
	case err != nil:
		data.Problems = append(data.Problems, fmt.Errorf("execute select request: %w", err))
	case res != nil:
		data.Response = *res
	}
''')]),
("r-serve-if",None,[(S,'''	switch Categorize(r) {
	case "stream":
		s.handleStream(w, r)
	default:
		s.handleSearch(w, r)
	}
''','''	if Categorize(r) == "stream" {
		s.handleStream(w, r)
		return
	}
	s.handleSearch(w, r)
''')]),
("r-serve-direct",None,[(S,'''	switch Categorize(r) {
	case "stream":
		s.handleStream(w, r)
	default:
		s.handleSearch(w, r)
	}
''','''	if requestExplicitlyAccepts(r, "text/event-stream") {
		s.handleStream(w, r)
	} else {
		s.handleSearch(w, r)
	}
''')]),
]

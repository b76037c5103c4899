U='trcweb/util.go'
S='trcweb/trace_server.go'
H='trcweb/assets/traces.html'
ENC_TAIL='''	if f.Query != "" {
		q.Set("q", f.Query)
	}
	r.URL.RawQuery = q.Encode()
'''
M=[
("tag-dash","C20",[("trace_static.go",'`json:"errored,omitempty"`','`json:"-"`')]),
("tag-dup","C20",[("trace_static.go",'`json:"errored,omitempty"`','`json:"Finished,omitempty"`')]),
("tag-dup2","C20",[("filter.go",'`json:"is_success,omitempty"`','`json:"is_errored,omitempty"`')]),
("sources-set","C20",[(U,'q.Add("source", source)','q.Set("source", source)')]),
("ids-first","C20",[(U,'''	for _, id := range f.IDs {
		q.Add("id", id)
	}
''','''	if len(f.IDs) > 0 {
		q.Set("id", f.IDs[0])
	}
''')]),
("ids-break","C20",[(U,'''		q.Add("id", id)
''','''		q.Add("id", id)
		if len(q["id"]) >= 10 {
			break
		}
''')]),
("finished-missing","C20",[(U,'''	if f.IsFinished {
		q.Set("finished", "true")
	}
''','')]),
("finished-under-active","C20",[(U,'''	if f.IsFinished {
		q.Set("finished", "true")
	}
''','''	if f.IsFinished && !f.IsErrored {
		q.Set("finished", "true")
	}
''')]),
("swap-success","C20",[(U,'q.Set("success", "true")','q.Set("errored", "true")'),(U,'''	if f.IsErrored {
		q.Set("errored", "true")''','''	if f.IsErrored {
		q.Set("success", "true")''')]),
("bool-false","C20",[(U,'''	if f.IsActive {
		q.Set("active", "true")
	}
''','''	q.Set("active", strconv.FormatBool(f.IsActive))
'''),(U,'	"net/http"\n','	"net/http"\n	"strconv"\n')]),
("min-trunc","C20",[(U,'f.MinDuration.String()','f.MinDuration.Truncate(time.Millisecond).String()')]),
("min-positive","C20",[(U,'if f.MinDuration != nil {','if f.MinDuration != nil && *f.MinDuration > 0 {')]),
("category-lower","C20",[(U,'q.Set("category", f.Category)','q.Set("category", strings.ToLower(f.Category))'),(U,'	"sort"\n','	"sort"\n	"strings"\n')]),
("q-key","C20",[(U,'urlquery.Get("q")','urlquery.Get("query")')]),
("parse-has","C20",[(U,'urlquery.Has("success")','!urlquery.Has("errored")')]),
("parse-inv","C20",[(U,'urlquery.Has("success")','!urlquery.Has("success")')]),
("parse-first","C20",[(U,'urlquery["id"]','nonEmpty([]string{urlquery.Get("id")})')]),
("parse-missing","C20",[(U,'		IsFinished:  urlquery.Has("finished"),\n','')]),
("parse-swap","C20",[(U,'urlquery.Has("active")','urlquery.Has("finished")'),(U,'IsFinished:  urlquery.Has("finished")','IsFinished:  urlquery.Has("active")')]),
("raw-early","C20",[(U,ENC_TAIL,'''	r.URL.RawQuery = q.Encode()
	if f.Query != "" {
		q.Set("q", f.Query)
	}
''')]),
("raw-drop","C20",[(U,'q := r.URL.Query()','q := url.Values{}'),(U,'	"net/http"\n','	"net/http"\n	"net/url"\n')]),
("page-key","C20",[(H,'name="min"','name="duration"')]),
("page-key2","C20",[(H,'&errored','&error')]),
("server-min-key","C20",[(U,'urlquery.Get("min")','urlquery.Get("duration")'),(U,'q.Set("min"','q.Set("duration"')]),
("client-status","C20",[(S,'httpRes.StatusCode != http.StatusOK','httpRes.StatusCode >= http.StatusInternalServerError')]),
("client-nostatus","C20",[(S,'httpRes.StatusCode != http.StatusOK','httpRes.StatusCode == http.StatusNotFound')]),
("client-ignore-dec","C20",[(S,'''Decode(&res); err != nil {''','''Decode(&res); err != nil && !errors.Is(err, io.ErrUnexpectedEOF) {''')]),
("client-eof","C20",[(S,'''Decode(&res); err != nil {''','''Decode(&res); err != nil && err != io.EOF {''')]),
("client-ct","C20",[(S,'	httpReq.Header.Set("content-type", "application/json; charset=utf-8")\n','')]),
("client-filter","C20",[(S,'json.Marshal(req)','json.Marshal(req.Filter)')]),
("client-mod","C20",[(S,'	return &res.Response, nil\n','	if len(res.Response.Traces) > req.Limit {\n		res.Response.Traces = res.Response.Traces[:1]\n	}\n	return &res.Response, nil\n')]),
("srv-err-ignored","C20",[(S,'''			http.Error(w, err.Error(), http.StatusBadRequest)
			return
		}
		data.Request = req
''','''			req = trc.SearchRequest{}
		}
		data.Request = req
''')]),
("srv-noreturn","C20",[(S,'''			http.Error(w, err.Error(), http.StatusBadRequest)
			return
		}
		data.Request = req
''','''			http.Error(w, err.Error(), http.StatusBadRequest)
		}
		data.Request = req
''')]),
("srv-200","C20",[(S,'''			http.Error(w, err.Error(), http.StatusBadRequest)
			return
		}
		data.Request = req
''','''			http.Error(w, err.Error(), http.StatusOK)
			return
		}
		data.Request = req
''')]),
("srv-limit-cap","C20",[(S,'		data.Request = req\n','		if req.Limit > 100 {\n			req.Limit = 100\n		}\n		data.Request = req\n')]),
("srv-drop-stack","C20",[(S,'		data.Request = req\n','		data.Request = req\n		data.Request.StackDepth = 0\n')]),
("srv-filter-only","C20",[(S,'		data.Request = req\n','		data.Request.Filter = req.Filter\n		data.Request.Limit = req.Limit\n')]),
("srv-keys","C20",[(S,'urlquery.Get("n"), strconv','urlquery.Get("limit"), strconv')]),
("srv-nostack","C20",[(S,'			StackDepth: parseDefault(urlquery.Get("stack"), strconv.Atoi, 0),\n','')]),
("srv-err","C20",[(S,'data.Problems = append(data.Problems, fmt.Errorf("execute select request: %w", err))','tr.Errorf("execute select request: %v", err)')]),
("srv-trunc","C20",[(S,'		data.Response = *res\n','		data.Response = *res\n		data.Response.TotalCount = len(res.Traces)\n')]),
("srv-collector","C20",[(S,'''	if s.Searcher != nil {
		return s.Searcher
	}
	return s.Collector
''','''	if s.Collector != nil {
		return s.Collector
	}
	return s.Searcher
''')]),
("srv-ctx","C20",[(S,'s.searcher().Search(ctx, &data.Request)','s.searcher().Search(context.Background(), &data.Request)')]),
("srv-json-type","C20",[(S,'isJSON = strings.Contains(r.Header.Get("content-type"), "application/json")','isJSON = strings.Contains(r.Header.Get("accept"), "application/json")')]),
("empty-source","C20",[(U,'nonEmpty(urlquery["source"])','urlquery["source"]')]),
("nonempty-broken","C20",[(U,'if s != "" {','if s != "" || len(ss) == 1 {')]),
# behaviour preserving
("r-reorder",None,[(U,'''	if f.IsActive {
		q.Set("active", "true")
	}
''',''),(U,ENC_TAIL,'''	if f.IsActive {
		q.Set("active", "true")
	}
'''+ENC_TAIL)]),
("r-helper",None,[(U,'''	if f.IsActive {
		q.Set("active", "true")
	}
	if f.IsFinished {
		q.Set("finished", "true")
	}
''','''	setFlag := func(key string, set bool) {
		if set {
			q.Set(key, "true")
		}
	}
	setFlag("active", f.IsActive)
	setFlag("finished", f.IsFinished)
''')]),
("r-split",None,[(U,'''	if f.IsSuccess {
		q.Set("success", "true")
	}
	if f.IsErrored {
		q.Set("errored", "true")
	}
''','''	encodeOutcome(f, q)
'''),(U,'func parseFilter','''func encodeOutcome(f trc.Filter, q url.Values) {
	if f.IsSuccess {
		q.Set("success", "true")
	}
	if f.IsErrored {
		q.Set("errored", "true")
	}
}

func parseFilter'''),(U,'	"net/http"\n','	"net/http"\n	"net/url"\n')]),
("r-index",None,[(U,'''	for _, id := range f.IDs {
		q.Add("id", id)
	}
''','''	for i := 0; i < len(f.IDs); i++ {
		q.Add("id", f.IDs[i])
	}
''')]),
("r-put",None,[(U,'''	for _, id := range f.IDs {
		q.Add("id", id)
	}
''','''	if len(f.IDs) > 0 {
		q["id"] = append(q["id"], f.IDs...)
	}
''')]),
("r-len",None,[(U,'if f.Query != "" {','if len(f.Query) > 0 {')]),
("r-parse-vars",None,[(U,'''	return trc.Filter{
		Sources: ''','''	f := trc.Filter{
		Sources: '''),(U,'''		Query:       urlquery.Get("q"),
	}
''','''	}
	f.Query = urlquery.Get("q")
	return f
''')]),
("r-parse-bool",None,[(U,'		IsActive:    urlquery.Has("active"),\n',''),(U,'''	return trc.Filter{
		Sources: ''','''	var f trc.Filter
	if urlquery.Has("active") {
		f.IsActive = true
	}
	g := f
	f = trc.Filter{
		IsActive: g.IsActive,
		Sources: '''),(U,'''		Query:       urlquery.Get("q"),
	}
''','''		Query:       urlquery.Get("q"),
	}
	return f
''')]),
("r-parse-dur",None,[(U,'MinDuration: parseDefault(urlquery.Get("min"), parseDurationPointer, nil),','MinDuration: parseMin(urlquery.Get("min")),'),(U,'func parseDurationPointer','''func parseMin(s string) *time.Duration {
	d, err := time.ParseDuration(s)
	if err != nil {
		return nil
	}
	return &d
}

func parseDurationPointer'''),(U,'func iff[','var _ = parseDurationPointer\n\nfunc iff[')]),
("r-decode-direct",None,[(S,'''		var req trc.SearchRequest
		if err := json.NewDecoder(body).Decode(&req); err''','''		if err := json.NewDecoder(body).Decode(&data.Request); err'''),(S,'		data.Request = req\n','')]),
("r-decode-helper",None,[(S,'''		var req trc.SearchRequest
		if err := json.NewDecoder(body).Decode(&req); err != nil {''','''		req, err := decodeSearchRequest(body)
		if err != nil {'''),(S,'//\n\n// SearchClient implements','''func decodeSearchRequest(r io.Reader) (trc.SearchRequest, error) {
	var req trc.SearchRequest
	if err := json.NewDecoder(r).Decode(&req); err != nil {
		return trc.SearchRequest{}, err
	}
	return req, nil
}

//

// SearchClient implements''')]),
("r-req-helper",None,[(S,'''		urlquery := r.URL.Query()
		data.Request = trc.SearchRequest{
			Bucketing:  parseBucketing(urlquery["b"]), // nil is OK
			Filter:     parseFilter(r),
			Limit:      parseRange(urlquery.Get("n"), strconv.Atoi, trc.SearchLimitMin, trc.SearchLimitDefault, trc.SearchLimitMax),
			StackDepth: parseDefault(urlquery.Get("stack"), strconv.Atoi, 0),
		}
''','''		data.Request = parseSearchRequest(r)
'''),(S,'//\n\n// SearchClient implements','''func parseSearchRequest(r *http.Request) trc.SearchRequest {
	urlquery := r.URL.Query()
	return trc.SearchRequest{
		Bucketing:  parseBucketing(urlquery["b"]), // nil is OK
		Filter:     parseFilter(r),
		Limit:      parseRange(urlquery.Get("n"), strconv.Atoi, trc.SearchLimitMin, trc.SearchLimitDefault, trc.SearchLimitMax),
		StackDepth: parseDefault(urlquery.Get("stack"), strconv.Atoi, 0),
	}
}

//

// SearchClient implements''')]),
("r-client-read",None,[(S,'''	if err := json.NewDecoder(httpRes.Body).Decode(&res); err != nil {''','''	raw, err := io.ReadAll(httpRes.Body)
	if err != nil {
		return nil, fmt.Errorf("read search response: %w", err)
	}
	if err := json.Unmarshal(raw, &res); err != nil {''')]),
("r-client-copy",None,[(S,'	return &res.Response, nil\n','	response := res.Response\n	return &response, nil\n')]),
("r-client-helper",None,[(S,'''	var res SearchData
	if err := json.NewDecoder(httpRes.Body).Decode(&res); err != nil {
		return nil, fmt.Errorf("decode search response: %w", err)
	}
''','''	res, err := decodeSearchData(httpRes.Body)
	if err != nil {
		return nil, fmt.Errorf("decode search response: %w", err)
	}
'''),(S,'//\n//\n//\n\nfunc (s *TraceServer) handleStream','''func decodeSearchData(r io.Reader) (*SearchData, error) {
	var res SearchData
	if err := json.NewDecoder(r).Decode(&res); err != nil {
		return nil, err
	}
	return &res, nil
}

//
//
//

func (s *TraceServer) handleStream''')]),
("r-status-var",None,[(S,'''	if httpRes.StatusCode != http.StatusOK {
		return''','''	if code := httpRes.StatusCode; code != 200 {
		return''')]),
("r-ptr-filter",None,[(U,'func encodeFilter(f trc.Filter, r','func encodeFilter(f *trc.Filter, r'),(S,'encodeFilter(f, r)','encodeFilter(&f, r)')]),
("r-err-switch",None,[(S,'''	if err != nil {
		data.Problems = append(data.Problems, fmt.Errorf("execute select request: %w", err))
	} else if res != nil {
		data.Response = *res
	}
''','''	switch {
	case err != nil:
		data.Problems = append(data.Problems, fmt.Errorf("execute select request: %w", err))
	case res != nil:
		data.Response = *res
	}
''')]),
]

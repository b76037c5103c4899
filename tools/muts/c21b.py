S='trcweb/trace_server.go'
M=[
("r-readall",None,[(S,'''		body := http.MaxBytesReader(w, r.Body, maxRequestBodySizeBytes)
		var req trc.SearchRequest
		if err := json.NewDecoder(body).Decode(&req); err != nil {''','''		var req trc.SearchRequest
		body, err := io.ReadAll(http.MaxBytesReader(w, r.Body, maxRequestBodySizeBytes))
		if err == nil {
			err = json.Unmarshal(body, &req)
		}
		if err != nil {''')]),
("r-readall2",None,[(S,'''		body := http.MaxBytesReader(w, r.Body, maxRequestBodySizeBytes)
		var req trc.SearchRequest
		if err := json.NewDecoder(body).Decode(&req); err != nil {''','''		var req trc.SearchRequest
		body, err := io.ReadAll(http.MaxBytesReader(w, r.Body, maxRequestBodySizeBytes))
		if err != nil {
			http.Error(w, err.Error(), http.StatusBadRequest)
			return
		}
		if err := json.Unmarshal(body, &req); err != nil {''')]),
("r-client-readall",None,[(S,'''	if err := json.NewDecoder(httpRes.Body).Decode(&res); err != nil {
''','''	resBody, err := io.ReadAll(httpRes.Body)
	if err != nil {
		return nil, fmt.Errorf("read search response: %w", err)
	}
	if err := json.Unmarshal(resBody, &res); err != nil {
''')]),
]

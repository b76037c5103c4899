S='trcweb/trace_server.go'
U='trcweb/util.go'
SEEDS=[
dict(id="C20-sources-set", prop="C20", pkg="./trcweb", edits=[(U,'q.Add("source", source)','q.Set("source", source)')],
 test='''package trcweb

import ("net/http";"testing";"github.com/peterbourgon/trc")

func TestDemo(t *testing.T) {
	r, _ := http.NewRequest("GET", "http://x/", nil)
	encodeFilter(trc.Filter{Sources: []string{"a", "b"}, IDs: []string{"1", "2"}}, r)
	f := parseFilter(r)
	if len(f.Sources) != 2 || len(f.IDs) != 2 { t.Fatalf("%+v", f) }
}
''', needs="a stream filter with more than one source, sent by the client in the URL",
 breaks="only the last source of the filter reaches the server, so traces of the other sources are missing from the stream"),
dict(id="C20-finished-errored", prop="C20", pkg="./trcweb", edits=[(U,'''	if f.IsFinished {
		q.Set("finished", "true")
	}
''','''	if f.IsFinished && !f.IsErrored {
		q.Set("finished", "true")
	}
''')],
 test='''package trcweb

import ("net/http";"testing";"github.com/peterbourgon/trc")

func TestDemo(t *testing.T) {
	r, _ := http.NewRequest("GET", "http://x/", nil)
	encodeFilter(trc.Filter{IsFinished: true, IsErrored: true}, r)
	if f := parseFilter(r); !f.IsFinished || !f.IsErrored { t.Fatalf("%+v", f) }
}
''', needs="a stream of finished traces that is also restricted to errored ones",
 breaks="the server streams errored traces that are still active, although the client asked for finished ones"),
dict(id="C20-status-range", prop="C20", pkg="./trcweb", edits=[(S,'if httpRes.StatusCode != http.StatusOK {','if httpRes.StatusCode < 200 || httpRes.StatusCode >= 400 && httpRes.StatusCode < 500 {')],
 test='''package trcweb

import ("context";"net/http";"net/http/httptest";"testing";"github.com/peterbourgon/trc")

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.WriteHeader(500)
		w.Write([]byte(`{"error":"failed to marshal response"}`))
	}))
	defer s.Close()
	if _, err := NewSearchClient(http.DefaultClient, s.URL).Search(context.Background(), &trc.SearchRequest{}); err == nil {
		t.Fatal("no error")
	}
}
''', needs="a server that fails with a 5xx status whose body is valid JSON",
 breaks="the failure of a remote search is reported as an empty, successful response"),
dict(id="C26-drop-slow", prop="C26", pkg="./trcweb", edits=[(S,'''			case <-ctx.Done():
			case ch <- &str:
			}
''','''			case <-ctx.Done():
			case ch <- &str:
			case <-time.After(c.RetryInterval):
				tr.LazyErrorf("receiver is too slow")
			}
''')],
 test='''package trcweb

import ("context";"fmt";"net/http";"net/http/httptest";"testing";"time";"github.com/peterbourgon/trc";"encoding/json")

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("content-type", "text/event-stream")
		for i := 0; i < 3; i++ {
			data, _ := json.Marshal(&trc.StaticTrace{TraceID: fmt.Sprint(i)})
			fmt.Fprintf(w, "event: trace\\ndata: %s\\n\\n", data)
		}
		w.(http.Flusher).Flush()
		<-r.Context().Done()
	}))
	defer s.CloseClientConnections()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan trc.Trace)
	c := NewStreamClient(s.URL)
	c.RetryInterval = time.Second
	go c.Stream(ctx, trc.Filter{}, ch)
	time.Sleep(1500 * time.Millisecond)
	select {
	case tr := <-ch:
		if tr.ID() != "0" { t.Fatalf("first trace was lost, got %s", tr.ID()) }
	case <-time.After(5 * time.Second):
		t.Fatal("nothing")
	}
}
''', needs="a receiver that doesn't take a trace from the channel for longer than the retry interval",
 breaks="the client silently drops a trace that the server streamed"),
dict(id="C26-own-category", prop="C26", pkg="./trcweb", edits=[(S,'if recv.ID() == tr.ID() {','if recv.ID() == tr.ID() || (recv.Source() == tr.Source() && recv.Category() == tr.Category()) {')],
 test='''package trcweb

import ("context";"net/http";"net/http/httptest";"testing";"time";"github.com/peterbourgon/trc")

func TestDemo(t *testing.T) {
	col := trc.NewDefaultCollector()
	h := Middleware(col.NewTrace, func(*http.Request) string { return "http" })(NewTraceServer(col))
	s := httptest.NewServer(h)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan trc.Trace, 100)
	init := make(chan struct{}, 10)
	c := NewStreamClient(s.URL)
	c.OnRead = func(ctx context.Context, typ string, data []byte) { if typ == "init" { init <- struct{}{} } }
	go c.Stream(ctx, trc.Filter{IsFinished: true}, ch)
	select { case <-init: case <-time.After(5 * time.Second): t.Fatal("no init") }
	time.Sleep(200 * time.Millisecond)
	_, tr := col.NewTrace(context.Background(), "http")
	tr.Finish()
	select {
	case got := <-ch:
		if got.ID() != tr.ID() { t.Fatal("wrong trace") }
	case <-time.After(5 * time.Second):
		t.Fatal("trace was not streamed")
	}
}
''', needs="a trace server behind a middleware that uses the same category for stream requests and for the application's requests",
 breaks="traces of the application that share the category of the stream request are never streamed"),
dict(id="C26-decode-reuse", prop="C26", pkg="./trcweb", edits=[(S,'''	for {
		ev, err := es.Read()
''','''	var str trc.StaticTrace
	for {
		ev, err := es.Read()
'''),(S,'''			var str trc.StaticTrace
			if err''','''			str = trc.StaticTrace{}
			if err''')],
 test='''package trcweb

import ("context";"fmt";"net/http";"net/http/httptest";"testing";"time";"github.com/peterbourgon/trc";"encoding/json")

func TestDemo(t *testing.T) {
	s := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("content-type", "text/event-stream")
		for i := 0; i < 3; i++ {
			data, _ := json.Marshal(&trc.StaticTrace{TraceID: fmt.Sprint(i)})
			fmt.Fprintf(w, "event: trace\\ndata: %s\\n\\n", data)
		}
		w.(http.Flusher).Flush()
		<-r.Context().Done()
	}))
	defer s.CloseClientConnections()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan trc.Trace, 10)
	go NewStreamClient(s.URL).Stream(ctx, trc.Filter{}, ch)
	time.Sleep(time.Second)
	var got []string
	for len(ch) > 0 { got = append(got, (<-ch).ID()) }
	if fmt.Sprint(got) != "[0 1 2]" { t.Fatal(got) }
}
''', needs="a buffered channel whose receiver lags behind the stream by more than one trace",
 breaks="a delivered trace changes into the next one while the receiver still holds it"),
]

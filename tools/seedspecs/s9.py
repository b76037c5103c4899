S='trcweb/trace_server.go'
T='search_types.go'
C='cmd/trc/stream.go'
SEEDS=[
dict(id="C22-body-status", prop="C22", pkg="./trcweb", edits=[(S,'''	defer func() {
		io.Copy(io.Discard, httpRes.Body)
		httpRes.Body.Close()
	}()

	if httpRes.StatusCode != http.StatusOK {
		return nil, fmt.Errorf("read HTTP response: server gave HTTP %d (%s)", httpRes.StatusCode, http.StatusText(httpRes.StatusCode))
	}
''','''	if httpRes.StatusCode != http.StatusOK {
		return nil, fmt.Errorf("read HTTP response: server gave HTTP %d (%s)", httpRes.StatusCode, http.StatusText(httpRes.StatusCode))
	}

	defer func() {
		io.Copy(io.Discard, httpRes.Body)
		httpRes.Body.Close()
	}()
''')],
 test='''package trcweb

import ("context";"io";"net/http";"strings";"testing";"github.com/peterbourgon/trc")

type demoBody struct { io.Reader; closed bool }
func (b *demoBody) Close() error { b.closed = true; return nil }

type demoClient struct { body *demoBody }
func (c *demoClient) Do(r *http.Request) (*http.Response, error) {
	return &http.Response{StatusCode: 503, Body: c.body, Header: http.Header{}}, nil
}

func TestDemo(t *testing.T) {
	b := &demoBody{Reader: strings.NewReader("no")}
	if _, err := NewSearchClient(&demoClient{b}, "http://x").Search(context.Background(), &trc.SearchRequest{}); err == nil { t.Fatal("no error") }
	if !b.closed { t.Fatal("body left open") }
}
''', needs="a peer that answers with a status other than 200", breaks="The search client returns on a bad status before it arranges for the body to be closed, so each failed search leaks its connection."),
dict(id="C22-req-ctx", prop="C22", pkg="./trcweb", edits=[(S,'http.NewRequestWithContext(ctx, "GET", c.uri','http.NewRequest("GET", c.uri')],
 test='''package trcweb

import ("context";"net/http";"net/http/httptest";"testing";"time";"github.com/peterbourgon/trc")

func TestDemo(t *testing.T) {
	stop := make(chan struct{})
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) { <-stop }))
	defer srv.Close()
	defer close(stop)
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
	defer cancel()
	done := make(chan struct{})
	go func() { NewSearchClient(http.DefaultClient, srv.URL).Search(ctx, &trc.SearchRequest{}); close(done) }()
	select {
	case <-done:
	case <-time.After(3*time.Second):
		t.Fatal("search outlives its context")
	}
}
''', needs="cancellation while the remote end is still working on the search", breaks="The remote search request isn't tied to the caller's context, so it isn't interrupted when that is cancelled."),
dict(id="C22-errc", prop="C22", pkg="./cmd/trc", edits=[(C,'''		errc := make(chan error, 1)                                       // per-iteration stream result
''','''		errc := make(chan error)                                          // per-iteration stream result
'''),(C,'''			cancel()                                 // signal the Stream goroutine to stop
			<-errc                                   // wait for it to stop
''','''			cancel()                                 // signal the Stream goroutine to stop
''')],
 test='''package main

import ("context";"io";"log";"net/http";"net/http/httptest";"runtime";"strings";"testing";"time";"github.com/peterbourgon/trc")

func TestDemo(t *testing.T) {
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		w.Header().Set("content-type", "text/event-stream"); w.WriteHeader(200); w.(http.Flusher).Flush(); <-r.Context().Done()
	}))
	defer srv.Close()
	cfg := &streamConfig{rootConfig: &rootConfig{info: log.New(io.Discard, "", 0), debug: log.New(io.Discard, "", 0), trace: log.New(io.Discard, "", 0)}, traces: make(chan trc.Trace), statsInterval: time.Second, retryInterval: time.Second}
	for i := 0; i < 5; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan struct{})
		go func() { cfg.runStream(ctx, srv.URL); close(done) }()
		time.Sleep(100 * time.Millisecond)
		cancel()
		<-done
	}
	deadline := time.Now().Add(5*time.Second)
	for {
		buf := make([]byte, 1<<20)
		n := strings.Count(string(buf[:runtime.Stack(buf, true)]), "runStream.func")
		if n == 0 { return }
		if time.Now().After(deadline) { t.Fatalf("%d goroutines left", n) }
		time.Sleep(50 * time.Millisecond)
	}
}
''', needs="a stream runner that stops because its context is cancelled while the stream is up", breaks="The goroutine of the stream is not waited for, and then blocks forever on its unbuffered result channel."),
dict(id="C22-multi", prop="C22", pkg=".", edits=[(T,'make(chan tuple, len(ms))','make(chan tuple)'),(T,'''		t := <-tuplec
''','''		var t tuple
		select {
		case t = <-tuplec:
		case <-ctx.Done():
			t = tuple{"searcher", &SearchResponse{}, ctx.Err()}
		}
''')],
 test='''package trc

import ("context";"runtime";"strings";"testing";"time")

type demoSlow struct { release chan struct{} }
func (s demoSlow) Search(ctx context.Context, req *SearchRequest) (*SearchResponse, error) { <-s.release; return &SearchResponse{Stats: NewSearchStats(DefaultBucketing)}, nil }

func TestDemo(t *testing.T) {
	rel := make(chan struct{})
	ms := MultiSearcher{demoSlow{rel}, demoSlow{rel}, demoSlow{rel}}
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
	defer cancel()
	time.AfterFunc(300*time.Millisecond, func() { close(rel) })
	ms.Search(ctx, &SearchRequest{})
	time.Sleep(600*time.Millisecond)
	buf := make([]byte, 1<<20)
	if n := strings.Count(string(buf[:runtime.Stack(buf, true)]), "MultiSearcher.Search.func"); n > 0 { t.Fatalf("%d goroutines left", n) }
}
''', needs="a searcher that is slower than the context of the search", breaks="When the context ends first the fan-out goroutines are left behind, blocked on sending their result to nobody."),
]

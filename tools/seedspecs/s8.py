S='trcweb/trace_server.go'
U='trcweb/util.go'
R='trcweb/render.go'
SEEDS=[
dict(id="C21-body-shared", prop="C21", pkg="./trcweb", edits=[(S,'''		body := http.MaxBytesReader(w, r.Body, maxRequestBodySizeBytes)
		var req trc.SearchRequest
		if err := json.NewDecoder(body).Decode(&req); err != nil {''','''		var req trc.SearchRequest
		body, err := io.ReadAll(r.Body)
		if err == nil {
			err = json.Unmarshal(body, &req)
		}
		if err != nil {''')],
 test='''package trcweb

import ("net/http/httptest";"testing";"strings";"github.com/peterbourgon/trc")

func TestDemo(t *testing.T) {
	s := NewTraceServer(trc.NewDefaultCollector())
	r := httptest.NewRequest("GET", "/", strings.NewReader(`{"filter":{"category":"`+strings.Repeat("x", 3<<20)+`"}}`))
	r.Header.Set("content-type", "application/json")
	w := httptest.NewRecorder()
	s.ServeHTTP(w, r)
	if w.Code != 400 { t.Fatal(w.Code) }
}
''', needs="a JSON request with a body of more than 1 MB",
 breaks="the body of a search request is read completely, so a client can exhaust the server's memory"),
dict(id="C21-clamp-max", prop="C21", pkg="./trcweb", edits=[(U,'''	case err == nil && v > max:
		return max
''','''	case err == nil && v > max && def > min:
		return max
'''),(S,'strconv.Atoi, 0, 100, 100000)','strconv.Atoi, 0, 0, 100000)')],
 test='''package trcweb

import ("context";"net/http/httptest";"testing";"time";"github.com/peterbourgon/trc")

type streamer struct{ ch chan int }

func (s streamer) Stream(ctx context.Context, f trc.Filter, ch chan<- trc.Trace) (trc.StreamStats, error) {
	s.ch <- cap(ch)
	<-ctx.Done()
	return trc.StreamStats{}, nil
}
func (s streamer) StreamStats(ctx context.Context, ch chan<- trc.Trace) (trc.StreamStats, error) { return trc.StreamStats{}, nil }

func TestDemo(t *testing.T) {
	st := streamer{make(chan int, 1)}
	s := &TraceServer{Collector: trc.NewDefaultCollector(), Streamer: st}
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	defer cancel()
	r := httptest.NewRequest("GET", "/?sendbuf=2000000", nil).WithContext(ctx)
	r.Header.Set("accept", "text/event-stream")
	w := httptest.NewServer(s)
	defer w.Close()
	go func() { defer func() { recover() }(); s.ServeHTTP(httptest.NewRecorder(), r) }()
	if n := <-st.ch; n > 100000 { t.Fatal(n) }
}
''', needs="a stream request for a huge send buffer, together with a default that equals the minimum",
 breaks="the limit of the send buffer isn't applied: a client can make the server allocate any amount of memory"),
dict(id="C21-panic-page", prop="C21", pkg="./trcweb", edits=[(R,'''	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("PANIC: %v", x)
		}
	}()

	templateRoot, err :=''','''	defer func() {
		if x := recover(); x != nil {
			tr.LazyErrorf("PANIC: %v", x)
		}
	}()

	templateRoot, err :=''')],
 test='''package trcweb

import ("context";"net/http/httptest";"testing";"testing/fstest";"html/template")

func TestDemo(t *testing.T) {
	fs := fstest.MapFS{"x.html": &fstest.MapFile{Data: []byte("<script>var x = {{.}};</script>")}}
	w := httptest.NewRecorder()
	renderHTML(context.Background(), w, fs, "x.html", template.FuncMap{"F": 1}, 1)
	if w.Code != 500 { t.Fatal(w.Code, w.Body.String()) }
}
''', needs="something that panics while the page is rendered, e.g. a template function that is not one",
 breaks="an empty page is sent with status 200 instead of an error"),
dict(id="C21-accept-stops", prop="C21", pkg="./trcweb", edits=[(R,'''		if err != nil {
			continue
		}
		mediaTypes''','''		if err != nil {
			break
		}
		mediaTypes''')],
 test='''package trcweb

import ("net/http/httptest";"testing")

func TestDemo(t *testing.T) {
	r := httptest.NewRequest("GET", "/", nil)
	r.Header.Set("accept", "image/;, text/event-stream")
	if Categorize(r) != "stream" { t.Fatal(Categorize(r)) }
}
''', needs="an Accept header with an invalid media range before the decisive one",
 breaks="the rest of the Accept header is ignored, so that a stream request is answered with JSON"),
]

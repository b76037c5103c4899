W='trcweb/middleware.go'
E='eztrc/easy.go'
HDR='''package trcweb

import ("context";"net/http";"net/http/httptest";"strings";"testing";"errors";"github.com/peterbourgon/trc")

var _ = errors.New
var _ = strings.Contains
var _ context.Context

type failing struct{ http.ResponseWriter }

func (f failing) Write(p []byte) (int, error) { return len(p)/2, errors.New("broken pipe") }

func events(c *trc.Collector) (string, bool) {
	res, _ := c.Search(context.Background(), &trc.SearchRequest{})
	var b strings.Builder
	fin := len(res.Traces) == 1
	for _, tr := range res.Traces {
		fin = fin && tr.Finished()
		for _, ev := range tr.Events() { b.WriteString(ev.What+"\\n") }
	}
	return b.String(), fin
}

func serve(h http.HandlerFunc, w http.ResponseWriter) (string, bool) {
	c := trc.NewDefaultCollector()
	m := Middleware(c.NewTrace, func(*http.Request) string { return "x" })(h)
	func() {
		defer func() { recover() }()
		m.ServeHTTP(w, httptest.NewRequest("GET", "/", nil))
	}()
	return events(c)
}
'''
SEEDS=[
dict(id="C24-record-late", prop="C24", pkg="./trcweb", edits=[(W,'			defer tr.Finish()\n',''),(W,'			w = iw\n','			defer tr.Finish()\n			w = iw\n')],
 test=HDR+'''
func TestDemo(t *testing.T) {
	s, fin := serve(func(w http.ResponseWriter, r *http.Request) { w.WriteHeader(418) }, httptest.NewRecorder())
	if !fin || !strings.Contains(s, "HTTP 418") { t.Fatalf("%v %s", fin, s) }
}
''', needs="deferred calls run in the opposite order of registration: finishing comes before recording the response",
 breaks="the response code, size and duration are added to a trace that's finished already, and thus lost"),
dict(id="C24-panic-active", prop="C24", pkg="./trcweb", edits=[(W,'			defer tr.Finish()\n',''),(W,'			next.ServeHTTP(w, r)\n','			next.ServeHTTP(w, r)\n			tr.Finish()\n'),(W,'''			defer func(b time.Time) {
				code := iw.Code()
				sent := trcutil.HumanizeBytes(iw.Written())
				took := trcutil.HumanizeDuration(time.Since(b))
				tr.LazyTracef("HTTP %d, %s, %s", code, sent, took)
			}(time.Now())
''','''			b := time.Now()
'''),(W,'			tr.Finish()\n','''			code := iw.Code()
			sent := trcutil.HumanizeBytes(iw.Written())
			took := trcutil.HumanizeDuration(time.Since(b))
			tr.LazyTracef("HTTP %d, %s, %s", code, sent, took)
			tr.Finish()
''')],
 test=HDR+'''
func TestDemo(t *testing.T) {
	_, fin := serve(func(w http.ResponseWriter, r *http.Request) { panic(http.ErrAbortHandler) }, httptest.NewRecorder())
	if !fin { t.Fatal("not finished") }
}
''', needs="a handler that panics (as handlers do to abort a response)",
 breaks="the trace of a request whose handler panicked stays active forever"),
dict(id="C24-count-attempted", prop="C24", pkg="./trcweb", edits=[(W,'i.n += n','i.n += len(p)')],
 test=HDR+'''
func TestDemo(t *testing.T) {
	s, _ := serve(func(w http.ResponseWriter, r *http.Request) { w.Write([]byte("12345678")) }, failing{httptest.NewRecorder()})
	if !strings.Contains(s, "4.0B") { t.Fatal(s) }
}
''', needs="a connection on which a write fails after some of its bytes",
 breaks="the trace reports bytes as sent that never were"),
]

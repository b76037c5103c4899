H='trcweb/assets/traces.html'
R='trcweb/render.go'
PRE='''package trcweb

import ("context";"net/http";"net/http/httptest";"strings";"testing";"time";"github.com/peterbourgon/trc")

var _ = time.Now
var _ = trc.New

type demoSearcher struct{ res *trc.SearchResponse }
func (d demoSearcher) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) { return d.res, nil }

func demoPage(t *testing.T, query string, res *trc.SearchResponse) (int, string) {
	s := &TraceServer{Collector: trc.NewDefaultCollector(), Searcher: demoSearcher{res}}
	r := httptest.NewRequest("GET", "/?"+query, nil)
	r.Header.Set("accept", "text/html")
	w := httptest.NewRecorder()
	s.ServeHTTP(w, r)
	return w.Code, w.Body.String()
}

var _ http.Handler
var _ = strings.Count
'''
RES='''&trc.SearchResponse{Stats: trc.NewSearchStats(trc.DefaultBucketing), Traces: []*trc.StaticTrace{tr}}'''
SEEDS=[
dict(id="C23-what-raw", prop="C23", pkg="./trcweb", edits=[(R,'''	`,`, `,<wbr>`,
	`;`, `;<wbr>`,
''','''	`&#34;`, `"`,
	`&#39;`, `'`,
	`&lt;`, `<`,
	`&gt;`, `>`,
	`,`, `,<wbr>`,
	`;`, `;<wbr>`,
''')],
 test=PRE+'''
func TestDemo(t *testing.T) {
	now := time.Now()
	tr := &trc.StaticTrace{TraceID: "x", TraceSource: "s", TraceCategory: "c", TraceStarted: now, TraceDuration: time.Second, TraceFinished: true, TraceEvents: []trc.Event{{When: now, What: "user said \\"hi\\"<img src=x onerror=alert(1)>"}}}
	code, body := demoPage(t, "", '''+RES+''')
	if code != 200 { t.Fatal(code, body) }
	if strings.Contains(body, "<img") { t.Fatal("event text became markup") }
}
''', needs="an event whose text contains markup", breaks="To make long values break, escape sequences in the already escaped event text are replaced by the characters they stand for, so event text is interpreted as markup."),
dict(id="C23-ev-same", prop="C23", pkg="./trcweb", edits=[(R,'''		delta := ev.When.Sub(prev)
''','''		delta := ev.When.Sub(prev)
		if i > 0 && delta == 0 && ev.What == st.TraceEvents[i-1].What {
			continue // repeated
		}
''')],
 test=PRE+'''
func TestDemo(t *testing.T) {
	now := time.Now()
	tr := &trc.StaticTrace{TraceID: "x", TraceSource: "s", TraceCategory: "c", TraceStarted: now, TraceDuration: time.Second, TraceFinished: true, TraceEvents: []trc.Event{{When: now, What: "zzz"}, {When: now, What: "zzz", IsError: true}}}
	_, body := demoPage(t, "", '''+RES+''')
	if n := strings.Count(body, "zzz"); n != 2 { t.Fatalf("%d of 2 events", n) }
}
''', needs="two events with the same text at the same time", breaks="The page drops events that repeat the previous one within the resolution of the clock, even if one of them is an error."),
dict(id="C23-problems", prop="C23", pkg="./trcweb", edits=[(H,'{{ range $problems }}<div>{{.}}</div>{{ end }}','{{ range $i, $p := $problems }}<div>{{AddInt $i 1}}. {{$p.Message}}</div>{{ end }}')],
 test=PRE+'''
func TestDemo(t *testing.T) {
	now := time.Now()
	tr := &trc.StaticTrace{TraceID: "x", TraceSource: "s", TraceCategory: "c", TraceStarted: now, TraceDuration: time.Second, TraceFinished: true}
	res := '''+RES+'''
	res.Problems = []string{"peer unreachable"}
	code, body := demoPage(t, "", res)
	if code != 200 || !strings.Contains(body, "peer unreachable") { t.Fatalf("%d %.200s", code, body) }
}
''', needs="a response with problems", breaks="The page refers to a method that errors don't have, so any page that has problems to show fails to render, and is answered with an error."),
dict(id="C23-delta", prop="C23", pkg="./trcweb", edits=[(R,'''		prev = ev.When
''','''		if !ev.IsError {
			prev = ev.When
		}
''')],
 test=PRE+'''
func TestDemo(t *testing.T) {
	now := time.Now()
	tr := &trc.StaticTrace{TraceID: "x", TraceSource: "s", TraceCategory: "c", TraceStarted: now, TraceDuration: 10*time.Second, TraceFinished: true, TraceEvents: []trc.Event{{When: now.Add(time.Second), What: "a", IsError: true}, {When: now.Add(3*time.Second), What: "b"}}}
	evs := renderEvents(tr)
	if evs[2].Delta != 2*time.Second { t.Fatal(evs[2].Delta) }
}
''', needs="an event after an error event", breaks="Time since the previous event is computed from the last event that isn't an error, so the timeline adds up to more than the duration of the trace."),
dict(id="C23-link", prop="C23", pkg="./trcweb", edits=[(H,'cat <a href="?category={{.Category}}">','cat <a href="?{{printf "category=%s" .Category | SafeURL}}">')],
 test=PRE+'''
func TestDemo(t *testing.T) {
	now := time.Now()
	tr := &trc.StaticTrace{TraceID: "x", TraceSource: "s", TraceCategory: "a&b=1", TraceStarted: now, TraceDuration: time.Second, TraceFinished: true}
	_, body := demoPage(t, "", '''+RES+''')
	if !strings.Contains(body, "category=a%26b%3d1") && !strings.Contains(body, "category=a%26b%3D1") { t.Fatal("category not escaped in link") }
}
''', needs="a category with characters that are special in URLs", breaks="The link to a trace's category doesn't escape it, so it leads to a search with other parameters."),
]

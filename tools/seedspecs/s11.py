R="cmd/trc/main.go"; S="cmd/trc/search.go"; T="cmd/trc/stream.go"
PRE='''package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
)

var _ = fmt.Sprint
var _ = time.Now
var _ = strings.Contains
var _ sync.Mutex

type demoServer struct {
	*httptest.Server
	mu    sync.Mutex
	paths []string
	reqs  []trc.SearchRequest
}

func newDemo(t *testing.T) *demoServer {
	d := &demoServer{}
	d.Server = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		var req trc.SearchRequest
		json.NewDecoder(r.Body).Decode(&req)
		d.mu.Lock()
		d.paths = append(d.paths, r.URL.Path)
		d.reqs = append(d.reqs, req)
		d.mu.Unlock()
		w.Header().Set("content-type", "application/json")
		json.NewEncoder(w).Encode(map[string]any{"request": &req, "response": &trc.SearchResponse{Request: &req, Stats: trc.NewSearchStats(trc.DefaultBucketing)}})
	}))
	t.Cleanup(d.Close)
	return d
}

func demoExec(t *testing.T, args ...string) string {
	t.Helper()
	var out, errs bytes.Buffer
	if err := exec(context.Background(), strings.NewReader(""), &out, &errs, args); err != nil {
		t.Fatalf("%v: %s", err, errs.String())
	}
	return out.String()
}
'''
SEEDS=[
dict(id="C27-eight", prop="C27", pkg="./cmd/trc", edits=[(S,'''		searcher = append(searcher, trcweb.NewSearchClient(http.DefaultClient, uri))
''','''		if len(searcher) >= 8 {
			cfg.debug.Printf("too many instances, not searching %s", uri)
			continue
		}
		searcher = append(searcher, trcweb.NewSearchClient(http.DefaultClient, uri))
''')],
 test=PRE+'''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	var args []string
	for i := 0; i < 12; i++ {
		args = append(args, "--uri", fmt.Sprintf("%s/%d", d.URL, i))
	}
	demoExec(t, append(args, "search")...)
	if len(d.paths) != 12 { t.Fatalf("%d of 12 instances searched", len(d.paths)) }
}
''', needs="more than eight URIs", breaks="Instances after the eighth are silently left out of a search."),
dict(id="C27-duration0", prop="C27", pkg="./cmd/trc", edits=[(R,'''		if f, ok := filterFlags.GetFlag("duration"); ok && f.IsSet() {
''','''		if rootConfig.minDuration > 0 {
''')],
 test=PRE+'''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	demoExec(t, "--uri", d.URL, "--duration", "0s", "search")
	if len(d.reqs) != 1 || d.reqs[0].Filter.MinDuration == nil { t.Fatalf("--duration 0s is ignored: %+v", d.reqs) }
}
''', needs="--duration 0s", breaks="An explicit zero duration, which selects finished traces, is treated as if the flag weren't given."),
dict(id="C27-dedup", prop="C27", pkg="./cmd/trc", edits=[(T,'''	var count uint64
	for {
		select {
		case tr := <-cfg.traces:
			count++
			encode(tr)
''','''	var count uint64
	var last string
	for {
		select {
		case tr := <-cfg.traces:
			if id := tr.ID(); id != last || tr.Finished() {
				count++
				encode(tr)
				last = id
			}
''')],
 test=(PRE.replace('"fmt"\n','"fmt"\n	"log"\n')+'''
func TestDemo(t *testing.T) {
	var out, errs bytes.Buffer
	lg := log.New(&errs, "", 0)
	cfg := &streamConfig{rootConfig: &rootConfig{stdout: &out, output: "ndjson", info: lg, debug: lg, trace: lg}, traces: make(chan trc.Trace)}
	ctx, cancel := context.WithCancel(context.Background())
	done := make(chan struct{})
	go func() { defer close(done); cfg.writeTraces(ctx) }()
	for i := 0; i < 3; i++ {
		cfg.traces <- &trc.StaticTrace{TraceID: "x", TraceEvents: []trc.Event{{What: fmt.Sprint(i)}}}
	}
	time.Sleep(200 * time.Millisecond)
	cancel()
	<-done
	if n := strings.Count(out.String(), "\\n"); n != 3 { t.Fatalf("%d of 3 events printed", n) }
}
'''), needs="streaming events, and two successive events of one trace", breaks="Successive events of a trace are taken for duplicates, and aren't printed."),
dict(id="C27-uripath", prop="C27", pkg="./cmd/trc", edits=[(R,'''		if rootConfig.uriPath != "" {
''','''		if rootConfig.uriPath != "" && (u.Path == "" || u.Path == "/") {
''')],
 test=PRE+'''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	demoExec(t, "--uri", d.URL+"/a", "--uri", d.URL, "--uri-path", "/traces", "search")
	for _, p := range d.paths {
		if p != "/traces" { t.Fatal(d.paths) }
	}
}
''', needs="--uri-path and a URI that has a path", breaks="The common path isn't applied to URIs that already have one."),
dict(id="C27-empty", prop="C27", pkg="./cmd/trc", edits=[(S,'''	if !cfg.includeRequest {
''','''	if len(res.Traces) == 0 && !cfg.includeStats {
		cfg.info.Printf("no traces")
		return nil
	}

	if !cfg.includeRequest {
''')],
 test=PRE+'''
func TestDemo(t *testing.T) {
	d := newDemo(t)
	out := demoExec(t, "--uri", d.URL, "search")
	var res trc.SearchResponse
	if err := json.Unmarshal([]byte(out), &res); err != nil { t.Fatalf("%q: %v", out, err) }
}
''', needs="a search without matches", breaks="A search that matches nothing prints no result at all, so neither its counts nor its problems are seen."),
]

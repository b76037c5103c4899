SEEDS = [
dict(
 id='C01-finish-split-lock',
 prop='C01',
 edits=[('trace_core.go', 'func (tr *coreTrace) Finish() {\n\ttr.mtx.Lock()\n\tdefer tr.mtx.Unlock()\n\n\tif tr.finished {\n\t\treturn\n\t}\n\n\ttr.finished = true\n\ttr.duration = time.Since(tr.start)\n}', 'func (tr *coreTrace) Finish() {\n\tif tr.Finished() { // avoid contention in the common case of a repeated finish\n\t\treturn\n\t}\n\n\ttr.mtx.Lock()\n\tdefer tr.mtx.Unlock()\n\n\ttr.finished = true\n\ttr.duration = time.Since(tr.start)\n}')],
 needs='two goroutines calling Finish concurrently, both passing the check before either takes the lock',
 breaks="the duration of a finished trace changes, because it's recorded twice",
 test='''
package trc

import ("testing"; "time"; "sync")

func TestDemo(t *testing.T) {
	for i := 0; i < 3000; i++ {
		tr := newCoreTrace("s", "c")
		tr.start = tr.start.Add(-time.Hour)
		var wg sync.WaitGroup
		start := make(chan struct{})
		ds := make([]time.Duration, 8)
		for j := range ds {
			wg.Add(1)
			go func(j int) { defer wg.Done(); <-start; tr.Finish(); ds[j] = tr.Duration() }(j)
		}
		close(start)
		wg.Wait()
		for j := range ds {
			if ds[j] != tr.Duration() { t.Fatalf("duration of a finished trace changed: %s vs. %s", ds[j], tr.Duration()) }
		}
	}
}
''',),
dict(
 id='C04-lazyerror-overflow',
 prop='C04',
 edits=[('trace_core.go', '\t\ttr.events = append(tr.events, newCoreEvent(flagLazy|flagError|tr.nostackflag, format, args...))', '\t\ttr.events = append(tr.events, newCoreEvent(flagLazy|flagError|tr.nostackflag, format, args...))\n\t\tif n := len(tr.events) - tr.eventsmax; n > 0 {\n\t\t\ttr.truncated += n\n\t\t}'), ('trace_core.go', 'func (tr *coreTrace) LazyErrorf(format string, args ...any) {\n\ttr.mtx.Lock()\n\tdefer tr.mtx.Unlock()\n\n\tif tr.finished {\n\t\treturn\n\t}\n\n\ttr.errored = true\n\n\tswitch {\n\tcase len(tr.events) >= tr.eventsmax:', 'func (tr *coreTrace) LazyErrorf(format string, args ...any) {\n\ttr.mtx.Lock()\n\tdefer tr.mtx.Unlock()\n\n\tif tr.finished {\n\t\treturn\n\t}\n\n\ttr.errored = true\n\n\tswitch {\n\tcase len(tr.events) > tr.eventsmax:')],
 needs='a lazy error event recorded when exactly the maximum number of events is stored',
 breaks="one event too many is stored and it's counted as truncated too",
 test='''
package trc_test

import ("context"; "testing"; "strings"; "github.com/peterbourgon/trc")

func TestDemo(t *testing.T) {
	_, tr := trc.New(context.Background(), "s", "c")
	trc.SetMaxEvents(tr, 10)
	for i := 0; i < 11; i++ { tr.LazyErrorf("e%d", i) }
	evs := tr.Events()
	if len(evs) != 10 || !strings.Contains(evs[9].What, "truncated event count 1)") { t.Fatal(len(evs), evs[len(evs)-1].What) }
	for _, ev := range evs { if ev.What == "e10" { t.Fatal("too many events stored") } }
}
''',),
dict(
 id='C05-lazy-text-race',
 prop='C05',
 edits=[('trace_core.go', '\tif z.str.CompareAndSwap(zeroNullString, ns) {\n\t\treturn ns.value\n\t}\n\n\t// If that didn\'t work, then take the value that snuck in.\n\tns = z.str.Load().(nullString)\n\tif !ns.valid {\n\t\tpanic(fmt.Errorf("invalid state in pooled stringer"))\n\t}\n\treturn ns.value', "\tz.str.CompareAndSwap(zeroNullString, ns) // if that didn't work, then someone else did the same work\n\treturn ns.value")],
 needs='two readers formatting the same lazy event at the same time, with an argument whose text changes',
 breaks='two readers see different texts for the same event',
 test='''
package trc

import ("testing"; "strconv"; "sync"; "sync/atomic"; "runtime")

type ctr struct{ n atomic.Int64; in chan struct{}; out chan struct{} }

func (c *ctr) String() string {
	n := c.n.Add(1)
	c.in <- struct{}{}
	<-c.out
	return strconv.FormatInt(n, 10)
}

func TestDemo(t *testing.T) {
	c := &ctr{in: make(chan struct{}, 2), out: make(chan struct{})}
	z := newLazyStringer("%s", c)
	var s [2]string
	var wg sync.WaitGroup
	for i := range s {
		wg.Add(1)
		go func(i int) { defer wg.Done(); s[i] = z.String() }(i)
	}
	<-c.in
	<-c.in
	close(c.out)
	wg.Wait()
	runtime.Gosched()
	if s[0] != s[1] || s[0] != z.String() { t.Fatalf("%q vs. %q vs. %q", s[0], s[1], z.String()) }
}
''',),
dict(
 id='C06-log-finish-lost',
 prop='C06',
 edits=[('decorators.go', 'func (ltr *logTrace) Finish() {\n\tltr.Trace.Finish()\n\tvar (', 'func (ltr *logTrace) Finish() {\n\tif ltr.Trace.Finished() {\n\t\treturn // already logged\n\t}\n\n\tltr.Trace.Finish()\n\tvar ('), ('decorators.go', 'func (ptr *publishTrace) Errorf(format string, args ...any) {\n\tptr.Trace.Errorf(format, args...)\n\tptr.p.Publish(context.Background(), ptr.Trace)', 'func (ptr *publishTrace) Errorf(format string, args ...any) {\n\tptr.p.Publish(context.Background(), ptr.Trace)\n\tptr.Trace.Errorf(format, args...)')],
 needs='a subscriber streaming individual events, and an error event',
 breaks="error events are published before they're recorded, so subscribers see the previous event instead",
 test='''
package trc_test

import ("context"; "testing"; "time"; "github.com/peterbourgon/trc")

func TestDemo(t *testing.T) {
	c := trc.NewDefaultCollector()
	ch := make(chan trc.Trace, 100)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	go c.Stream(ctx, trc.Filter{}, ch)
	for { if _, err := c.StreamStats(ctx, ch); err == nil { break }; time.Sleep(time.Millisecond) }
	_, tr := c.NewTrace(context.Background(), "c")
	tr.Errorf("boom")
	var found bool
	for len(ch) > 0 {
		st := <-ch
		for _, ev := range st.Events() { if ev.What == "boom" { found = true } }
	}
	if !found { t.Fatal("error event wasn't streamed") }
}
''',),
dict(
 id='C07-stale-error-flag',
 prop='C07',
 edits=[('trace_core.go', '\tcev.iserr = flags&flagError != 0\n', '\tif flags&flagError != 0 {\n\t\tcev.iserr = true\n\t}\n'), ('trace_core.go', '\tcev.pcn = 0\n\tcev.stack = cev.stack[:0]\n\ttrcdebug.CoreEventFreeCount.Add(1)', '\tcev.pcn = 0\n\tcev.when = time.Time{}\n\tcev.stack = cev.stack[:0]\n\ttrcdebug.CoreEventFreeCount.Add(1)')],
 needs='an event object that held an error event is recycled for a normal event',
 breaks='normal events show up as errors after recycling',
 test='''
package trc

import "testing"

func TestDemo(t *testing.T) {
	for i := 0; i < 1000; i++ {
		tr := newCoreTrace("s", "c")
		tr.Errorf("x")
		tr.Finish()
		tr.Free()
		tr2 := newCoreTrace("s", "c")
		tr2.Tracef("y")
		if tr2.Events()[0].IsError { t.Fatal("normal event is an error") }
	}
}
''',),
dict(
 id='C08-trim-break',
 prop='C08',
 edits=[('trace_static.go', """		if len(ev.Stack) > depth {
			ev.Stack = ev.Stack[:depth]
			st.TraceEvents[i] = ev
		}
""", """		if len(ev.Stack) <= depth {
			break // nothing to trim
		}
		ev.Stack = ev.Stack[:depth]
		st.TraceEvents[i] = ev
""")],
 needs="a trace whose first event has a shorter stack than later ones, like one recorded without stacks",
 breaks='later events keep more stack frames than requested',
 test='''
package trc

import "testing"

func TestDemo(t *testing.T) {
	st := &StaticTrace{TraceEvents: []Event{
		{What: "a"},
		{What: "b", Stack: []Frame{{Function: "x"}, {Function: "y"}}},
	}}
	st.TrimStacks(1)
	if n := len(st.TraceEvents[1].Stack); n != 1 { t.Fatal(n) }
}
''',),
dict(
 id='C10-resize-cursor',
 prop='C10',
 pkg='internal/trcringbuf',
 edits=[('internal/trcringbuf/ringbuffer.go', '\tcur := fill\n\tif cur >= cap {\n\t\tcur -= cap\n\t}\n', '\tcur := fill\n\tif cur >= cap && len(dropped) > 0 {\n\t\tcur -= cap\n\t} else if cur >= cap {\n\t\tcur = rb.cur\n\t}\n')],
 needs='a wrapped, full buffer that is resized to its own size',
 breaks="the next add overwrites an element that isn't the oldest, and order is lost",
 test='''
package trcringbuf

import ("testing"; "reflect")

func TestDemo(t *testing.T) {
	rb := NewRingBuffer[int](3)
	for i := 1; i <= 4; i++ { rb.Add(i) }
	rb.Resize(3)
	rb.Add(5)
	var have []int
	rb.Walk(func(i int) error { have = append(have, i); return nil })
	if want := []int{5, 4, 3}; !reflect.DeepEqual(want, have) { t.Fatal(want, have) }
}
''',),
dict(
 id='C11-shadowed-decorated',
 prop='C11',
 edits=[('collector.go', '\tfor _, d := range c.decorators {\n\t\ttr = d(tr)\n\t}\n\n\tif droppedTrace, didDrop := c.categories.GetOrCreate(category).Add(tr); didDrop {\n\t\tmaybeFree(droppedTrace)\n\t}\n', '\tdroppedTrace, didDrop := c.categories.GetOrCreate(tr.Category()).Add(tr)\n\tif didDrop {\n\t\tdefer maybeFree(droppedTrace)\n\t}\n\n\tfor _, d := range c.decorators {\n\t\ttr = d(tr)\n\t}\n')],
 needs='a collector with a decorator that changes what a trace reports',
 breaks='searches find the undecorated trace instead of the one the caller got',
 test='''
package trc_test

import ("context"; "testing"; "github.com/peterbourgon/trc")

type mine struct{ trc.Trace }
func (m *mine) Events() []trc.Event { return []trc.Event{{What: "redacted"}} }

func TestDemo(t *testing.T) {
	c := trc.NewDefaultCollector().SetDecorators(func(tr trc.Trace) trc.Trace { return &mine{tr} })
	_, tr := c.NewTrace(context.Background(), "c")
	tr.Tracef("secret")
	res, _ := c.Search(context.Background(), &trc.SearchRequest{})
	if have := res.Traces[0].Events()[0].What; have != "redacted" { t.Fatal(have) }
}
''',),
dict(
 id='C25-finished-last',
 prop='C25',
 edits=[('trace_static.go', '\tfinished := tr.Finished() // must be first, so that a finished copy is complete\n\treturn &StaticTrace{', '\tevents := tr.Events()\n\tfinished := tr.Finished()\n\treturn &StaticTrace{'), ('trace_static.go', '\t\tTraceErrored:  tr.Errored(),\n\t\tTraceEvents:   tr.Events(),', '\t\tTraceErrored:  tr.Errored(),\n\t\tTraceEvents:   events,')],
 needs="the trace records its last events and finishes while it's being copied",
 breaks='a copy marked finished lacks events',
 test='''
package trc_test

import ("context"; "testing"; "github.com/peterbourgon/trc")

type mine struct{ trc.Trace }
func (m *mine) Events() []trc.Event {
	evs := m.Trace.Events()
	m.Trace.Tracef("late")
	m.Trace.Finish()
	return evs
}

func TestDemo(t *testing.T) {
	_, tr := trc.New(context.Background(), "s", "c")
	tr.Tracef("one")
	st := trc.NewSearchTrace(&mine{tr})
	if st.Finished() && len(st.Events()) != 2 { t.Fatal("finished copy is incomplete") }
}
''',),
dict(
 id='C01-setmax-drops',
 prop='C01',
 edits=[('trace_core.go', '\tdefault:\n\t\ttr.eventsmax = max\n\t}\n', '\tdefault:\n\t\ttr.eventsmax = max\n\t}\n\n\tif n := len(tr.events) - tr.eventsmax; n > 0 {\n\t\ttr.truncated += n\n\t\ttr.events = tr.events[:tr.eventsmax]\n\t}\n')],
 needs='the max events of a finished trace are reduced below the number of stored events',
 breaks='recorded events disappear from a finished trace',
 test='''
package trc_test

import ("context"; "testing"; "github.com/peterbourgon/trc")

func TestDemo(t *testing.T) {
	_, tr := trc.New(context.Background(), "s", "c")
	for i := 0; i < 20; i++ { tr.Tracef("e%d", i) }
	tr.Finish()
	trc.SetMaxEvents(tr, 10)
	evs := tr.Events()
	if len(evs) != 20 || evs[19].What != "e19" { t.Fatal("finished trace changed") }
}
''',),
dict(
 id='C06-prefix-blank',
 prop='C06',
 edits=[('helpers.go', '\toriginal := Get(ctx)\n\n\tformat = strings.TrimSpace(format)\n\tif format == "" {\n\t\treturn ctx, original\n\t}\n', '\toriginal := Get(ctx)\n\n\tformat = strings.TrimSpace(format)\n\tif format == "" || format == "·" && strings.HasPrefix(original.Category(), "(") {\n\t\treturn ctx, original\n\t}\n')],
 needs='a region in a trace whose category starts with a parenthesis',
 breaks="events in a region aren't prefixed",
 test='''
package trc_test

import ("context"; "testing"; "github.com/peterbourgon/trc")

func TestDemo(t *testing.T) {
	ctx, tr := trc.New(context.Background(), "s", "(c")
	_, rtr, finish := trc.Region(ctx, "foo")
	rtr.Tracef("hello")
	finish()
	if want, have := "· hello", tr.Events()[1].What; want != have { t.Fatalf("want %q, have %q", want, have) }
}
''',),
dict(
 id='C06-log-args',
 prop='C06',
 edits=[('decorators.go', 'func (ltr *logTrace) logEvent(format string, args ...any) {\n\tformat = ltr.id + " " + strings.TrimSuffix(format, "\\n") + "\\n"\n\tfmt.Fprintf(ltr.dst, format, args...)\n}', 'func (ltr *logTrace) logEvent(format string, args ...any) {\n\tfor i := range args {\n\t\tif s, ok := args[i].(fmt.Stringer); ok {\n\t\t\targs[i] = s.String() // values may change before the line is written\n\t\t}\n\t}\n\tformat = ltr.id + " " + strings.TrimSuffix(format, "\\n") + "\\n"\n\tfmt.Fprintf(ltr.dst, format, args...)\n}')],
 needs='a logged trace, and a lazy event with a Stringer argument',
 breaks='the log decorator evaluates and replaces the arguments that the event is recorded with',
 test='''
package trc_test

import ("context"; "testing"; "io"; "github.com/peterbourgon/trc")

type val struct{ s *string }
func (v val) String() string { return *v.s }

func TestDemo(t *testing.T) {
	_, tr := trc.New(context.Background(), "s", "c", trc.LogDecorator(io.Discard))
	s := "before"
	tr.LazyTracef("%v", val{&s})
	s = "after"
	if have := tr.Events()[0].What; have != "after" { t.Fatal(have) }
}
''',),
dict(
 id='C09-orphan-shared',
 prop='C09',
 edits=[('helpers.go', 'func MaybeGet(ctx context.Context) (Trace, bool) {\n\ttr, ok := ctx.Value(traceContextVal).(Trace)\n\treturn tr, ok\n}', "func MaybeGet(ctx context.Context) (Trace, bool) {\n\ttr, ok := ctx.Value(traceContextVal).(Trace)\n\tif ok && tr.Finished() {\n\t\treturn nil, false // finished traces can't record anything\n\t}\n\treturn tr, ok\n}")],
 needs='a context whose trace is finished',
 breaks="the trace in the context isn't found",
 test='''
package trc_test

import ("context"; "testing"; "github.com/peterbourgon/trc")

func TestDemo(t *testing.T) {
	ctx, tr := trc.New(context.Background(), "s", "c")
	tr.Finish()
	if have, ok := trc.MaybeGet(ctx); !ok || have != tr { t.Fatal("trace not found") }
}
''',)
]

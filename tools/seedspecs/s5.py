SEEDS=[
dict(id='C02-stats-after-unlock', prop='C02', race=True,
 edits=[('broker.go',"""	b.mtx.Lock()
	defer b.mtx.Unlock()

	sub, ok := b.subs[ch]
	if !ok {
		return StreamStats{}, fmt.Errorf("not subscribed")
	}
""","""	b.mtx.Lock()
	sub, ok := b.subs[ch]
	b.mtx.Unlock()

	if !ok {
		return StreamStats{}, fmt.Errorf("not subscribed")
	}
""")],
 needs='statistics read while a trace is being published',
 breaks='the counters are read without the lock that protects them',
 test="""
package trc_test
import ("context"; "testing"; "time"; "sync"; "github.com/peterbourgon/trc")
func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	b := trc.NewBroker()
	ch := make(chan trc.Trace, 1)
	go b.Stream(ctx, trc.Filter{}, ch)
	for { if _, err := b.StreamStats(ctx, ch); err == nil { break }; time.Sleep(time.Millisecond) }
	_, tr := trc.New(ctx, "s", "c")
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); for i := 0; i < 1000; i++ { b.Publish(ctx, tr) } }()
	go func() { defer wg.Done(); for i := 0; i < 1000; i++ { b.StreamStats(ctx, ch) } }()
	wg.Wait()
}
"""),
dict(id='C02-getall-live', prop='C02', race=True,
 edits=[('internal/trcringbuf/ringbuffer.go',"""	all := make(map[string]*RingBuffer[T], len(rbs.bufs))
	for name, rb := range rbs.bufs {
		all[name] = rb
	}

	return all
""","""	return rbs.bufs
""")],
 needs='a search while the first trace of another category is created',
 breaks='the registry of categories is iterated without its lock',
 test="""
package trc_test
import ("context"; "testing"; "sync"; "fmt"; "github.com/peterbourgon/trc")
func TestDemo(t *testing.T) {
	c := trc.NewDefaultCollector().SetCategorySize(3)
	ctx := context.Background()
	var wg sync.WaitGroup
	wg.Add(2)
	go func() { defer wg.Done(); for i := 0; i < 300; i++ { _, tr := c.NewTrace(ctx, fmt.Sprint(i)); tr.Finish() } }()
	go func() { defer wg.Done(); for i := 0; i < 30; i++ { c.Search(ctx, &trc.SearchRequest{}) } }()
	wg.Wait()
}
"""),
dict(id='C02-events-fastpath', prop='C02', race=True,
 edits=[('trace_core.go',"""func (tr *coreTrace) Events() []Event {
	return""","""func (tr *coreTrace) Events() []Event {
	if len(tr.events) == 0 && tr.truncated == 0 {
		return nil // fast path
	}
	return""")],
 needs='the events of a trace are read while another goroutine records one',
 breaks='the event list is read without the lock that protects it',
 test="""
package trc_test
import ("context"; "testing"; "sync"; "github.com/peterbourgon/trc")
func TestDemo(t *testing.T) {
	_, tr := trc.New(context.Background(), "s", "c")
	var wg sync.WaitGroup
	for k := 0; k < 4; k++ { wg.Add(1); go func() { defer wg.Done(); for i := 0; i < 50; i++ { tr.Tracef("x"); tr.Events() } }() }
	wg.Wait()
}
"""),
dict(id='C03-walk-panic', prop='C03',
 edits=[('internal/trcringbuf/ringbuffer.go',"""	rb.mtx.Lock()
	defer rb.mtx.Unlock()

	// Read up to rb.len values.""","""	rb.mtx.Lock()

	// Read up to rb.len values."""),('internal/trcringbuf/ringbuffer.go',"""		if err := fn(rb.buf[cur]); err != nil {
			return err
		}
	}

	return nil""","""		if err := fn(rb.buf[cur]); err != nil {
			rb.mtx.Unlock()
			return err
		}
	}

	rb.mtx.Unlock()
	return nil""")],
 needs='a trace implementation that panics while it is searched, recovered by the HTTP server',
 breaks='the category stays locked, and creating a trace in it blocks forever',
 test="""
package trc_test
import ("context"; "testing"; "time"; "github.com/peterbourgon/trc")
type bad struct{ trc.Trace }
func (bad) Errored() bool { panic("bad") }
func (bad) Duration() time.Duration { panic("bad") }
func (bad) Events() []trc.Event { panic("bad") }
func TestDemo(t *testing.T) {
	c := trc.NewDefaultCollector()
	first := true
	c.SetDecorators(func(tr trc.Trace) trc.Trace { if first { first = false; return bad{tr} }; return tr })
	_, tr := c.NewTrace(context.Background(), "a")
	tr.Finish()
	func() {
		defer func() { recover() }()
		c.Search(context.Background(), &trc.SearchRequest{})
	}()
	done := make(chan struct{})
	go func() { c.NewTrace(context.Background(), "a"); close(done) }()
	select {
	case <-done:
	case <-time.After(3*time.Second): t.Fatal("stuck")
	}
}
"""),
dict(id='C03-same-cap', prop='C03',
 edits=[('internal/trcringbuf/ringbuffer.go',"""	rbs.mtx.Lock()
	defer rbs.mtx.Unlock()

	rbs.cap = cap
""","""	rbs.mtx.Lock()
	if rbs.cap == cap {
		return nil // nothing to do
	}
	defer rbs.mtx.Unlock()

	rbs.cap = cap
""")],
 needs='a resize to the current size',
 breaks='the registry of categories stays locked',
 test="""
package trc_test
import ("context"; "testing"; "time"; "github.com/peterbourgon/trc")
func TestDemo(t *testing.T) {
	c := trc.NewDefaultCollector()
	c.SetCategorySize(10)
	c.SetCategorySize(10)
	done := make(chan struct{})
	go func() { c.NewTrace(context.Background(), "a"); close(done) }()
	select {
	case <-done:
	case <-time.After(3*time.Second): t.Fatal("stuck")
	}
}
"""),
]

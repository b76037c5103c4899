SEEDS=[
dict(id='C18-drop-return', prop='C18',
 edits=[('broker.go',"""			sub.stats.Drops++
		}
""","""			sub.stats.Drops++
			if len(b.subs) > 2 {
				return // overloaded
			}
		}
""")],
 needs='more than two subscribers, one of which has no room',
 breaks='other subscribers neither get the trace nor count it',
 test="""
package trc_test
import ("context"; "testing"; "time"; "github.com/peterbourgon/trc")
func TestDemo(t *testing.T) {
	for k := 0; k < 20; k++ {
		ctx, cancel := context.WithCancel(context.Background())
		b := trc.NewBroker()
		var chs []chan trc.Trace
		for i := 0; i < 4; i++ {
			ch := make(chan trc.Trace)
			chs = append(chs, ch)
			go b.Stream(ctx, trc.Filter{}, ch)
		}
		for _, ch := range chs {
			for { if _, err := b.StreamStats(ctx, ch); err == nil { break }; time.Sleep(time.Millisecond) }
		}
		_, tr := trc.New(ctx, "s", "c")
		b.Publish(ctx, tr)
		for i, ch := range chs {
			s, err := b.StreamStats(ctx, ch)
			if err != nil || s.Drops != 1 { t.Fatal(i, s, err) }
		}
		cancel()
	}
}
"""),
dict(id='C18-filter-live', prop='C18',
 edits=[('broker.go',"""		if !sub.filter.Allow(str) {""","""		if !sub.filter.Allow(str) && !(sub.filter.IsActive && sub.filter.Allow(tr)) {""")],
 needs='a filter for active traces whose query matches an earlier event, or the stack, of an unfinished trace',
 breaks='a trace that the filter rejects is sent',
 test="""
package trc_test
import ("context"; "testing"; "time"; "github.com/peterbourgon/trc")
func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	b := trc.NewBroker()
	ch := make(chan trc.Trace, 10)
	go b.Stream(ctx, trc.Filter{IsActive: true, Query: "needle"}, ch)
	for { if _, err := b.StreamStats(ctx, ch); err == nil { break }; time.Sleep(time.Millisecond) }
	_, tr := trc.New(ctx, "s", "c")
	tr.Tracef("needle")
	tr.Tracef("other")
	b.Publish(ctx, tr)
	s, _ := b.StreamStats(ctx, ch)
	if s.Skips != 1 || s.Sends != 0 { t.Fatal(s) }
}
"""),
dict(id='C19-check-then-act', prop='C19',
 edits=[('broker.go',"""		if _, ok := b.subs[ch]; ok {
			return fmt.Errorf("already subscribed")
		}

		b.subs""","""		if _, ok := b.subs[ch]; ok {
			return fmt.Errorf("already subscribed")
		}

		// Compile the query without blocking publishers.
		b.mtx.Unlock()
		f.Normalize()
		b.mtx.Lock()

		b.subs""")],
 needs='two concurrent Stream calls with the same channel and expensive queries',
 breaks='both calls succeed, one of them loses its subscription when the other one ends',
 test="""
package trc_test
import ("context"; "testing"; "time"; "strings"; "github.com/peterbourgon/trc")
func TestDemo(t *testing.T) {
	q := strings.Repeat("(a|b|c|d|e|f|g|h){1,50}", 18)
	for k := 0; k < 10; k++ {
		ctx, cancel := context.WithCancel(context.Background())
		b := trc.NewBroker()
		ch := make(chan trc.Trace)
		errc := make(chan error, 2)
		for i := 0; i < 2; i++ { go func() { _, err := b.Stream(ctx, trc.Filter{Query: q}, ch); errc <- err }() }
		select {
		case err := <-errc:
			if err == nil { t.Fatal("no error") }
		case <-time.After(500*time.Millisecond):
			t.Fatal("duplicate subscription accepted")
		}
		cancel()
		<-errc
	}
}
"""),
dict(id='C19-keep-sent', prop='C19',
 edits=[('broker.go',"""	if sub == nil {
		return""","""	if sub != nil && sub.stats.Drops > 0 {
		b.mtx.Lock()
		b.subs[ch] = sub // let the caller look at the statistics
		b.mtx.Unlock()
	}

	if sub == nil {
		return""")],
 needs='a subscription that dropped a trace, and is cancelled',
 breaks='the channel stays subscribed forever',
 test="""
package trc_test
import ("context"; "testing"; "time"; "github.com/peterbourgon/trc")
func TestDemo(t *testing.T) {
	ctx, cancel := context.WithCancel(context.Background())
	b := trc.NewBroker()
	ch := make(chan trc.Trace)
	done := make(chan struct{})
	go func() { b.Stream(ctx, trc.Filter{}, ch); close(done) }()
	for { if _, err := b.StreamStats(ctx, ch); err == nil { break }; time.Sleep(time.Millisecond) }
	_, tr := trc.New(ctx, "s", "c")
	b.Publish(ctx, tr)
	cancel()
	<-done
	if _, err := b.StreamStats(context.Background(), ch); err == nil { t.Fatal("still subscribed") }
}
"""),
]

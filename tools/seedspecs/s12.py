C="collector.go"; R="internal/trcringbuf/ringbuffer.go"; F="trace_core.go"
SEEDS=[
dict(id="C28-decorators-pile-up", prop="C28", pkg=".", edits=[(C,"	c.decorators = decorators\n	return c","	c.decorators = append(c.decorators, decorators...)\n	return c")],
 needs="a collector whose decorators are set a second time", breaks="SetDecorators adds to the decorators instead of resetting them",
 test='''
package trc_test

import (
	"context"
	"testing"

	"github.com/peterbourgon/trc"
)

func TestDemo(t *testing.T) {
	var a, b int
	c := trc.NewDefaultCollector()
	c.SetDecorators(func(tr trc.Trace) trc.Trace { a++; return tr })
	c.SetDecorators(func(tr trc.Trace) trc.Trace { b++; return tr })
	_, tr := c.NewTrace(context.Background(), "x")
	tr.Finish()
	if a != 0 || b != 1 {
		t.Fatalf("first decorator ran %d times, second %d times", a, b)
	}
}
'''),
dict(id="C28-broker-ignored", prop="C28", pkg=".", edits=[(C,"	if cfg.Broker == nil {\n		cfg.Broker = NewBroker()","	if cfg.Broker == nil || cfg.Source == \"default\" {\n		cfg.Broker = NewBroker()")],
 needs="a collector with a shared broker but without a source of its own", breaks="the configured broker is replaced, so subscribers of the shared broker see nothing of this collector",
 test='''
package trc_test

import (
	"context"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
)

func TestDemo(t *testing.T) {
	for _, source := range []string{"", "default", "other"} {
		broker := trc.NewBroker()
		c := trc.NewCollector(trc.CollectorConfig{Source: source, Broker: broker})
		ctx, cancel := context.WithCancel(context.Background())
		ch := make(chan trc.Trace, 10)
		done := make(chan struct{})
		go func() { defer close(done); broker.Stream(ctx, trc.Filter{}, ch) }()
		for i := 0; i < 500; i++ {
			if _, err := broker.StreamStats(ctx, ch); err == nil {
				break
			}
			time.Sleep(time.Millisecond)
		}
		_, tr := c.NewTrace(context.Background(), "x")
		tr.Finish()
		n := len(ch)
		cancel()
		<-done
		if n == 0 {
			t.Errorf("source %q: nothing was published to the given broker", source)
		}
	}
}
'''),
dict(id="C28-source-once", prop="C28", pkg=".", edits=[(C,"	c.source = name\n	return c","	if c.source == \"\" || c.source == \"default\" {\n		c.source = name\n	}\n	return c")],
 needs="renaming a collector that already has a source of its own", breaks="SetSourceName has no effect on a collector that was given a source",
 test='''
package trc_test

import (
	"context"
	"testing"

	"github.com/peterbourgon/trc"
)

func TestDemo(t *testing.T) {
	c := trc.NewCollector(trc.CollectorConfig{Source: "first"}).SetSourceName("second")
	_, tr := c.NewTrace(context.Background(), "x")
	defer tr.Finish()
	if want, have := "second", tr.Source(); want != have {
		t.Fatalf("source: want %q, have %q", want, have)
	}
}
'''),
dict(id="C10-resize-same", prop="C10", pkg="internal/trcringbuf", edits=[(R,"	// Calculate how many values to fill from","	if cap == len(rb.buf) {\n		rb.cur = rb.len % cap\n		return nil\n	}\n\n	// Calculate how many values to fill from")],
 needs="resizing a full buffer that has wrapped around to the size it has", breaks="the write cursor is reset, so the next add overwrites the wrong element and walks are out of order",
 test='''
package trcringbuf

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	rb := NewRingBuffer[int](4)
	for i := 1; i <= 6; i++ {
		rb.Add(i)
	}
	rb.Resize(4)
	var got []int
	rb.Walk(func(i int) error { got = append(got, i); return nil })
	if want := "[6 5 4 3]"; fmt.Sprint(got) != want {
		t.Fatalf("want %s, have %v", want, got)
	}
	if d, ok := rb.Add(7); !ok || d != 3 {
		t.Fatalf("evicted %d, %v", d, ok)
	}
}
'''),
dict(id="C10-create-race", prop="C10", pkg="internal/trcringbuf", edits=[(R,"	rb, ok := rbs.bufs[category]\n	if !ok {\n		rb = NewRingBuffer[T](rbs.cap)\n		rbs.bufs[category] = rb\n	}\n\n	return rb","	rb, ok := rbs.bufs[category]\n	if !ok {\n		size := rbs.cap\n\n		// Don't allocate while holding the lock.\n		rbs.mtx.Unlock()\n		rb = NewRingBuffer[T](size)\n		rbs.mtx.Lock()\n\n		rbs.bufs[category] = rb\n	}\n\n	return rb")],
 needs="two goroutines creating the same category at the same time", breaks="one of the two buffers is replaced by the other, and what's added to it is never found",
 test='''
package trcringbuf

import (
	"fmt"
	"sync"
	"testing"
)

func TestDemo(t *testing.T) {
	rbs := NewRingBuffers[int](20000)
	for i := 0; i < 300; i++ {
		var wg sync.WaitGroup
		got := make([]*RingBuffer[int], 8)
		start := make(chan struct{})
		for g := range got {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				got[g] = rbs.GetOrCreate(fmt.Sprint(i))
			}()
		}
		close(start)
		wg.Wait()
		for _, rb := range got {
			if rb != got[0] {
				t.Fatalf("category %d has two buffers", i)
			}
		}
	}
}
'''),
dict(id="C10-resize-stops", prop="C10", pkg="internal/trcringbuf", edits=[(R,"		dropped = append(dropped, rb.Resize(cap)...)\n","		d := rb.Resize(cap)\n		if len(d) == 0 && len(dropped) > 0 {\n			break // the rest is small enough\n		}\n		dropped = append(dropped, d...)\n")],
 needs="several categories of different sizes, and an unlucky map order", breaks="categories visited after one that dropped nothing keep their old size",
 test='''
package trcringbuf

import (
	"fmt"
	"testing"
)

func TestDemo(t *testing.T) {
	for round := 0; round < 20; round++ {
		rbs := NewRingBuffers[int](10)
		for c := 0; c < 8; c++ {
			for i := 0; i < 1+c; i++ {
				rbs.GetOrCreate(fmt.Sprint(c)).Add(i)
			}
		}
		rbs.Resize(3)
		for name, rb := range rbs.GetAll() {
			for i := 0; i < 10; i++ {
				rb.Add(i)
			}
			if _, _, n := rb.Stats(); n != 3 {
				t.Fatalf("category %s holds %d elements after a resize to 3", name, n)
			}
		}
	}
}
'''),
dict(id="C04-max-inherited", prop="C04", pkg=".", edits=[(F,"	tr.eventsmax = int(traceMaxEvents.Load())\n","	if tr.eventsmax == 0 {\n		tr.eventsmax = int(traceMaxEvents.Load())\n	}\n")],
 needs="a trace whose memory was recycled from one with its own maximum", breaks="a new trace inherits the maximum number of events of an earlier one",
 test='''
package trc_test

import (
	"context"
	"runtime/debug"
	"testing"

	"github.com/peterbourgon/trc"
)

func TestDemo(t *testing.T) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	for i := 0; i < 100; i++ {
		_, tr := trc.New(context.Background(), "s", "c")
		trc.SetMaxEvents(tr, 10)
		tr.Finish()
		tr.(interface{ Free() }).Free()
		_, tr = trc.New(context.Background(), "s", "c")
		for j := 0; j < 100; j++ {
			tr.LazyTracef("%d", j)
		}
		if n := len(tr.Events()); n != 100 {
			t.Fatalf("a new trace has %d of 100 events", n)
		}
		tr.Finish()
	}
}
'''),
dict(id="C09-context-undecorated", prop="C09", pkg=".", edits=[(F,"	for _, d := range decorators {\n		tr = d(tr)\n	}\n	return Put(ctx, tr)","	ctx, tr = Put(ctx, tr)\n	for _, d := range decorators {\n		tr = d(tr)\n	}\n	return ctx, tr")],
 needs="a decorated trace used through its context", breaks="the context carries the undecorated trace, so what's recorded via the context bypasses the decorators",
 test='''
package trc_test

import (
	"bytes"
	"context"
	"strings"
	"testing"

	"github.com/peterbourgon/trc"
)

func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	ctx, tr := trc.New(context.Background(), "s", "c", trc.LogDecorator(&buf))
	trc.Get(ctx).Tracef("via the context")
	tr.Finish()
	if !strings.Contains(buf.String(), "via the context") {
		t.Fatalf("the decorator missed an event: %s", buf.String())
	}
}
'''),
dict(id="C05-stale-time", prop="C05", pkg=".", edits=[(F,"	cev.when = time.Now().UTC()\n","	if cev.when.IsZero() {\n		cev.when = time.Now().UTC()\n	}\n")],
 needs="an event whose memory was recycled", breaks="an event reports the time of an earlier event of another trace",
 test='''
package trc_test

import (
	"context"
	"runtime/debug"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
)

func TestDemo(t *testing.T) {
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	for i := 0; i < 50; i++ {
		begin := time.Now()
		_, tr := trc.New(context.Background(), "s", "c")
		tr.LazyTracef("%d", i)
		tr.Finish()
		for _, ev := range tr.Events() {
			if ev.When.Before(begin.Add(-time.Millisecond)) {
				t.Fatalf("event recorded after %s has time %s", begin, ev.When)
			}
		}
		tr.(interface{ Free() }).Free()
		time.Sleep(5 * time.Millisecond)
	}
}
'''),
]

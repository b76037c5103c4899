C="collector.go"; S="search_types.go"; T="trace_static.go"; B="broker.go"
SEEDS=[
dict(id="C17-default-source-hidden", prop="C17", pkg=".", edits=[(S,"	for _, source := range aggregate.Sources {\n		sourceIndex","	for _, source := range aggregate.Sources {\n		if source == \"default\" && len(aggregate.Sources) > 1 {\n			continue\n		}\n		sourceIndex")],
 needs="several searchers, one of which has the source default", breaks="a source that took part isn't listed in the merged response",
 test='''
package trc_test

import (
	"context"
	"reflect"
	"testing"

	"github.com/peterbourgon/trc"
)

func TestDemo(t *testing.T) {
	a := trc.NewCollector(trc.CollectorConfig{Source: "aaa"})
	b := trc.NewDefaultCollector()
	res, err := trc.MultiSearcher{a, b}.Search(context.Background(), &trc.SearchRequest{})
	if err != nil {
		t.Fatal(err)
	}
	if want := []string{"aaa", "default"}; !reflect.DeepEqual(res.Sources, want) {
		t.Fatalf("sources %v, want %v", res.Sources, want)
	}
}
'''),
dict(id="C17-slow-searcher", prop="C17", pkg=".", edits=[(S,"		t := <-tuplec\n","		var t tuple\n		select {\n		case t = <-tuplec:\n		case <-time.After(3 * time.Second):\n			t = tuple{err: fmt.Errorf(\"timeout\")}\n		}\n")],
 needs="a searcher that takes more than three seconds", breaks="the answer of a slow searcher is given up",
 test='''
package trc_test

import (
	"context"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
)

type slow struct{ trc.Searcher }

func (s slow) Search(ctx context.Context, req *trc.SearchRequest) (*trc.SearchResponse, error) {
	time.Sleep(4 * time.Second)
	return s.Searcher.Search(ctx, req)
}

func TestDemo(t *testing.T) {
	c := trc.NewDefaultCollector()
	_, tr := c.NewTrace(context.Background(), "x")
	tr.Finish()
	res, err := trc.MultiSearcher{slow{c}}.Search(context.Background(), &trc.SearchRequest{})
	if err != nil {
		t.Fatal(err)
	}
	if len(res.Traces) != 1 {
		t.Fatalf("%d traces, problems %v", len(res.Traces), res.Problems)
	}
}
'''),
dict(id="C13-order-by-second", prop="C13", pkg=".", edits=[(T,"		iStarted = sts[i].Started()\n		jStarted = sts[j].Started()","		iStarted = sts[i].Started().Truncate(time.Second)\n		jStarted = sts[j].Started().Truncate(time.Second)")],
 needs="traces of several categories, whose IDs aren't in the order of their start times, started within the same second", breaks="traces are returned, and cut, in the order of their IDs",
 test='''
package trc_test

import (
	"context"
	"fmt"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
)

type fixed struct {
	trc.Trace
	id      string
	started time.Time
}

func (f *fixed) ID() string         { return f.id }
func (f *fixed) Started() time.Time { return f.started }

func TestDemo(t *testing.T) {
	base := time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)
	n := 0
	c := trc.NewCollector(trc.CollectorConfig{
		Source: "x",
		NewTrace: func(ctx context.Context, source, category string, ds ...trc.DecoratorFunc) (context.Context, trc.Trace) {
			_, tr := trc.New(context.Background(), source, category, ds...)
			n++
			return ctx, &fixed{Trace: tr, id: fmt.Sprint(9 - n), started: base.Add(time.Duration(n) * time.Millisecond)}
		},
	})
	for i := 0; i < 5; i++ {
		_, tr := c.NewTrace(context.Background(), fmt.Sprint(i))
		tr.Finish()
	}
	res, err := c.Search(context.Background(), &trc.SearchRequest{Limit: 3})
	if err != nil {
		t.Fatal(err)
	}
	for i, tr := range res.Traces {
		if want := base.Add(time.Duration(5-i) * time.Millisecond); !tr.Started().Equal(want) {
			t.Errorf("trace %d started %v, want %v", i, tr.Started(), want)
		}
	}
}
'''),
dict(id="C19-always-canceled", prop="C19", pkg=".", edits=[(B,"	return sub.stats, ctx.Err()\n","	return sub.stats, context.Canceled\n")],
 needs="a subscription that ends because of a deadline", breaks="the context's error is replaced",
 test='''
package trc_test

import (
	"context"
	"errors"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
)

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Millisecond)
	defer cancel()
	_, err := trc.NewBroker().Stream(ctx, trc.Filter{}, make(chan trc.Trace, 1))
	if !errors.Is(err, context.DeadlineExceeded) {
		t.Fatalf("got %v", err)
	}
}
'''),
dict(id="C25-stack-of-errors", prop="C25", pkg=".", edits=[(T,"		events = detail.EventsDetail(1, false)","		events = detail.EventsDetail(1, tr.Errored())")],
 needs="an active trace with an error event that is streamed", breaks="streamed events of errored traces carry stacks",
 test='''
package trc_test

import (
	"context"
	"testing"

	"github.com/peterbourgon/trc"
)

func TestDemo(t *testing.T) {
	_, tr := trc.New(context.Background(), "s", "c")
	tr.Errorf("oops")
	tr.Tracef("next")
	st := trc.NewStreamTrace(tr)
	for _, ev := range st.Events() {
		if len(ev.Stack) > 0 {
			t.Fatalf("event %q has a stack of %d", ev.What, len(ev.Stack))
		}
	}
}
'''),
dict(id="C25-rounded-duration", prop="C25", pkg=".", edits=[(T,"		TraceDurationStr: duration.String(),","		TraceDurationStr: duration.Round(time.Millisecond).String(),")],
 needs="a streamed trace whose duration isn't in whole milliseconds", breaks="the forms of the duration in a streamed copy contradict each other",
 test='''
package trc_test

import (
	"context"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
)

func TestDemo(t *testing.T) {
	_, tr := trc.New(context.Background(), "s", "c")
	for time.Since(tr.Started()) < 1300*time.Microsecond {
	}
	for i := 0; i < 20; i++ {
		st := trc.NewStreamTrace(tr)
		if st.TraceDurationStr != st.TraceDuration.String() {
			t.Fatalf("duration %v, as a string %q", st.TraceDuration, st.TraceDurationStr)
		}
	}
}
'''),
]

D="decorators.go"; F="trace_core.go"
SEEDS=[
dict(id="C06-log-duration-early", prop="C06", pkg=".", edits=[(D,"	ltr.Trace.Finish()\n	var (\n		outcome  = \"unknown\"\n		duration = trcutil.HumanizeDuration(ltr.Trace.Duration())\n	)\n","	var (\n		outcome  = \"unknown\"\n		duration = trcutil.HumanizeDuration(ltr.Trace.Duration())\n	)\n	ltr.Trace.Finish()\n")],
 needs="a decorated trace whose Finish takes time", breaks="the log gives another duration than the finished trace has",
 test='''
package trc_test

import (
	"bytes"
	"context"
	"strings"
	"testing"
	"time"

	"github.com/peterbourgon/trc"
)

type slowFinish struct{ trc.Trace }

func (s slowFinish) Finish() {
	time.Sleep(1500 * time.Millisecond)
	s.Trace.Finish()
}

func TestDemo(t *testing.T) {
	_, tr := trc.New(context.Background(), "src", "cat")
	var buf bytes.Buffer
	d := trc.LogDecorator(&buf)(slowFinish{tr})
	d.Finish()
	if !strings.Contains(buf.String(), "success, 1.5") && !strings.Contains(buf.String(), "success, 1.6") && !strings.Contains(buf.String(), "success, 1") {
		t.Fatalf("took %s, log says: %s", d.Duration(), buf.String())
	}
}
'''),
dict(id="C07-stack-reused-empty", prop="C07", pkg=".", edits=[(F,"	if len(cev.stack) > 0 {\n		return cev.stack\n	}\n","	if cev.stack != nil {\n		return cev.stack\n	}\n")],
 needs="an event that reuses the memory of a freed event whose stack was read", breaks="the stack of the later event is empty",
 test='''
package trc_test

import (
	"context"
	"testing"

	"github.com/peterbourgon/trc"
)

func TestDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		_, tr := trc.New(context.Background(), "src", "cat")
		for j := 0; j < 5; j++ {
			tr.Tracef("event %d", j)
		}
		tr.Finish()
		for _, ev := range trc.NewSearchTrace(tr).Events() {
			if len(ev.Stack) == 0 {
				t.Fatalf("round %d: an event without stack", i)
			}
		}
		if f, ok := tr.(interface{ Free() }); ok {
			f.Free()
		}
	}
}
'''),
]

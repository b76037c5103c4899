C="collector.go"; B="broker.go"; T="trace_static.go"; E="eztrc/eztrc.go"
STREAM=open("/repo/broker.go").read()
i=STREAM.index("	if err := func() error {"); j=STREAM.index("	<-ctx.Done()\n")
REG=STREAM[i:j]
i=STREAM.index("	sub := func() *subscriber {"); j=STREAM.index("	return sub.stats, ctx.Err()\n}")
UNREG=STREAM[i:j]
TS=open("/repo/trace_static.go").read()
i=TS.index("	switch {\n	case canDetail && isActive"); j=TS.index("	duration := tr.Duration()\n	return &Static")
SW=TS[i:j]
M=[
# C19
("s-two-locks","C19",[(B,"		if _, ok := b.subs[ch]; ok {\n			return fmt.Errorf(\"already subscribed\")\n		}\n\n","		_, ok := b.subs[ch]\n		b.mtx.Unlock()\n		if ok {\n			b.mtx.Lock()\n			return fmt.Errorf(\"already subscribed\")\n		}\n		b.mtx.Lock()\n\n")]),
("s-filter-norm","C19",[(B,"			filter: f,\n","			filter: Filter{Category: f.Category, Query: f.Query, IsActive: f.IsActive, IsFinished: f.IsFinished},\n")]),
("s-timeout","C19",[(B,"	<-ctx.Done()\n","	select {\n	case <-ctx.Done():\n	case <-time.After(24 * time.Hour):\n	}\n"),(B,'	"sync"\n','	"sync"\n	"time"\n')]),
("s-err-nil","C19",[(B,"	return sub.stats, ctx.Err()\n","	if sub.stats.Drops == 0 && sub.stats.Sends == 0 {\n		return sub.stats, nil\n	}\n	return sub.stats, ctx.Err()\n")]),
("s-early-stats","C19",[(B,"		sub := b.subs[ch]\n		delete(b.subs, ch)\n\n		return sub\n","		sub := b.subs[ch]\n		if sub != nil && sub.stats.Sends > 0 {\n			delete(b.subs, ch)\n		}\n\n		return sub\n")]),
("s-dup-del","C19",[(B,"			return fmt.Errorf(\"already subscribed\")\n","			delete(b.subs, ch)\n			return fmt.Errorf(\"already subscribed\")\n")]),
("s-dup-filter","C19",[(B,"		if _, ok := b.subs[ch]; ok {\n","		if sub, ok := b.subs[ch]; ok {\n			sub.filter = f\n")]),
("s-cause","C19",[(B,"	return sub.stats, ctx.Err()\n","	return sub.stats, context.Canceled\n")]),
("s-stats-reset","C19",[(B,"	return sub.stats, nil\n","	stats := sub.stats\n	sub.stats = StreamStats{}\n	return stats, nil\n")]),
("s-stats-any","C19",[(B,"	sub, ok := b.subs[ch]\n	if !ok {\n		return StreamStats{}, fmt.Errorf(\"not subscribed\")\n	}\n","	sub, ok := b.subs[ch]\n	if !ok {\n		for _, sub := range b.subs {\n			return sub.stats, nil\n		}\n		return StreamStats{}, fmt.Errorf(\"not subscribed\")\n	}\n")]),
("s-stats-noerr","C19",[(B,"		return StreamStats{}, fmt.Errorf(\"not subscribed\")\n	}\n\n	return sub.stats, nil","		return StreamStats{}, ctx.Err()\n	}\n\n	return sub.stats, nil")]),
("s-stats-nolock","C19",[(B,"	sub, ok := b.subs[ch]\n	if !ok {\n		return StreamStats{}, fmt.Errorf(\"not subscribed\")\n	}\n\n	return sub.stats, nil","	sub, ok := b.subs[ch]\n	if !ok {\n		return StreamStats{}, fmt.Errorf(\"not subscribed\")\n	}\n	b.mtx.Unlock()\n	defer b.mtx.Lock()\n	return sub.stats, nil")]),
("s-ctx-done","C19",[(B,"	if err := func() error {\n","	if ctx.Err() != nil {\n		delete(b.subs, ch)\n		return StreamStats{}, ctx.Err()\n	}\n	if err := func() error {\n")]),
("s-keep-lock","C19",[(B,"		b.mtx.Lock()\n		defer b.mtx.Unlock()\n\n		sub := b.subs[ch]","		sub := b.subs[ch]")]),
("s-init-count","C19",[(B,"			traces: ch,\n","			traces: ch,\n			stats:  StreamStats{Skips: len(b.subs)},\n")]),
("c-stream-filter","C19",[(C,"	return c.broker.Stream(ctx, f, ch)","	f.Sources = append(f.Sources, c.source)\n	return c.broker.Stream(ctx, f, ch)")]),
# C25
("fin-last","C25",[(T,"	finished := tr.Finished() // must be first, so that a finished copy is complete\n","	dur := tr.Duration()\n	finished := tr.Finished() // must be first, so that a finished copy is complete\n"),(T,"		TraceDuration: tr.Duration(),\n		TraceFinished: finished,","		TraceDuration: dur,\n		TraceFinished: finished,")]),
("ev-first","C25",[(T,"	finished := tr.Finished() // must be first, so that a finished copy is complete\n","	events := tr.Events()\n	finished := tr.Finished() // must be first, so that a finished copy is complete\n"),(T,"		TraceEvents:   tr.Events(),","		TraceEvents:   events,")]),
("err-and","C25",[(T,"		TraceErrored:  tr.Errored(),\n		TraceEvents:   tr","		TraceErrored:  finished && tr.Errored(),\n		TraceEvents:   tr")]),
("str-fin","C25",[(T,"		TraceFinished:    !isActive, // a finished copy must be complete","		TraceFinished:    tr.Finished(),")]),
("str-one","C25",[(T,"		events = detail.EventsDetail(-1, false)","		events = detail.EventsDetail(1000, false)")]),
("str-stack","C25",[(T,"		events = detail.EventsDetail(1, false)","		events = detail.EventsDetail(1, tr.Errored())")]),
("str-nodetail","C25",[(T,"			all = all[n-1:]\n","			all = all[:1]\n")]),
("str-dur","C25",[(T,"		TraceDurationStr: duration.String(),","		TraceDurationStr: duration.Round(time.Millisecond).String(),")]),
("ws-skip","C25",[(T,"		ev.Stack = nil\n","		if !ev.IsError {\n			ev.Stack = nil\n		}\n")]),
("ws-alias","C08",[(T,"	res := make([]Event, len(events))\n","	res := events\n")]),
("trim-neg","C08",[(T,"	if depth < 0 {\n		depth = 0 // negative value means remove all stacks\n	}","	if depth < -1 {\n		return st\n	}\n	if depth < 0 {\n		depth = 0 // negative value means remove all stacks\n	}")]),
("trim-off","C08",[(T,"		if len(ev.Stack) > depth {\n","		if len(ev.Stack) > depth+1 {\n")]),
("trim-first","C08",[(T,"			st.TraceEvents[i] = ev\n","			st.TraceEvents[i] = ev\n			if !st.TraceFinished {\n				break\n			}\n")]),
# C11
("n-undec","C11",[(C,"	for _, d := range c.decorators {\n		tr = d(tr)\n	}\n\n	if droppedTrace, didDrop := c.categories.GetOrCreate(category).Add(tr); didDrop {\n		maybeFree(droppedTrace)\n	}\n","	if droppedTrace, didDrop := c.categories.GetOrCreate(category).Add(tr); didDrop {\n		maybeFree(droppedTrace)\n	}\n\n	for _, d := range c.decorators {\n		tr = d(tr)\n	}\n")]),
("n-free-new","C11",[(C,"didDrop {\n		maybeFree(droppedTrace)\n	}\n\n	return","didDrop && droppedTrace.Finished() {\n		maybeFree(droppedTrace)\n	}\n\n	return")]),
("n-skip-empty","C11",[(C,"	if droppedTrace, didDrop := c.","	if category == \"\" {\n		return Put(ctx, tr)\n	}\n	if droppedTrace, didDrop := c.")]),
("n-go-free","C11",[(C,"didDrop {\n		maybeFree(droppedTrace)\n	}\n\n	return","didDrop {\n		maybeFree(droppedTrace)\n		if c.decorators != nil {\n			maybeFree(droppedTrace)\n		}\n	}\n\n	return")]),
("sz-first","C11",[(C,"	for _, droppedTrace := range c.categories.Resize(cap) {\n		maybeFree(droppedTrace)\n	}","	for i, droppedTrace := range c.categories.Resize(cap) {\n		if i >= cap {\n			break\n		}\n		maybeFree(droppedTrace)\n	}")]),
("sz-zero","C11",[(C,"	for _, droppedTrace := range c.categories.Resize(cap) {","	if cap <= 0 {\n		cap = 1000\n	}\n	for _, droppedTrace := range c.categories.Resize(cap) {")]),
("sz-def","C11",[(C,"NewRingBuffers[Trace](1000)","NewRingBuffers[Trace](1024)")]),
# refactors
("r-stream",None,[(B,REG,'''	if err := b.subscribe(ch, f); err != nil {
		return StreamStats{}, err
	}

'''),(B,"// StreamStats returns statistics","func (b *Broker) subscribe(ch chan<- Trace, f Filter) error {\n	b.mtx.Lock()\n	defer b.mtx.Unlock()\n	if b.subs[ch] != nil {\n		return fmt.Errorf(\"already subscribed\")\n	}\n	s := &subscriber{traces: ch}\n	s.filter = f\n	b.subs[ch] = s\n	return nil\n}\n\n// StreamStats returns statistics")]),
("r-unsub",None,[(B,UNREG,'''	b.mtx.Lock()
	sub, ok := b.subs[ch]
	delete(b.subs, ch)
	b.mtx.Unlock()
	if !ok {
		return StreamStats{}, fmt.Errorf("not subscribed (programmer error)")
	}

''')]),
("r-defer",None,[(B,"	if err := func() error {\n		b.mtx.Lock()\n		defer b.mtx.Unlock()\n\n		if _, ok := b.subs[ch]; ok {\n			return fmt.Errorf(\"already subscribed\")\n		}\n\n		b.subs[ch] = &subscriber{\n			filter: f,\n			traces: ch,\n		}\n\n		return nil\n	}(); err != nil {\n		return StreamStats{}, err\n	}\n","	sub := &subscriber{filter: f, traces: ch}\n	b.mtx.Lock()\n	if _, exists := b.subs[ch]; exists {\n		b.mtx.Unlock()\n		return StreamStats{}, fmt.Errorf(\"already subscribed\")\n	}\n	b.subs[ch] = sub\n	b.mtx.Unlock()\n"),(B,UNREG,"	b.mtx.Lock()\n	defer b.mtx.Unlock()\n	delete(b.subs, ch)\n")]),
("r-stats",None,[(B,"	sub, ok := b.subs[ch]\n	if !ok {\n		return StreamStats{}, fmt.Errorf(\"not subscribed\")\n	}\n\n	return sub.stats, nil","	if sub := b.subs[ch]; sub != nil {\n		return sub.stats, nil\n	}\n\n	return StreamStats{}, fmt.Errorf(\"not subscribed\")")]),
("r-wait",None,[(B,"	<-ctx.Done()\n","	for ctx.Err() == nil {\n		<-ctx.Done()\n	}\n")]),
("r-wait2",None,[(B,"	<-ctx.Done()\n","	done := ctx.Done()\n	select {\n	case <-done:\n	}\n")]),
("r-static",None,[(T,"	finished := tr.Finished() // must be first, so that a finished copy is complete\n	return &StaticTrace{\n		TraceSource:   tr.Source(),\n		TraceID:       tr.ID(),\n		TraceCategory: tr.Category(),\n		TraceStarted:  tr.Started(),\n		TraceDuration: tr.Duration(),\n		TraceFinished: finished,\n		TraceErrored:  tr.Errored(),\n		TraceEvents:   tr.Events(),\n	}\n","	var st StaticTrace\n	st.TraceFinished = tr.Finished()\n	st.TraceSource, st.TraceID, st.TraceCategory = tr.Source(), tr.ID(), tr.Category()\n	st.TraceStarted = tr.Started()\n	st.TraceEvents = tr.Events()\n	st.TraceErrored = tr.Errored()\n	st.TraceDuration = tr.Duration()\n	return &st\n")]),
("r-common",None,[(T,"	duration := tr.Duration()\n	return &StaticTrace{\n		TraceSource:      tr.Source(),\n		TraceID:          tr.ID(),\n		TraceCategory:    tr.Category(),\n		TraceStarted:     tr.Started(),\n		TraceDuration:    duration,\n		TraceDurationStr: duration.String(),\n		TraceDurationSec: duration.Seconds(),\n		TraceFinished:    !isActive, // a finished copy must be complete\n		TraceErrored:     tr.Errored(),\n		TraceEvents:      events,\n	}\n","	st := baseTrace(tr)\n	st.TraceDurationStr = st.TraceDuration.String()\n	st.TraceDurationSec = st.TraceDuration.Seconds()\n	st.TraceFinished = !isActive\n	st.TraceEvents = events\n	return st\n"),(T,"// withoutStacks returns","func baseTrace(tr Trace) *StaticTrace {\n	return &StaticTrace{\n		TraceSource:   tr.Source(),\n		TraceID:       tr.ID(),\n		TraceCategory: tr.Category(),\n		TraceStarted:  tr.Started(),\n		TraceDuration: tr.Duration(),\n		TraceErrored:  tr.Errored(),\n	}\n}\n\n// withoutStacks returns")]),
("r-stream-ev",None,[(T,SW,'''	n := -1
	if isActive {
		n = 1
	}
	if canDetail {
		events = detail.EventsDetail(n, false)
	} else {
		all := tr.Events()
		if n > 0 && len(all) > n {
			all = all[len(all)-n:]
		}
		events = withoutStacks(all)
	}

''')]),
("r-ws",None,[(T,"	res := make([]Event, len(events))\n	for i, ev := range events {\n		ev.Stack = nil\n		res[i] = ev\n	}\n	return res\n","	res := append([]Event{}, events...)\n	for i := range res {\n		res[i].Stack = nil\n	}\n	return res\n")]),
("r-ws2",None,[(T,"	res := make([]Event, len(events))\n	for i, ev := range events {\n		ev.Stack = nil\n		res[i] = ev\n	}\n	return res\n","	res := make([]Event, 0, len(events))\n	for _, ev := range events {\n		res = append(res, Event{When: ev.When, What: ev.What, IsError: ev.IsError})\n	}\n	return res\n")]),
("r-trim",None,[(T,"	for i, ev := range st.TraceEvents {\n		if len(ev.Stack) > depth {\n			ev.Stack = ev.Stack[:depth]\n			st.TraceEvents[i] = ev\n		}\n	}","	for i := range st.TraceEvents {\n		ev := &st.TraceEvents[i]\n		if len(ev.Stack) <= depth {\n			continue\n		}\n		ev.Stack = ev.Stack[:depth]\n	}")]),
("r-trim2",None,[(T,"	for i, ev := range st.TraceEvents {\n		if len(ev.Stack) > depth {\n			ev.Stack = ev.Stack[:depth]\n			st.TraceEvents[i] = ev\n		}\n	}","	for i := range st.TraceEvents {\n		stack := st.TraceEvents[i].Stack\n		st.TraceEvents[i].Stack = stack[:min(depth, len(stack))]\n	}")]),
("r-new",None,[(C,"	if droppedTrace, didDrop := c.categories.GetOrCreate(category).Add(tr); didDrop {\n		maybeFree(droppedTrace)\n	}\n","	c.register(category, tr)\n"),(C,"// NewTrace produces","func (c *Collector) register(category string, tr Trace) {\n	buf := c.categories.GetOrCreate(category)\n	dropped, ok := buf.Add(tr)\n	if !ok {\n		return\n	}\n	maybeFree(dropped)\n}\n\n// NewTrace produces")]),
("r-size",None,[(C,"	for _, droppedTrace := range c.categories.Resize(cap) {\n		maybeFree(droppedTrace)\n	}","	dropped := c.categories.Resize(cap)\n	for len(dropped) > 0 {\n		maybeFree(dropped[0])\n		dropped = dropped[1:]\n	}")]),
("r-size2",None,[(C,"	for _, droppedTrace := range c.categories.Resize(cap) {\n		maybeFree(droppedTrace)\n	}","	dropped := c.categories.Resize(cap)\n	for i := len(dropped) - 1; i >= 0; i-- {\n		maybeFree(dropped[i])\n	}")]),
]

package rules

import (
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// mayBlock: the effect can wait for another goroutine (other than for a lock).
func mayBlock(e *eng.Effect) bool {
	switch e.Kind {
	case eng.ESend, eng.ERecv:
		return true
	case eng.ESelect:
		return e.Blocking
	case eng.ECall:
		switch callName(e) {
		case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "time.Sleep":
			return true
		}
	}
	return false
}

// statsOf: t is the address of one of the subscription's counters; it returns
// the owner and the counter's name.
func statsOf(t *eng.Term) (owner *eng.Term, name string) {
	if t.Op != eng.OField || t.FieldVar() == nil {
		return nil, ""
	}
	for _, n := range []string{"Skips", "Sends", "Drops"} {
		if !strings.EqualFold(n, t.FieldVar().Name()) {
			continue
		}
		b := t.Args[0].Strip()
		if b.Op == eng.OField {
			b = b.Args[0].Strip()
		}
		return b, n
	}
	return nil, ""
}

// subscribers: the broker keeps pointers to its subscriptions in a map from
// their channels, which is the representation that's understood.
func (c *C) subscribers() bool {
	bT := c.P.Named("", "Broker")
	if bT == nil {
		return true
	}
	for _, fv := range fieldsOf(bT) {
		if m, ok := fv.Type().Underlying().(*types.Map); ok {
			_, isc := m.Key().Underlying().(*types.Chan)
			_, isp := m.Elem().Underlying().(*types.Pointer)
			return isc && isp
		}
	}
	return false
}

// C18: publishing never blocks, and accounts for every subscriber.
func c18(c *C) {
	fn := c.method("", "Broker", "Publish")
	if fn == nil {
		return
	}
	const name = "Broker.Publish"
	known := c.subscribers()
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	b, tr := ps[0], ps[2]
	judged := 0
	for _, p := range c.Run(in, fn, nil, ps) {
		facts := strings.Join(p.FactStrings(), " & ")
		if p.Panic != nil {
			c.Fail("no-panic", fn.Pos(), name, "panics: %s", p.Panic)
			continue
		}
		p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, async bool) {
			if mayBlock(e) {
				what := "waits for a subscriber"
				if async {
					what = "starts a goroutine that waits for a subscriber"
				}
				c.Fail("never-blocks", e.Pos, name, "%s: %s", what, e.Kind)
			} else if e.Kind == eng.ESelect || e.Kind == eng.ECall {
				c.OK("never-blocks", name)
			}
			if e.Kind == eng.EMapDelete || e.Kind == eng.EMapUpdate {
				if known && e.Addr.Root() == b {
					c.Fail("subscribers-kept", e.Pos, name, "publishing changes the set of subscribers")
				}
			}
		})
		found := false
		for i, e := range p.Effects {
			if e.Kind != eng.ELoop {
				continue
			}
			rel := false
			for _, x := range loopEffects(e.Loop) {
				if x.Kind == eng.ESelect || strings.HasSuffix(callName(x), "trc.Filter).Allow") {
					rel = true
				}
			}
			if !rel {
				continue
			}
			found = true
			if yes, known := headerExit(p.Effects, i); known {
				c.Check(yes, "every-subscriber", e.Pos, name, "the loop over the subscribers can end early: %s", facts)
			}
			for _, it := range e.Loop.Iters {
				if known && c.publishIter(in, fn, e.Loop, it, b, tr) {
					judged++
				}
			}
		}
		if !found {
			subs := findTerm(p.Facts, func(t *eng.Term) bool {
				return t.Op == eng.OLen && t.Args[0].Op == eng.OLoad && t.Args[0].Args[0].Op == eng.OField && t.Args[0].Args[0].Args[0] == b
			})
			c.Check(subs != nil && p.Facts.Le(subs, in.T.Int(0), 0), "every-subscriber", fn.Pos(), name+" skipped", "the trace isn't offered to the subscribers: %s", facts)
		}
	}
	if judged == 0 {
		c.Undec("counted-once", name, "no loop over the subscribers recognised")
	}
	c.Floor("counted-once", 3)
	c.publishers()
	c.borrow([]string{"publish-after-record", "publish-created"}, func(b *C) {
		for _, w := range b.wrappers() {
			if methodField(w, "Publish") != nil {
				b.wrapper(w)
			}
		}
	})
}

// publishIter: one subscriber gets the trace, or not, and it's counted.
func (c *C) publishIter(in *eng.Interp, fn *ssa.Function, l *eng.LoopInfo, it *eng.Iter, b, tr *eng.Term) bool {
	const name = "Broker.Publish"
	facts := strings.Join(it.Facts.Strings(), " & ")
	var isCopy func(t *eng.Term) bool
	isCopy = func(t *eng.Term) bool {
		t = t.Strip()
		for _, lv := range l.Vars {
			if lv.Start != t {
				continue
			}
			// made in the first iteration that needs it
			ok := lv.Init != nil && (lv.Init.Strip().IsNil() || lv.Init.Strip().Op == eng.OZero || isCopy(lv.Init))
			for _, it := range l.Iters {
				nx := it.Next[lv.Start]
				ok = ok && (nx == nil || nx == lv.Start || nx.Strip().CalleeName() != "" && isCopy(nx))
			}
			return ok
		}
		return t.CalleeName() == mod+".NewStreamTrace" && t.Args[0].Strip() == tr
	}
	var sub *eng.Term
	count := map[string]int64{}
	var sel *eng.Effect
	sends := 0
	same := func(t *eng.Term, pos token.Pos) {
		if sub == nil {
			sub = t
		}
		c.Check(sub == t, "one-subscriber", pos, name, "an iteration is about two subscribers: %s and %s", sub, t)
	}
	unknown := false
	for _, e := range it.Effects {
		switch {
		case strings.HasSuffix(callName(e), "trc.Filter).Allow"):
			f := e.Args[0].Strip()
			if f.Op == eng.OField && f.Args[0].Strip().Root() == b {
				same(f.Args[0].Strip(), e.Pos)
			} else if f.Op == eng.OField {
				same(f.Args[0].Strip(), e.Pos)
			}
			if isCopy(e.Args[1]) {
				c.OK("filter-on-copy", name)
			} else {
				c.Fail("filter-on-copy", e.Pos, name, "the filter is asked about %s instead of the copy that's sent", e.Args[1])
			}
		case e.Kind == eng.ESelect:
			if e.Case >= 0 && e.Case < len(e.Cases) {
				cs := e.Cases[e.Case]
				if cs.Send {
					sends++
					sel = e
					c.Check(isCopy(cs.Val), "sends-copy", e.Pos, name, "sends %s instead of the stream copy", cs.Val)
					ch := cs.Chan.Strip()
					if ch.Op == eng.OLoad && ch.Args[0].Op == eng.OField {
						same(ch.Args[0].Args[0].Strip(), e.Pos)
					} else if ch.Op != eng.ONextKey {
						unknown = true
					}
				}
			} else {
				sel = e
			}
		case atomicAdd(e) != nil:
			if o, n := statsOf(e.Args[0].Strip()); o != nil {
				same(o, e.Pos)
				if d, ok := atomicAdd(e).IntConst(); ok {
					count[n] += d
				} else {
					unknown = true
				}
			}
		case e.Kind == eng.EStore:
			if o, n := statsOf(e.Addr); o != nil {
				same(o, e.Pos)
				d, isc := in.T.LinConst(delta(in, e.Val, e.Addr))
				if !isc {
					c.Fail("counted-once", e.Pos, name+" "+n, "a counter becomes %s", e.Val)
					continue
				}
				if dl := delta(in, e.Val, e.Addr); dl == e.Val {
					c.Fail("counted-once", e.Pos, name+" "+n, "a counter becomes %s", e.Val)
					continue
				}
				count[n] = d
			}
		}
	}
	allow, deny := boolKnown(it.Facts, func(t *eng.Term) bool { return strings.HasSuffix(t.CalleeName(), "trc.Filter).Allow") })
	if sub == nil && !unknown && !allow && !deny && sends == 0 && sel == nil {
		absent := false
		it.Facts.Each(func(x *eng.Term, v bool) {
			if n := nilCompared(x); n != nil && v && n.Any(func(y *eng.Term) bool { return y.Op == eng.ONextVal }) {
				absent = true
			}
		})
		if !absent {
			c.Fail("counted-once", fn.Pos(), name, "a subscriber is passed over without asking its filter: %s", facts)
			return true
		}
	}
	if sub == nil || unknown || allow && deny {
		c.Undec("counted-once", name, "%s", facts)
		return false
	}
	want := map[string]int64{"Skips": 0, "Sends": 0, "Drops": 0}
	class := ""
	switch {
	case deny:
		want["Skips"], class = 1, "rejected by the filter"
		c.Check(sends == 0, "filter-on-copy", fn.Pos(), name+" rejected", "a trace is sent although the filter rejects it")
	case allow && sel != nil && sends == 1:
		want["Sends"], class = 1, "sent"
	case allow && sel != nil && sends == 0:
		want["Drops"], class = 1, "dropped"
	case allow && sel == nil:
		c.Fail("counted-once", fn.Pos(), name, "a subscriber isn't offered an allowed trace: %s", facts)
		return true
	case !allow && !deny:
		c.Fail("filter-on-copy", fn.Pos(), name+" unfiltered", "a subscriber is handled without asking its filter: %s", facts)
		return true
	default:
		c.Fail("counted-once", fn.Pos(), name, "a subscriber is sent %d traces", sends)
		return true
	}
	ok := true
	for n, w := range want {
		ok = ok && count[n] == w
	}
	c.Check(ok, "counted-once", fn.Pos(), name+" "+class, "a trace that was %s is counted as %d skips, %d sends, %d drops", class, count["Skips"], count["Sends"], count["Drops"])
	return true
}

// atomicAdd: what's added by an atomic addition.
func atomicAdd(e *eng.Effect) *eng.Term {
	n := callName(e)
	if strings.HasPrefix(n, "(*sync/atomic.") && strings.HasSuffix(n, ").Add") || strings.HasPrefix(n, "sync/atomic.Add") {
		return e.Args[1].Strip()
	}
	return nil
}

// publishers: whatever publishes, publishes to the collector's broker.
func (c *C) publishers() {
	fn := c.method("", "Collector", "NewTrace")
	if fn == nil {
		return
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: func(f *ssa.Function) bool { return !exportedFn(f) }})
	ps := in.ParamSyms(fn)
	made, own := 0, 0
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil {
			continue
		}
		p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			if e.Kind != eng.ECall && e.Kind != eng.EStore && e.Kind != eng.EInline {
				return
			}
			for _, a := range append([]*eng.Term{e.Val}, e.Args...) {
				if a == nil {
					continue
				}
				a.Any(func(t *eng.Term) bool {
					if t.Op == eng.OLoad && t.Args[0].Op == eng.OField && t.Args[0].FieldVar() != nil {
						if pt, ok := t.Args[0].FieldVar().Type().(*types.Pointer); ok {
							if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Name() == "Broker" {
								made++
								if t.Args[0].Args[0] == ps[0] {
									own++
								}
							}
						}
					}
					return false
				})
			}
		})
	}
	if made == 0 {
		c.Fail("publishes", fn.Pos(), "Collector.NewTrace", "a new trace isn't connected to the collector's broker")
	} else {
		c.Check(made == own, "publishes", fn.Pos(), "Collector.NewTrace", "a new trace is connected to another broker")
	}
}

// C19: a subscription lasts exactly from Stream until its context is done.
func c19(c *C) {
	c.neverClosed()
	if c.subscribers() {
		c.brokerStream()
		c.brokerStats()
	} else {
		c.Undec("registered", "Broker", "the subscriptions aren't kept in a map from channels to pointers")
	}
	c.newBroker()
	c.delegates()
}

// neverClosed: the channel belongs to the subscriber.
func (c *C) neverClosed() {
	for _, m := range []string{"Publish", "Stream", "StreamStats"} {
		fn := c.method("", "Broker", m)
		if fn == nil {
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		for _, p := range c.Run(in, fn, nil, in.ParamSyms(fn)) {
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind != eng.EClose {
					return
				}
				if t := e.Addr.Strip(); t.Op == eng.OSym || t.Op == eng.OLoad || t.Op == eng.ONextKey {
					ct, ok := t.Typ.Underlying().(*types.Chan)
					if n, isn := ct.Elem().(*types.Named); ok && isn && n.Obj().Name() == "Trace" {
						c.Fail("others-untouched", e.Pos, "Broker."+m+" close", "the subscriber's channel is closed")
					}
				}
			})
			c.OK("others-untouched", "Broker."+m+" close")
		}
	}
}

func mentions(t, x *eng.Term) bool { return t.Any(func(y *eng.Term) bool { return y == x }) }

func isCtxDone(t, ctx *eng.Term) bool {
	t = t.Strip()
	return t.CalleeName() == "(context.Context).Done" && t.Args[0].Strip() == ctx
}

func nonNilErr(f *eng.Facts, t *eng.Term) bool {
	t = t.Strip()
	switch t.CalleeName() {
	case "fmt.Errorf", "errors.New":
		return true
	}
	known := false
	f.Each(func(x *eng.Term, v bool) {
		if n := nilCompared(x); n != nil && n.Strip() == t && !v {
			known = true
		}
	})
	return known || t.Op == eng.OLoad && t.Args[0].Op == eng.OGlobal
}

func (c *C) brokerStream() {
	fn := c.method("", "Broker", "Stream")
	if fn == nil {
		return
	}
	const name = "Broker.Stream"
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	b, ctx, f, ch := ps[0], ps[1], ps[2], ps[3]
	subs := func(t *eng.Term) bool { t = t.Strip(); return t.Op == eng.OLoad && t.Args[0].Root() == b }
	fT := c.P.Named("", "Filter")
	subscribed := false
	for _, p := range c.Run(in, fn, nil, ps) {
		facts := strings.Join(p.FactStrings(), " & ")
		if p.Panic != nil {
			c.Fail("no-panic", fn.Pos(), name, "panics: %s", p.Panic)
			continue
		}
		if len(p.Ret) != 2 {
			continue
		}
		var put, del, done *eng.Effect
		stage := 0
		puts, dels := 0, 0
		p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			switch {
			case e.Kind == eng.EMapUpdate && subs(e.Addr):
				put, stage = e, 1
				puts++
			case e.Kind == eng.EMapDelete && subs(e.Addr):
				dels++
				del = e
				c.Check(e.Key.Strip() == ch, "removed", e.Pos, name+" key", "removes the subscription of %s", e.Key)
				c.Check(stage != 1, "until-done", e.Pos, name, "a subscription is removed before its context is done: %s", facts)
				if stage == 0 {
					c.Fail("others-untouched", e.Pos, name, "a subscription that this call didn't make is removed: %s", facts)
				}
			case e.Kind == eng.ERecv && isCtxDone(e.Addr, ctx):
				done = e
				if stage == 1 {
					stage = 2
				}
				c.Check(len(e.Locks) == 0, "until-done", e.Pos, name+" lock", "waits for the context while holding a lock")
			case e.Kind == eng.ESelect && e.Case >= 0 && e.Case < len(e.Cases) && isCtxDone(e.Cases[e.Case].Chan, ctx):
				done = e
				if stage == 1 {
					stage = 2
				}
			}
		})
		_ = done
		if puts == 0 {
			// the context is done already
			over := false
			isErr := func(t *eng.Term) bool {
				t = t.Strip()
				return t.CalleeName() == "(context.Context).Err" && t.Args[0].Strip() == ctx
			}
			p.Facts.Each(func(x *eng.Term, v bool) {
				if n := nilCompared(x); n != nil && !v && isErr(n) {
					over = true
				}
			})
			if over && dels == 0 && isErr(p.Ret[1]) {
				continue
			}
			// rejected
			dup, _ := boolKnown(p.Facts, func(t *eng.Term) bool {
				return t.Op == eng.OLookupOk && subs(t.Args[0]) && t.Args[1].Strip() == ch
			})
			p.Facts.Each(func(x *eng.Term, v bool) {
				if n := nilCompared(x); n != nil && !v && n.Strip().Op == eng.OLookup && subs(n.Strip().Args[0]) {
					dup = true
				}
			})
			c.Check(dup, "registered", fn.Pos(), name+" rejected", "a channel that isn't subscribed is rejected: %s", facts)
			c.Check(nonNilErr(p.Facts, p.Ret[1]), "duplicate", fn.Pos(), name+" error", "a rejected subscription yields error %s", p.Ret[1])
			c.Check(dels == 0, "others-untouched", fn.Pos(), name+" duplicate", "rejecting a duplicate removes the subscription")
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind == eng.EStore && !e.Fresh && mentions(e.Addr, b) {
					c.Fail("others-untouched", e.Pos, name, "rejecting a duplicate changes the existing subscription: %s", e.Addr)
				}
			})
			continue
		}
		subscribed = true
		c.Check(puts == 1, "registered", put.Pos, name+" once", "subscribes %d times", puts)
		c.Check(put.Key.Strip() == ch, "registered", put.Pos, name+" key", "registered under %s", put.Key)
		// not already there, in the same critical section
		fresh, stale := false, false
		put.Facts.Each(func(t *eng.Term, v bool) {
			in := t
			miss := t.Op == eng.OLookupOk && !v
			if n := nilCompared(t); n != nil && n.Strip().Op == eng.OLookup && v {
				miss, in = true, n.Strip()
			}
			if miss && subs(in.Args[0]) && in.Args[1].Strip() == ch {
				if in.N >= put.Epoch {
					fresh = true
				} else {
					stale = true
				}
			}
		})
		switch {
		case fresh:
			c.OK("duplicate", name)
		case stale:
			c.Fail("duplicate", put.Pos, name, "the check for an existing subscription and the registration aren't in one critical section")
		default:
			c.Fail("duplicate", put.Pos, name, "an existing subscription of the channel may be replaced: %s", facts)
		}
		c.Check(len(put.Locks) > 0, "registered", put.Pos, name+" lock", "registers without holding the lock")
		// the subscription's contents
		sub := put.Val.Strip()
		c.subscription(in, p, put, sub, f, ch, fT)
		// removal
		c.Check(stage == 2, "until-done", fn.Pos(), name+" returns", "returns although the context may not be done: %s", facts)
		// someone else removed it
		gone := false
		p.Facts.Each(func(x *eng.Term, v bool) {
			if n := nilCompared(x); n != nil && v && n.Strip().Op == eng.OLookup {
				gone = true
			}
			if x.Op == eng.OLookupOk && !v && x.N > put.Epoch {
				gone = true
			}
		})
		c.Check(dels == 1 || dels == 0 && gone, "removed", fn.Pos(), name, "a subscription is removed %d times when its context is done: %s", dels, facts)
		if del != nil {
			c.Check(len(del.Locks) > 0, "removed", del.Pos, name+" lock", "removes without holding the lock")
		}
		if gone {
			continue
		}
		if del != nil {
			early := false
			p.Ret[0].Any(func(t *eng.Term) bool {
				if t.Op == eng.OLoad {
					if o, _ := statsOf(t.Args[0]); o != nil && t.N < del.Epoch {
						early = true
					}
				}
				return false
			})
			c.Check(!early, "stats-returned", fn.Pos(), name+" final", "the statistics are read before the subscription is removed, so what's published in between isn't counted")
		}
		c.statsResult(name, fn, p, p.Ret[0], func(o *eng.Term) bool {
			o = o.Strip()
			return o == sub || o.Op == eng.OLookup && subs(o.Args[0]) && o.Args[1].Strip() == ch
		})
		r := p.Ret[1].Strip()
		own := r.Any(func(t *eng.Term) bool {
			return t.CalleeName() == "(context.Context).Err" || t.CalleeName() == "context.Cause"
		})
		c.Check(own, "stats-returned", fn.Pos(), name+" error", "the error is %s instead of the context's", r)
	}
	if !subscribed {
		c.Fail("registered", fn.Pos(), name, "a channel is never subscribed")
	}
	c.Floor("until-done", 1)
	c.Floor("removed", 1)
	c.Floor("duplicate", 1)
}

// subscription: the registered filter and channel are the given ones, with
// all counters zero.
func (c *C) subscription(in *eng.Interp, p *eng.Path, put *eng.Effect, sub, f, ch *eng.Term, fT *types.Named) {
	const name = "Broker.Stream"
	if sub.Op != eng.OAlloc {
		c.Undec("subscription", name, "registers %s", sub)
		return
	}
	got := map[string]*eng.Term{}
	chanOK := false
	p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if e.Kind != eng.EStore || e.Addr.Root() != sub {
			return
		}
		if o, n := statsOf(e.Addr); o != nil {
			c.Check(zeroLike(e.Val), "subscription", e.Pos, name+" "+n, "a new subscription starts with %s %s", e.Val, n)
			return
		}
		if e.Addr.Op == eng.OField && e.Addr.Args[0].Op == eng.OField {
			got[e.Addr.FieldVar().Name()] = e.Val
			return
		}
		if e.Val.Strip() == ch {
			chanOK = true
		} else if e.Val.Op == eng.OStruct && fT != nil && types.Identical(e.Val.Typ, fT) {
			for i, fv := range fieldsOf(fT) {
				got[fv.Name()] = e.Val.Args[i]
			}
		} else if e.Val.Strip() == f {
			got["*"] = f
		}
	})
	if chanOK {
		c.OK("subscription", name+" channel")
	}
	if got["*"] != nil || fT == nil {
		return
	}
	for _, fv := range fieldsOf(fT) {
		if !fv.Exported() {
			continue
		}
		v := got[fv.Name()]
		switch {
		case v == nil:
			c.Fail("subscription", put.Pos, name+" "+fv.Name(), "the filter's %s isn't kept", fv.Name())
		case v.Strip().Op == eng.OFieldVal && v.Strip().FieldVar() == fv, v.Strip().Op == eng.OLoad && v.Strip().Args[0].Op == eng.OField && v.Strip().Args[0].FieldVar() == fv:
			c.OK("subscription", name+" "+fv.Name())
		default:
			c.Fail("subscription", put.Pos, name+" "+fv.Name(), "the filter's %s becomes %s", fv.Name(), v)
		}
	}
}

// statsResult: the three counters of an accepted subscription are returned.
func (c *C) statsResult(name string, fn *ssa.Function, p *eng.Path, t *eng.Term, owner func(*eng.Term) bool) {
	t = t.Strip()
	if t.Op == eng.OLoad && t.Args[0].Op == eng.OField && t.Args[0].FieldVar().Name() == "stats" {
		c.Check(owner(t.Args[0].Args[0]), "stats-returned", fn.Pos(), name, "returns %s", t)
		return
	}
	sT := c.P.Named("", "StreamStats")
	if t.Op != eng.OStruct || sT == nil || len(t.Args) != len(fieldsOf(sT)) {
		if t.Op == eng.OZero {
			c.Fail("stats-returned", fn.Pos(), name, "returns no statistics: %s", strings.Join(p.FactStrings(), " & "))
		} else {
			c.Undec("stats-returned", name, "%s", t)
		}
		return
	}
	for i, fv := range fieldsOf(sT) {
		v := t.Args[i].Strip()
		ok := false
		for v.Op == eng.OConv {
			v = v.Args[0].Strip()
		}
		if a := v; a.Op == eng.OLoad || strings.HasPrefix(a.CalleeName(), "(*sync/atomic.") || strings.HasPrefix(a.CalleeName(), "sync/atomic.Load") {
			o, n := statsOf(v.Args[0].Strip())
			ok = o != nil && n == fv.Name() && owner(o)
		}
		c.Check(ok, "stats-returned", fn.Pos(), name+" "+fv.Name(), "returns %s as the number of %s", v, fv.Name())
	}
}

func (c *C) brokerStats() {
	fn := c.method("", "Broker", "StreamStats")
	if fn == nil {
		return
	}
	const name = "Broker.StreamStats"
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	b, ch := ps[0], ps[2]
	subs := func(t *eng.Term) bool { t = t.Strip(); return t.Op == eng.OLoad && t.Args[0].Root() == b }
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || len(p.Ret) != 2 {
			c.Fail("no-panic", fn.Pos(), name, "panics: %v", p.Panic)
			continue
		}
		p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			if (e.Kind == eng.EStore && !e.Fresh || e.Kind == eng.EMapUpdate || e.Kind == eng.EMapDelete) && mentions(e.Addr, b) {
				c.Fail("others-untouched", e.Pos, name, "asking for statistics changes the subscription: %s", e.Addr)
			}
		})
		is := func(t *eng.Term) bool { return subs(t.Args[0]) && t.Args[1].Strip() == ch }
		ok, missing := boolKnown(p.Facts, func(t *eng.Term) bool { return t.Op == eng.OLookupOk && is(t) })
		p.Facts.Each(func(x *eng.Term, v bool) {
			if n := nilCompared(x); n != nil && n.Strip().Op == eng.OLookup && is(n.Strip()) {
				if v {
					missing = true
				} else {
					ok = true
				}
			}
		})
		switch {
		case ok && !missing:
			c.statsResult(name, fn, p, p.Ret[0], func(o *eng.Term) bool {
				o = o.Strip()
				return o.Op == eng.OLookup && is(o)
			})
			c.Check(p.Ret[1].IsNil(), "stats-returned", fn.Pos(), name+" error", "an active subscription yields error %s", p.Ret[1])
		case missing && !ok:
			c.Check(nonNilErr(p.Facts, p.Ret[1]), "unknown-channel", fn.Pos(), name, "a channel that isn't subscribed yields error %s", p.Ret[1])
		default:
			c.Undec("stats-returned", name, "%s", strings.Join(p.FactStrings(), " & "))
		}
	}
}

func (c *C) newBroker() {
	fn := c.anchor("", "NewBroker")
	bT := c.P.Named("", "Broker")
	if fn == nil || bT == nil {
		return
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	for _, p := range c.Run(in, fn, nil, in.ParamSyms(fn)) {
		if p.Panic != nil || len(p.Ret) != 1 {
			continue
		}
		f := finalFields(p, p.Ret[0].Strip(), bT)
		for _, fv := range fieldsOf(bT) {
			if _, ok := fv.Type().Underlying().(*types.Map); ok {
				v := f[fv.Name()]
				c.Check(v != nil && v.Strip().Op == eng.OMkMap, "registered", fn.Pos(), "NewBroker "+fv.Name(), "subscribing to a new broker panics: %s is %v", fv.Name(), v)
			}
		}
	}
}

// delegates: the collector hands its streaming methods to its broker.
func (c *C) delegates() {
	for _, m := range []string{"Stream", "StreamStats"} {
		fn := c.method("", "Collector", m)
		if fn == nil {
			continue
		}
		name := "Collector." + m
		in := eng.NewInterp(c.P, eng.Config{Inline: func(f *ssa.Function) bool { return !exportedFn(f) }})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			if p.Panic != nil || len(p.Ret) != 2 {
				continue
			}
			var call *eng.Effect
			n := 0
			p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if strings.HasSuffix(callName(e), "trc.Broker)."+m) {
					call = e
					n++
				}
			})
			if !c.Check(n == 1, "delegated", fn.Pos(), name, "the broker is asked %d times: %s", n, strings.Join(p.FactStrings(), " & ")) {
				continue
			}
			c.Check(call.Args[0].Strip().Op == eng.OLoad && call.Args[0].Strip().Args[0].Root() == ps[0], "delegated", call.Pos, name+" broker", "asks broker %s", call.Args[0])
			c.Check(call.Args[1].Strip().Any(func(t *eng.Term) bool { return t == ps[1] }), "delegated", call.Pos, name+" context", "passes context %s", call.Args[1])
			last := len(ps) - 1
			c.Check(call.Args[last].Strip() == ps[last], "delegated", call.Pos, name+" channel", "passes channel %s", call.Args[last])
			if m == "Stream" {
				a := call.Args[2].Strip()
				ok := a == ps[2]
				if !ok && a.Op == eng.OStruct {
					ok = true
					for i, x := range a.Args {
						x = x.Strip()
						ok = ok && (x.Op == eng.OFieldVal && x.FieldVar() == fieldsOf(c.P.Named("", "Filter"))[i] || x.Op == eng.OLoad && x.Args[0].Op == eng.OField && x.Args[0].FieldVar() == fieldsOf(c.P.Named("", "Filter"))[i])
					}
				}
				if ok || a.Op == eng.OStruct || a.Op == eng.OZero {
					c.Check(ok, "delegated", call.Pos, name+" filter", "passes filter %s", a)
				} else {
					c.Undec("delegated", name, "passes filter %s", a)
				}
			}
			for i, r := range p.Ret {
				c.Check(r.Strip().Any(func(t *eng.Term) bool { return t == call.Result }) || r.Strip().Op == eng.OExtract && strings.Contains(r.String(), "Broker)."+m), "delegated", fn.Pos(), name+" result", "returns %s as result %d", r, i+1)
			}
		}
	}
}

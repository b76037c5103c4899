package rules

import (
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// finalFields: the last value stored to each field of an object on a path.
func finalFields(p *eng.Path, obj *eng.Term, n *types.Named) map[string]*eng.Term {
	out := map[string]*eng.Term{}
	obj = obj.Strip()
	p.Walk(false, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
		if e.Kind != eng.EStore {
			return
		}
		if e.Addr.Op == eng.OField && e.Addr.Args[0].Strip() == obj {
			f := e.Addr.FieldVar()
			out[f.Name()] = e.Val
			if len(loops) > 0 && p.State != nil {
				out[f.Name()] = p.State.Load(e.Addr, f.Type())
			}
		}
		if e.Addr.Strip() == obj && e.Val.Op == eng.OStruct {
			for i, f := range fieldsOf(n) {
				if i < len(e.Val.Args) {
					out[f.Name()] = e.Val.Args[i]
				}
			}
		}
	})
	return out
}

// snapshots are the functions making a static copy of a trace.
var snapshots = []string{"NewSearchTrace", "NewStreamTrace"}

func (c *C) staticType() *types.Named { return c.P.Named("", "StaticTrace") }

// C08: what a reader was given never changes.
func c08(c *C) {
	if r := c.coreRoles(); r != nil {
		c.snapshotRule(r, true)
	}
	st := c.staticType()
	if st == nil {
		c.Fail("anchor", 0, "StaticTrace", "missing")
		return
	}
	for _, name := range snapshots {
		fn := c.anchor("", name)
		if fn == nil {
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.snapInline})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				switch e.Kind {
				case eng.EStore:
					c.Check(e.Fresh, "snapshot-pure", e.Pos, name, "taking a snapshot modifies the original: %s := %s", e.Addr, e.Val)
				case eng.EAppend, eng.ECopy:
					base := e.Addr
					if base == nil {
						return
					}
					root := base.Root()
					if root.Op == eng.OCall && base.Op != eng.OMkSlice && !capped(base) {
						c.Fail("snapshot-pure", e.Pos, name, "writes into memory of the original's events: %s", base)
					}
				case eng.ECall:
					if recv, m := c.traceMethod(e); m != "" && recv.Strip() == ps[0] {
						c.Check(!(contains(eventMethods, m) || m == "Finish"), "snapshot-pure", e.Pos, name+" "+m, "taking a snapshot calls %s on the original", m)
					}
					if strings.HasSuffix(callName(e), ".TrimStacks") {
						c.Fail("snapshot-pure", e.Pos, name, "trims the stacks of events which may be shared with the original")
					}
				}
			})
		}
	}
	for _, m := range append([]string{"Finish", "ID", "Source", "Category", "Started", "Finished", "Errored", "Duration", "Events"}, eventMethods...) {
		fn := c.method("", "StaticTrace", m)
		if fn == nil {
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		for _, p := range c.Run(in, fn, nil, nil) {
			bad := ""
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind == eng.EStore && !e.Fresh {
					bad = e.Addr.String()
				}
			})
			c.Check(bad == "", "static-immutable", fn.Pos(), "StaticTrace."+m, "modifies the static trace: %s", bad)
		}
	}
	c.Floor("static-immutable", 13)
	// TrimStacks
	if fn := c.method("", "StaticTrace", "TrimStacks"); fn != nil {
		c.trimStacks(fn)
	}
}

func capped(t *eng.Term) bool {
	t = t.Strip()
	return t.Op == eng.OSlice && t.Args[3] != nil
}

// snapInline: helpers are analysed in place, as are the snapshots themselves
// where one is made from another.
func (c *C) snapInline(fn *ssa.Function) bool {
	return !exportedFn(fn) || fn.Signature.Recv() == nil && contains(snapshots, fn.Name())
}

// coarse: some of a time or duration is dropped.
func coarse(t *eng.Term) bool {
	if len(t.Args) == 2 {
		if k, ok := t.Args[1].IntConst(); ok && k == 0 {
			return false
		}
	}
	switch t.CalleeName() {
	case "(time.Time).Round", "(time.Time).Truncate", "(time.Duration).Round", "(time.Duration).Truncate",
		"(time.Duration).Milliseconds", "(time.Duration).Microseconds", "(time.Time).Unix", "(time.Time).UnixMilli", "(time.Time).UnixMicro":
		return true
	}
	return false
}

// trimStacks: depth 0 changes nothing, otherwise no stack is longer than the
// depth, and nothing but stacks is changed.
func (c *C) trimStacks(fn *ssa.Function) {
	evT := c.P.Named("", "Event")
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	var paths []*eng.Path
	for _, a := range []*eng.Term{
		in.T.Cmp(token.EQL, ps[1], in.T.Int(0)),
		in.T.Cmp(token.LSS, ps[1], in.T.Int(0)),
		in.T.Cmp(token.GTR, ps[1], in.T.Int(0)),
	} {
		st := in.NewState()
		st.Assume(a, true)
		paths = append(paths, c.Run(in, fn, st, ps)...)
	}
	for _, p := range paths {
		if p.Panic != nil {
			continue
		}
		zero := p.Facts.EqInt(ps[1], in.T.Int(0), 0)
		stores := 0
		p.Walk(true, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
			if e.Kind != eng.EStore || e.Fresh {
				return
			}
			stores++
			if zero {
				return
			}
			judge := func(name string, v *eng.Term) {
				v = v.Strip()
				if name == "Stack" {
					// the new stack is a prefix no longer than depth
					want := ps[1]
					neg := p.Facts.Le(ps[1], in.T.Int(0), -1)
					if neg {
						want = in.T.Int(0)
					}
					switch {
					case v.IsNil() || v.Op == eng.OZero:
						c.Check(neg || e.Facts.Le(want, in.T.Int(0), 0), "trim-depth", e.Pos, "TrimStacks", "removes stacks although the depth may be positive")
					case v.Op == eng.OSlice:
						lo := v.Args[1] == nil
						if !lo {
							k, ok := v.Args[1].IntConst()
							lo = ok && k == 0
						}
						c.Check(lo, "trim-depth", e.Pos, "TrimStacks", "keeps the oldest callers instead of the innermost frames: %s", v)
						if v.Args[2] != nil {
							d := in.T.Sub(v.Args[2], want)
							if k, ok := in.T.LinConst(d); ok {
								c.Check(k == 0, "trim-depth", e.Pos, "TrimStacks", "keeps %s frames for depth %s", v.Args[2], want)
							} else {
								c.Check(e.Facts.EqInt(v.Args[2], want, 0), "trim-depth", e.Pos, "TrimStacks", "keeps %s frames for depth %s", v.Args[2], want)
							}
						}
					}
					return
				}
				// other fields must keep their value
				if v.Op == eng.OLoad && v.Args[0].Op == eng.OField && v.Args[0].FieldVar().Name() == name {
					c.OK("trim-only-stacks", name)
				} else if v.IsConst() || loadedField(v) != nil {
					c.Fail("trim-only-stacks", e.Pos, "TrimStacks "+name, "changes the %s of an event to %s", name, v)
				}
			}
			if e.Addr.Op == eng.OField && structFieldOf(evT, e.Addr.FieldVar()) {
				judge(e.Addr.FieldVar().Name(), e.Val)
			} else if e.Val.Op == eng.OStruct && types.Identical(e.Val.Typ, evT) {
				for i, f := range fieldsOf(evT) {
					judge(f.Name(), e.Val.Args[i])
				}
			} else if _, f := ownerField(e.Addr); f != nil && structFieldOf(c.staticType(), f) {
				c.Undec("trim-only-stacks", f.Name(), "%s := %s", e.Addr, e.Val)
			}
		})
		if zero {
			c.Check(stores == 0, "trim-zero", fn.Pos(), "TrimStacks(0)", "a depth of 0 modifies the trace")
		} else if p.Facts.Le(ps[1], in.T.Int(0), -1) || p.Facts.Le(in.T.Int(0), ps[1], -1) {
			hasLoop := false
			want := ps[1]
			if p.Facts.Le(ps[1], in.T.Int(0), -1) {
				want = in.T.Int(0)
			}
			for i, e := range p.Effects {
				if e.Kind != eng.ELoop {
					continue
				}
				hasLoop = true
				if yes, known := headerExit(p.Effects, i); known {
					c.Check(yes, "trim-all", e.Pos, "TrimStacks", "stops before all events were trimmed: %s", strings.Join(p.FactStrings(), " & "))
				}
				evs := findTerm(p.Facts, func(t *eng.Term) bool { return fieldLoad(t, ps[0], "TraceEvents") })
				if evs != nil {
					if ex, known := iterations(in, p.Facts, e.Loop, in.T.Len(evs)); known {
						c.Check(ex, "trim-all", e.Pos, "TrimStacks count", "not every event is visited")
					}
				}
				for _, it := range e.Loop.Iters {
					trimmed := false
					for _, x := range it.Effects {
						if x.Kind == eng.EStore && !x.Fresh && (x.Addr.Op == eng.OField && x.Addr.FieldVar().Name() == "Stack" || x.Val.Op == eng.OStruct) {
							trimmed = true
						}
					}
					it.Facts.EachTerm(func(t *eng.Term) {
						if t.Op == eng.OLen && loadedField(t.Args[0]) != nil && loadedField(t.Args[0]).Name() == "Stack" && it.Facts.Le(t, want, 0) {
							trimmed = true
						}
					})
					c.Check(trimmed, "trim-all", e.Pos, "TrimStacks each", "a stack may stay longer than the depth: %s", strings.Join(it.Facts.Strings(), " & "))
				}
			}
			if evs := findTerm(p.Facts, func(t *eng.Term) bool { return fieldLoad(t, ps[0], "TraceEvents") }); evs != nil && p.Facts.Le(in.T.Len(evs), in.T.Int(0), 0) {
				hasLoop = true // nothing to visit
			}
			c.Check(hasLoop, "trim-all", fn.Pos(), "TrimStacks", "a nonzero depth doesn't visit the events")
		}
		c.Check(len(p.Ret) == 1 && p.Ret[0].Strip() == ps[0], "trim-returns", fn.Pos(), "TrimStacks", "returns something other than the trace")
	}
}

// C25: a snapshot is faithful and coherent.
func c25(c *C) {
	st := c.staticType()
	if st == nil {
		c.Fail("anchor", 0, "StaticTrace", "missing")
		return
	}
	want := map[string]string{"TraceSource": "Source", "TraceID": "ID", "TraceCategory": "Category", "TraceStarted": "Started", "TraceDuration": "Duration", "TraceFinished": "Finished", "TraceErrored": "Errored"}
	for f, m := range want {
		if fn := c.method("", "StaticTrace", m); fn != nil {
			in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
			for _, p := range c.Run(in, fn, nil, nil) {
				if len(p.Ret) == 1 && p.Panic == nil {
					v := loadedField(p.Ret[0])
					ok := v != nil && v.Name() == f
					if b, isc := p.Ret[0].BoolConst(); isc {
						ok = already(p, fieldNamed(st, f), b)
					}
					c.Check(ok, "static-accessor", fn.Pos(), "StaticTrace."+m, "returns %s instead of the recorded value", p.Ret[0])
				}
			}
		}
	}
	if fn := c.method("", "StaticTrace", "Events"); fn != nil {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		for _, p := range c.Run(in, fn, nil, nil) {
			if len(p.Ret) == 1 && p.Panic == nil {
				c.Check(p.Ret[0].Any(func(t *eng.Term) bool { v := loadedField(t); return v != nil && v.Name() == "TraceEvents" }) || p.Ret[0].Op == eng.OMkSlice || p.Ret[0].Op == eng.OAppend, "static-accessor", fn.Pos(), "StaticTrace.Events", "returns %s instead of the recorded events", p.Ret[0])
			}
		}
	}
	for _, name := range snapshots {
		fn := c.anchor("", name)
		if fn == nil {
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.snapInline})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			if p.Panic != nil || len(p.Ret) != 1 {
				continue
			}
			fields := finalFields(p, p.Ret[0], st)
			if len(fields) == 0 {
				c.Undec("snapshot-fields", name, "returns %s", p.Ret[0])
				continue
			}
			for f, m := range want {
				v := fields[f]
				if v == nil {
					c.Fail("snapshot-fields", fn.Pos(), name+" "+f, "%s isn't copied", m)
					continue
				}
				v = v.Strip()
				recv, mm := c.termMethod(v)
				ok := mm == m && recv.Strip() == ps[0]
				if b, isc := v.BoolConst(); isc {
					// a branch on the accessor
					p.Facts.Each(func(t *eng.Term, tv bool) {
						if _, mt := c.termMethod(t); mt == m && tv == b {
							ok = true
						}
					})
				}
				if !ok && coarse(v) {
					c.Fail("snapshot-fields", fn.Pos(), name+" "+f, "%s of the snapshot is only %s", m, v)
					continue
				}
				if !ok && v.Op == eng.OCall && v.Any(func(t *eng.Term) bool { _, x := c.termMethod(t); return x == m }) {
					c.Undec("snapshot-fields", name+" "+f, "%s", v)
					continue
				}
				c.Check(ok, "snapshot-fields", fn.Pos(), name+" "+f, "%s of the snapshot is %s", m, v)
			}
			// other forms of the duration say the same
			for f, m := range map[string]string{"TraceDurationStr": "(time.Duration).String", "TraceDurationSec": "(time.Duration).Seconds"} {
				v := fields[f]
				if v == nil || zeroLike(v) || fields["TraceDuration"] == nil {
					continue
				}
				v = v.Strip()
				_, of := c.termMethod(v)
				if v.CalleeName() == m {
					_, of = c.termMethod(v.Args[0].Strip())
				}
				switch {
				case v.CalleeName() == m && v.Args[0].Strip() == fields["TraceDuration"].Strip():
					c.OK("duration-forms", name+" "+f)
				case v.CalleeName() == m && of == "Duration":
					c.Fail("duration-forms", fn.Pos(), name+" "+f, "%s is read at another time than the duration", f)
				case v.Any(coarse):
					c.Fail("duration-forms", fn.Pos(), name+" "+f, "%s says only %s", f, v)
				case v.CalleeName() != m && !v.IsConst():
					c.Undec("duration-forms", name+" "+f, "%s", v)
				default:
					c.Fail("duration-forms", fn.Pos(), name+" "+f, "%s says %s", f, v)
				}
			}
			// the finished state is read before what it vouches for
			fi, n := -1, 0
			var first string
			for i, e := range p.Effects {
				recv, m := c.traceMethod(e)
				isEv := false
				if e.Kind == eng.ECall && e.Callee != nil && strings.HasSuffix(e.Callee.Name, ".EventsDetail") {
					isEv = true
				}
				if m == "" && !isEv {
					continue
				}
				if m == "Finished" && recv.Strip() == ps[0] {
					n++
					v := fields["TraceFinished"]
					if v != nil && (v.Contains(e.Result) || v.IsConst()) {
						fi = i
					}
					continue
				}
				if fi < 0 && (isEv || ((m == "Events" || m == "Errored" || m == "Duration") && recv.Strip() == ps[0])) && first == "" {
					first = m
					if isEv {
						first = "EventsDetail"
					}
				}
			}
			if fi >= 0 || n > 0 {
				c.Check(first == "", "finished-read-first", fn.Pos(), name, "%s is read before the finished state, so the snapshot of a trace that finishes in between is marked finished but incomplete", first)
			}
			// events
			ev := fields["TraceEvents"]
			if ev == nil {
				c.Fail("snapshot-events", fn.Pos(), name, "the events aren't copied")
				continue
			}
			c.snapEvents(in, p, ps, name, fn, ev)
		}
	}
	c.Floor("snapshot-fields", 14)
	c.Floor("finished-read-first", 2)
}

func (c *C) snapEvents(in *eng.Interp, p *eng.Path, ps []*eng.Term, name string, fn *ssa.Function, ev *eng.Term) {
	ev = ev.Strip()
	if name == "NewSearchTrace" {
		recv, m := c.termMethod(ev)
		if m == "Events" && recv.Strip() == ps[0] {
			c.OK("snapshot-events", name)
		} else if !ev.Any(func(t *eng.Term) bool { _, x := c.termMethod(t); return x == "Events" }) && (ev.IsConst() || ev.Op == eng.OCall) {
			c.Fail("snapshot-events", fn.Pos(), name, "the events are %s", ev)
		} else {
			c.Undec("snapshot-events", name, "%s", ev)
		}
		return
	}
	active, known := false, false
	p.Facts.Each(func(t *eng.Term, v bool) {
		if _, m := c.termMethod(t); m == "Finished" {
			active, known = !v, true
		}
	})
	if !known {
		c.Undec("stream-events", name, "path doesn't depend on the finished state")
		return
	}
	// detail
	if ev.Op == eng.OCall && strings.HasSuffix(ev.CalleeName(), ".EventsDetail") && len(ev.Args) >= 3 {
		n, isc := ev.Args[len(ev.Args)-2].IntConst()
		s, sk := ev.Args[len(ev.Args)-1].BoolConst()
		if !sk {
			s, sk = p.Facts.Eval(ev.Args[len(ev.Args)-1])
		}
		if !sk {
			c.Fail("stream-no-stacks", fn.Pos(), name+" detail", "stacks can be included: %s", ev)
			return
		}
		c.Check(!s, "stream-no-stacks", fn.Pos(), name+" detail", "stacks are included")
		if !isc {
			c.Undec("stream-events", name, "%s", ev)
			return
		}
		if active {
			c.Check(n == 1, "stream-events", fn.Pos(), name+" active detail", "an active trace is streamed with the %d most recent events instead of 1", n)
		} else {
			c.Check(n <= 0, "stream-events", fn.Pos(), name+" finished detail", "a finished trace is streamed with at most %d events instead of all", n)
		}
		return
	}
	if !ev.Any(func(t *eng.Term) bool { return strings.HasSuffix(t.CalleeName(), ".Events") }) && !ev.Any(func(t *eng.Term) bool { return t.Op == eng.OMkSlice || t.Op == eng.OSym }) {
		if ev.Op == eng.OConst || (ev.Op == eng.OSlice && ev.Root().Op == eng.OAlloc) {
			c.Fail("stream-events", fn.Pos(), name, "events of the trace are not included: %s", ev)
			return
		}
	}
	if ev.Op == eng.OMkSlice {
		// a copy made in a loop; its length tells how many events are included
		l := ev.Args[0]
		var src *eng.Term
		l.Any(func(t *eng.Term) bool {
			if t.Op == eng.OLen && t.Args[0].Any(func(x *eng.Term) bool { return strings.HasSuffix(x.CalleeName(), ".Events") }) {
				src = t.Args[0].Root()
			}
			return false
		})
		for _, e := range p.Effects {
			if src == nil && strings.HasSuffix(callName(e), ".Events") {
				src = e.Result
			}
		}
		one := in.T.Int(1)
		if active {
			ok := p.Facts.Le(l, one, 0)
			c.Check(ok, "stream-events", fn.Pos(), name+" active", "an active trace can be streamed with more than its most recent event: %s", l)
		} else if src != nil {
			d := in.T.Sub(l, in.T.Len(src))
			if k, isc := in.T.LinConst(d); isc {
				c.Check(k == 0, "stream-events", fn.Pos(), name+" finished", "a finished trace is streamed with %s events instead of all", l)
			}
		}
		// stacks removed
		stk := false
		seen := false
		p.Walk(true, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
			if e.Kind == eng.EStore && e.Addr.Root() == ev {
				if e.Addr.Op == eng.OField && e.Addr.FieldVar().Name() == "Stack" {
					seen = true
					stk = stk || !(e.Val.IsNil() || e.Val.Op == eng.OZero)
				}
				if e.Addr.Op == eng.OField && e.Addr.FieldVar().Name() == "What" && src != nil && active && p.Facts.Le(in.T.Int(2), in.T.Len(src), 0) {
					v := e.Val.Strip()
					if v.Op == eng.OLoad && v.Args[0].Op == eng.OField && v.Args[0].Args[0].Op == eng.OIndex {
						s, i := v.Args[0].Args[0].Args[0], v.Args[0].Args[0].Args[1]
						for s.Op == eng.OSlice {
							if s.Args[1] != nil {
								i = in.T.Plus(i, s.Args[1])
							}
							s = s.Args[0]
						}
						if s == src {
							d := in.T.Sub(in.T.Sub(in.T.Len(src), in.T.Int(1)), i)
							if k, ok := in.T.LinConst(in.T.Plus(d, e.Addr.Args[0].Args[1])); ok {
								c.Check(k == 0, "stream-latest", e.Pos, name+" active", "an active trace is streamed with event %s instead of its most recent event", i)
							} else {
								c.Fail("stream-latest", e.Pos, name+" active", "an active trace is streamed with event %s instead of its most recent event", i)
							}
						}
					}
				}
			}
		})
		if seen {
			c.Check(!stk, "stream-no-stacks", fn.Pos(), name+" copy", "stacks are included")
		}
		return
	}
	c.Undec("stream-events", name, "%s", ev)
}

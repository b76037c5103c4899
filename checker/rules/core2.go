package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

const (
	maxEventsMin     = 10
	maxEventsMax     = 10000
	maxEventsDefault = 1000
)

// loadOf: t is a load of field f (of any object).
func loadOf(t *eng.Term, f *types.Var) bool {
	v := loadedField(t)
	return v != nil && f != nil && v.Origin() == f.Origin()
}

// C04: the number of stored events is bounded, overflow is counted.
func c04(c *C) {
	r := c.coreRoles()
	if r == nil {
		return
	}
	for _, m := range eventMethods {
		fn := c.P.Method(r.T, m)
		if fn == nil {
			c.Fail("anchor", token.NoPos, m, "missing")
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(true)})
		for _, p := range c.Run(in, fn, nil, nil) {
			if p.Panic != nil || p.Exit || already(p, r.Fin, true) {
				continue
			}
			appends, truncs, odd := 0, 0, 0
			p.Walk(false, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
				if e.Kind != eng.EStore || e.Fresh {
					return
				}
				if base, ok := directField(e.Addr, r.Events); ok {
					ev := eventsLoad(e.Val, r)
					if ev == nil {
						odd++
						c.Undec("one-event-per-call", m, "events assigned %s", e.Val)
						return
					}
					d, isc := in.T.LinConst(in.T.Sub(in.T.Len(e.Val), in.T.Len(ev)))
					if !isc {
						odd++
						c.Undec("one-event-per-call", m, "events assigned %s", e.Val)
						return
					}
					c.Check(d == 1 && len(loops) == 0, "one-event-per-call", e.Pos, m, "recording an event changes the number of stored events by %d", d)
					appends++
					mx := p.State.Load(in.T.Field(base, fieldIndex(r.T, r.Max), r.Max), r.Max.Type())
					lim := maxLoad(e.Facts, r, mx)
					c.Check(e.Facts.Le(in.T.Len(ev), lim, -1), "append-below-max", e.Pos, m, "an event is appended on a path where fewer than the max events are not established to be stored")
				}
				if _, ok := directField(e.Addr, r.Trunc); ok {
					truncs++
					var old *eng.Term
					e.Val.Any(func(t *eng.Term) bool {
						if loadOf(t, r.Trunc) {
							old = t
							return true
						}
						return false
					})
					if old == nil {
						c.Fail("truncated-counts", e.Pos, m, "the truncated counter is overwritten with %s", e.Val)
						return
					}
					d, isc := in.T.LinConst(in.T.Sub(e.Val, old))
					c.Check(isc && d == 1 && len(loops) == 0, "truncated-counts", e.Pos, m, "a truncated event changes the counter to %s", e.Val)
					// established: len(events) >= max
					lim := maxLoad(e.Facts, r, nil)
					ln := lenEventsLoad(e.Facts, r, in)
					if lim == nil || ln == nil {
						c.Fail("truncate-only-when-full", e.Pos, m, "an event is truncated on a path which does not compare the stored events with the max")
						return
					}
					c.Check(e.Facts.Le(lim, ln, 0), "truncate-only-when-full", e.Pos, m, "an event is truncated although fewer than the max events may be stored")
				}
			})
			if odd == 0 {
				c.Check(appends+truncs == 1, "stored-or-counted", fn.Pos(), m, "a call on an unfinished trace stores %d events and counts %d as truncated: %s", appends, truncs, strings.Join(p.FactStrings(), " & "))
			}
		}
	}
	c.Floor("append-below-max", 4)
	c.Floor("truncate-only-when-full", 4)
	// the bound itself
	var globals = map[*ssa.Global]bool{}
	for _, fn := range c.coreFuncRoots(r) {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(true), MaxPaths: 4000})
		for _, p := range c.Run(in, fn, nil, nil) {
			begun, maxSet := map[*eng.Term]*eng.Effect{}, map[*eng.Term]bool{}
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind != eng.EStore {
					return
				}
				if b, ok := directField(e.Addr, r.Events); ok && !e.Fresh && !contains(eventMethods, fn.Name()) {
					c.Check(recycledLater(p, b) || isPoolGet(b), "one-event-per-call", e.Pos, c.P.FnName(fn), "the stored events of a trace in use are changed by something that isn't an event: %s", e.Val)
				}
				if b, ok := directField(e.Addr, r.Trunc); ok && !e.Fresh && !contains(eventMethods, fn.Name()) {
					c.Check(recycledLater(p, b) || isPoolGet(b), "truncated-counts", e.Pos, c.P.FnName(fn), "the truncated count of a trace in use is changed by something that isn't an event: %s", e.Val)
				}
				if b, ok := directField(e.Addr, r.Start); ok && isPoolGet(b) {
					begun[b] = e
				}
				if b, ok := directField(e.Addr, r.Max); !ok {
					return
				} else {
					maxSet[b] = true
				}
				v := e.Val.Strip()
				if strings.HasPrefix(v.CalleeName(), "(*sync/atomic.Int") && strings.HasSuffix(v.CalleeName(), ".Load") {
					if g := globalOf(v.Args[0]); g != nil {
						globals[g] = true
						c.OK("max-bounded", c.P.FnName(fn)+" <- "+g.Name())
						return
					}
				}
				c.Check(inRange(e.Facts, in, e.Val, maxEventsMin, maxEventsMax), "max-bounded", e.Pos, c.P.FnName(fn), "max events can be set to %s, which is not within [%d, %d]", e.Val, maxEventsMin, maxEventsMax)
			})
			for b, e := range begun {
				c.Check(maxSet[b] || c.resetOnPut(r.T, r.Max), "max-configured", e.Pos, c.P.FnName(fn), "a new trace in recycled memory can keep the maximum of an earlier trace: %s", strings.Join(p.FactStrings(), " & "))
			}
		}
	}
	for g := range globals {
		c.atomicStoresBounded(g, maxEventsMin, maxEventsMax, maxEventsDefault)
	}
	c.Floor("max-bounded", 4)
	c.maxSetters(r, globals)
	// the snapshot reports the overflow
	fn := c.P.Method(r.T, "Events")
	in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(false)})
	for _, p := range c.Run(in, fn, nil, nil) {
		if p.Panic != nil || len(p.Ret) != 1 {
			continue
		}
		ln := lenAnyEventsLoad(p, r, in)
		ret := p.Ret[0]
		if ln == nil {
			c.Undec("events-bounded", "Events", "no events load in %s", ret)
			continue
		}
		if !p.Facts.Le(in.T.Len(ret), ln, 0) {
			if d, isc := in.T.LinConst(in.T.Sub(in.T.Len(ret), ln)); isc && d > 0 {
				c.Fail("events-bounded", fn.Pos(), "Events", "more events are returned than are stored (by %d)", d)
			} else {
				c.Undec("events-bounded", "Events", "length %s", in.T.Len(ret))
			}
		} else {
			c.OK("events-bounded", "Events")
		}
		// which paths know that events were truncated
		tr, known := truncKnown(p, r, in)
		if !known {
			c.Fail("truncation-reported", fn.Pos(), "Events", "a path returns events without consulting the truncated counter")
			continue
		}
		last := lastElem(ret)
		says := last != nil && last.Any(func(t *eng.Term) bool { return loadOf(t, r.Trunc) })
		if tr {
			c.Check(says, "truncation-reported", fn.Pos(), "Events of a truncated trace", "the last event does not report the number of truncated events")
			if says {
				if x := truncArith(last, r); x != nil {
					c.Fail("truncation-reported", fn.Pos(), "Events of a truncated trace", "the notice reports %s instead of the number of truncated events", x)
				}
			}
		} else {
			c.Check(!says, "truncation-reported", fn.Pos(), "Events of a complete trace", "a truncation notice is added although nothing was truncated")
			if d, isc := in.T.LinConst(in.T.Sub(in.T.Len(ret), ln)); isc {
				c.Check(d == 0, "all-events-returned", fn.Pos(), "Events of a complete trace", "the number of returned events differs from the stored ones by %d", d)
			}
		}
	}
	c.Floor("truncation-reported", 2)
}

// maxSetters: the setters set exactly what they're given, within the limits.
func (c *C) maxSetters(r *coreT, globals map[*ssa.Global]bool) {
	one := func(fn *ssa.Function, name string, arg int) {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(true)})
		ps := in.ParamSyms(fn)
		n := ps[arg]
		for i, a := range [][2]*eng.Term{
			{in.T.Cmp(token.LSS, n, in.T.Int(maxEventsMin)), in.T.Int(maxEventsMin)},
			{in.T.Cmp(token.GTR, n, in.T.Int(maxEventsMax)), in.T.Int(maxEventsMax)},
			{nil, n},
		} {
			st := in.NewState()
			if a[0] != nil {
				st.Assume(a[0], true)
			} else {
				st.Assume(in.T.Cmp(token.GEQ, n, in.T.Int(maxEventsMin)), true)
				st.Assume(in.T.Cmp(token.LEQ, n, in.T.Int(maxEventsMax)), true)
			}
			what := name + []string{" too small", " too large", ""}[i]
			for _, p := range c.Run(in, fn, st, ps) {
				if p.Panic != nil || p.Exit {
					continue
				}
				var set *eng.Term
				p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
					if e.Kind == eng.EStore {
						if _, ok := directField(e.Addr, r.Max); ok {
							set = e.Val.Strip()
						}
					}
					if cn := callName(e); strings.HasPrefix(cn, "(*sync/atomic.Int") && strings.HasSuffix(cn, ".Store") && globals[globalOf(e.Args[0])] {
						set = e.Args[1].Strip()
					}
				})
				if set == nil {
					c.Fail("max-set", fn.Pos(), what, "a path doesn't set the maximum: %s", strings.Join(p.FactStrings(), " & "))
					continue
				}
				if p.Facts.EqInt(set, a[1], 0) || set == a[1] {
					c.OK("max-set", what)
				} else if set.IsConst() || p.Facts.Le(set, a[1], -1) || p.Facts.Le(a[1], set, -1) {
					c.Fail("max-set", fn.Pos(), what, "the maximum becomes %s instead of %s", set, a[1])
				} else {
					c.Undec("max-set", what, "%s", set)
				}
			}
		}
	}
	if fn := c.anchor("", "SetTraceMaxEvents"); fn != nil && len(globals) > 0 {
		one(fn, "SetTraceMaxEvents", 0)
	}
	if fn := c.P.Method(r.T, "SetMaxEvents"); fn != nil {
		one(fn, "SetMaxEvents of a trace", 1)
	}
	// the helper
	fn := c.anchor("", "SetMaxEvents")
	if fn == nil {
		return
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || p.Exit || len(p.Ret) != 2 {
			continue
		}
		can, known := false, false
		p.Facts.Each(func(t *eng.Term, v bool) {
			if t.Op == eng.OAssertOk && t.Args[0].Strip() == ps[0] {
				can, known = v, true
			}
		})
		if !known {
			c.Undec("max-helper", "SetMaxEvents", "%s", strings.Join(p.FactStrings(), " & "))
			continue
		}
		k, same := 0, true
		p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			if strings.HasSuffix(callName(e), ".SetMaxEvents") && len(e.Args) == 2 {
				k++
				same = same && e.Args[1].Strip() == ps[1]
			}
		})
		want := 0
		if can {
			want = 1
		}
		c.Check(k == want && same, "max-helper", fn.Pos(), "SetMaxEvents", "the maximum of a trace that supports it (%v) is set %d times, to the given value: %v", can, k, same)
		if b, ok := p.Facts.Eval(p.Ret[1]); ok {
			c.Check(b == can, "max-helper", fn.Pos(), "SetMaxEvents result", "reports %v for a trace that supports it: %v", b, can)
		}
		root := p.Ret[0].Strip()
		for root.Op == eng.OAssert {
			root = root.Args[0].Strip()
		}
		c.Check(root == ps[0], "max-helper", fn.Pos(), "SetMaxEvents trace", "returns %s instead of the given trace", p.Ret[0])
	}
}

func fieldIndex(n *types.Named, f *types.Var) int {
	for i, g := range fieldsOf(n) {
		if g == f {
			return i
		}
	}
	return 0
}

// eventsLoad: the previous events the value extends.
func eventsLoad(v *eng.Term, r *coreT) *eng.Term {
	var out *eng.Term
	v.Any(func(t *eng.Term) bool {
		if loadOf(t, r.Events) {
			out = t
			return true
		}
		return false
	})
	return out
}

// maxLoad: the load of the max field the facts talk about.
func maxLoad(f *eng.Facts, r *coreT, def *eng.Term) *eng.Term {
	out := def
	f.EachTerm(func(t *eng.Term) {
		if loadOf(t, r.Max) {
			out = t
		}
	})
	return out
}

func lenEventsLoad(f *eng.Facts, r *coreT, in *eng.Interp) *eng.Term {
	var out *eng.Term
	f.EachTerm(func(t *eng.Term) {
		if t.Op == eng.OLen && loadOf(t.Args[0], r.Events) {
			out = t
		}
	})
	return out
}

func lenAnyEventsLoad(p *eng.Path, r *coreT, in *eng.Interp) *eng.Term {
	var out *eng.Term
	see := func(t *eng.Term) {
		if t != nil {
			t.Any(func(x *eng.Term) bool {
				if out == nil && loadOf(x, r.Events) {
					out = in.T.Len(x)
				}
				return false
			})
		}
	}
	for _, x := range p.Ret {
		see(x)
	}
	for _, e := range p.Effects {
		see(e.Addr)
		see(e.Val)
	}
	return out
}

// truncKnown: whether the path knows truncated > 0 / <= 0.
func truncKnown(p *eng.Path, r *coreT, in *eng.Interp) (pos, known bool) {
	p.Facts.EachTerm(func(t *eng.Term) {
		if loadOf(t, r.Trunc) {
			if p.Facts.Le(in.T.Int(1), t, 0) {
				pos, known = true, true
			} else if p.Facts.Le(t, in.T.Int(0), 0) {
				pos, known = false, true
			} else if eq, ok := p.Facts.Eval(in.T.Cmp(token.EQL, t, in.T.Int(0))); ok && !eq {
				pos, known = true, true // a counter is never negative
			}
		}
	})
	return
}

// truncArith: a number computed from the truncated counter, inside t.
func truncArith(t *eng.Term, r *coreT) *eng.Term {
	if loadOf(t, r.Trunc) {
		return nil
	}
	if t.Typ != nil {
		if b, ok := t.Typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && t.Op != eng.OConv && t.Op != eng.OCall {
			if t.Any(func(x *eng.Term) bool { return loadOf(x, r.Trunc) }) {
				return t
			}
			return nil
		}
	}
	for _, a := range t.Args {
		if a != nil {
			if x := truncArith(a, r); x != nil {
				return x
			}
		}
	}
	return nil
}

// isPoolGet: an object taken from a pool.
func isPoolGet(t *eng.Term) bool {
	t = t.Strip()
	return t.Op == eng.OAssert && t.Args[0].CalleeName() == "(*sync.Pool).Get"
}

// lastElem: the last element appended to a slice value.
func lastElem(t *eng.Term) *eng.Term {
	for t != nil {
		switch t.Op {
		case eng.OSlice:
			if t.Args[2] != nil {
				return nil
			}
			t = t.Args[0]
		case eng.OConv:
			t = t.Args[0]
		case eng.OAppend:
			a := t.Args[1]
			if a.Op == eng.OArr && len(a.Args) > 0 {
				return a.Args[len(a.Args)-1]
			}
			return nil
		default:
			return nil
		}
	}
	return nil
}

func inRange(f *eng.Facts, in *eng.Interp, v *eng.Term, lo, hi int64) bool {
	v = v.Strip()
	if v.Op == eng.OMinMax {
		// handled by facts when the engine splits it
	}
	return f.Le(in.T.Int(lo), v, 0) && f.Le(v, in.T.Int(hi), 0)
}

func globalOf(t *eng.Term) *ssa.Global {
	for t != nil {
		switch t.Op {
		case eng.OGlobal:
			return t.Obj.(*ssa.Global)
		case eng.OLoad, eng.OField, eng.OConv:
			t = t.Args[0]
		default:
			return nil
		}
	}
	return nil
}

// coreFuncRoots: api functions and constructors that can reach core fields.
func (c *C) coreFuncRoots(r *coreT) []*ssa.Function { return c.touching(c.apiRoots(""), r.T, r.Ev) }

// atomicStoresBounded: every store to the atomic integer stays in bounds, and
// its initial value is def.
func (c *C) atomicStoresBounded(g *ssa.Global, lo, hi, def int64) {
	init := false
	var gt types.Type = g.Type().(*types.Pointer).Elem()
	if p, ok := gt.(*types.Pointer); ok {
		gt = p.Elem()
	}
	atomName := types.TypeString(gt, nil)
	for _, fn := range c.P.Funcs {
		if pkgPath(fn) != c.P.Mod {
			continue
		}
		uses := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if ci, ok := ins.(ssa.CallInstruction); ok {
					if sc := ci.Common().StaticCallee(); sc != nil && strings.HasPrefix(sc.String(), "(*"+atomName+")") && sc.Name() != "Load" {
						uses = true
					}
				}
			}
		}
		if !uses {
			continue
		}
		if fn.Parent() == nil && !token.IsExported(fn.Name()) && fn.Name() != "init" && !c.onlyInitUse(fn) {
			// a helper: judged through its exported callers
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(true)})
		for _, p := range c.Run(in, fn, nil, nil) {
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				n := callName(e)
				if !strings.HasPrefix(n, "(*"+atomName+").") || strings.HasSuffix(n, ".Load") {
					return
				}
				if gg := globalOf(e.Args[0]); gg != nil && gg != g {
					return
				}
				isInit := strings.HasPrefix(fn.Name(), "init") || (fn.Parent() != nil && strings.HasPrefix(fn.Parent().Name(), "init")) || c.onlyInitUse(fn)
				v := e.Args[len(e.Args)-1].Strip()
				if isInit {
					init = true
					if k, ok := v.IntConst(); ok {
						c.Check(k == def, "max-default", e.Pos, g.Name(), "the default is %d instead of %d", k, def)
					}
				}
				if strings.HasSuffix(n, ".Store") {
					c.Check(inRange(e.Facts, in, v, lo, hi), "max-bounded", e.Pos, c.P.FnName(fn)+" -> "+g.Name(), "the configured max can become %s, which is not within [%d, %d]", v, lo, hi)
				} else {
					c.Undec("max-bounded", c.P.FnName(fn), "%s", n)
				}
			})
		}
	}
	// exported setters through helpers
	for _, fn := range c.globalRoots(g) {
		if fn.Signature.Recv() != nil {
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(true), MaxPaths: 500})
		hit := false
		ps := in.Run(fn, nil, nil, nil)
		for _, p := range ps {
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if callName(e) == "(*"+atomName+").Store" && globalOf(e.Args[0]) == g {
					hit = true
					c.Check(inRange(e.Facts, in, e.Args[1].Strip(), lo, hi), "max-bounded", e.Pos, c.P.FnName(fn)+" -> "+g.Name(), "the configured max can become %s, which is not within [%d, %d]", e.Args[1], lo, hi)
				}
			})
		}
		_ = hit
	}
	if !init {
		c.Fail("max-default", g.Pos(), g.Name(), "the configured max has no initial value, so traces would be bounded by 0")
	}
}

// onlyInitUse: a function (closure) used only while initialising the package.
func (c *C) onlyInitUse(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return strings.HasPrefix(fn.Name(), "init")
}

// C05: each event is recorded and reported faithfully.
func c05(c *C) {
	r := c.coreRoles()
	if r == nil {
		return
	}
	var fmtF, argF, zT = (*types.Var)(nil), (*types.Var)(nil), (*types.Named)(nil)
	if r.EvWhat != nil {
		zT = namedOf(r.EvWhat.Type())
	}
	for _, m := range eventMethods {
		fn := c.P.Method(r.T, m)
		if fn == nil {
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(true)})
		params := in.ParamSyms(fn)
		format, args := params[1], params[2]
		for _, p := range c.Run(in, fn, nil, params) {
			if p.Panic != nil || p.Exit || already(p, r.Fin, true) {
				continue
			}
			// errored flag
			var setErr *eng.Effect
			var added *eng.Effect
			for _, e := range p.Effects {
				if e.Kind == eng.EStore && !e.Fresh {
					if _, ok := directField(e.Addr, r.Err); ok {
						setErr = e
					}
					if _, ok := directField(e.Addr, r.Events); ok {
						added = e
					}
				}
			}
			if isErrKind(m) {
				v, ok := false, false
				if setErr != nil {
					v, ok = setErr.Val.BoolConst()
				} else if already(p, r.Err, true) {
					v, ok = true, true
				}
				c.Check(v && ok, "errored-set", fn.Pos(), m, "a path which records an error event doesn't mark the trace as errored: %s", strings.Join(p.FactStrings(), " & "))
			} else {
				c.Check(setErr == nil, "errored-set", fn.Pos(), m, "a normal event modifies the errored state")
			}
			if added == nil {
				continue
			}
			ev := lastElem(added.Val)
			if ev == nil {
				c.Undec("event-recorded", m, "added value %s", added.Val)
				continue
			}
			ev = ev.Strip()
			fields := map[*types.Var]*eng.Term{}
			p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind == eng.EStore {
					if b, f := ownerField(e.Addr); f != nil && b.Strip() == ev && e.Addr.Op == eng.OField {
						fields[f] = e.Val
					}
					if e.Addr == ev && e.Val.Op == eng.OStruct {
						for i, f := range fieldsOf(r.Ev) {
							if i < len(e.Val.Args) {
								fields[f] = e.Val.Args[i]
							}
						}
					}
				}
			})
			if r.EvErr != nil {
				v := fields[r.EvErr]
				if v == nil && isPoolGet(ev) && !c.resetOnPut(r.Ev, r.EvErr) {
					c.Fail("event-error-flag", fn.Pos(), m, "the error flag of a new event isn't set, on a path where recycled memory can have that of an earlier event: %s", strings.Join(p.FactStrings(), " & "))
				} else if v == nil {
					c.Undec("event-error-flag", m, "not stored")
				} else if b, ok := v.BoolConst(); ok {
					c.Check(b == isErrKind(m), "event-error-flag", fn.Pos(), m, "the event is recorded with error flag %v", b)
				} else {
					c.Undec("event-error-flag", m, "%s", v)
				}
			}
			if r.EvWhen != nil {
				if v := fields[r.EvWhen]; v != nil {
					c.Check(isNow(v), "event-time", fn.Pos(), m, "the event is recorded with time %s instead of the current time", v)
				} else if isPoolGet(ev) && !c.resetOnPut(r.Ev, r.EvWhen) {
					c.Fail("event-time", fn.Pos(), m, "the time of a new event isn't set, on a path where recycled memory can have that of an earlier event: %s", strings.Join(p.FactStrings(), " & "))
				} else {
					c.Undec("event-time", m, "not stored")
				}
			}
			// formatting
			var sprintf *eng.Effect
			p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if strings.HasPrefix(callName(e), "fmt.Sprint") {
					sprintf = e
				}
			})
			if isLazy(m) {
				c.Check(sprintf == nil, "lazy-not-evaluated", posOf(sprintf, fn), m, "the arguments of a lazy event are formatted immediately")
			} else {
				if !c.Check(sprintf != nil, "immediate-evaluated", fn.Pos(), m, "the arguments of an immediate event are not formatted when it is recorded") {
					continue
				}
				ok := callName(sprintf) == "fmt.Sprintf" && len(sprintf.Args) == 2 && sprintf.Args[0].Strip() == format && sprintf.Args[1].Strip() == args
				c.Check(ok, "immediate-evaluated", sprintf.Pos, m+" args", "the event text is computed from other values than the given format and args")
			}
			// stored text
			if zT == nil {
				c.Undec("text-stored", m, "unknown text type")
				continue
			}
			z := fields[r.EvWhat]
			if z == nil {
				c.Undec("text-stored", m, "text not stored")
				continue
			}
			z = z.Strip()
			zf := map[*types.Var]*eng.Term{}
			var stored *eng.Term
			p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind == eng.EStore {
					if b, f := ownerField(e.Addr); f != nil && b.Strip() == z && e.Addr.Op == eng.OField {
						zf[f] = e.Val
					}
				}
				if n := callName(e); strings.HasPrefix(n, "(*sync/atomic.") && (strings.HasSuffix(n, ".Store") || strings.HasSuffix(n, ".Swap")) {
					if b, f := ownerField(e.Args[0]); f != nil && b.Strip() == z {
						stored = e.Args[1].Strip()
					}
				}
			})
			var ff, fa *types.Var
			for f, v := range zf {
				if v.Strip() == format {
					ff = f
				}
				if v.Strip() == args {
					fa = f
				}
			}
			if ff != nil && fa != nil {
				fmtF, argF = ff, fa
				c.OK("format-args-kept", m)
			} else if isLazy(m) {
				// the values are needed later, and must be the given ones
				var bad []string
				for f, v := range zf {
					bad = append(bad, f.Name()+"="+v.String())
				}
				c.Fail("format-args-kept", fn.Pos(), m, "a lazy event does not keep the given format and args: %s", strings.Join(bad, ", "))
			}
			if stored == nil {
				c.Undec("text-stored", m, "no atomic store")
				continue
			}
			valid, known := structBool(stored)
			if !known {
				c.Undec("text-stored", m, "%s", stored)
				continue
			}
			if isLazy(m) {
				c.Check(!valid, "lazy-not-evaluated", fn.Pos(), m+" state", "a lazy event is marked as already evaluated")
			} else {
				c.Check(valid && sprintf != nil && stored.Contains(sprintf.Result), "immediate-evaluated", fn.Pos(), m+" state", "the immediately formatted text is not what is stored: %s", stored)
			}
		}
	}
	c.Floor("errored-set", 4)
	c.Floor("event-error-flag", 4)
	c.Floor("format-args-kept", 4)
	// reading the text
	if zT != nil {
		if s := c.P.Method(zT, "String"); s != nil {
			c.lazyText(r, s, fmtF, argF)
		} else {
			c.Undec("text-read", zT.Obj().Name(), "no String method")
		}
	}
	// other writers of the errored flag
	for _, fn := range c.touching(c.apiRoots(""), r.T, r.Ev) {
		if isErrKind(fn.Name()) {
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(false), MaxPaths: 3000})
		for _, p := range c.Run(in, fn, nil, nil) {
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind == eng.EStore && !e.Fresh {
					if _, ok := directField(e.Addr, r.Err); ok {
						c.Fail("errored-only-by-error-events", e.Pos, c.P.FnName(fn), "the errored state is modified by something other than an error event")
					}
				}
			})
		}
	}
	c.OK("errored-only-by-error-events", "package trc")
	c.snapshotRule(r, false)
}

func posOf(e *eng.Effect, fn *ssa.Function) token.Pos {
	if e != nil {
		return e.Pos
	}
	return fn.Pos()
}

// structBool: the boolean constant inside a small struct value.
func structBool(t *eng.Term) (v, known bool) {
	switch t.Op {
	case eng.OZero:
		return false, true
	case eng.OStruct:
		n := 0
		for _, a := range t.Args {
			if b, ok := a.BoolConst(); ok {
				v = b
				n++
			} else if g := globalOf(a); g != nil && a.Typ != nil && types.Identical(a.Typ.Underlying(), types.Typ[types.Bool]) {
				// a field of a package variable that is never assigned
				v = false
				n++
			}
		}
		return v, n == 1
	case eng.OLoad:
		// a package variable that is never assigned has the zero value
		if g := globalOf(t); g != nil && t.Args[0].Op == eng.OGlobal {
			return false, true
		}
	case eng.OConst:
		if t.Val == nil {
			return false, true
		}
		if t.Val.Kind() == constant.Bool {
			return constant.BoolVal(t.Val), true
		}
	}
	return false, false
}

// lazyText: the text of an event is formatted at most once, from the recorded
// format and args, and every reader gets the same text.
func (c *C) lazyText(r *coreT, fn *ssa.Function, fmtF, argF *types.Var) {
	in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(true)})
	cached := false
	for _, p := range c.Run(in, fn, nil, nil) {
		if p.Panic != nil || len(p.Ret) != 1 {
			continue
		}
		var sp *eng.Effect
		var pub bool
		var casKnownTrue, casSeen bool
		branchBefore, retry := false, false
		p.Walk(false, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
			n := callName(e)
			switch {
			case e.Kind == eng.EBranch && sp == nil:
				branchBefore = true
			case strings.HasPrefix(n, "fmt.Sprint"):
				sp = e
				retry = len(loops) > 0
			case sp != nil && strings.HasPrefix(n, "(*sync/atomic."):
				for _, a := range e.Args[1:] {
					if a.Contains(sp.Result) {
						pub = true
						if strings.HasSuffix(n, "CompareAndSwap") {
							casSeen = true
							v, k := p.Facts.Eval(e.Result)
							casKnownTrue = k && v
						} else {
							casKnownTrue = true
						}
					}
				}
			case sp != nil && e.Kind == eng.EStore && !e.Fresh && e.Val.Contains(sp.Result):
				pub = true
				casKnownTrue = true
			}
		})
		if sp == nil {
			cached = true
			c.Check(!p.Ret[0].IsConst(), "text-cached", fn.Pos(), "cached text", "returns a constant")
			continue
		}
		c.Check(branchBefore, "text-cached", sp.Pos, "formatting", "the text is formatted again on every read")
		c.Check(pub, "text-cached", sp.Pos, "formatted text", "the formatted text is not kept, so a later read can differ")
		ok := len(sp.Args) == 2 && loadOf(sp.Args[0].Strip(), fmtF) && loadOf(sp.Args[1].Strip(), argF)
		if fmtF != nil && argF != nil {
			c.Check(ok, "text-from-recorded-args", sp.Pos, "String", "the text is formatted from %v instead of the recorded format and args", sp.Args)
		}
		if retry && !p.Ret[0].Contains(sp.Result) {
			cached = true // formats and tries again until a text is recorded
		}
		if p.Ret[0] == sp.Result {
			if pub {
				c.Check(casKnownTrue || c.serialised(fn, r), "text-stable", fn.Pos(), "String", "returns text that lost the race to be recorded, so two readers can see different texts")
			}
		} else if casSeen && casKnownTrue {
			c.OK("text-stable", "String winner")
		} else {
			c.OK("text-stable", "String loser")
		}
	}
	c.Check(cached, "text-cached", fn.Pos(), "cached path", "no path returns recorded text without formatting it again")
}

// serialised: the text of an event is only ever asked for with the lock of its
// trace held, by every exported function that does.
func (c *C) serialised(fn *ssa.Function, r *coreT) bool {
	n := 0
	for _, root := range c.apiRoots() {
		if root == fn || !c.reaches(root, func(i ssa.Instruction) bool {
			call, ok := i.(ssa.CallInstruction)
			return ok && call.Common().StaticCallee() == fn
		}) {
			continue
		}
		if recv := root.Signature.Recv(); recv == nil || namedOf(recv.Type()) == nil || namedOf(recv.Type()).Obj() != r.T.Obj() {
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(true), MaxPaths: 4000})
		for _, p := range c.Run(in, root, nil, nil) {
			bad := false
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, async bool) {
				if e.Kind == eng.ECall && e.Fn == fn {
					n++
					bad = bad || async || len(e.Locks) == 0
				}
			})
			if bad {
				return false
			}
		}
	}
	return n > 0
}

// snapshotRule: Events returns the recorded events, in order, with the
// recorded time, text, and error flag. With stacks: stacks are copied.
func (c *C) snapshotRule(r *coreT, stacks bool) {
	fn := c.P.Method(r.T, "Events")
	if fn == nil || r.Ev == nil {
		return
	}
	evT := c.P.Named("", "Event")
	fi := map[string]*types.Var{}
	for _, f := range fieldsOf(evT) {
		fi[f.Name()] = f
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(false)})
	roots := []*ssa.Function{fn}
	if d := c.P.Method(r.T, "EventsDetail"); d != nil {
		roots = append(roots, d)
	}
	for _, fn := range roots {
		for _, p := range c.Run(in, fn, nil, nil) {
			if p.Panic != nil || len(p.Ret) != 1 {
				continue
			}
			p.Walk(true, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
				switch e.Kind {
				case eng.EStore:
					if e.Addr.Op != eng.OField || e.Addr.Args[0].Op != eng.OIndex || len(loops) == 0 {
						return
					}
					f := e.Addr.FieldVar()
					if f == nil || fi[f.Name()] != f {
						return
					}
					base := e.Addr.Args[0].Args[0]
					if pt, ok := base.Typ.Underlying().(*types.Pointer); ok {
						if _, isArr := pt.Elem().Underlying().(*types.Array); isArr && base.Op == eng.OAlloc {
							return // the arguments of an append
						}
					}
					idx := e.Addr.Args[0].Args[1]
					c.snapField(r, in, fn, e, f.Name(), e.Val, idx, stacks)
				case eng.EAppend:
					if e.Val.Op == eng.OArr && len(e.Val.Args) == 1 && e.Val.Args[0].Op == eng.OStruct && types.Identical(e.Val.Args[0].Typ, evT) && len(loops) > 0 {
						l := loops[len(loops)-1]
						for k, it := range l.Iters {
							n := 0
							for _, x := range it.Effects {
								if x.Kind == eng.EAppend && x.Val.Op == eng.OArr && len(x.Val.Args) > 0 && types.Identical(x.Val.Args[0].Typ, evT) {
									n += len(x.Val.Args)
								}
							}
							if len(it.Effects) > 0 && !stacks {
								c.Check(n == 1, "snapshot-each", e.Pos, fmt.Sprintf("%s iteration kind %d", c.P.FnName(fn), k), "a recorded event is reported %d times: %s", n, strings.Join(it.Facts.Strings(), " & "))
							}
						}
						for i, f := range fieldsOf(evT) {
							c.appendK = l.K
							c.snapField(r, in, fn, e, f.Name(), e.Val.Args[0].Args[i], nil, stacks)
							c.appendK = nil
						}
					}
				}
			})
			if stacks {
				root := p.Ret[0].Root()
				for root.Op == eng.OAppend {
					root = root.Args[0].Root()
				}
				c.Check(!root.Any(func(t *eng.Term) bool { return t.Op == eng.OLoad && loadOf(t, nil) }) && (p.State.Owned(root) || root.IsNil() || root.Op == eng.OMkSlice || root.Op == eng.OSym || root.Op == eng.OAlloc), "snapshot-fresh", fn.Pos(), c.P.FnName(fn), "returned events are not a copy: %s", p.Ret[0])
			}
		}
	}
	if !stacks {
		c.Floor("snapshot-field", 3)
	}
}

// snapField judges one field of one copied event.
func (c *C) snapField(r *coreT, in *eng.Interp, fn *ssa.Function, e *eng.Effect, name string, v, dst *eng.Term, stacks bool) {
	if stacks {
		if name == "Stack" {
			bad := sharesStack(v, r)
			c.Check(!bad, "stack-copied", e.Pos, c.P.FnName(fn)+" Stack", "the stack of a returned event shares memory with the live event: %s", v)
		}
		return
	}
	var src *eng.Term
	want := map[string]*types.Var{"When": r.EvWhen, "What": r.EvWhat, "IsError": r.EvErr}[name]
	if want == nil {
		return
	}
	v = v.Strip()
	var fld *types.Var
	switch name {
	case "What":
		x := v
		if x.Op == eng.OCall && len(x.Args) > 0 {
			x = x.Args[0].Strip()
		}
		if loadOf(x, want) {
			src = x.Args[0].Args[0]
		}
		fld = loadedField(x)
	default:
		if loadOf(v, want) {
			src = v.Args[0].Args[0]
		}
		fld = loadedField(v)
	}
	if src == nil {
		if fld != nil && structFieldOf(r.Ev, fld) || v.IsConst() {
			c.Fail("snapshot-field", e.Pos, "Events "+name, "%s of a returned event is %s instead of the recorded value", name, v)
		} else {
			c.Undec("snapshot-field", "Events "+name, "%s", v)
		}
		return
	}
	c.OK("snapshot-field", "Events "+name)
	if dst == nil {
		if k := c.appendK; k != nil && src.Op == eng.OLoad && src.Args[0].Op == eng.OIndex {
			i := src.Args[0].Args[1]
			d := in.T.Sub(i, k)
			if d.Any(func(t *eng.Term) bool { return t == k }) {
				c.Fail("snapshot-order", e.Pos, "Events "+name, "event %s is copied in step %s", i, k)
			} else if i.Any(func(t *eng.Term) bool { return t == k }) {
				c.OK("snapshot-order", "Events "+name)
			} else {
				c.Undec("snapshot-order", "Events "+name, "%s in step %s", i, k)
			}
		}
		return
	}
	// src is load(slice[idx])
	if src.Op == eng.OLoad && src.Args[0].Op == eng.OIndex {
		s, i := src.Args[0].Args[0], src.Args[0].Args[1]
		off := in.T.Int(0)
		for s.Op == eng.OSlice {
			if s.Args[1] != nil {
				off = in.T.Sub(s.Args[1], in.T.Sub(in.T.Int(0), off))
			}
			s = s.Args[0]
		}
		if !loadOf(s, r.Events) {
			c.Undec("snapshot-order", "Events "+name, "source %s", s)
			return
		}
		// destination index + (len(events) - len(result)) == source index + offset
		dstBase := e.Addr.Args[0].Args[0]
		lhs := in.T.Sub(in.T.Sub(dst, in.T.Sub(in.T.Int(0), in.T.Len(s))), in.T.Len(dstBase))
		rhs := in.T.Sub(i, in.T.Sub(in.T.Int(0), off))
		if d, isc := in.T.LinConst(in.T.Sub(lhs, rhs)); isc {
			c.Check(d == 0, "snapshot-order", e.Pos, "Events "+name, "event %s is copied to position %s", i, dst)
		} else if e.Facts.EqInt(lhs, rhs, 0) {
			c.OK("snapshot-order", "Events "+name)
		} else {
			// a permutation would be e.g. n-1-k
			l := in.T.Sub(lhs, rhs)
			if l.Any(func(t *eng.Term) bool { return t == i || t == dst }) {
				c.Fail("snapshot-order", e.Pos, "Events "+name, "event %s is copied to position %s", i, dst)
			} else {
				c.Undec("snapshot-order", "Events "+name, "%s -> %s", i, dst)
			}
		}
	}
}

// sharesStack: the value aliases the stack slice of a live event.
func sharesStack(v *eng.Term, r *coreT) bool {
	v = v.Strip()
	switch v.Op {
	case eng.OConst, eng.OMkSlice, eng.OArr, eng.OAlloc, eng.OZero:
		return false
	case eng.OAppend:
		return sharesStack(v.Args[0], r)
	case eng.OSlice:
		// s[:0:0] is empty and cannot be extended in place
		if v.Args[3] != nil {
			if k, ok := v.Args[3].IntConst(); ok && k == 0 {
				return false
			}
		}
		return sharesStack(v.Args[0], r)
	case eng.OLoad:
		if root := v.Args[0].Root(); root.Op == eng.OMkSlice && !loadOf(v, r.EvStk) {
			return false // part of the copy itself
		}
		return loadOf(v, r.EvStk) || loadedField(v) != nil
	case eng.OSym:
		// a loop-widened value: judged by its parts elsewhere
		return strings.HasPrefix(v.Aux, "loop_") && v.Typ != nil && !strings.Contains(v.Aux, "copy")
	}
	return v.Any(func(t *eng.Term) bool { return loadOf(t, r.EvStk) })
}

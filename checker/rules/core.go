package rules

import (
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// coreT are the roles played by the fields of the default trace type,
// discovered from what the accessor methods return and the event methods do.
type coreT struct {
	T                            *types.Named
	Mtx                          *types.Var
	Fin, Err, Dur, Start         *types.Var
	ID, Source, Category         *types.Var
	Events, Max, Trunc           *types.Var
	Ev                           *types.Named // event type
	EvWhen, EvWhat, EvErr, EvStk *types.Var
	Methods                      []*ssa.Function
}

func isMutex(t types.Type) bool {
	return isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex")
}

func (c *C) namedTypes(rel string) []*types.Named {
	sp := c.P.Pkg(rel)
	if sp == nil {
		return nil
	}
	var out []*types.Named
	sc := sp.Pkg.Scope()
	for _, n := range sc.Names() {
		if tn, ok := sc.Lookup(n).(*types.TypeName); ok && !tn.IsAlias() {
			if nt, ok := tn.Type().(*types.Named); ok {
				out = append(out, nt)
			}
		}
	}
	return out
}

// wrappers are the struct types embedding or holding a Trace and implementing
// Trace.
func (c *C) wrappers() []*types.Named {
	var out []*types.Named
	for _, n := range c.namedTypes("") {
		if !c.isTraceType(n) || types.IsInterface(n) {
			continue
		}
		for _, f := range fieldsOf(n) {
			if types.Identical(f.Type(), c.traceType()) {
				out = append(out, n)
				break
			}
		}
	}
	return out
}

func (c *C) ownMethods(n *types.Named) []*ssa.Function {
	var out []*ssa.Function
	for i := 0; i < n.NumMethods(); i++ {
		if fn := c.P.Prog.FuncValue(n.Method(i)); fn != nil {
			out = append(out, fn)
		}
	}
	return out
}

// loadedField: t is a load of a field of recv.
func loadedField(t *eng.Term) *types.Var {
	if t != nil && t.Op == eng.OLoad && t.Args[0].Op == eng.OField {
		return t.Args[0].FieldVar()
	}
	return nil
}

func (c *C) coreRoles() *coreT {
	if c.core != nil {
		return c.core
	}
	var cands []*types.Named
	for _, n := range c.namedTypes("") {
		if !c.isTraceType(n) || types.IsInterface(n) || n.Obj().Exported() {
			continue
		}
		hasTrace, hasMtx := false, false
		for _, f := range fieldsOf(n) {
			if types.Identical(f.Type(), c.traceType()) {
				hasTrace = true
			}
			if isMutex(f.Type()) {
				hasMtx = true
			}
		}
		if !hasTrace && hasMtx {
			cands = append(cands, n)
		}
	}
	if len(cands) != 1 {
		c.Undec("roles", "default trace type", "%d candidates", len(cands))
		return nil
	}
	r := &coreT{T: cands[0]}
	for _, f := range fieldsOf(r.T) {
		if isMutex(f.Type()) {
			r.Mtx = f
		}
	}
	own := map[*types.Var]bool{}
	for _, f := range fieldsOf(r.T) {
		own[f] = true
	}
	run := func(m string) []*eng.Path {
		fn := c.P.Method(r.T, m)
		if fn == nil {
			return nil
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(false), MaxPaths: 3000})
		return in.Run(fn, nil, nil, nil)
	}
	retField := func(m string) *types.Var {
		for _, p := range run(m) {
			if len(p.Ret) == 0 {
				continue
			}
			var f *types.Var
			p.Ret[0].Any(func(t *eng.Term) bool {
				if v := loadedField(t); v != nil && own[v] {
					f = v
					return true
				}
				return false
			})
			if f != nil {
				return f
			}
		}
		return nil
	}
	pick := func(m, name string) *types.Var {
		if v := fieldNamed(r.T, name); v != nil {
			return v
		}
		return retField(m)
	}
	r.Fin = pick("Finished", "finished")
	r.Err = pick("Errored", "errored")
	r.Start = pick("Started", "start")
	r.ID = pick("ID", "id")
	r.Source = pick("Source", "source")
	r.Category = pick("Category", "category")
	// prefer what the accessor returns over the name, when they disagree the
	// accessor decides
	for _, p := range run("Duration") {
		if len(p.Ret) > 0 {
			if v := loadedField(p.Ret[0]); v != nil && own[v] && isNamed(v.Type(), "time", "Duration") {
				r.Dur = v
			}
		}
	}
	if r.Dur == nil {
		r.Dur = fieldNamed(r.T, "duration")
	}
	for _, f := range fieldsOf(r.T) {
		if s, ok := f.Type().Underlying().(*types.Slice); ok {
			if n := namedOf(s.Elem()); n != nil && c.P.InRepoType(n) {
				r.Events, r.Ev = f, n
			}
		}
	}
	r.Trunc, r.Max = fieldNamed(r.T, "truncated"), fieldNamed(r.T, "eventsmax")
	if r.Trunc == nil || r.Max == nil {
		for _, p := range run("Tracef") {
			for _, e := range p.Effects {
				if e.Kind == eng.EStore && own[e.Addr.FieldVar()] {
					f := e.Addr.FieldVar()
					if e.Val.Any(func(t *eng.Term) bool { return loadedField(t) == f }) && f != r.Events && r.Trunc == nil {
						r.Trunc = f
					}
				}
			}
			p.Facts.Each(func(t *eng.Term, v bool) {
				t.Any(func(x *eng.Term) bool {
					if f := loadedField(x); f != nil && own[f] && f != r.Events && f != r.Fin && r.Max == nil {
						if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && t.Any(func(y *eng.Term) bool { return y.Op == eng.OLen }) {
							r.Max = f
						}
					}
					return false
				})
			})
		}
	}
	if r.Ev != nil {
		for _, f := range fieldsOf(r.Ev) {
			switch {
			case isNamed(f.Type(), "time", "Time"):
				r.EvWhen = f
			case types.Identical(f.Type(), types.Typ[types.Bool]):
				r.EvErr = f
			}
			if s, ok := f.Type().Underlying().(*types.Slice); ok {
				if isNamed(s.Elem(), mod, "Frame") {
					r.EvStk = f
				}
			}
		}
		if v := fieldNamed(r.Ev, "what"); v != nil {
			r.EvWhat = v
		}
	}
	missing := []string{}
	for n, v := range map[string]*types.Var{"mutex": r.Mtx, "finished": r.Fin, "errored": r.Err, "duration": r.Dur, "start": r.Start, "events": r.Events, "max events": r.Max, "truncated": r.Trunc} {
		if v == nil {
			missing = append(missing, n)
		}
	}
	if len(missing) > 0 {
		c.Undec("roles", r.T.Obj().Name(), "no field recognised for: %s", strings.Join(missing, ", "))
		return nil
	}
	for _, m := range c.ownMethods(r.T) {
		r.Methods = append(r.Methods, m)
	}
	c.core = r
	return r
}

// coreInline inlines everything of the default trace implementation except,
// unless deep, the lazily evaluated String methods.
func (c *C) coreInline(deep bool) func(*ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		if !deep && fn.Signature.Recv() != nil && fn.Name() == "String" {
			return false
		}
		return !exportedFn(fn)
	}
}

// isApiRoot: callable from outside the package.
func (c *C) apiRoots(rels ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || fn.Synthetic != "" {
			continue
		}
		ok := len(rels) == 0
		for _, r := range rels {
			path := c.P.Mod
			if r != "" {
				path += "/" + r
			}
			if pkgPath(fn) == path {
				ok = true
			}
		}
		if !ok {
			continue
		}
		if token.IsExported(fn.Name()) {
			out = append(out, fn)
		}
	}
	return out
}

// fieldAddr: addr is (a part of) field f of some object; returns the object.
func ofField(addr *eng.Term, f *types.Var) (base *eng.Term, ok bool) {
	for a := addr; a != nil; {
		switch a.Op {
		case eng.OField:
			if v := a.FieldVar(); v != nil && f != nil && v.Origin() == f.Origin() {
				return a.Args[0], true
			}
			a = a.Args[0]
		case eng.OIndex, eng.OSlice, eng.OConv:
			a = a.Args[0]
		case eng.OLoad:
			a = a.Args[0]
		default:
			return nil, false
		}
	}
	return nil, false
}

// ownerField: the innermost struct field an address denotes, with its object.
func ownerField(addr *eng.Term) (base *eng.Term, f *types.Var) {
	for a := addr; a != nil; {
		switch a.Op {
		case eng.OField:
			return a.Args[0], a.FieldVar()
		case eng.OIndex, eng.OSlice, eng.OConv:
			a = a.Args[0]
		default:
			return nil, nil
		}
	}
	return nil, nil
}

// structFieldOf reports whether f is a field of n.
func structFieldOf(n *types.Named, f *types.Var) bool {
	for _, g := range fieldsOf(n) {
		if f != nil && g.Origin() == f.Origin() {
			return true
		}
	}
	return false
}

// unfinishedKnown: the facts at e say that object base was not finished, as
// read in the critical section e belongs to.
func (r *coreT) unfinishedKnown(e *eng.Effect, base *eng.Term) (known, val bool) {
	e.Facts.Each(func(t *eng.Term, v bool) {
		if t.Op == eng.OLoad && t.N >= e.Epoch {
			if b, ok := directField(t.Args[0], r.Fin); ok && b == base {
				known, val = true, v
			}
		}
	})
	return
}

func directField(a *eng.Term, f *types.Var) (*eng.Term, bool) {
	if a != nil && a.Op == eng.OField && a.FieldVar() != nil && f != nil && a.FieldVar().Origin() == f.Origin() {
		return a.Args[0], true
	}
	return nil, false
}

func (r *coreT) locked(e *eng.Effect, base *eng.Term) bool {
	for _, l := range e.Locks {
		if l.Read {
			continue
		}
		if b, ok := directField(l.Addr, r.Mtx); ok && b == base {
			return true
		}
	}
	return false
}

// recycled: the path returns base to a pool.
func recycledLater(p *eng.Path, base *eng.Term) bool {
	found := false
	p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if callName(e) == "(*sync.Pool).Put" && len(e.Args) > 1 && e.Args[1].Strip() == base.Strip() {
			found = true
		}
	})
	return found
}

// C01: once finished, a trace never changes.
func c01(c *C) {
	r := c.coreRoles()
	if r == nil {
		return
	}
	obs := map[*types.Var]string{r.Fin: "finished flag", r.Err: "errored flag", r.Dur: "duration", r.Events: "events", r.Trunc: "truncated count"}
	for _, fn := range c.touching(c.apiRoots(""), r.T, r.Ev) {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(true), MaxPaths: 6000})
		for _, p := range c.Run(in, fn, nil, nil) {
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind != eng.EStore {
					return
				}
				name := c.P.FnName(fn)
				if e.Addr.Op == eng.OIndex && !e.Fresh {
					s, i := e.Addr.Args[0], e.Addr.Args[1]
					off := in.T.Int(0)
					for s.Op == eng.OSlice || s.Op == eng.OConv {
						if s.Op == eng.OSlice && s.Args[1] != nil {
							off = in.T.Sub(s.Args[1], in.T.Sub(in.T.Int(0), off))
						}
						s = s.Args[0]
					}
					if loadOf(s, r.Events) {
						base := s.Args[0].Args[0]
						pos := in.T.Sub(i, in.T.Sub(in.T.Int(0), off))
						switch {
						case recycledLater(p, base), e.Facts.Le(in.T.Len(s), pos, 0):
							c.OK("events-kept", name)
						case e.Facts.Le(pos, in.T.Len(s), -1):
							c.Fail("events-kept", e.Pos, name, "a recorded event is replaced, at position %s", pos)
						default:
							c.Undec("events-kept", name, "position %s", pos)
						}
						return
					}
				}
				base, f := ownerField(e.Addr)
				if f == nil || e.Fresh {
					return
				}
				if directF, ok := directField(e.Addr, r.Events); ok && !recycledLater(p, directF) {
					// what's assigned begins with all the events there were
					if ev := eventsLoad(e.Val, r); ev == nil {
						if zeroLike(e.Val) || e.Val.Op == eng.OMkSlice {
							c.Fail("events-kept", e.Pos, name, "recorded events are removed from a trace that's in use")
						} else {
							c.Undec("events-kept", name, "events assigned %s", e.Val)
						}
					} else if e.Facts.Le(in.T.Len(ev), in.T.Len(e.Val), 0) {
						c.OK("events-kept", name)
					} else if e.Facts.Le(in.T.Len(e.Val), in.T.Len(ev), -1) {
						c.Fail("events-kept", e.Pos, name, "recorded events are removed from a trace that's in use: %s", e.Val)
					} else {
						c.Undec("events-kept", name, "events assigned %s", e.Val)
					}
				}
				if structFieldOf(r.T, f) {
					what, ok := obs[f]
					if !ok {
						return
					}
					if known, v := r.unfinishedKnown(e, base); known && !v {
						c.OK("no-change-after-finish", name+" "+f.Name())
						return
					}
					if recycledLater(p, base) {
						c.OK("no-change-after-finish", name+" "+f.Name()+" (recycled)")
						return
					}
					c.Fail("no-change-after-finish", e.Pos, name+" stores "+f.Name(), "the %s of a trace is modified on a path that has not established, in the same critical section, that the trace is unfinished", what)
				}
				if r.Ev != nil && structFieldOf(r.Ev, f) && f != r.EvStk {
					if recycledLater(p, base) {
						c.OK("events-immutable", name+" "+f.Name())
						return
					}
					c.Fail("events-immutable", e.Pos, name+" stores "+f.Name(), "a recorded event is modified after it was added to the trace")
				}
			})
		}
	}
	// Finish
	fin := c.P.Method(r.T, "Finish")
	if fin == nil {
		c.Fail("anchor", token.NoPos, "Finish", "missing")
		return
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(true)})
	for _, p := range c.Run(in, fin, nil, nil) {
		if p.Panic != nil {
			continue
		}
		var setFin, setDur *eng.Effect
		for _, e := range p.Effects {
			if e.Kind == eng.EStore {
				if _, ok := directField(e.Addr, r.Fin); ok {
					setFin = e
				}
				if _, ok := directField(e.Addr, r.Dur); ok {
					setDur = e
				}
			}
		}
		if already(p, r.Fin, true) {
			c.Check(setFin == nil && setDur == nil, "finish-idempotent", fin.Pos(), "Finish", "a second Finish modifies the trace")
			continue
		}
		if !c.Check(setFin != nil, "finish-marks", fin.Pos(), "Finish", "a path through Finish on an unfinished trace does not mark it finished") {
			continue
		}
		if v, ok := setFin.Val.BoolConst(); ok {
			c.Check(v, "finish-marks", setFin.Pos, "Finish", "Finish marks the trace as not finished")
		} else if v, ok := p.Facts.Eval(setFin.Val); !ok || !v {
			c.Fail("finish-marks", setFin.Pos, "Finish", "whether Finish marks the trace as finished depends on %s", setFin.Val)
		}
		if c.Check(setDur != nil, "finish-duration", fin.Pos(), "Finish", "a path through Finish on an unfinished trace does not record the duration") {
			c.Check(sinceStart(setDur.Val, r.Start), "finish-duration", setDur.Pos, "Finish duration", "Finish does not record the time since the start of the trace: %s", setDur.Val)
		}
	}
	// Duration
	dur := c.P.Method(r.T, "Duration")
	in = eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(true)})
	for _, p := range c.Run(in, dur, nil, nil) {
		if len(p.Ret) != 1 || p.Panic != nil {
			continue
		}
		stored := loadedField(p.Ret[0]) == r.Dur
		switch {
		case already(p, r.Fin, true):
			c.Check(stored, "duration-frozen", dur.Pos(), "Duration of a finished trace", "returns %s instead of the duration recorded by Finish", p.Ret[0])
		case already(p, r.Fin, false):
			c.Check(sinceStart(p.Ret[0], r.Start), "duration-active", dur.Pos(), "Duration of an active trace", "returns %s instead of the time since the start", p.Ret[0])
		default:
			c.Check(false, "duration-frozen", dur.Pos(), "Duration", "a path returns %s without consulting the finished flag", p.Ret[0])
		}
	}
	for m, f := range map[string]*types.Var{"Finished": r.Fin, "Errored": r.Err} {
		fn := c.P.Method(r.T, m)
		in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(true)})
		for _, p := range c.Run(in, fn, nil, nil) {
			if len(p.Ret) != 1 || p.Panic != nil {
				continue
			}
			ok := loadedField(p.Ret[0]) == f
			if v, isc := p.Ret[0].BoolConst(); isc {
				ok = already(p, f, v)
			}
			c.Check(ok, "accessor", fn.Pos(), m, "returns %s instead of the recorded flag", p.Ret[0])
		}
	}
	c.Floor("events-kept", 4)
	c.Floor("no-change-after-finish", 10)
	c.Floor("finish-marks", 1)
}

// already: the path's facts fix a boolean receiver field to v.
func already(p *eng.Path, f *types.Var, v bool) bool {
	ok := false
	p.Facts.Each(func(t *eng.Term, b bool) {
		if t.Op == eng.OLoad {
			if _, is := directField(t.Args[0], f); is && b == v {
				ok = true
			}
		}
	})
	return ok
}

// sinceStart: time.Since(start) or now.Sub(start).
func sinceStart(t *eng.Term, start *types.Var) bool {
	t = t.Strip()
	switch t.CalleeName() {
	case "time.Since":
		return isStart(t.Args[0], start)
	case "(time.Time).Sub":
		return isStart(t.Args[1], start) && isNow(t.Args[0])
	}
	return false
}

func isStart(t *eng.Term, start *types.Var) bool {
	t = t.Strip()
	if n := t.CalleeName(); n == "(time.Time).UTC" || n == "(time.Time).Local" || n == "(time.Time).Round" {
		return isStart(t.Args[0], start)
	}
	return loadedField(t) == start
}

// isNow: the current time, as read on this path.
func isNow(t *eng.Term) bool {
	t = t.Strip()
	switch t.CalleeName() {
	case "time.Now":
		return true
	case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In", "(time.Time).Round":
		return isNow(t.Args[0])
	}
	return false
}

package rules

import (
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// pooled is one recycled type.
type pooled struct {
	n     *types.Named
	inits map[*types.Var]bool // (re)initialised on every path that takes one from the pool
	reset map[*types.Var]bool // reset on every path that puts one back
	gets  int
	puts  int
	pos   *ssa.Function
}

func pooledSkip(f *types.Var) bool {
	if isMutex(f.Type()) || f.Name() == "_" {
		return true
	}
	switch f.Type().Underlying().(type) {
	case *types.Array:
		return true // valid only up to a recorded length
	}
	return false
}

// staleIn: v depends on the previous content of field f of obj.
func staleIn(v, obj *eng.Term) bool {
	v = v.Strip()
	if v.Op == eng.OSlice {
		if v.Args[2] != nil {
			if k, ok := v.Args[2].IntConst(); ok && k == 0 {
				return false // emptied
			}
		}
		return staleIn(v.Args[0], obj)
	}
	if v.Op == eng.OLoad && v.Args[0].Op == eng.OField && v.Args[0].Args[0].Strip() == obj {
		return true
	}
	for _, a := range v.Args {
		if a != nil && a.Op != eng.OLen && staleIn(a, obj) {
			return true
		}
	}
	return false
}

// zeroLike: a value an object starts out with.
func zeroLike(v *eng.Term) bool {
	v = v.Strip()
	if v.Op == eng.OZero || v.IsNil() {
		return true
	}
	if b, ok := v.BoolConst(); ok {
		return !b
	}
	if k, ok := v.IntConst(); ok {
		return k == 0
	}
	if s, ok := v.StrConst(); ok {
		return s == ""
	}
	if v.Op == eng.OSlice && v.Args[2] != nil {
		k, ok := v.Args[2].IntConst()
		return ok && k == 0
	}
	if v.Op == eng.OStruct {
		for _, a := range v.Args {
			if !zeroLike(a) {
				return false
			}
		}
		return true
	}
	return false
}

type objUse struct {
	obj    *eng.Term
	n      *types.Named
	stores map[*types.Var]*eng.Term
	get    *eng.Effect
	puts   []*eng.Effect
	putAt  int
}

// C07: recycled memory carries nothing from its previous life, and is only
// recycled when it's no longer used.
func c07(c *C) {
	r := c.coreRoles()
	pools := map[*types.Named]*pooled{}
	get := func(n *types.Named) *pooled {
		if pools[n] == nil {
			pools[n] = &pooled{n: n, inits: map[*types.Var]bool{}, reset: map[*types.Var]bool{}}
			for _, f := range fieldsOf(n) {
				pools[n].inits[f], pools[n].reset[f] = true, true
			}
		}
		return pools[n]
	}
	isPoolCall := func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := call.Common().StaticCallee()
		return f != nil && (f.String() == "(*sync.Pool).Get" || f.String() == "(*sync.Pool).Put")
	}
	bad := map[*types.Named]map[string]bool{}
	_ = bad
	for _, fn := range c.apiRoots() {
		if !c.reaches(fn, isPoolCall) || !directPool(c, fn, isPoolCall) {
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(true), TrackLoads: true, MaxPaths: 4000})
		name := c.P.FnName(fn)
		for _, p := range c.Run(in, fn, nil, nil) {
			if p.Exit {
				continue
			}
			uses := map[*eng.Term]*objUse{}
			use := func(o *eng.Term) *objUse {
				o = o.Strip()
				if uses[o] == nil {
					uses[o] = &objUse{obj: o, n: namedOf(o.Typ), stores: map[*types.Var]*eng.Term{}, putAt: -1}
				}
				return uses[o]
			}
			i := 0
			p.Walk(true, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
				i++
				switch e.Kind {
				case eng.ECall:
					switch {
					case callName(e) == "(*sync.Pool).Get":
						// the object is the asserted result
					case callName(e) == "(*sync.Pool).Put" && len(e.Args) == 2:
						u := use(e.Args[1])
						u.puts = append(u.puts, e)
						u.putAt = i
						if u.n == nil {
							u.n = namedOf(u.obj.Typ)
						}
					case strings.HasPrefix(callName(e), "(*sync/atomic.") && strings.HasSuffix(callName(e), ".Store") && len(e.Args) == 2:
						if b, f := ownerField(e.Args[0]); f != nil {
							u := use(b)
							u.stores[f] = e.Args[1]
							if u.putAt >= 0 {
								c.Fail("no-use-after-recycle", e.Pos, name, "field %s is written after the object was put back into its pool", f.Name())
							}
						}
					}
				case eng.EStore, eng.ELoad:
					b, f := ownerField(e.Addr)
					if f == nil || b == nil {
						return
					}
					if e.Kind == eng.EStore {
						if e.Addr.Op == eng.OField {
							use(b).stores[f] = e.Val
						}
					}
					if u := uses[b.Strip()]; u != nil && u.putAt >= 0 && !isMutex(f.Type()) {
						c.Fail("no-use-after-recycle", e.Pos, name, "field %s is used after the object was put back into its pool", f.Name())
					}
				}
				if e.Kind == eng.EStore && e.Val.Op == eng.OStruct && e.Addr.Op != eng.OField {
					if n := namedOf(e.Val.Typ); n != nil {
						u := use(e.Addr)
						for k, f := range fieldsOf(n) {
							if k < len(e.Val.Args) {
								u.stores[f] = e.Val.Args[k]
							}
						}
					}
				}
			})
			for o, u := range uses {
				isGet := o.Op == eng.OAssert && o.Args[0].CalleeName() == "(*sync.Pool).Get"
				if isGet && p.Panic == nil {
					n := namedOf(o.Typ)
					if n == nil {
						continue
					}
					pl := get(n)
					pl.gets++
					pl.pos = fn
					for _, f := range fieldsOf(n) {
						if pooledSkip(f) {
							continue
						}
						v := u.stores[f]
						if v == nil {
							pl.inits[f] = false
						} else if staleIn(v, o) {
							pl.inits[f] = false
							c.Fail("reinitialised", fn.Pos(), n.Obj().Name()+"."+f.Name(), "a recycled object starts with its previous content: %s", v)
						}
					}
					// initial state
					if r != nil && n.Obj() == r.T.Obj() && len(u.puts) == 0 {
						for _, f := range []*types.Var{r.Fin, r.Err, r.Dur, r.Trunc, r.Events} {
							v := u.stores[f]
							if v == nil {
								continue
							}
							if zeroLike(v) {
								c.OK("initial-state", name+" "+f.Name())
							} else if v.IsConst() {
								c.Fail("initial-state", fn.Pos(), name+" "+f.Name(), "a new trace starts with %s = %s", f.Name(), v)
							} else if !staleIn(v, o) && v.Op != eng.OAppend && v.Op != eng.OMkSlice {
								c.Undec("initial-state", name+" "+f.Name(), "%s", v)
							}
						}
					}
				}
				if len(u.puts) > 0 {
					n := namedOf(o.Typ)
					if n == nil {
						c.Undec("recycled-once", name, "%s", o)
						continue
					}
					pl := get(n)
					pl.puts++
					for _, f := range fieldsOf(n) {
						if v := u.stores[f]; v == nil || !zeroLike(v) {
							pl.reset[f] = false
						}
					}
					c.Check(len(u.puts) == 1, "recycled-once", u.puts[len(u.puts)-1].Pos, name+" "+n.Obj().Name(), "the same object is put into the pool %d times", len(u.puts))
					if r != nil && n.Obj() == r.T.Obj() {
						e := u.puts[0]
						known, fin := r.unfinishedKnown(e, o)
						c.Check(known && fin, "recycled-when-finished", e.Pos, name, "a trace is recycled on a path which hasn't established, in the same critical section, that it is finished")
						c.Check(r.locked(e, o), "recycled-when-finished", e.Pos, name+" locked", "a trace is recycled without holding its lock")
					}
				}
			}
			// events are only recycled together with their trace
			if r != nil && r.Ev != nil {
				tracePut := false
				var evPut *eng.Effect
				emptied := false
				p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
					if callName(e) == "(*sync.Pool).Put" {
						n := namedOf(e.Args[1].Strip().Typ)
						if n == nil {
							return
						}
						if n.Obj() == r.T.Obj() {
							tracePut = true
						} else if n.Obj() == r.Ev.Obj() {
							evPut = e
						}
					}
					if e.Kind == eng.EStore {
						if _, ok := directField(e.Addr, r.Events); ok && zeroLike(e.Val) {
							emptied = true
						}
					}
				})
				if evPut != nil && tracePut {
					c.eventsRecycled(in, r, p, name)
				}
				if evPut != nil {
					c.Check(tracePut || emptied, "events-recycled-with-trace", evPut.Pos, name, "events are recycled on a path where their trace stays in use and keeps them")
				}
			}
		}
	}
	for n, pl := range pools {
		if pl.gets == 0 {
			continue
		}
		for _, f := range fieldsOf(n) {
			if pooledSkip(f) {
				continue
			}
			ok := pl.inits[f] || (pl.puts > 0 && pl.reset[f])
			c.Check(ok, "reinitialised", pl.pos.Pos(), n.Obj().Name()+"."+f.Name(), "a recycled %s can keep the %s of its previous life: it's neither set on every path that takes one from the pool, nor reset on every path that puts one back", n.Obj().Name(), f.Name())
		}
	}
	c.poolTypes()
	if r != nil {
		c.ownStack(r)
	}
	c.Floor("reinitialised", 15)
	c.Floor("recycled-when-finished", 1)
}

// eventsRecycled: all events are recycled together with their trace.
func (c *C) eventsRecycled(in *eng.Interp, r *coreT, p *eng.Path, name string) {
	for i, e := range p.Effects {
		if e.Kind != eng.ELoop || e.Loop.K == nil {
			continue
		}
		l := e.Loop
		// the event that an iteration recycles
		put := func(it *eng.Iter) *eng.Effect {
			for _, x := range it.Effects {
				if callName(x) == "(*sync.Pool).Put" && len(x.Args) == 2 {
					if n := namedOf(x.Args[1].Strip().Typ); n != nil && n.Obj() == r.Ev.Obj() {
						return x
					}
				}
			}
			return nil
		}
		var elem *eng.Term
		for _, it := range l.Iters {
			if x := put(it); x != nil {
				if v := x.Args[1].Strip(); v.Op == eng.OLoad && v.Args[0].Op == eng.OIndex && v.Args[0].Args[1] == l.K {
					elem = v
				}
			}
		}
		if elem == nil {
			continue
		}
		if yes, known := headerExit(p.Effects, i); known {
			c.Check(yes, "events-recycled", e.Pos, name+" early", "the events that follow aren't recycled")
		}
		for _, it := range l.Iters {
			if put(it) == nil {
				isNil, known := it.Facts.Eval(in.T.Cmp(token.EQL, elem, in.T.Nil()))
				c.Check(known && isNil, "events-recycled", e.Pos, name+" skipped", "an event isn't recycled: %s", strings.Join(it.Facts.Strings(), " & "))
			}
		}
		list := elem.Args[0].Args[0].Strip()
		if list.Op == eng.OSlice && list.Args[2] != nil {
			n := in.T.Len(list.Args[0])
			c.Check(p.Facts.Le(n, list.Args[2], 0), "events-recycled", e.Pos, name+" all", "only some of the events are recycled: %s", list)
		} else {
			c.Check(p.Facts.Le(in.T.Len(list), l.K, 0), "events-recycled", e.Pos, name+" all", "only some of the events are recycled: %s", strings.Join(p.FactStrings(), " & "))
		}
	}
}

// resetOnPut: field f is reset whenever an n is put into a pool.
func (c *C) resetOnPut(n *types.Named, f *types.Var) bool {
	puts, all := 0, true
	isPut := func(i ssa.Instruction) bool {
		call, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		g := call.Common().StaticCallee()
		return g != nil && g.String() == "(*sync.Pool).Put"
	}
	for _, fn := range c.apiRoots() {
		if !c.reaches(fn, isPut) || !directPool(c, fn, isPut) {
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(true), MaxPaths: 4000})
		for _, p := range in.Run(fn, nil, nil, nil) {
			zero := map[*eng.Term]bool{}
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind == eng.EStore {
					if b, ok := directField(e.Addr, f); ok {
						zero[b.Strip()] = zeroLike(e.Val)
					} else if zeroLike(e.Val) && e.Addr.Op != eng.OField {
						zero[e.Addr.Strip()] = true
					}
				}
				if callName(e) == "(*sync.Pool).Put" && len(e.Args) == 2 {
					o := e.Args[1].Strip()
					if m := namedOf(o.Typ); m != nil && m.Obj() == n.Obj() {
						puts++
						all = all && zero[o]
					}
				}
			})
		}
	}
	return puts > 0 && all
}

// directPool: pool calls within the functions analysed in place.
func directPool(c *C, fn *ssa.Function, pred func(ssa.Instruction) bool) bool {
	inl := c.coreInline(true)
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !c.P.InRepo(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if pred(i) {
					return true
				}
				if call, ok := i.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && inl(g) && visit(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return visit(fn)
}

// poolTypes: each pool produces, stores, and hands out one type.
func (c *C) poolTypes() {
	type info struct {
		puts, gets, news map[string]ssa.Instruction
	}
	m := map[*ssa.Global]*info{}
	get := func(g *ssa.Global) *info {
		if m[g] == nil {
			m[g] = &info{map[string]ssa.Instruction{}, map[string]ssa.Instruction{}, map[string]ssa.Instruction{}}
		}
		return m[g]
	}
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if fa, ok := st.Addr.(*ssa.FieldAddr); ok && isNamed(namedType(fa.X.Type()), "sync", "Pool") {
						if g, ok := fa.X.(*ssa.Global); ok {
							var f *ssa.Function
							switch v := st.Val.(type) {
							case *ssa.Function:
								f = v
							case *ssa.MakeClosure:
								f = v.Fn.(*ssa.Function)
							}
							if f == nil {
								continue
							}
							for _, bb := range f.Blocks {
								if ret, ok := bb.Instrs[len(bb.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
									if mi, ok := ret.Results[0].(*ssa.MakeInterface); ok {
										get(g).news[mi.X.Type().String()] = ins
									}
								}
							}
						}
					}
				}
				call, ok := ins.(*ssa.Call)
				if !ok {
					continue
				}
				f := call.Common().StaticCallee()
				if f == nil {
					continue
				}
				switch f.String() {
				case "(*sync.Pool).Put":
					if g, ok := call.Common().Args[0].(*ssa.Global); ok {
						if mi, ok := call.Common().Args[1].(*ssa.MakeInterface); ok {
							get(g).puts[mi.X.Type().String()] = ins
						}
					}
				case "(*sync.Pool).Get":
					if g, ok := call.Common().Args[0].(*ssa.Global); ok {
						for _, ref := range *call.Referrers() {
							if ta, ok := ref.(*ssa.TypeAssert); ok {
								get(g).gets[ta.AssertedType.String()] = ins
							}
						}
					}
				}
			}
		}
	}
	for g, i := range m {
		for t, ins := range i.gets {
			for u, ins2 := range i.puts {
				c.Check(t == u, "pool-type", ins2.Pos(), g.Name(), "%s is put into a pool from which %s is taken (%s)", short(u), short(t), c.P.Pos(ins.Pos()))
			}
			for u, ins2 := range i.news {
				c.Check(t == u, "pool-type", ins2.Pos(), g.Name()+" new", "the pool makes %s but %s is taken from it", short(u), short(t))
			}
		}
	}
}

func namedType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// ownStack: a stack that was computed before is used only if it's the event's
// own. Recycled events keep the memory of their stack, with nothing in it.
func (c *C) ownStack(r *coreT) {
	fn := c.P.Method(r.T, "Events")
	if fn == nil || r.Ev == nil || r.EvStk == nil {
		return
	}
	kept := false
	for _, f := range c.P.Funcs {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if s, ok := i.(*ssa.Store); ok {
					if fa, ok := s.Addr.(*ssa.FieldAddr); ok {
						if st := eng.StructType(fa.X.Type()); st != nil && st.Field(fa.Field) == r.EvStk {
							_, slice := s.Val.(*ssa.Slice)
							kept = kept || slice
						}
					}
				}
			}
		}
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(true), MaxPaths: 4000})
	for _, p := range c.Run(in, fn, nil, nil) {
		for _, e := range p.Effects {
			if e.Kind != eng.ELoop {
				continue
			}
			for _, it := range e.Loop.Iters {
				computed := false
				for _, x := range it.Effects {
					computed = computed || callName(x) == "runtime.CallersFrames"
				}
				if computed {
					continue
				}
				it.Facts.EachTerm(func(t *eng.Term) {
					if t.Op != eng.OLoad || !loadOf(t, r.EvStk) {
						return
					}
					n := in.T.Len(t)
					if it.Facts.Le(in.T.Int(1), n, 0) {
						c.OK("own-stack", "cached stack")
						return
					}
					if isNil, known := it.Facts.Eval(in.T.Cmp(token.EQL, t, in.T.Nil())); known && !isNil && kept {
						c.Fail("own-stack", e.Pos, "cached stack", "the stack kept in recycled memory, which is empty but not nil, is taken for the event's own: %s", strings.Join(it.Facts.Strings(), " & "))
					}
				})
			}
		}
	}
}

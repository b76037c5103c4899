package rules

import (
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// apiRing: like api, but the ring buffers are opaque too.
func (c *C) apiRing(fn *ssa.Function) bool {
	if isInternal(fn) && fn.Parent() == nil {
		return false
	}
	return c.api(fn)
}

func keyString(t *eng.Term) string {
	s := ""
	if t.Op == eng.OIface && t.DynType() != nil {
		s = t.DynType().String()
	} else if t.Typ != nil {
		s = t.Typ.String()
	}
	return s + "|" + t.Strip().String()
}

// C09: a trace keeps its identity, and contexts carry it.
func c09(c *C) {
	r := c.coreRoles()
	// Put / MaybeGet / Get
	putKey := ""
	if fn := c.anchor("", "Put"); fn != nil {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			if len(p.Ret) != 2 || p.Panic != nil {
				continue
			}
			c.Check(p.Ret[1].Strip() == ps[1], "put", fn.Pos(), "Put trace", "returns %s instead of the given trace", p.Ret[1])
			w := p.Ret[0].Strip()
			if w.CalleeName() != "context.WithValue" {
				if w == ps[0] {
					c.Fail("put", fn.Pos(), "Put context", "a path returns the context without the trace")
				} else {
					c.Undec("put", "Put context", "%s", w)
				}
				continue
			}
			c.Check(w.Args[0].Strip() == ps[0], "put", fn.Pos(), "Put parent", "the parent context isn't the given one")
			c.Check(w.Args[2].Strip() == ps[1], "put", fn.Pos(), "Put value", "the context carries %s instead of the given trace", w.Args[2])
			putKey = keyString(w.Args[1])
			kt := w.Args[1].DynType()
			if kt == nil {
				kt = w.Args[1].Typ
			}
			n, _ := kt.(*types.Named)
			c.Check(n != nil && !n.Obj().Exported() && c.P.InRepoType(n), "key-private", fn.Pos(), "context key", "the context key has type %v, which other packages can collide with", kt)
		}
	}
	if fn := c.anchor("", "MaybeGet"); fn != nil {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			if len(p.Ret) != 2 || p.Panic != nil {
				continue
			}
			var val *eng.Effect
			for _, e := range p.Effects {
				if callName(e) == "(context.Context).Value" && e.Args[0].Strip() == ps[0] {
					val = e
				}
			}
			if nilctx, known := p.Facts.Eval(in.T.Cmp(token.EQL, ps[0], in.T.Nil())); known && nilctx {
				continue
			}
			if !c.Check(val != nil, "maybeget", fn.Pos(), "MaybeGet", "a path doesn't look into the context") {
				continue
			}
			if putKey != "" {
				c.Check(keyString(val.Args[1]) == putKey, "same-key", val.Pos, "MaybeGet", "looks up %s but Put stores under %s", keyString(val.Args[1]), putKey)
			}
			tr, ok := p.Ret[0].Strip(), p.Ret[1].Strip()
			okv, okc := ok.BoolConst()
			switch {
			case ok.Op == eng.OAssertOk && ok.Args[0].Strip() == val.Result:
				c.Check(tr.Op == eng.OAssert && tr.Args[0].Strip() == val.Result, "maybeget", fn.Pos(), "MaybeGet trace", "returns %s", tr)
			case okc && okv:
				c.Check(tr.Any(func(t *eng.Term) bool { return t == val.Result }), "maybeget", fn.Pos(), "MaybeGet found", "returns %s", tr)
			case okc:
				neg := false
				if isnil, known := p.Facts.Eval(in.T.Cmp(token.EQL, val.Result, in.T.Nil())); known && isnil {
					neg = true
				}
				p.Facts.Each(func(t *eng.Term, v bool) {
					if t.Op == eng.OAssertOk && t.Args[0].Strip() == val.Result && !v {
						neg = true
					}
				})
				c.Check(neg, "maybeget", fn.Pos(), "MaybeGet none", "reports no trace although the context may have one: %s", strings.Join(p.FactStrings(), " & "))
			default:
				c.Undec("maybeget", "MaybeGet", "%s, %s", tr, ok)
			}
		}
	}
	if fn := c.anchor("", "Get"); fn != nil {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.apiBut("MaybeGet")})
		ps := in.ParamSyms(fn)
		found := false
		for _, p := range c.Run(in, fn, nil, ps) {
			if len(p.Ret) != 1 || p.Panic != nil {
				continue
			}
			has, known := false, false
			var res *eng.Term
			for _, e := range p.Effects {
				if callName(e) == mod+".MaybeGet" && e.Args[0].Strip() == ps[0] {
					res = e.Result
				}
			}
			if res == nil || res.Op != eng.OTuple {
				c.Undec("get", "Get", "no lookup recognised")
				continue
			}
			has, known = p.Facts.Eval(res.Args[1])
			if known && has {
				found = true
				c.Check(isResult(p.Ret[0], res, 0), "get", fn.Pos(), "Get", "returns %s although the context has a trace", p.Ret[0])
			} else if known {
				v := p.Ret[0].Strip()
				c.Check(!v.IsNil() && !isResult(p.Ret[0], res, 0), "get", fn.Pos(), "Get orphan", "returns %s when the context has no trace", p.Ret[0])
				dt := p.Ret[0].DynType()
				if dt == nil {
					dt = v.Typ
				}
				if n := namedOf(dt); n != nil && r != nil {
					if n.Obj() == r.T.Obj() {
						c.OK("get", "Get orphan type")
					} else if n.Obj() == c.staticType().Obj() {
						c.Fail("get", fn.Pos(), "Get orphan", "the orphan is a static copy, which doesn't record anything")
					} else if !types.IsInterface(n) {
						c.Undec("get", "Get orphan type", "%s", n)
					}
				}
			}
		}
		if !found {
			c.Undec("get", "Get", "no path with a trace in the context")
		}
	}
	// New
	if fn := c.anchor("", "New"); fn != nil && r != nil {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			if len(p.Ret) != 2 || p.Panic != nil {
				continue
			}
			fields := map[*types.Var]*eng.Term{}
			var obj *eng.Term
			for _, e := range p.Effects {
				if e.Kind == eng.EStore && e.Addr.Op == eng.OField && structFieldOf(r.T, e.Addr.FieldVar()) {
					fields[e.Addr.FieldVar()] = e.Val.Strip()
					obj = e.Addr.Args[0]
				}
			}
			c.Check(fields[r.Source] == ps[1], "new-identity", fn.Pos(), "New source", "the source of a new trace is %v", fields[r.Source])
			c.Check(fields[r.Category] == ps[2], "new-identity", fn.Pos(), "New category", "the category of a new trace is %v", fields[r.Category])
			if v := fields[r.Start]; v != nil {
				c.Check(isNow(v), "new-identity", fn.Pos(), "New start", "the start of a new trace is %s", v)
			}
			if v := fields[r.ID]; v != nil && (v.IsConst() || v.Op == eng.OZero) {
				c.Fail("new-identity", fn.Pos(), "New id", "the ID of a new trace is the constant %s", v)
			} else if v != nil {
				c.OK("new-identity", "New id")
			}
			c.decorated(in, p, fn, "New", obj, ps[3], nil)
			c.putReturned(p, fn, "New", ps[0])
		}
	}
	// immutability
	if r != nil {
		ident := map[*types.Var]string{r.ID: "ID", r.Source: "source", r.Category: "category", r.Start: "start time"}
		for _, fn := range c.touching(c.apiRoots(""), r.T) {
			in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(false), MaxPaths: 3000})
			for _, p := range c.Run(in, fn, nil, nil) {
				p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
					if e.Kind != eng.EStore {
						return
					}
					base, f := ownerField(e.Addr)
					what, ok := ident[f]
					if f == nil || !ok {
						return
					}
					b := base.Strip()
					created := e.Fresh || (b.Op == eng.OAssert && b.Args[0].CalleeName() == "(*sync.Pool).Get") || recycledLater(p, b)
					c.Check(created, "identity-immutable", e.Pos, c.P.FnName(fn)+" "+f.Name(), "the %s of an existing trace is modified", what)
				})
			}
		}
		for m, f := range map[string]*types.Var{"Source": r.Source, "Category": r.Category, "Started": r.Start, "ID": r.ID} {
			fn := c.P.Method(r.T, m)
			if fn == nil || f == nil {
				continue
			}
			in := eng.NewInterp(c.P, eng.Config{Inline: c.coreInline(false)})
			for _, p := range c.Run(in, fn, nil, nil) {
				if len(p.Ret) != 1 {
					continue
				}
				v := p.Ret[0].Strip()
				ok := loadedField(v) == f
				if m == "ID" || m == "Started" {
					ok = v.Any(func(t *eng.Term) bool { return loadedField(t) == f })
				}
				c.Check(ok, "identity-accessor", fn.Pos(), m, "returns %s", v)
			}
		}
		c.Floor("identity-accessor", 4)
	}
	c.newTraceRule(false)
}

// apiBut: like api, with some exported functions analysed opaquely anyway.
func (c *C) apiBut(names ...string) func(*ssa.Function) bool {
	return func(fn *ssa.Function) bool {
		if contains(names, fn.Name()) && fn.Parent() == nil {
			return false
		}
		return c.api(fn)
	}
}

// decorated: the decorators in slice are applied in order, each to the result
// of the one before, starting with first.
func (c *C) decorated(in *eng.Interp, p *eng.Path, fn *ssa.Function, name string, first, slice *eng.Term, sliceField *types.Var) {
	isSlice := func(t *eng.Term) bool {
		if slice != nil {
			return t == slice
		}
		return loadOf(t, sliceField)
	}
	n := 0
	for _, e := range p.Effects {
		if e.Kind != eng.ELoop || e.Loop == nil {
			continue
		}
		for _, it := range e.Loop.Iters {
			for _, x := range it.Effects {
				if x.Kind != eng.ECall || x.Addr == nil || x.Callee == nil || x.Callee.Name != "dynamic" || len(x.Args) != 1 {
					continue
				}
				f := x.Addr.Strip()
				if f.Op != eng.OLoad || f.Args[0].Op != eng.OIndex || !isSlice(f.Args[0].Args[0]) {
					continue
				}
				n++
				idx := f.Args[0].Args[1]
				d, isc := in.T.LinConst(in.T.Sub(idx, e.Loop.K))
				if isc {
					c.Check(d == 0, "decorators-in-order", x.Pos, name, "decorator %s is applied in iteration %s", idx, e.Loop.K)
				} else {
					c.Fail("decorators-in-order", x.Pos, name, "decorator %s is applied in iteration %s", idx, e.Loop.K)
				}
				// the result becomes the trace
				arg := x.Args[0].Strip()
				nx := it.Next[x.Args[0]]
				if nx == nil {
					nx = it.Next[arg]
				}
				if nx == nil {
					c.Fail("decorators-applied", x.Pos, name, "every decorator is applied to %s instead of the result of the previous one, or its result is dropped", arg)
				} else {
					c.Check(nx.Strip() == x.Result, "decorators-applied", x.Pos, name, "the result of a decorator isn't used")
				}
			}
		}
	}
	if n == 0 {
		c.Undec("decorators-applied", name, "no loop over the decorators recognised")
	}
}

// putReturned: the function returns Put(parent, tr) of the final trace.
func (c *C) putReturned(p *eng.Path, fn *ssa.Function, name string, parent *eng.Term) *eng.Term {
	for _, e := range p.Effects {
		if callName(e) == mod+".Put" {
			if isResult(p.Ret[0], e.Result, 0) && (isResult(p.Ret[1], e.Result, 1) || p.Ret[1].Strip() == e.Args[1].Strip()) {
				if parent != nil {
					c.Check(e.Args[0].Strip() == parent, "in-context", e.Pos, name, "the trace is put into another context than the given one")
				}
				c.OK("in-context", name+" put")
				return e.Args[1].Strip()
			}
			if isResult(p.Ret[0], e.Result, 0) && !p.Ret[1].Any(func(t *eng.Term) bool { return t == e.Result || isResult(t, e.Result, 0) }) {
				c.Fail("in-context", fn.Pos(), name, "the returned context contains %s, but the returned trace is %s", e.Args[1], p.Ret[1])
				return p.Ret[1].Strip()
			}
		}
		if callName(e) == "context.WithValue" && p.Ret[0].Strip() == e.Result {
			if !p.Ret[1].Any(func(t *eng.Term) bool { return t == e.Result }) {
				c.Check(e.Args[2].Strip() == p.Ret[1].Strip(), "in-context", fn.Pos(), name, "the returned context contains %s, but the returned trace is %s", e.Args[2], p.Ret[1])
			}
			return p.Ret[1].Strip()
		}
	}
	if p.Ret[0].Strip() == parent {
		c.Fail("in-context", fn.Pos(), name, "the returned context doesn't contain the new trace")
	} else {
		c.Undec("in-context", name, "returns %s", p.Ret[0])
	}
	return nil
}

func ringCall(e *eng.Effect, m string) bool {
	n := callName(e)
	return strings.Contains(n, "trcringbuf") && strings.HasSuffix(n, ")."+m)
}

// newTraceRule: Collector.NewTrace. With reg: registration and eviction,
// otherwise identity and context.
func (c *C) newTraceRule(reg bool) {
	fn := c.method("", "Collector", "NewTrace")
	if fn == nil {
		return
	}
	col := c.P.Named("", "Collector")
	in := eng.NewInterp(c.P, eng.Config{Inline: c.apiRing})
	ps := in.ParamSyms(fn)
	for _, p := range c.Run(in, fn, nil, ps) {
		if len(p.Ret) != 2 || p.Panic != nil {
			continue
		}
		var look *eng.Effect
		var create *eng.Effect
		var goc, add *eng.Effect
		var adds, frees []*eng.Effect
		events := 0
		p.Walk(false, func(e *eng.Effect, loops []*eng.LoopInfo, async bool) {
			switch {
			case callName(e) == mod+".MaybeGet":
				look = e
			case e.Kind == eng.ECall && e.Callee != nil && e.Callee.Name == "dynamic" && len(e.Args) >= 4:
				create = e
			case ringCall(e, "GetOrCreate"):
				goc = e
			case ringCall(e, "Add"):
				add = e
				adds = append(adds, e)
			case strings.HasSuffix(callName(e), ".Free"):
				frees = append(frees, e)
			}
			if _, m := c.traceMethod(e); contains(eventMethods, m) {
				events++
			}
		})
		if look == nil || look.Result.Op != eng.OTuple {
			c.Undec("newtrace", "Collector.NewTrace", "no lookup of an existing trace recognised")
			continue
		}
		has, known := p.Facts.Eval(look.Result.Args[1])
		if known && has {
			if reg {
				c.Check(len(adds) == 0, "existing-not-registered", fn.Pos(), "Collector.NewTrace", "a trace that's already in the context is registered again")
				continue
			}
			c.Check(isResult(p.Ret[1], look.Result, 0), "existing-returned", fn.Pos(), "Collector.NewTrace", "returns %s although the context already has a trace", p.Ret[1])
			c.Check(p.Ret[0].Strip() == ps[1] || p.Ret[0].Strip().CalleeName() != "", "existing-returned", fn.Pos(), "Collector.NewTrace context", "returns %s as context", p.Ret[0])
			c.Check(create == nil, "existing-returned", fn.Pos(), "Collector.NewTrace create", "creates a trace although the context already has one")
			c.Check(events == 1, "existing-annotated", fn.Pos(), "Collector.NewTrace event", "records %d events in the existing trace instead of one", events)
			continue
		}
		if create == nil {
			c.Undec("newtrace", "Collector.NewTrace", "no call to the trace constructor recognised")
			continue
		}
		if !reg {
			c.Check(create.Args[0].Strip() == ps[1], "created-with", create.Pos, "Collector.NewTrace context", "the trace is created with context %s", create.Args[0])
			c.Check(create.Args[2].Strip() == ps[2], "created-with", create.Pos, "Collector.NewTrace category", "the trace is created with category %s", create.Args[2])
			src := loadedField(create.Args[1].Strip())
			c.Check(src != nil && structFieldOf(col, src), "created-with", create.Pos, "Collector.NewTrace source", "the trace is created with source %s", create.Args[1])
			var df *types.Var
			for _, f := range fieldsOf(col) {
				if s, ok := f.Type().Underlying().(*types.Slice); ok && isNamed(s.Elem(), mod, "DecoratorFunc") {
					df = f
				}
			}
			if df != nil {
				c.decorated(in, p, fn, "Collector.NewTrace", nil, nil, df)
			}
			c.putReturned(p, fn, "Collector.NewTrace", nil)
			continue
		}
		if len(adds) == 0 && goc == nil {
			c.Fail("registered-once", fn.Pos(), "Collector.NewTrace", "a new trace isn't registered on a path: %s", strings.Join(p.FactStrings(), " & "))
			continue
		}
		if !c.Check(len(adds) == 1, "registered-once", fn.Pos(), "Collector.NewTrace", "a new trace is registered %d times", len(adds)) {
			continue
		}
		if goc != nil {
			cat := goc.Args[len(goc.Args)-1].Strip()
			_, m := c.termMethod(cat)
			c.Check(cat == ps[2] || m == "Category", "registered-category", goc.Pos, "Collector.NewTrace", "the trace is registered under %s instead of its category", goc.Args[len(goc.Args)-1])
			c.Check(add.Args[0].Strip() == goc.Result, "registered-category", add.Pos, "Collector.NewTrace add", "the trace isn't added to the buffer of its category")
		}
		final := p.Ret[1].Strip()
		for _, e := range p.Effects {
			if callName(e) == mod+".Put" && isResult(p.Ret[1], e.Result, 1) {
				final = e.Args[1].Strip()
			}
		}
		c.Check(add.Args[1].Strip() == final, "registered-same", add.Pos, "Collector.NewTrace", "the registered trace is %s but the caller gets %s", add.Args[1], final)
		c.freed(p, fn, add, frees)
	}
	if reg {
		c.Floor("registered-once", 1)
	}
}

// freed: the evicted element is freed exactly once iff something was evicted.
func (c *C) freed(p *eng.Path, fn *ssa.Function, add *eng.Effect, frees []*eng.Effect) {
	name := c.P.FnName(fn)
	if add.Result.Op != eng.OTuple || len(add.Result.Args) != 2 {
		c.Undec("evicted-freed", name, "%s", add.Result)
		return
	}
	drop, did := add.Result.Args[0], add.Result.Args[1]
	v, known := p.Facts.Eval(did)
	if known && !v {
		c.Check(len(frees) == 0, "evicted-freed", fn.Pos(), name+" nothing evicted", "frees a trace although none was evicted")
		return
	}
	supported, ks := false, false
	p.Facts.Each(func(t *eng.Term, tv bool) {
		if t.Op == eng.OAssertOk && t.Args[0].Strip() == drop.Strip() {
			supported, ks = tv, true
		}
	})
	if ks && !supported {
		return
	}
	n := 0
	for _, f := range frees {
		if len(f.Args) > 0 && f.Args[0].Any(func(t *eng.Term) bool { return t == drop }) {
			n++
		} else {
			c.Fail("evicted-freed", f.Pos, name+" other", "frees %s, which wasn't evicted", f.Args[0])
		}
	}
	if !known && n == 0 && len(frees) == 0 {
		c.Fail("evicted-freed", fn.Pos(), name, "the evicted trace is not freed")
		return
	}
	c.Check(n == 1, "evicted-freed", fn.Pos(), name, "the evicted trace is freed %d times", n)
}

// C11: every trace made by a collector is registered, evicted ones are freed.
func c11(c *C) {
	c.newTraceRule(true)
	if fn := c.method("", "Collector", "SetCategorySize"); fn != nil {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.apiRing})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			if p.Panic != nil {
				continue
			}
			var rs *eng.Effect
			p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if ringCall(e, "Resize") {
					rs = e
				}
			})
			if rs == nil && p.Facts.Le(ps[1], in.T.Int(0), 0) {
				continue // ignored anyway
			}
			if rs == nil {
				c.Check(false, "resize-applied", fn.Pos(), "SetCategorySize", "the new size isn't applied on a path")
				continue
			}
			c.Check(rs.Args[1].Strip() == ps[1], "resize-applied", rs.Pos, "SetCategorySize", "the size applied is %s", rs.Args[1])
			// a loop over all results frees each
			ok := false
			for _, e := range p.Effects {
				if e.Kind != eng.ELoop {
					continue
				}
				// taken from the front, one by one?
				var rest *eng.Term
				for _, lv := range e.Loop.Vars {
					if lv.Init != nil && lv.Init.Strip() == rs.Result && lv.Start != rs.Result {
						rest = lv.Start
					}
				}
				for _, it := range e.Loop.Iters {
					freed, unsup := 0, false
					for _, x := range it.Effects {
						if strings.HasSuffix(callName(x), ".Free") && len(x.Args) > 0 && x.Args[0].Any(func(t *eng.Term) bool { return t == rs.Result || t == rest }) {
							freed++
						}
					}
					if rest != nil {
						nx := it.Next[rest]
						lo := int64(-1)
						if nx != nil && nx.Op == eng.OSlice && nx.Args[0] == rest && nx.Args[2] == nil && nx.Args[1] != nil {
							lo, _ = nx.Args[1].IntConst()
						}
						c.Check(lo <= 1, "resize-freed", e.Pos, "SetCategorySize next", "evicted traces are skipped: %v", nx)
					}
					it.Facts.Each(func(t *eng.Term, v bool) {
						if t.Op == eng.OAssertOk && !v {
							unsup = true
						}
					})
					if freed > 0 {
						ok = true
						c.Check(freed == 1, "resize-freed", e.Pos, "SetCategorySize", "an evicted trace is freed %d times", freed)
					} else if !unsup {
						c.Fail("resize-freed", e.Pos, "SetCategorySize skip", "an evicted trace is skipped")
					}
				}
				if ok && e.Loop.Fn == fn {
					c.Check(p.Facts.Le(in.T.Len(rs.Result), e.Loop.K, 0) || rest != nil && p.Facts.Le(in.T.Len(rest), in.T.Int(0), 0), "resize-freed", e.Pos, "SetCategorySize all", "stops before every evicted trace was freed: %s", strings.Join(p.FactStrings(), " & "))
				}
			}
			c.Check(ok, "resize-freed", fn.Pos(), "SetCategorySize", "evicted traces are not freed")
		}
	}
	// the default size
	if fn := c.anchor("", "NewCollector"); fn != nil {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.apiRing})
		for _, p := range c.Run(in, fn, nil, nil) {
			if p.Panic != nil {
				continue
			}
			n := 0
			p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind == eng.ECall && strings.HasSuffix(strings.Split(callName(e), "[")[0], ".NewRingBuffers") && len(e.Args) == 1 {
					if k, ok := e.Args[0].Strip().IntConst(); ok {
						n++
						c.Check(k == 1000, "default-size", e.Pos, "NewCollector", "a new collector keeps %d traces per category instead of 1000", k)
					}
				}
			})
			if n == 0 {
				c.Undec("default-size", "NewCollector", "no size recognised")
			}
		}
	}
}

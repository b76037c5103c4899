package rules

import (
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// mutexField: the lock of a struct type, if it has one.
func mutexField(n *types.Named) *types.Var {
	for _, f := range fieldsOf(n) {
		if isNamed(f.Type(), "sync", "Mutex") || isNamed(f.Type(), "sync", "RWMutex") {
			return f
		}
		if p, ok := f.Type().(*types.Pointer); ok && (isNamed(p.Elem(), "sync", "Mutex") || isNamed(p.Elem(), "sync", "RWMutex")) {
			return f
		}
	}
	return nil
}

// lockedTypes: the struct types of the repository that have a lock.
func (c *C) lockedTypes() []*types.Named {
	var out []*types.Named
	for _, n := range c.P.NamedTypes() {
		if mutexField(n) != nil {
			out = append(out, n)
		}
	}
	return out
}

// ownerOf: the struct type a field belongs to, by field object.
func (c *C) ownersByField(ts []*types.Named) map[*types.Var]*types.Named {
	out := map[*types.Var]*types.Named{}
	for _, n := range ts {
		for _, f := range fieldsOf(n) {
			out[f.Origin()] = n
		}
	}
	return out
}

// holdsLock: a lock of object x is held at e (exclusively, if write).
func holdsLock(e *eng.Effect, x *eng.Term, write bool) bool {
	for _, l := range e.Locks {
		if write && l.Read {
			continue
		}
		a := l.Addr
		if a.Op == eng.OLoad { // pointer to a mutex
			a = a.Args[0]
		}
		if a.Op == eng.OField && a.Args[0].Strip() == x.Strip() {
			return true
		}
	}
	return false
}

func isSync(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "sync", "sync/atomic":
		return true
	}
	return false
}

// pendingRead: a field is read without the lock after the flag g was seen set,
// which is fine if the field is written only while the flag isn't set.
type pendingRead struct {
	e    *eng.Effect
	f, g *types.Var
	name string
}

func boolFields(n *types.Named) []*types.Var {
	var out []*types.Var
	for _, f := range fieldsOf(n) {
		if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
			out = append(out, f)
		}
	}
	return out
}

// flagKnown: at e, the flag g of x was seen to be v.
func flagKnown(e *eng.Effect, x *eng.Term, g *types.Var, v bool) bool {
	found := false
	e.Facts.Each(func(t *eng.Term, b bool) {
		if b == v && t.Op == eng.OLoad && t.Args[0].Op == eng.OField && t.Args[0].FieldVar() == g && t.Args[0].Args[0].Strip() == x {
			found = true
		}
	})
	return found
}

// C02: no two goroutines race on shared state.
func c02(c *C) {
	locked := c.lockedTypes()
	owner := c.ownersByField(locked)
	roots := c.touchingThrough(c.api, c.apiRoots(), locked...)
	names := map[string]bool{}
	elems := c.elementTypes(locked)
	late := map[[2]*types.Var]bool{} // field f is written when flag g may be set
	var pending []pendingRead
	for _, fn := range roots {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api, TrackLoads: true})
		name := c.P.FnName(fn)
		for _, p := range c.Run(in, fn, nil, nil) {
			deleted := map[*eng.Term]bool{}
			shortened := map[*types.Var]bool{}
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, async bool) {
				switch e.Kind {
				case eng.EMapDelete:
					deleted[e.Key.Strip()] = true
				case eng.EStore, eng.ELoad, eng.EMapUpdate, eng.EMapRead, eng.EMapLen, eng.ECopy:
				default:
					return
				}
				if e.Fresh || e.Addr == nil {
					return
				}
				write := e.Kind == eng.EStore || e.Kind == eng.EMapUpdate || e.Kind == eng.EMapDelete || e.Kind == eng.ECopy
				x, f, direct := c.guard(e.Addr, owner)
				if f == nil {
					// an element of a protected collection, wherever it was kept
					if n, f := c.element(e.Addr, elems); n != nil && len(deleted) == 0 && e.Addr.Root().Op != eng.OAlloc {
						ok := false
						for _, l := range e.Locks {
							if classOfTerm(l.Addr, owner) == n.Origin().Obj().Name() && (!write || !l.Read) {
								ok = true
							}
						}
						what := "read"
						if write {
							what = "written"
						}
						c.Check(ok, "lock-held", e.Pos, name+" element "+f.Name(), "%s of an element that's protected by the lock of a %s is %s without it (in %s)", f.Name(), n.Obj().Name(), what, c.P.FnName(e.Fn))
					}
					return
				}
				if direct && !c.P.FieldMutable(f) {
					return // constant after construction
				}
				if direct && e.Kind == eng.EStore {
					if v := e.Val.Strip(); v.Op == eng.OSlice || v.Op == eng.OAppend && v.Args[0].Strip().Op == eng.OSlice {
						shortened[f.Origin()] = true
					}
				}
				if !direct && shortened[f.Origin()] && !holdsLock(e, x, write) {
					c.Undec("lock-held", name, "%s of %s may have been taken out", f.Name(), owner[f.Origin()].Obj().Name())
					return
				}
				if !direct {
					// an entry that was taken out belongs to whoever did it
					if e.Addr.Any(func(t *eng.Term) bool { return t.Op == eng.OLookup && deleted[t.Args[1].Strip()] }) {
						return
					}
				}
				n := owner[f.Origin()]
				names[n.Obj().Name()] = true
				what := "read"
				if write {
					what = "written"
				}
				held := holdsLock(e, x, write)
				if direct && write && held {
					for _, g := range boolFields(n) {
						if !flagKnown(e, x, g, false) {
							late[[2]*types.Var{f.Origin(), g.Origin()}] = true
						}
					}
				}
				if direct && !write && !held {
					// it may be constant by now
					for _, g := range boolFields(n) {
						if g != f && flagKnown(e, x, g, true) {
							pending = append(pending, pendingRead{e, f, g, name})
							return
						}
					}
				}
				c.Check(held, "lock-held", e.Pos, name+" "+n.Obj().Name()+"."+f.Name(), "%s of %s is %s without holding its lock (in %s)", f.Name(), n.Obj().Name(), what, c.P.FnName(e.Fn))
			})
		}
	}
	for _, r := range pending {
		c.Check(!late[[2]*types.Var{r.f.Origin(), r.g.Origin()}], "lock-held", r.e.Pos, r.name+" "+r.f.Name(), "%s is read without holding the lock (in %s)", r.f.Name(), c.P.FnName(r.e.Fn))
	}
	for _, fn := range roots {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		name := c.P.FnName(fn)
		for _, p := range c.Run(in, fn, nil, nil) {
			for _, r := range p.Ret {
				t := r.Strip()
				for t != nil && t.Op == eng.OSlice {
					t = t.Args[0].Strip()
				}
				if t == nil || t.Op != eng.OLoad {
					continue
				}
				x, f, direct := c.guard(t.Args[0], owner)
				if f == nil || !direct || x.Root().Op == eng.OAlloc {
					continue
				}
				switch f.Type().Underlying().(type) {
				case *types.Map, *types.Slice:
					c.Fail("escapes", fn.Pos(), name+" "+f.Name(), "the caller gets %s itself, which is protected by a lock", f.Name())
				default:
					c.OK("escapes", name)
				}
			}
		}
	}
	c.Floor("lock-held", 4)
	c.globalsConstant()
	c.statelessTypes(locked)
	c.goroutineCaptures()
	c.sharedRequest()
}

// elementTypes: the unexported struct types without a lock that a locked type
// keeps in a map or slice, by pointer.
func (c *C) elementTypes(locked []*types.Named) map[*types.Named]*types.Named {
	out := map[*types.Named]*types.Named{}
	for _, n := range locked {
		for _, f := range fieldsOf(n) {
			var el types.Type
			switch t := f.Type().Underlying().(type) {
			case *types.Map:
				el = t.Elem()
			case *types.Slice:
				el = t.Elem()
			}
			p, ok := el.(*types.Pointer)
			if !ok {
				continue
			}
			e, ok := p.Elem().(*types.Named)
			if !ok || e.Obj().Exported() || fieldsOf(e) == nil || mutexField(e) != nil {
				continue
			}
			out[e.Origin()] = n
		}
	}
	return out
}

// element: addr is in a field, that changes, of an element type.
func (c *C) element(addr *eng.Term, elems map[*types.Named]*types.Named) (*types.Named, *types.Var) {
	for t := addr; t != nil && (t.Op == eng.OField || t.Op == eng.OIndex); t = t.Args[0] {
		f := t.FieldVar()
		if f == nil {
			continue
		}
		if isSync(f.Type()) {
			return nil, nil
		}
		for e, n := range elems {
			for _, g := range fieldsOf(e) {
				if g.Origin() == f.Origin() && (c.P.FieldMutable(f) || t != addr) {
					return n, f
				}
			}
		}
	}
	return nil, nil
}

// guard: the object whose lock protects the memory at addr: either addr is a
// field of it, or memory reached through such a field without passing another
// object that has its own lock.
func (c *C) guard(addr *eng.Term, owner map[*types.Var]*types.Named) (x *eng.Term, f *types.Var, direct bool) {
	t := addr
	direct = true
	for t != nil {
		switch t.Op {
		case eng.OField:
			fv := t.FieldVar()
			if fv != nil {
				if isSync(fv.Type()) {
					return nil, nil, false
				}
				if n := owner[fv.Origin()]; n != nil {
					return t.Args[0].Strip(), fv, direct
				}
			}
			t = t.Args[0]
		case eng.OIndex:
			t = t.Args[0]
		case eng.OLoad:
			direct = false
			t = t.Args[0]
		case eng.OLookup, eng.ONextVal:
			direct = false
			t = t.Args[0]
		case eng.OSlice, eng.OIface, eng.OConv, eng.OAssert:
			t = t.Args[0]
		default:
			return nil, nil, false
		}
	}
	return nil, nil, false
}

// globalsConstant: package variables don't change after initialisation, other
// than through synchronised types.
func (c *C) globalsConstant() {
	for _, fn := range c.P.Funcs {
		if isMainPkg(fn) || strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil && fn.Parent() == nil {
			continue
		}
		n := 0
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				var a ssa.Value
				switch i := i.(type) {
				case *ssa.Store:
					a = i.Addr
				case *ssa.MapUpdate:
					a = i.Map
				default:
					continue
				}
				g := globalBase(a)
				if g == nil || !c.P.InRepo(fn) || calledOnlyByInit(fn) {
					continue
				}
				n++
				if lockedBefore(i) {
					c.Undec("globals", g.Name(), "written under a lock in %s", c.P.FnName(fn))
					continue
				}
				c.Fail("globals", i.Pos(), c.P.FnName(fn)+" "+g.Name(), "the package variable is written after initialisation, without synchronisation")
			}
		}
		if n == 0 {
			c.OK("globals", c.P.FnName(fn))
		}
	}
}

func isMainPkg(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Pkg != nil && fn.Pkg.Pkg.Name() == "main"
}

// calledOnlyByInit: a function literal run by a package initialiser.
func calledOnlyByInit(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	return fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
}

func globalBase(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return nil
			}
			v = x.X
			if g, ok := v.(*ssa.Global); ok {
				switch g.Type().(*types.Pointer).Elem().Underlying().(type) {
				case *types.Map, *types.Slice:
					return g
				}
				return nil // a pointer: the pointee is judged by its type
			}
			return nil
		default:
			return nil
		}
	}
}

// lockedBefore: the function takes some lock before the instruction.
func lockedBefore(at ssa.Instruction) bool {
	for _, b := range at.Parent().Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(*ssa.Call); ok {
				if f := call.Call.StaticCallee(); f != nil && (f.Name() == "Lock" || f.Name() == "Do") && f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" {
					return b.Dominates(at.Block())
				}
			}
		}
	}
	return false
}

// statelessTypes: types that are shared between goroutines without having a
// lock aren't modified by their methods, other than by builder-style setters.
func (c *C) statelessTypes(locked []*types.Named) {
	has := map[*types.Named]bool{}
	for _, n := range locked {
		has[n.Origin()] = true
	}
	ti := c.traceIface()
	for _, n := range c.P.NamedTypes() {
		if has[n.Origin()] || fieldsOf(n) == nil || n.TypeParams().Len() > 0 {
			continue
		}
		ptr := types.NewPointer(n)
		shared := false
		switch n.Obj().Name() {
		case "Collector", "TraceServer", "SearchClient":
			shared = true
		case "StaticTrace":
			continue // its own property
		}
		if ti != nil && types.Implements(ptr, ti) {
			shared = true
		}
		if !shared {
			continue
		}
		for _, fn := range c.P.Funcs {
			r := fn.Signature.Recv()
			if r == nil || fn.Parent() != nil || fn.Synthetic != "" || namedOf(r.Type()) == nil || namedOf(r.Type()).Origin() != n.Origin() {
				continue
			}
			if res := fn.Signature.Results(); res.Len() == 1 && types.Identical(res.At(0).Type(), r.Type()) {
				continue // builder style
			}
			bad := false
			for _, s := range fieldStores(fn, n) {
				bad = true
				c.Fail("stateless", s.Pos(), c.P.FnName(fn), "modifies a %s that other goroutines may be using", n.Obj().Name())
			}
			if !bad {
				c.OK("stateless", c.P.FnName(fn))
			}
		}
	}
}

// fieldStores: stores into fields of an n that wasn't allocated by the
// function itself.
func fieldStores(fn *ssa.Function, n *types.Named) []ssa.Instruction {
	var out []ssa.Instruction
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				s, ok := i.(*ssa.Store)
				if !ok {
					continue
				}
				a := s.Addr
				var owner ssa.Value
				for {
					if fa, ok := a.(*ssa.FieldAddr); ok {
						if o := namedOf(fa.X.Type()); o != nil && o.Origin() == n.Origin() {
							owner = fa.X
						}
						a = fa.X
						continue
					}
					if ia, ok := a.(*ssa.IndexAddr); ok {
						a = ia.X
						continue
					}
					break
				}
				if owner == nil {
					continue
				}
				if _, own := a.(*ssa.Alloc); own {
					continue
				}
				out = append(out, i)
			}
		}
		for _, a := range f.AnonFuncs {
			if !onceDo(a) {
				visit(a)
			}
		}
	}
	visit(fn)
	return out
}

// onceDo: the function literal is run through a sync.Once.
func onceDo(lit *ssa.Function) bool {
	for _, b := range lit.Parent().Blocks {
		for _, i := range b.Instrs {
			call, ok := i.(*ssa.Call)
			if !ok {
				continue
			}
			f := call.Call.StaticCallee()
			if f == nil || f.String() != "(*sync.Once).Do" {
				continue
			}
			switch a := call.Call.Args[1].(type) {
			case *ssa.MakeClosure:
				if a.Fn == ssa.Value(lit) {
					return true
				}
			case *ssa.Function:
				if a == lit {
					return true
				}
			}
		}
	}
	return false
}

// goroutineCaptures: what a goroutine shares with its creator through captured
// variables isn't accessed by both without synchronisation.
func (c *C) goroutineCaptures() {
	for _, fn := range c.P.Funcs {
		if !c.P.InRepo(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				g, ok := i.(*ssa.Go)
				if !ok {
					continue
				}
				c.goCaptures(fn, g)
			}
		}
	}
}

func (c *C) goCaptures(fn *ssa.Function, g *ssa.Go) {
	name := c.P.FnName(fn)
	mc, ok := g.Call.Value.(*ssa.MakeClosure)
	if !ok {
		c.OK("captures", name)
		return
	}
	body := mc.Fn.(*ssa.Function)
	for k, bind := range mc.Bindings {
		al, ok := bind.(*ssa.Alloc)
		if !ok {
			continue
		}
		if isSync(al.Type().(*types.Pointer).Elem()) {
			continue
		}
		fv := body.FreeVars[k]
		gw := c.accesses(body, fv, true)
		gr := c.accesses(body, fv, false)
		// accesses by the creator that can follow without synchronisation
		after, again := unsynced(g, al, c)
		bad := false
		for _, x := range after {
			if x.write && len(gr)+len(gw) > 0 || !x.write && len(gw) > 0 {
				bad = true
				c.Fail("captures", x.pos, name+" "+al.Comment, "the variable %s is used by a goroutine that's started before, without synchronisation", al.Comment)
				break
			}
		}
		if again && len(gw) > 0 {
			bad = true
			c.Fail("captures", gw[0], name+" "+al.Comment, "the variable %s is written by several goroutines without synchronisation", al.Comment)
		}
		if !bad {
			c.OK("captures", name+" "+al.Comment)
		}
	}
	if len(mc.Bindings) == 0 {
		c.OK("captures", name)
	}
}

type varAccess struct {
	pos   token.Pos
	write bool
}

// accesses: unlocked loads (or stores) of a captured variable in a function
// and the closures it makes.
func (c *C) accesses(fn *ssa.Function, v ssa.Value, write bool) []token.Pos {
	var out []token.Pos
	if v.Referrers() == nil {
		return nil
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if write && r.Addr == v && !lockedBefore(r) {
				out = append(out, r.Pos())
			}
		case *ssa.UnOp:
			if !write && r.Op == token.MUL && !lockedBefore(r) {
				out = append(out, r.Pos())
			}
		case *ssa.FieldAddr, *ssa.IndexAddr:
			// parts of it
			for _, rr := range *r.(ssa.Value).Referrers() {
				if s, ok := rr.(*ssa.Store); ok && s.Addr == r.(ssa.Value) {
					if write && !lockedBefore(s) {
						out = append(out, s.Pos())
					}
				} else if u, ok := rr.(*ssa.UnOp); ok && !write && u.Op == token.MUL && !lockedBefore(u) {
					out = append(out, u.Pos())
				}
			}
		case *ssa.MakeClosure:
			for k, b := range r.Bindings {
				if b == v {
					out = append(out, c.accesses(r.Fn.(*ssa.Function), r.Fn.(*ssa.Function).FreeVars[k], write)...)
				}
			}
		}
	}
	return out
}

// unsynced: accesses of the variable that the creator can make after starting
// the goroutine without an operation that may synchronise with it; again: the
// same go statement can be reached again for the same variable.
func unsynced(g *ssa.Go, al *ssa.Alloc, c *C) (out []varAccess, again bool) {
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock, from int)
	walk = func(b *ssa.BasicBlock, from int) {
		for _, i := range b.Instrs[from:] {
			if i == ssa.Instruction(g) {
				again = true
				return
			}
			if i == ssa.Instruction(al) {
				return // a new variable
			}
			switch i := i.(type) {
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					return
				}
				if i.Op == token.MUL && i.X == ssa.Value(al) {
					out = append(out, varAccess{i.Pos(), false})
				}
			case *ssa.Select:
				return
			case *ssa.Store:
				if i.Addr == ssa.Value(al) {
					out = append(out, varAccess{i.Pos(), true})
				}
			case *ssa.RunDefers:
				return
			case *ssa.Call:
				if f := i.Call.StaticCallee(); f != nil {
					if f.Pkg != nil && f.Pkg.Pkg.Path() == "sync" {
						return
					}
				}
				if _, isb := i.Call.Value.(*ssa.Builtin); isb {
					continue
				}
				// other calls may wait for the goroutine
				if waits(i, c) {
					return
				}
			}
		}
		for _, s := range b.Succs {
			if !seen[s] {
				seen[s] = true
				walk(s, 0)
			}
		}
	}
	for k, i := range g.Block().Instrs {
		if i == ssa.Instruction(g) {
			walk(g.Block(), k+1)
		}
	}
	return out, again
}

// waits: the call may synchronise with another goroutine: it's dynamic, or
// leaves the repository with a function or channel, or contains a channel
// operation itself.
func waits(call *ssa.Call, c *C) bool {
	f := call.Call.StaticCallee()
	if f == nil {
		return true
	}
	if !c.P.InRepo(f) {
		for _, a := range call.Call.Args {
			switch a.Type().Underlying().(type) {
			case *types.Chan, *types.Signature, *types.Interface:
				return true
			}
		}
		return false
	}
	return c.reaches(f, func(i ssa.Instruction) bool {
		switch i := i.(type) {
		case *ssa.Select:
			return true
		case *ssa.UnOp:
			return i.Op == token.ARROW
		case *ssa.Call:
			g := i.Call.StaticCallee()
			return g == nil || g.Pkg != nil && g.Pkg.Pkg.Path() == "sync"
		}
		return false
	})
}

// sharedRequest: a normal request can be used by several searches at once:
// asking its filter doesn't write to it, and neither do the searchers.
func (c *C) sharedRequest() {
	f := c.P.Named("", "Filter")
	fn := c.method("", "Filter", "Allow")
	if f == nil || fn == nil {
		return
	}
	re, q := fieldNamed(f, "regexp"), fieldNamed(f, "Query")
	if re == nil || q == nil {
		c.Undec("shared-request", "Filter.Allow", "unexpected fields")
	} else {
		for _, set := range []bool{false, true} {
			in := eng.NewInterp(c.P, eng.Config{Inline: c.api, MaxPaths: 40000, MaxSteps: 20000000})
			ps := in.ParamSyms(fn)
			st := in.NewState()
			rv := st.Load(in.T.Field(ps[0], fieldIndex(f, re), re), re.Type())
			qv := st.Load(in.T.Field(ps[0], fieldIndex(f, q), q), q.Type())
			if !st.Assume(in.T.Cmp(token.EQL, rv, in.T.Nil()), !set) || !st.Assume(in.T.Cmp(token.EQL, qv, in.T.Str("")), !set) {
				c.Undec("shared-request", "Filter.Allow", "can't set up a normal filter")
				continue
			}
			for _, p := range c.Run(in, fn, st, ps) {
				stale := false
				p.Facts.Each(func(t *eng.Term, v bool) {
					x, y := eqSides(t)
					if x != nil && !v && (x.CalleeName() == "(*regexp.Regexp).String" && y == qv || y.CalleeName() == "(*regexp.Regexp).String" && x == qv) {
						stale = true
					}
				})
				if stale {
					continue
				}
				c.noWrites(in, p, ps[0], "Filter.Allow", "a filter that's shared by concurrent searches")
			}
		}
	}
	for _, k := range [][2]string{{"", "Collector"}, {"", "MultiSearcher"}, {"trcweb", "SearchClient"}} {
		fn := c.method(k[0], k[1], "Search")
		if fn == nil {
			continue
		}
		bad := false
		norm := c.P.Method(c.P.Named("", "SearchRequest"), "Normalize")
		var visit func(g *ssa.Function, v ssa.Value)
		seen := map[ssa.Value]bool{}
		visit = func(g *ssa.Function, v ssa.Value) {
			if seen[v] || v.Referrers() == nil {
				return
			}
			seen[v] = true
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.FieldAddr:
					visit(g, r)
				case *ssa.IndexAddr:
					visit(g, r)
				case *ssa.Store:
					if r.Addr == v && !sameStore(r) {
						bad = true
						c.Fail("shared-request", r.Pos(), c.P.FnName(g), "writes to a request that other searches may be using")
					}
					if r.Val == v { // a variable that holds the request
						if al, ok := r.Addr.(*ssa.Alloc); ok {
							for _, rr := range *al.Referrers() {
								switch rr := rr.(type) {
								case *ssa.UnOp:
									visit(g, rr)
								case *ssa.MakeClosure:
									lit := rr.Fn.(*ssa.Function)
									for k, b := range rr.Bindings {
										if b == ssa.Value(al) {
											for _, l := range *lit.FreeVars[k].Referrers() {
												if u, ok := l.(*ssa.UnOp); ok {
													visit(lit, u)
												}
											}
										}
									}
								}
							}
						}
					}
				case *ssa.MakeClosure:
					lit := r.Fn.(*ssa.Function)
					for k, b := range r.Bindings {
						if b == v {
							visit(lit, lit.FreeVars[k])
						}
					}
				case ssa.CallInstruction:
					h := r.Common().StaticCallee()
					if h == nil || h == norm || !c.P.InRepo(h) || h.Blocks == nil || h == c.P.Method(f, "Allow") {
						continue
					}
					for k, a := range r.Common().Args {
						if a == v && k < len(h.Params) {
							visit(h, h.Params[k])
						}
					}
				}
			}
		}
		for _, p := range fn.Params {
			if n := namedOf(p.Type()); n != nil && n.Obj().Name() == "SearchRequest" {
				visit(fn, p)
			}
		}
		if !bad {
			c.OK("shared-request", c.P.FnName(fn))
		}
	}
	c.Floor("shared-request", 3)
}

// sameStore: x.f = x.f.
func sameStore(s *ssa.Store) bool {
	u, ok := s.Val.(*ssa.UnOp)
	return ok && u.Op == token.MUL && u.X == s.Addr
}

// noWrites: nothing in the object is given another value.
func (c *C) noWrites(in *eng.Interp, p *eng.Path, obj *eng.Term, name, what string) {
	wrote := false
	p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if e.Kind != eng.EStore || e.Fresh || e.Addr.Root() != obj {
			return
		}
		if pt, ok := e.Addr.Typ.(*types.Pointer); ok && e.Val != nil {
			if v := in.NewState().Load(e.Addr, pt.Elem()); v == e.Val || v.Strip() == e.Val.Strip() || p.Facts.EqInt(v, e.Val, 0) {
				return
			}
		}
		wrote = true
		c.Fail("shared-request", e.Pos, name, "writes to %s (%s)", what, e.Addr)
	})
	if !wrote {
		c.OK("shared-request", name)
	}
}

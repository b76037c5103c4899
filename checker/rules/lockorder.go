package rules

import (
	"go/token"
	"go/types"
	"sort"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

func isLockName(name string) bool {
	switch name {
	case "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).RLock":
		return true
	}
	return false
}

// lockCall: the instruction takes a lock; it returns the mutex operand.
func lockCall(i ssa.Instruction) ssa.Value {
	ci, ok := i.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	f := ci.Common().StaticCallee()
	if f == nil || !isLockName(f.String()) {
		return nil
	}
	return ci.Common().Args[0]
}

// classOfValue names a lock by the type (and field) or variable it belongs to.
func classOfValue(v ssa.Value) string {
	switch v := v.(type) {
	case *ssa.FieldAddr:
		n := namedOf(v.X.Type())
		if n != nil {
			return n.Origin().Obj().Name()
		}
	case *ssa.Global:
		return v.Name()
	case *ssa.UnOp:
		return classOfValue(v.X)
	case *ssa.FreeVar, *ssa.Alloc:
		return "local"
	}
	return ""
}

func classOfTerm(t *eng.Term, owner map[*types.Var]*types.Named) string {
	if t.Op == eng.OLoad {
		t = t.Args[0]
	}
	if t.Op == eng.OField && t.FieldVar() != nil {
		if n := owner[t.FieldVar().Origin()]; n != nil {
			return n.Origin().Obj().Name()
		}
	}
	if t.Op == eng.OGlobal {
		return t.String()
	}
	return ""
}

type lockSummary struct {
	c      *C
	memo   map[*ssa.Function]map[string]bool
	blocks map[*ssa.Function]bool
	impl   map[string][]*ssa.Function // method name -> declared methods
}

// callees: the repository functions an instruction may run, not counting
// dynamic calls of function values.
func (s *lockSummary) callees(i ssa.Instruction) []*ssa.Function {
	var out []*ssa.Function
	if ci, ok := i.(ssa.CallInstruction); ok {
		if _, isgo := i.(*ssa.Go); isgo {
			return nil
		}
		cc := ci.Common()
		if f := cc.StaticCallee(); f != nil {
			if s.c.P.InRepo(f) {
				out = append(out, f)
			}
		} else if cc.IsInvoke() {
			out = append(out, s.implementations(cc.Method)...)
		}
	}
	return out
}

func (s *lockSummary) implementations(m *types.Func) []*ssa.Function {
	iface, _ := m.Type().(*types.Signature).Recv().Type().Underlying().(*types.Interface)
	var out []*ssa.Function
	for _, f := range s.impl[m.Name()] {
		r := f.Signature.Recv().Type()
		if iface != nil && !types.Implements(r, iface) {
			// methods on embedded types are promoted; be generous
			if n := namedOf(r); n == nil || n.TypeParams().Len() > 0 || !s.embedded(n) {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

func (s *lockSummary) embedded(n *types.Named) bool {
	for _, m := range s.c.P.NamedTypes() {
		for _, f := range fieldsOf(m) {
			if f.Embedded() && namedOf(f.Type()) == n {
				return true
			}
		}
	}
	return false
}

// acquires: the lock classes that fn may take, directly or not.
func (s *lockSummary) acquires(fn *ssa.Function) map[string]bool {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if m, ok := s.memo[fn]; ok {
		return m
	}
	seen := map[*ssa.Function]bool{}
	out := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if f.Origin() != nil {
			f = f.Origin()
		}
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if v := lockCall(i); v != nil {
					if k := classOfValue(v); k != "" {
						out[k] = true
					}
				}
				for _, g := range s.callees(i) {
					visit(g)
				}
				// function literals run by the function (or its callees)
				if mc, ok := i.(*ssa.MakeClosure); ok && !onlyGo(mc) {
					visit(mc.Fn.(*ssa.Function))
				}
			}
		}
	}
	visit(fn)
	s.memo[fn] = out
	return out
}

func onlyGo(mc *ssa.MakeClosure) bool {
	for _, r := range *mc.Referrers() {
		if _, ok := r.(*ssa.Go); !ok {
			return false
		}
	}
	return true
}

// mayWait: fn may wait for another goroutine or for the network.
func (s *lockSummary) mayWait(fn *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f.Origin() != nil {
			f = f.Origin()
		}
		if v, ok := s.blocks[f]; ok {
			return v
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				switch i := i.(type) {
				case *ssa.Send:
					return true
				case *ssa.UnOp:
					if i.Op == token.ARROW {
						return true
					}
				case *ssa.Select:
					if i.Blocking {
						return true
					}
				case *ssa.Call:
					if g := i.Call.StaticCallee(); g != nil && waitsOutside(g.String()) {
						return true
					}
					if i.Call.IsInvoke() && i.Call.Method.Name() == "Do" {
						return true
					}
				}
				for _, g := range s.callees(i) {
					if visit(g) {
						return true
					}
				}
			}
		}
		return false
	}
	v := visit(fn)
	s.blocks[fn] = v
	return v
}

func waitsOutside(name string) bool {
	switch name {
	case "(*sync.WaitGroup).Wait", "(*sync.Cond).Wait", "time.Sleep", "(*net/http.Client).Do", "net/http.Get", "net/http.Post", "(*net/http.Server).ListenAndServe", "net/http.ListenAndServe":
		return true
	}
	return false
}

type lockEdge struct {
	from, to string
	pos      token.Pos
	where    string
}

// C03: locks are always released, and can't deadlock.
func c03(c *C) {
	locked := c.lockedTypes()
	owner := c.ownersByField(locked)
	sum := &lockSummary{c: c, memo: map[*ssa.Function]map[string]bool{}, blocks: map[*ssa.Function]bool{}, impl: map[string][]*ssa.Function{}}
	for _, fn := range c.P.Funcs {
		if fn.Signature.Recv() != nil && fn.Parent() == nil && fn.Synthetic == "" {
			sum.impl[fn.Name()] = append(sum.impl[fn.Name()], fn)
		}
	}
	var edges []lockEdge
	heldDyn := map[*ssa.Function]map[string]bool{}
	for _, fn := range c.apiRoots() {
		if !c.reachesThrough(fn, c.api, func(i ssa.Instruction) bool { return lockCall(i) != nil }) {
			continue
		}
		name := c.P.FnName(fn)
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api, MayPanic: func(e *eng.Effect) bool {
			return len(e.Locks) > 0 && (e.Invoke || e.Callee != nil && e.Callee.Name == "dynamic")
		}})
		for _, p := range c.Run(in, fn, nil, nil) {
			if p.Panic != nil {
				c.Check(len(p.Locks) == 0, "released", p.EndPos, name+" panic", "a lock stays held when a called function panics: %s", strings.Join(p.FactStrings(), " & "))
			} else if p.Exit {
				continue
			} else {
				c.Check(len(p.Locks) == 0, "released", fn.Pos(), name, "returns with a lock held: %s", strings.Join(p.FactStrings(), " & "))
			}
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				switch e.Kind {
				case eng.ELock:
					if e.OK {
						return // TryLock
					}
					again := false
					for _, l := range e.Locks {
						if l.Addr == e.Addr {
							again = true
							continue
						}
						from, to := classOfTerm(l.Addr, owner), classOfTerm(e.Addr, owner)
						if from != "" && to != "" {
							edges = append(edges, lockEdge{from, to, e.Pos, name})
						}
					}
					c.Check(!again, "relock", e.Pos, name, "takes a lock that it already holds")
				case eng.EUnlock:
					c.Check(e.OK, "released", e.Pos, name+" unlock", "releases a lock that isn't held")
				}
				if len(e.Locks) == 0 {
					return
				}
				if mayBlock(e) || e.Kind == eng.ECall && waitsOutside(callName(e)) || e.Kind == eng.ECall && e.Invoke && e.Callee.Meth != nil && e.Callee.Meth.Name() == "Do" {
					c.Fail("no-waiting", e.Pos, name, "waits for another goroutine or the network while holding a lock")
				}
				if e.Kind != eng.ECall || e.Async || e.Callee == nil {
					return
				}
				var targets []*ssa.Function
				switch {
				case e.Callee.Fn != nil && c.P.InRepo(e.Callee.Fn):
					targets = []*ssa.Function{e.Callee.Fn}
				case e.Callee.Meth != nil:
					targets = sum.implementations(e.Callee.Meth)
				case e.Callee.Name == "dynamic":
					if heldDyn[fn] == nil {
						heldDyn[fn] = map[string]bool{}
					}
					for _, l := range e.Locks {
						if k := classOfTerm(l.Addr, owner); k != "" {
							heldDyn[fn][k] = true
						}
					}
				}
				for _, g := range targets {
					c.Check(!sum.mayWait(g), "no-waiting", e.Pos, name+" calls "+c.P.FnName(g), "calls %s, which may wait for another goroutine, while holding a lock", c.P.FnName(g))
					acq := sum.acquires(g)
					for _, l := range e.Locks {
						from := classOfTerm(l.Addr, owner)
						if from == "" {
							continue
						}
						for to := range acq {
							if to == from {
								self := false
								for _, a := range e.Args {
									if l.Addr.Op == eng.OField && a.Strip() == l.Addr.Args[0].Strip() {
										self = true
									}
								}
								if self {
									c.Fail("relock", e.Pos, name+" calls "+c.P.FnName(g), "calls %s, which takes the lock that's already held", c.P.FnName(g))
								} else {
									c.Undec("relock", name, "calls %s, which may take another lock of the same kind", c.P.FnName(g))
								}
								continue
							}
							edges = append(edges, lockEdge{from, to, e.Pos, name})
						}
					}
				}
			})
		}
	}
	// function literals that run while their callee holds a lock
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				ci, ok := i.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := ci.Common().StaticCallee()
				if g == nil {
					continue
				}
				if g.Origin() != nil {
					g = g.Origin()
				}
				held := heldDyn[g]
				if len(held) == 0 {
					continue
				}
				for _, a := range ci.Common().Args {
					var lit *ssa.Function
					switch a := a.(type) {
					case *ssa.MakeClosure:
						lit = a.Fn.(*ssa.Function)
					case *ssa.Function:
						lit = a
					default:
						continue
					}
					c.Check(!sum.mayWait(lit), "no-waiting", i.Pos(), c.P.FnName(fn)+" callback", "the function given to %s, which runs while a lock is held, may wait for another goroutine", c.P.FnName(g))
					for from := range held {
						for to := range sum.acquires(lit) {
							if to == from {
								c.Undec("relock", c.P.FnName(fn), "the function given to %s may take a lock of the same kind", c.P.FnName(g))
								continue
							}
							edges = append(edges, lockEdge{from, to, i.Pos(), c.P.FnName(fn)})
						}
					}
				}
			}
		}
	}
	c.lockCycles(edges)
	c.Floor("released", 5)
	c.Floor("no-waiting", 1)
}

// lockCycles: the order in which locks nest has no cycles.
func (c *C) lockCycles(edges []lockEdge) {
	next := map[string]map[string]lockEdge{}
	for _, e := range edges {
		if e.from == e.to {
			continue
		}
		if next[e.from] == nil {
			next[e.from] = map[string]lockEdge{}
		}
		if _, ok := next[e.from][e.to]; !ok {
			next[e.from][e.to] = e
		}
	}
	reach := func(from, to string) bool {
		seen := map[string]bool{}
		var visit func(x string) bool
		visit = func(x string) bool {
			if x == to {
				return true
			}
			if seen[x] {
				return false
			}
			seen[x] = true
			for y := range next[x] {
				if visit(y) {
					return true
				}
			}
			return false
		}
		return visit(from)
	}
	var froms []string
	for f := range next {
		froms = append(froms, f)
	}
	sort.Strings(froms)
	for _, f := range froms {
		var tos []string
		for t := range next[f] {
			tos = append(tos, t)
		}
		sort.Strings(tos)
		for _, t := range tos {
			e := next[f][t]
			c.Check(!reach(t, f), "lock-order", e.pos, f+" then "+t, "%s takes the lock of a %s while holding that of a %s, and elsewhere it's the other way round", e.where, t, f)
		}
	}
}

package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// nestedField resolves a chain of field names from a pointer.
func nestedField(in *eng.Interp, base *eng.Term, n *types.Named, names ...string) (addr *eng.Term, t types.Type) {
	addr = base
	var cur types.Type = n
	for _, name := range names {
		nn := namedOf(cur)
		if nn == nil {
			return nil, nil
		}
		f := fieldNamed(nn, name)
		if f == nil {
			return nil, nil
		}
		addr = in.T.Field(addr, fieldIndex(nn, f), f)
		cur = f.Type()
	}
	return addr, cur
}

type normCase struct {
	in     *eng.Interp
	ps     []*eng.Term
	paths  []*eng.Path
	load   func(p *eng.Path, names ...string) *eng.Term
	limit0 *eng.Term
	buck0  *eng.Term
	query0 *eng.Term
	re0    *eng.Term
}

// normRun interprets SearchRequest.Normalize from a constrained initial state.
func (c *C) normRun(fn *ssa.Function, sorted bool, assume func(nc *normCase, st *eng.State) bool) *normCase {
	req := c.P.Named("", "SearchRequest")
	cfg := eng.Config{Inline: func(f *ssa.Function) bool {
		return c.api(f) || f.Name() == "Normalize" && pkgPath(f) == mod
	}}
	if sorted {
		// sorting what is sorted changes nothing
		cfg.Peel = 1
		cfg.Intrinsic = func(st *eng.State, cal *eng.Callee, args []*eng.Term) (*eng.Term, bool) {
			n := strings.Split(cal.Name, "[")[0]
			if n == "slices.Sort" || isSort(&eng.Effect{Kind: eng.ECall, Callee: cal}) {
				return args[0], true
			}
			return nil, false
		}
	}
	in := eng.NewInterp(c.P, cfg)
	nc := &normCase{in: in, ps: in.ParamSyms(fn)}
	st := in.NewState()
	at := func(st *eng.State, names ...string) *eng.Term {
		a, t := nestedField(in, nc.ps[0], req, names...)
		if a == nil {
			return nil
		}
		return st.Load(a, t)
	}
	nc.limit0, nc.buck0 = at(st, "Limit"), at(st, "Bucketing")
	nc.query0, nc.re0 = at(st, "Filter", "Query"), at(st, "Filter", "regexp")
	nc.load = func(p *eng.Path, names ...string) *eng.Term { return at(p.State, names...) }
	if nc.limit0 == nil || nc.buck0 == nil || nc.query0 == nil {
		return nil
	}
	if assume != nil && !assume(nc, st) {
		return nil
	}
	nc.paths = c.Run(in, fn, st, nc.ps)
	return nc
}

// C14: any request can be made valid.
func c14(c *C) {
	fn := c.method("", "SearchRequest", "Normalize")
	if fn == nil {
		return
	}
	const name = "SearchRequest.Normalize"
	// limits
	for _, k := range []struct {
		what   string
		assume func(nc *normCase, st *eng.State) bool
		want   func(nc *normCase) *eng.Term
	}{
		{"a limit of zero or less", func(nc *normCase, st *eng.State) bool { return st.AssumeLe(nc.limit0, nc.in.T.Int(0), 0) }, func(nc *normCase) *eng.Term { return nc.in.T.Int(10) }},
		{"a limit within 1 and 250", func(nc *normCase, st *eng.State) bool {
			return st.AssumeLe(nc.limit0, nc.in.T.Int(250), 0) && st.AssumeLe(nc.in.T.Int(1), nc.limit0, 0)
		}, func(nc *normCase) *eng.Term { return nc.limit0 }},
		{"a limit above 250", func(nc *normCase, st *eng.State) bool { return st.AssumeLe(nc.in.T.Int(251), nc.limit0, 0) }, func(nc *normCase) *eng.Term { return nc.in.T.Int(250) }},
	} {
		nc := c.normRun(fn, false, k.assume)
		if nc == nil {
			c.Undec("limit", name, "can't set up %s", k.what)
			continue
		}
		for _, p := range nc.paths {
			if p.Panic != nil {
				c.Fail("no-panic", fn.Pos(), name, "panics: %s", p.Panic)
				continue
			}
			v := nc.load(p, "Limit")
			c.Check(p.Facts.EqInt(v, k.want(nc), 0), "limit", fn.Pos(), name+": "+k.what, "becomes %s: %s", v, strings.Join(p.FactStrings(), " & "))
		}
	}
	// buckets and problems
	nc := c.normRun(fn, false, nil)
	if nc == nil {
		c.Undec("buckets", name, "unexpected fields")
		return
	}
	in := nc.in
	for _, p := range nc.paths {
		if p.Panic != nil {
			continue
		}
		c.bucketsNormal(nc, fn, p)
		c.problemsReported(nc, fn, p)
	}
	c.Floor("buckets", 3)
	c.Floor("problems", 2)
	_ = in
	// a normal request isn't touched
	for _, k := range []struct {
		what  string
		query bool
	}{{"without a query", false}, {"with a compiled query", true}} {
		nc := c.normRun(fn, true, func(nc *normCase, st *eng.State) bool {
			tt := nc.in.T
			z := tt.Int(0)
			bt := nc.buck0.Typ.Underlying().(*types.Slice).Elem()
			first := st.Load(tt.Index(nc.buck0, z, bt), bt)
			ok := st.AssumeLe(nc.limit0, tt.Int(250), 0) && st.AssumeLe(tt.Int(1), nc.limit0, 0) && st.AssumeLe(tt.Int(1), tt.Len(nc.buck0), 0) &&
				st.AssumeLe(first, z, 0) && st.AssumeLe(z, first, 0)
			if nc.re0 == nil {
				return ok
			}
			isnil := tt.Cmp(token.EQL, nc.re0, tt.Nil())
			if !k.query {
				return ok && st.Assume(isnil, true) && st.Assume(tt.Cmp(token.EQL, nc.query0, tt.Str("")), true)
			}
			return ok && st.Assume(isnil, false) && st.Assume(tt.Cmp(token.EQL, nc.query0, tt.Str("")), false)
		})
		if nc == nil || nc.re0 == nil {
			c.Undec("untouched", name, "can't set up a normal request")
			continue
		}
		for _, p := range nc.paths {
			// the compiled expression is that of the query
			if k.query {
				ne := false
				fc := &filterCheck{c: c, in: nc.in, fn: fn}
				p.Facts.Each(func(t *eng.Term, v bool) {
					x, y := eqSides(t)
					if x != nil && !v && (x.CalleeName() == "(*regexp.Regexp).String" && y == nc.query0 || y.CalleeName() == "(*regexp.Regexp).String" && x == nc.query0) {
						ne = true
					}
				})
				_ = fc
				if ne {
					continue
				}
			}
			if unsortedFound(nc, p) {
				continue
			}
			wrote := false
			p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind != eng.EStore || e.Fresh || e.Addr.Root() != nc.ps[0] {
					return
				}
				if pt, ok := e.Addr.Typ.(*types.Pointer); ok && e.Val != nil {
					if v := nc.in.NewState().Load(e.Addr, pt.Elem()); v == e.Val || v.Strip() == e.Val.Strip() || p.Facts.EqInt(v, e.Val, 0) {
						return // the same value again
					}
				}
				wrote = true
				c.Fail("untouched", e.Pos, name, "a request that's already normal is written to (%s), which races with other users of it", e.Addr)
			})
			if !wrote {
				c.OK("untouched", name+" "+k.what)
			}
		}
	}
	c.Floor("untouched", 2)
	c.defaultBuckets()
}

// unsortedFound: on this path the buckets were found not to be in order.
func unsortedFound(nc *normCase, p *eng.Path) bool {
	found := false
	p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if n := strings.Split(callName(e), "[")[0]; strings.Contains(n, "IsSorted") && len(e.Args) > 0 && e.Args[0].Contains(nc.buck0) {
			if v, known := p.Facts.Eval(e.Result); known && !v {
				found = true
			}
		}
	})
	var elems []*eng.Term
	p.Facts.EachTerm(func(t *eng.Term) {
		if t.Op == eng.OLoad && t.Args[0].Op == eng.OIndex && t.Args[0].Args[0].Strip() == nc.buck0 {
			elems = append(elems, t)
		}
	})
	for _, x := range elems {
		for _, y := range elems {
			if x != y && p.Facts.Le(x.Args[0].Args[1], y.Args[0].Args[1], 0) && p.Facts.Le(y, x, -1) {
				found = true
			}
		}
	}
	return found
}

// ascending: the sort call at e puts durations in ascending order.
func (c *C) ascending(e *eng.Effect) (yes, known bool) {
	n := strings.Split(callName(e), "[")[0]
	if n == "slices.Sort" {
		return true, true
	}
	if !isSort(e) || len(e.Args) != 2 {
		return false, false
	}
	cl := e.Args[1].Strip()
	fn, _ := cl.Obj.(*ssa.Function)
	if cl.Op != eng.OClosure && cl.Op != eng.OFunc || fn == nil || len(fn.Blocks) == 0 || len(fn.Params) != 2 {
		if cl.CalleeName() == "" && strings.HasPrefix(cl.String(), "cmp.Compare") {
			return true, true
		}
		return false, false
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	yes, known = true, true
	ij := func(t *eng.Term) (first bool, ok bool) {
		i, j := t.Contains(ps[0]), t.Contains(ps[1])
		if i == j {
			return false, false
		}
		return i, true
	}
	for _, p := range c.Run(in, fn, nil, ps) {
		if len(p.Ret) != 1 {
			return false, false
		}
		// find the two compared values
		var x, y *eng.Term
		look := func(t *eng.Term) {
			for _, l := range in.T.LinOf(t).V {
				if f, ok := ij(l.T); ok {
					if f {
						x = l.T
					} else {
						y = l.T
					}
				}
			}
			t.Any(func(s *eng.Term) bool {
				if s.Op == eng.OLoad || s.Op == eng.OSym {
					if f, ok := ij(s); ok && (s.Op == eng.OLoad || n == "slices.SortFunc" || n == "slices.SortStableFunc") {
						if f && x == nil {
							x = s
						} else if !f && y == nil {
							y = s
						}
					}
				}
				return false
			})
		}
		look(p.Ret[0])
		p.Facts.EachTerm(look)
		p.Facts.Each(func(t *eng.Term, _ bool) { look(t) })
		if x == nil || y == nil {
			return false, false
		}
		if strings.HasPrefix(p.Ret[0].CalleeName(), "cmp.Compare") {
			a := p.Ret[0].Args
			if a[0].Strip() == x && a[1].Strip() == y {
				continue
			}
			return false, true
		}
		less := func(b bool, f *eng.Facts) bool { // b: the first goes before the second
			if b {
				return f.Le(x, y, 0)
			}
			return f.Le(y, x, 0)
		}
		if b, ok := p.Ret[0].BoolConst(); ok {
			yes = yes && less(b, p.Facts)
			continue
		}
		if k, ok := p.Ret[0].IntConst(); ok {
			if k < 0 {
				yes = yes && p.Facts.Le(x, y, 0)
			} else if k > 0 {
				yes = yes && p.Facts.Le(y, x, 0)
			}
			continue
		}
		if bt, ok := p.Ret[0].Typ.Underlying().(*types.Basic); ok && bt.Kind() == types.Bool {
			for _, b := range []bool{true, false} {
				f := p.Facts.Clone()
				if f.Assume(p.Ret[0], b) {
					yes = yes && less(b, f)
				}
			}
			continue
		}
		return false, false
	}
	return yes, known
}

func (c *C) bucketsNormal(nc *normCase, fn *ssa.Function, p *eng.Path) {
	const name = "SearchRequest.Normalize"
	in := nc.in
	b := nc.load(p, "Bucketing").Strip()
	facts := strings.Join(p.FactStrings(), " & ")
	rest := b
	prepended := false
	if b.Op == eng.OAppend && len(b.Args) == 2 {
		first := firstElem(p, b.Args[0])
		if first != nil {
			k, ok := first.IntConst()
			if c.Check(ok && k == 0, "buckets", fn.Pos(), name+" first", "the first bucket is %s", first) {
				prepended = true
			}
			rest = b.Args[1].Strip()
		}
	}
	zero := in.T.Int(0)
	bt := nc.buck0.Typ.Underlying().(*types.Slice).Elem()
	firstOf := func(s *eng.Term) *eng.Term {
		idx := zero
		for s.Op == eng.OSlice {
			if lo := s.Args[1]; lo != nil {
				idx = in.T.Plus(idx, lo)
			}
			s = s.Args[0].Strip()
		}
		var out *eng.Term
		p.Facts.EachTerm(func(t *eng.Term) {
			if t.Op == eng.OLoad && t.Args[0].Op == eng.OIndex && t.Args[0].Args[0].Strip() == s && p.Facts.EqInt(t.Args[0].Args[1], idx, 0) {
				if out == nil || p.Facts.Le(zero, t, 0) && !p.Facts.Le(zero, out, 0) || p.Facts.EqInt(t, zero, 0) {
					out = t
				}
			}
		})
		if out == nil {
			out = p.State.Load(in.T.Index(s, idx, bt), bt)
		}
		return out
	}
	isDefault := func(t *eng.Term) bool {
		g := globalOf(t)
		return g != nil && g.Name() == "DefaultBucketing"
	}
	switch {
	case prepended:
		f := firstOf(rest)
		empty := p.Facts.Le(in.T.Len(rest), zero, 0)
		if l, lv := loopVar(p.Effects, rest); l != nil && !empty && !p.Facts.Le(zero, f, 0) {
			if built, nonneg := nonNegativeBuilt(in, l, lv); built {
				if !nonneg {
					c.Undec("buckets", name, "loop on %s", rest)
				} else {
					c.OK("buckets", name+" order")
				}
				empty = true
			}
		}
		c.Check(empty || p.Facts.Le(zero, f, 0), "buckets", fn.Pos(), name+" order", "zero is put before buckets that may be negative: %s", facts)
	case isDefault(b):
		c.OK("buckets", name+" default")
		return
	default:
		f := firstOf(b)
		ne := p.Facts.Le(in.T.Int(1), in.T.Len(b), 0)
		if b.Op == eng.OSym || b.Op == eng.OLoad || b.Op == eng.OSlice {
			c.Check(ne, "buckets", fn.Pos(), name+" nonempty", "there may be no buckets: %s", facts)
			c.Check(p.Facts.EqInt(f, zero, 0), "buckets", fn.Pos(), name+" zero", "the first bucket may not be zero, so that finished traces aren't counted: %s", facts)
		} else {
			c.Undec("buckets", name, "%s", b)
			return
		}
	}
	// sorted
	base := rest
	for i := 0; i < 8; i++ {
		if base.Op == eng.OSlice {
			base = base.Args[0].Strip()
			continue
		}
		if l, lv := loopVar(p.Effects, base); l != nil {
			shrinks := true
			for _, it := range l.Iters {
				nx := it.Next[lv.Start]
				if nx != lv.Start && !(nx != nil && nx.Op == eng.OSlice && nx.Args[0].Strip() == lv.Start) {
					shrinks = false
					continue
				}
				if nx != lv.Start {
					c.onlyNegativeDropped(in, fn, it, lv.Start, nx)
				}
			}
			if !shrinks {
				c.Undec("buckets", name, "loop on %s", base)
				return
			}
			base = lv.Init.Strip()
			continue
		}
		break
	}
	if p.Facts.Le(in.T.Len(rest), zero, 0) || isDefault(base) {
		c.OK("buckets", name+" sorted")
		return
	}
	sorted := false
	for _, e := range p.Effects {
		n := strings.Split(callName(e), "[")[0]
		if (isSort(e) || n == "slices.Sort") && len(e.Args) > 0 {
			s := e.Args[0].Strip()
			if s == base || s == rest || s == b {
				yes, known := c.ascending(e)
				if !known {
					c.Undec("buckets", name, "order of %s", n)
					return
				}
				c.Check(yes, "buckets", e.Pos, name+" ascending", "the buckets aren't sorted in ascending order")
				sorted = true
			}
		}
		if (n == "slices.IsSorted" || n == "sort.SliceIsSorted" || n == "slices.IsSortedFunc") && len(e.Args) > 0 {
			if v, known := p.Facts.Eval(e.Result); known && v {
				sorted = true
			}
		}
	}
	for _, e := range p.Effects {
		if strings.HasPrefix(callName(e), "slices.") && e.Result != nil && e.Result.Strip() == base {
			c.Undec("buckets", name, "%s", callName(e))
			return
		}
	}
	c.Check(sorted, "buckets", fn.Pos(), name+" sorted", "the buckets may not be sorted: %s", facts)
}

// nonNegativeBuilt: the loop builds a slice by appending; whether all it
// appends is known not to be negative.
func nonNegativeBuilt(in *eng.Interp, l *eng.LoopInfo, lv *eng.LoopVar) (built, nonneg bool) {
	nonneg = lv.Init != nil && (lv.Init.Strip().IsNil() || in.T.Len(lv.Init) == in.T.Int(0))
	for _, it := range l.Iters {
		nx := it.Next[lv.Start]
		if nx == nil || nx == lv.Start {
			continue
		}
		nx = nx.Strip()
		if nx.Op != eng.OAppend || len(nx.Args) != 2 || nx.Args[0].Strip() != lv.Start {
			return false, false
		}
		built = true
		x := nx.Args[1].Strip()
		if x.Op != eng.OArr || len(x.Args) != 1 || !it.Facts.Le(in.T.Int(0), x.Args[0], 0) {
			nonneg = false
		}
	}
	return built, nonneg
}

// onlyNegativeDropped: a slice that gets shorter in an iteration loses just
// its first duration, which is negative.
func (c *C) onlyNegativeDropped(in *eng.Interp, fn *ssa.Function, it *eng.Iter, s, nx *eng.Term) {
	const name = "SearchRequest.Normalize"
	lo, hi := nx.Args[1], nx.Args[2]
	if hi != nil && !it.Facts.EqInt(hi, in.T.Len(s), 0) {
		c.Fail("buckets", fn.Pos(), name+" dropped", "the last durations are dropped, which may be some that were given: %s", nx)
		return
	}
	if lo == nil {
		return
	}
	if k, ok := lo.IntConst(); !ok || k != 1 {
		c.Undec("buckets", name, "drops %s", nx)
		return
	}
	zero := in.T.Int(0)
	var first *eng.Term
	neg := false
	it.Facts.EachTerm(func(t *eng.Term) {
		if t.Op == eng.OLoad && t.Args[0].Op == eng.OIndex && t.Args[0].Args[0].Strip() == s && it.Facts.EqInt(t.Args[0].Args[1], zero, 0) {
			first = t
			neg = neg || it.Facts.Le(t, zero, 0)
		}
	})
	if first == nil {
		c.Undec("buckets", name, "drops %s", nx)
		return
	}
	c.Check(neg, "buckets", fn.Pos(), name+" dropped", "a duration that isn't negative is dropped: %s", nx)
}

// firstElem: the first element of a slice literal.
func firstElem(p *eng.Path, s *eng.Term) *eng.Term {
	s = s.Strip()
	if s.Op == eng.OArr && len(s.Args) > 0 {
		return s.Args[0]
	}
	if s.Op == eng.OSlice {
		for _, e := range p.Effects {
			if e.Kind == eng.EStore && e.Addr.Op == eng.OIndex && e.Addr.Args[0] == s.Args[0] {
				if k, ok := e.Addr.Args[1].IntConst(); ok && k == 0 {
					return e.Val
				}
			}
		}
	}
	return nil
}

// problemsReported: an error is returned exactly when the query is invalid.
func (c *C) problemsReported(nc *normCase, fn *ssa.Function, p *eng.Path) {
	const name = "SearchRequest.Normalize"
	in := nc.in
	compiled, failed := false, false
	var err *eng.Term
	p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if callName(e) == "regexp.Compile" {
			compiled = true
			p.Facts.Each(func(t *eng.Term, v bool) {
				if x := nilCompared(t); x != nil && isResult(x, e.Result, 1) {
					err = x
					failed = !v
				}
			})
		}
	})
	if len(p.Ret) != 1 {
		return
	}
	ret := p.Ret[0].Strip()
	facts := strings.Join(p.FactStrings(), " & ")
	if compiled && err == nil {
		c.Fail("problems", fn.Pos(), name+" unchecked", "the result of compiling the query isn't checked")
		return
	}
	if !failed {
		if in.T.Len(ret) != nil && p.Facts.Le(in.T.Int(1), in.T.Len(ret), 0) {
			c.Fail("problems", fn.Pos(), name+" none", "a valid request is reported as a problem: %s", facts)
		} else {
			c.OK("problems", name+" none")
		}
		return
	}
	// reported?
	has := ret.Any(func(t *eng.Term) bool { return t == err })
	if !has {
		if l, lv := loopVar(p.Effects, ret); l != nil {
			okAll := true
			for _, it := range l.Iters {
				nx := it.Next[lv.Start]
				okAll = okAll && nx != nil && nx != lv.Start && nx.Contains(lv.Start)
			}
			for i, e := range p.Effects {
				if e.Kind == eng.ELoop && e.Loop == l {
					if yes, known := headerExit(p.Effects, i); known && !yes {
						okAll = false
					}
				}
			}
			has = okAll
		}
	}
	if !has && ret.Op != eng.OSym && ret.Op != eng.OAppend && !ret.IsNil() && !emptySlice(in, p.Facts, ret) {
		c.Undec("problems", name, "%s", ret)
	} else {
		c.Check(has, "problems", fn.Pos(), name+" invalid query", "an invalid query isn't reported: %s", facts)
	}
	// ignored
	q := nc.load(p, "Filter", "Query")
	re := nc.load(p, "Filter", "regexp")
	v, known := p.Facts.Eval(in.T.Cmp(token.EQL, q, in.T.Str("")))
	c.Check(known && v, "problems", fn.Pos(), name+" ignored", "an invalid query isn't cleared, it's %s", q)
	if re != nil {
		c.Check(re.IsNil() || re == nc.re0 && func() bool { v, k := p.Facts.Eval(in.T.Cmp(token.EQL, re, in.T.Nil())); return k && v }(), "problems", fn.Pos(), name+" ignored regexp", "after an invalid query the filter still matches %s", re)
	}
}

// defaultBuckets: the default bucketing itself is normal.
func (c *C) defaultBuckets() {
	pkg := c.P.Pkg("")
	g, _ := pkg.Members["DefaultBucketing"].(*ssa.Global)
	if g == nil {
		c.Fail("anchor", token.NoPos, "DefaultBucketing", "missing")
		return
	}
	init := pkg.Func("init")
	var arr *ssa.Alloc
	fns := append([]*ssa.Function{init}, c.P.Funcs...)
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok || s.Addr != ssa.Value(g) {
					continue
				}
				if fn != init {
					c.Fail("default-buckets", s.Pos(), "DefaultBucketing", "is changed by %s", c.P.FnName(fn))
					continue
				}
				if sl, ok := s.Val.(*ssa.Slice); ok {
					arr, _ = sl.X.(*ssa.Alloc)
				}
			}
		}
	}
	if arr == nil {
		c.Undec("default-buckets", "DefaultBucketing", "not initialised with a literal")
		return
	}
	vals := map[int64]int64{}
	n := arr.Type().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
	for _, r := range *arr.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			continue
		}
		for _, r2 := range *ia.Referrers() {
			if s, ok := r2.(*ssa.Store); ok && s.Addr == ia {
				if v, ok := s.Val.(*ssa.Const); ok && v.Value != nil {
					x, _ := constant.Int64Val(v.Value)
					vals[k.Int64()] = x
				} else {
					c.Undec("default-buckets", "DefaultBucketing", "element %d", k.Int64())
					return
				}
			}
		}
	}
	ok := n > 0 && vals[0] == 0
	for i := int64(1); i < n; i++ {
		ok = ok && vals[i] > vals[i-1]
	}
	c.Check(ok, "default-buckets", g.Pos(), "DefaultBucketing", "doesn't start with zero or isn't ascending: %v", vals)
}

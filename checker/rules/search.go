package rules

import (
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// headerExit: the loop at es[i] was left because its own condition failed, not
// from within its body.
func headerExit(es []*eng.Effect, i int) (yes, known bool) {
	l := es[i].Loop
	if l == nil || len(l.Iters) == 0 {
		return false, false
	}
	var cont *eng.Effect
	for _, it := range l.Iters {
		for _, x := range it.Effects {
			if x.Kind == eng.EBranch && x.Site != nil && x.Site.Block() == l.Header {
				cont = x
				break
			}
		}
	}
	if cont == nil {
		return false, false
	}
	for _, x := range es[i+1:] {
		if x.Kind == eng.EBranch && x.Site == cont.Site {
			return x.Truth != cont.Truth || x.Val != cont.Val, true
		}
		if x.Kind == eng.ELoop {
			break
		}
	}
	return false, false
}

func (c *C) inlineRing(fn *ssa.Function) bool {
	return strings.HasSuffix(pkgPath(fn), "/internal/trcringbuf") || c.api(fn)
}

// fieldLoad: t is a load of the named field of something rooted at base.
func fieldLoad(t *eng.Term, base *eng.Term, name string) bool {
	t = t.Strip()
	if t == nil || t.Op != eng.OLoad && t.Op != eng.OFieldVal {
		return false
	}
	if t.Op == eng.OFieldVal {
		f := t.FieldVar()
		return f != nil && f.Name() == name && t.Any(func(x *eng.Term) bool { return x == base })
	}
	a := t.Args[0]
	if a.Op != eng.OField || a.FieldVar() == nil || a.FieldVar().Name() != name {
		return false
	}
	return a.Any(func(x *eng.Term) bool { return x == base })
}

// emptySlice: a slice value known to have no elements.
func emptySlice(in *eng.Interp, f *eng.Facts, t *eng.Term) bool {
	t = t.Strip()
	if t.IsNil() || t.Op == eng.OZero {
		return true
	}
	return f.EqInt(in.T.Len(t), in.T.Int(0), 0)
}

// visit is one loop visiting candidates, with the iterations enclosing it.
type visit struct {
	es   []*eng.Effect
	i    int
	loop *eng.LoopInfo
	f    *eng.Facts
}

func (c *C) candidateOf(e *eng.Effect) *eng.Term {
	if e.Kind != eng.ECall {
		return nil
	}
	n := callName(e)
	pick := func(t *eng.Term) *eng.Term {
		t = t.Strip()
		if t.Op == eng.OArr && len(t.Args) == 1 {
			t = t.Args[0].Strip()
		}
		if t.CalleeName() == mod+".NewSearchTrace" && len(t.Args) == 1 {
			t = t.Args[0].Strip() // a faithful copy will do
		}
		return t
	}
	switch {
	case strings.HasSuffix(n, "trc.SearchStats).Observe") && len(e.Args) == 2:
		return pick(e.Args[1])
	case strings.HasSuffix(n, "trc.Filter).Allow") && len(e.Args) == 2:
		return pick(e.Args[1])
	case n == mod+".NewSearchTrace" && len(e.Args) == 1:
		return pick(e.Args[0])
	}
	return nil
}

func (c *C) isVisiting(l *eng.LoopInfo) bool {
	for _, it := range l.Iters {
		for _, e := range it.Effects {
			if c.candidateOf(e) != nil {
				return true
			}
		}
	}
	return false
}

func (c *C) hasVisiting(es []*eng.Effect) bool {
	for _, e := range es {
		if e.Kind == eng.ELoop {
			if c.isVisiting(e.Loop) {
				return true
			}
			for _, it := range e.Loop.Iters {
				if c.hasVisiting(it.Effects) {
					return true
				}
			}
		}
	}
	return false
}

// loopVar finds the loop whose variable has the given value.
func loopVar(es []*eng.Effect, v *eng.Term) (*eng.LoopInfo, *eng.LoopVar) {
	for i := len(es) - 1; i >= 0; i-- {
		e := es[i]
		if e.Kind != eng.ELoop {
			continue
		}
		for _, lv := range e.Loop.Vars {
			if lv.Start == v {
				return e.Loop, lv
			}
		}
	}
	return nil, nil
}

// perVisit resolves how the value v, at the end of es, changed in each visiting
// iteration. delta gets the values at the start and the end of an iteration.
func (c *C) perVisit(es []*eng.Effect, v *eng.Term, init func(*eng.Term) bool, delta func(l *eng.LoopInfo, it *eng.Iter, start, next *eng.Term)) (ok bool, why string) {
	l, lv := loopVar(es, v)
	if l == nil {
		return false, "not computed in a loop: " + v.String()
	}
	if !init(lv.Init) {
		return false, "starts with " + lv.Init.String()
	}
	for _, it := range l.Iters {
		nx := it.Next[lv.Start]
		if nx == nil {
			return false, "unknown"
		}
		if c.isVisiting(l) {
			delta(l, it, lv.Start, nx)
			continue
		}
		if nx == lv.Start && !c.hasVisiting(it.Effects) {
			continue
		}
		s := lv.Start
		if ok, why := c.perVisit(it.Effects, nx, func(t *eng.Term) bool { return t == s }, delta); !ok {
			return false, why
		}
	}
	return true, ""
}

// C13: a search returns the newest matching traces and accounts for all.
func c13(c *C) {
	fn := c.method("", "Collector", "Search")
	if fn == nil {
		return
	}
	resT := c.P.Named("", "SearchResponse")
	if resT == nil {
		c.Fail("anchor", token.NoPos, "SearchResponse", "missing")
		return
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.inlineRing})
	ps := in.ParamSyms(fn)
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || len(p.Ret) != 2 {
			continue
		}
		c.searchPath(in, fn, p, ps, resT)
	}
	c.flattened()
	if fn := c.method("", "StaticTrace", "TrimStacks"); fn != nil {
		c.borrow([]string{"trim-depth", "trim-zero", "trim-all", "trim-returns", "trim-only-stacks"}, func(b *C) { b.trimStacks(fn) })
	}
	c.Floor("observe-each", 1)
	c.Floor("allowed-only", 1)
}

func isLimit(t *eng.Term, req *eng.Term) bool { return fieldLoad(t, req, "Limit") }

// limitTerm finds the limit as the facts and values of a path know it.
func limitTerm(p *eng.Path, req *eng.Term) *eng.Term {
	var out *eng.Term
	p.Facts.EachTerm(func(t *eng.Term) {
		if isLimit(t, req) {
			out = t
		}
	})
	return out
}

func (c *C) searchPath(in *eng.Interp, fn *ssa.Function, p *eng.Path, ps []*eng.Term, resT *types.Named) {
	const name = "Collector.Search"
	req := ps[2]
	if p.Ret[0].IsNil() {
		if p.Ret[1].IsNil() {
			c.Fail("response", fn.Pos(), name, "returns neither a response nor an error")
		} else {
			c.Undec("response", name, "a path returns an error: %s", p.Ret[1])
		}
		return
	}
	c.Check(p.Ret[1].IsNil(), "response", fn.Pos(), name, "returns a response together with an error")
	f := finalFields(p, p.Ret[0].Strip(), resT)
	if f["Traces"] == nil || f["Stats"] == nil {
		c.Fail("response", fn.Pos(), name+" fields", "the response lacks traces or stats")
		return
	}
	// normalisation comes first
	norm := -1
	var normRes *eng.Term
	for i, e := range p.Effects {
		switch {
		case strings.HasSuffix(callName(e), "trc.SearchRequest).Normalize") && len(e.Args) == 1 && e.Args[0].Strip() == req:
			if norm < 0 {
				norm = i
			}
			normRes = e.Result
		case norm < 0 && (e.Kind == eng.ELoop || callName(e) == mod+".NewSearchStats"):
			c.Fail("normalized-first", e.Pos, name, "the request is used before it's normalized")
		}
	}
	if !c.Check(norm >= 0, "normalized-first", fn.Pos(), name, "the request isn't normalized") {
		return
	}
	c.Check(f["Request"] != nil && f["Request"].Strip() == req, "response", fn.Pos(), name+" request", "the response refers to another request: %v", f["Request"])
	if v := f["Problems"]; v == nil || !v.Any(func(t *eng.Term) bool { return t == normRes }) {
		// flattened in place?
		if v != nil && (v.Op == eng.OSym || v.Op == eng.OAppend) || p.Facts.Le(in.T.Len(normRes), in.T.Int(0), 0) {
			c.OK("problems", name)
		} else {
			c.Fail("problems", fn.Pos(), name, "the problems of the request aren't reported: %v", v)
		}
	} else {
		part := v.Any(func(t *eng.Term) bool {
			return t.Op == eng.OSlice && t.Args[0].Strip() == normRes && !(t.Args[1] == nil && t.Args[2] == nil)
		})
		c.Check(!part, "problems", fn.Pos(), name, "only some problems of the request are reported: %v", v)
	}
	if v := f["Sources"]; v != nil && v.Strip().Op == eng.OLoad && v.Contains(req) {
		c.Fail("sources", fn.Pos(), name, "the sources of the request are reported")
	} else if v != nil {
		e := sliceContent(p, v)
		if e == v.Strip() {
			e = lastElem(v)
		}
		srcOK := e != nil && e.Op == eng.OLoad && e.Args[0].Op == eng.OField && structFieldOf(c.P.Named("", "Collector"), e.Args[0].FieldVar())
		if e == nil {
			c.Undec("sources", name, "%s", v)
		} else {
			c.Check(srcOK, "sources", fn.Pos(), name, "the source is reported as %s", e)
		}
	} else {
		c.Fail("sources", fn.Pos(), name, "the source isn't reported")
	}
	stats := f["Stats"].Strip()
	if stats.CalleeName() == mod+".NewSearchStats" {
		c.Check(fieldLoad(stats.Args[0], req, "Bucketing"), "stats-bucketing", fn.Pos(), name, "the stats use buckets %s", stats.Args[0])
	}

	// the visits
	visited := false
	var walk func(es []*eng.Effect, f *eng.Facts, nested bool)
	perCat := map[*eng.LoopInfo]bool{} // the accumulator starts empty
	accOf := map[*eng.LoopInfo]*eng.LoopVar{}
	walk = func(es []*eng.Effect, f *eng.Facts, nested bool) {
		for i, e := range es {
			if e.Kind != eng.ELoop {
				continue
			}
			vis := c.isVisiting(e.Loop)
			if vis || c.hasVisiting(loopEffects(e.Loop)) {
				if yes, known := headerExit(es, i); known {
					c.Check(yes, "visit-all", e.Pos, name, "stops before every trace was visited")
				} else {
					c.Undec("visit-all", name, "can't tell how the loop at %s ends", c.P.Pos(e.Pos))
				}
			}
			if vis {
				visited = true
				for _, v := range e.Loop.Vars {
					if s, ok := v.Start.Typ.Underlying().(*types.Slice); ok && strings.HasSuffix(s.Elem().String(), "StaticTrace") {
						accOf[e.Loop] = v
						perCat[e.Loop] = emptySlice(in, f, v.Init)
					}
				}
				for _, it := range e.Loop.Iters {
					c.visitIter(in, fn, e.Loop, it, accOf[e.Loop], perCat[e.Loop], stats, req)
				}
				continue
			}
			for _, it := range e.Loop.Iters {
				if c.hasVisiting(loopEffects(e.Loop)) {
					has := c.hasVisiting(it.Effects)
					isnil := false
					it.Facts.Each(func(t *eng.Term, v bool) {
						if x := nilCompared(t); x != nil && v && x.Op == eng.ONextVal {
							isnil = true
						}
					})
					c.Check(has || isnil, "visit-all", e.Pos, name+" categories", "a category is skipped: %s", strings.Join(it.Facts.Strings(), " & "))
				}
				walk(it.Effects, it.Facts, true)
			}
		}
	}
	walk(p.Effects, p.Facts, false)
	if !visited {
		c.Undec("observe-each", name, "no loop over the collected traces recognised")
		return
	}

	// the result
	tr := f["Traces"].Strip()
	base := tr
	sortIdx, cutIdx := -1, -1
	if tr.Op == eng.OSlice {
		base = tr.Args[0].Strip()
		lo, hi := tr.Args[1], tr.Args[2]
		if lo != nil {
			k, isc := lo.IntConst()
			c.Check(isc && k == 0, "newest-kept", fn.Pos(), name, "the result starts at %s of the sorted traces", lo)
		}
		if hi != nil && isLimit(hi, req) {
			c.OK("limited", name+" cut")
		} else if hi != nil {
			if lim := limitTerm(p, req); lim != nil && p.Facts.Le(hi, lim, 0) && p.Facts.Le(lim, hi, 0) {
				c.OK("limited", name+" cut")
			} else if lim != nil && !p.Facts.Le(hi, lim, 0) {
				c.Fail("limited", fn.Pos(), name+" cut", "%s traces are returned instead of at most the limit", hi)
			} else {
				c.Fail("limited", fn.Pos(), name+" cut", "the result is cut at %s instead of the limit", hi)
			}
		}
	} else if lim := limitTerm(p, req); lim != nil {
		c.Check(p.Facts.Le(in.T.Len(tr), lim, 0), "limited", fn.Pos(), name, "more traces than the limit can be returned: %s", strings.Join(p.FactStrings(), " & "))
	} else {
		c.Fail("limited", fn.Pos(), name, "the number of returned traces isn't limited")
	}
	for i, e := range p.Effects {
		if isSort(e) && len(e.Args) > 0 && e.Args[0].Strip() == base {
			sortIdx = i
			c.newestFirst(e, name)
		}
		if e.Kind == eng.ESliceOp && e.Addr != nil && e.Addr.Strip() == base && cutIdx < 0 {
			cutIdx = i
		}
	}
	if c.Check(sortIdx >= 0, "sorted", fn.Pos(), name, "the traces of all categories aren't sorted") && cutIdx >= 0 {
		c.Check(sortIdx < cutIdx, "sorted", p.Effects[cutIdx].Pos, name+" cut", "the traces are cut to the limit before they are sorted")
	}
	// every accumulated trace makes it into the result
	if l, lv := loopVar(p.Effects, base); l != nil {
		c.Check(emptySlice(in, p.Facts, lv.Init), "collected", fn.Pos(), name, "the result starts with %s", lv.Init)
		if !c.isVisiting(l) {
			for _, it := range l.Iters {
				nx := it.Next[lv.Start]
				if !c.hasVisiting(it.Effects) || nx == nil {
					continue
				}
				_, av := loopVar(it.Effects, nx)
				switch {
				case av != nil && av.Init == lv.Start:
					c.OK("collected", name+" direct")
				case nx.Op == eng.OAppend:
					got := nx.Args[len(nx.Args)-1].Strip()
					_, av := loopVar(it.Effects, got)
					if av == nil {
						c.Undec("collected", name, "%s", nx)
						continue
					}
					c.Check(nx.Args[0].Strip() == lv.Start, "collected", fn.Pos(), name+" append", "the traces of a category are appended to %s", nx.Args[0])
				case nx == lv.Start:
					empty := false
					for _, e := range it.Effects {
						if e.Kind == eng.ELoop && accOf[e.Loop] != nil && emptySlice(in, it.Facts, accOf[e.Loop].Start) {
							empty = true
						}
					}
					c.Check(empty, "collected", fn.Pos(), name+" dropped", "the matching traces of a category are dropped: %s", strings.Join(it.Facts.Strings(), " & "))
				default:
					_, av := loopVar(it.Effects, nx)
					if av != nil && emptySlice(in, it.Facts, av.Init) {
						c.Fail("collected", fn.Pos(), name+" overwritten", "the traces of a category replace those of the previous ones")
					} else {
						c.Undec("collected", name, "%s", nx)
					}
				}
			}
		}
	} else {
		c.Undec("collected", name, "%s", base)
	}
	// counts
	zero := func(t *eng.Term) bool { k, ok := t.IntConst(); return ok && k == 0 }
	count := func(field string, want func(l *eng.LoopInfo, it *eng.Iter) (int64, bool)) {
		v := f[field]
		if v == nil {
			c.Fail("counts", fn.Pos(), name+" "+field, "isn't reported")
			return
		}
		if v.IsConst() {
			c.Fail("counts", fn.Pos(), name+" "+field, "is always %s", v)
			return
		}
		if field == "MatchCount" && v == in.T.Len(base) {
			c.OK("counts", name+" "+field)
			return
		}
		if field == "MatchCount" && v == in.T.Len(tr) {
			c.Fail("counts", fn.Pos(), name+" "+field, "counts the returned traces instead of the matching ones")
			return
		}
		if ll, _ := loopVar(p.Effects, v); ll == nil {
			// a counter that was corrected afterwards
			for _, lt := range in.T.LinOf(v).V {
				m := lt.T
				if ll, _ := loopVar(p.Effects, m); ll == nil {
					continue
				}
				rest, z := in.T.Sub(v, m), in.T.Int(0)
				if p.Facts.EqInt(rest, z, 0) {
					v = m
				} else if p.Facts.Le(in.T.Add(rest, 1), z, 0) || p.Facts.Le(z, in.T.Add(rest, -1), 0) {
					c.Fail("counts", fn.Pos(), name+" "+field, "is off by %s", rest)
					return
				}
			}
		}
		ok, why := c.perVisit(p.Effects, v, zero, func(l *eng.LoopInfo, it *eng.Iter, start, next *eng.Term) {
			w, known := want(l, it)
			if !known {
				return
			}
			d, isc := in.T.LinConst(in.T.Sub(next, start))
			if !isc {
				c.Undec("counts", name+" "+field, "%s -> %s", start, next)
				return
			}
			c.Check(d == w, "counts", fn.Pos(), name+" "+field, "changes by %d instead of %d for a visited trace: %s", d, w, strings.Join(it.Facts.Strings(), " & "))
		})
		if !ok && strings.HasPrefix(why, "starts with") {
			c.Fail("counts", fn.Pos(), name+" "+field, "is restarted for each category (%s)", why)
		} else if !ok {
			c.Undec("counts", name+" "+field, "%s", why)
		}
	}
	count("TotalCount", func(*eng.LoopInfo, *eng.Iter) (int64, bool) { return 1, true })
	count("MatchCount", func(l *eng.LoopInfo, it *eng.Iter) (int64, bool) {
		av := accOf[l]
		if av == nil || it.Next[av.Start] == nil {
			return 0, false
		}
		if it.Next[av.Start] == av.Start {
			return 0, true
		}
		return 1, true
	})
}

func loopEffects(l *eng.LoopInfo) []*eng.Effect {
	var out []*eng.Effect
	for _, it := range l.Iters {
		out = append(out, it.Effects...)
	}
	return out
}

// isSort: a call sorting its first argument in place.
func isSort(e *eng.Effect) bool {
	switch strings.Split(callName(e), "[")[0] {
	case "sort.Sort", "sort.Stable", "sort.Slice", "sort.SliceStable", "slices.SortFunc", "slices.SortStableFunc":
		return true
	}
	return false
}

// sliceContent: what was stored into the array a slice literal refers to.
func sliceContent(p *eng.Path, v *eng.Term) *eng.Term {
	v = v.Strip()
	if v.Op == eng.OSlice {
		for i := len(p.Effects) - 1; i >= 0; i-- {
			e := p.Effects[i]
			if e.Kind == eng.EStore && e.Addr.Op == eng.OIndex && e.Addr.Args[0] == v.Args[0] {
				return e.Val
			}
		}
	}
	return v
}

// countdown: a variable that starts with the limit, and decreases with every
// selected trace, is zero or less.
func countdown(in *eng.Interp, l *eng.LoopInfo, it *eng.Iter, acc *eng.LoopVar, req *eng.Term) bool {
	for _, lv := range l.Vars {
		if lv == acc || lv.Init == nil || lv.Start == nil || !isLimit(lv.Init.Strip(), req) || !it.Facts.Le(lv.Start, in.T.Int(0), 0) {
			continue
		}
		ok := true
		for _, x := range l.Iters {
			n, a := x.Next[lv.Start], x.Next[acc.Start]
			if n == nil || a == nil {
				ok = false
				continue
			}
			d := int64(0)
			if a != acc.Start {
				d = -1
			}
			ok = ok && x.Facts.EqInt(n, lv.Start, d)
		}
		if ok {
			return true
		}
	}
	return false
}

// visitIter: what happens to one visited trace.
func (c *C) visitIter(in *eng.Interp, fn *ssa.Function, l *eng.LoopInfo, it *eng.Iter, acc *eng.LoopVar, perCat bool, stats, req *eng.Term) {
	const name = "Collector.Search"
	var cand *eng.Term
	obs := 0
	var allow *eng.Effect
	for _, e := range it.Effects {
		x := c.candidateOf(e)
		if x == nil {
			continue
		}
		if cand == nil {
			cand = x
		}
		if x != cand {
			c.Fail("one-candidate", e.Pos, name, "a visit deals with two traces: %s and %s", cand, x)
		}
		switch n := callName(e); {
		case strings.HasSuffix(n, ").Observe"):
			obs++
			if e.Args[0].Strip() != stats {
				c.Fail("observe-each", e.Pos, name+" stats", "traces are counted in %s instead of the returned stats", e.Args[0])
			}
		case strings.HasSuffix(n, ").Allow"):
			allow = e
			r := e.Args[0].Strip()
			if !r.Any(func(t *eng.Term) bool { return t == req }) {
				c.Undec("allowed-only", name+" filter", "filter is %s", r)
			}
		}
	}
	facts := strings.Join(it.Facts.Strings(), " & ")
	c.Check(obs == 1, "observe-each", fn.Pos(), name, "a visited trace is counted %d times in the stats: %s", obs, facts)
	if acc == nil {
		c.Undec("allowed-only", name, "no accumulator recognised")
		return
	}
	nx := it.Next[acc.Start]
	if nx == nil {
		c.Undec("allowed-only", name, "unknown accumulator")
		return
	}
	allowed, known := false, false
	if allow != nil {
		allowed, known = it.Facts.Eval(allow.Result)
	}
	if nx == acc.Start {
		full := false
		it.Facts.EachTerm(func(t *eng.Term) {
			if isLimit(t, req) && it.Facts.Le(t, in.T.Len(acc.Start), 0) {
				full = true
			}
		})
		switch {
		case known && !allowed:
			c.OK("matching-kept", name)
		case countdown(in, l, it, acc, req):
			c.OK("matching-kept", name+" limit")
		case full && perCat:
			c.OK("matching-kept", name+" limit")
		case full:
			c.Fail("matching-kept", fn.Pos(), name+" limit", "a trace is skipped because enough traces of other categories were selected, although it may be newer")
		default:
			c.Fail("matching-kept", fn.Pos(), name, "a matching trace is skipped although fewer than the limit were selected: %s", facts)
		}
		return
	}
	if nx.Op != eng.OAppend || nx.Args[0].Strip() != acc.Start {
		c.Undec("allowed-only", name, "accumulates %s", nx)
		return
	}
	c.Check(known && allowed, "allowed-only", fn.Pos(), name, "a trace is selected on a path where the filter isn't known to allow it: %s", facts)
	el := lastElem(nx)
	if el == nil {
		c.Undec("selected-copy", name, "%s", nx)
		return
	}
	el = el.Strip()
	cp := el
	if strings.HasSuffix(el.CalleeName(), ").TrimStacks") {
		cp = el.Args[0].Strip()
		c.Check(fieldLoad(el.Args[1], req, "StackDepth"), "selected-copy", fn.Pos(), name+" depth", "stacks are trimmed to %s instead of the requested depth", el.Args[1])
	} else {
		c.Fail("selected-copy", fn.Pos(), name+" depth", "stacks aren't trimmed to the requested depth: %s", el)
	}
	if cp.CalleeName() == mod+".NewSearchTrace" {
		c.Check(cp.Args[0].Strip() == cand, "selected-copy", fn.Pos(), name, "another trace than the visited one is selected: %s", cp)
	} else {
		c.Undec("selected-copy", name, "%s", el)
	}
}

// newestFirst: the order in which a sort call puts static traces.
func (c *C) newestFirst(e *eng.Effect, what string) {
	var (
		fn  *ssa.Function
		off int // index of the first of the two compared parameters
	)
	name := strings.Split(callName(e), "[")[0]
	switch name {
	case "sort.Sort", "sort.Stable":
		arg := e.Args[0]
		for arg != nil && (arg.Op == eng.OIface || arg.Op == eng.OConv) {
			if n := namedOf(arg.Typ); n != nil && c.P.InRepoType(n) && c.P.Method(n, "Less") != nil {
				fn = c.P.Method(n, "Less")
				break
			}
			if t := arg.DynType(); t != nil {
				if n := namedOf(t); n != nil && c.P.InRepoType(n) {
					fn = c.P.Method(n, "Less")
					break
				}
			}
			arg = arg.Args[0]
		}
		off = 1
	default:
		if len(e.Args) == 2 {
			if cl := e.Args[1].Strip(); cl.Op == eng.OClosure || cl.Op == eng.OFunc {
				fn, _ = cl.Obj.(*ssa.Function)
			}
		}
	}
	if fn == nil || len(fn.Blocks) == 0 {
		c.Undec("newest-first", "order "+what, "no comparison recognised")
		return
	}
	// Decided for a newer and for an older first trace: comparisons of the two
	// start times are replaced by what they say then.
	for _, sign := range []int64{1, -1} {
		c.orderCase(fn, off, sign, what)
	}
}

func (c *C) orderCase(fn *ssa.Function, off int, sign int64, what string) {
	var pi, pj *eng.Term
	isStart := func(x *eng.Term) bool {
		return (x.Op == eng.OField || x.Op == eng.OFieldVal) && x.FieldVar() != nil && x.FieldVar().Name() == "TraceStarted" || strings.HasSuffix(x.CalleeName(), ").Started")
	}
	// which of the two traces a term is the exact start time of
	who := func(t *eng.Term) *eng.Term {
		for {
			t = t.Strip()
			switch t.CalleeName() {
			case "(time.Time).UTC", "(time.Time).Local", "(time.Time).In":
				t = t.Args[0]
				continue
			}
			break
		}
		x := t
		if x.Op == eng.OLoad {
			x = x.Args[0]
		}
		if !isStart(x) {
			return nil
		}
		i, j := t.Contains(pi), t.Contains(pj)
		switch {
		case i && !j:
			return pi
		case j && !i:
			return pj
		}
		return nil
	}
	var in *eng.Interp
	in = eng.NewInterp(c.P, eng.Config{
		Inline: func(fn *ssa.Function) bool { return c.P.InRepo(fn) },
		Intrinsic: func(st *eng.State, cal *eng.Callee, args []*eng.Term) (*eng.Term, bool) {
			switch {
			case cal.Name == "(time.Time).UnixNano" && len(args) == 1 && who(args[0]) == pi:
				return in.T.Int(10 + sign), true
			case cal.Name == "(time.Time).UnixNano" && len(args) == 1 && who(args[0]) == pj:
				return in.T.Int(10), true
			}
			if len(args) != 2 {
				return nil, false
			}
			x, y := who(args[0]), who(args[1])
			if x == nil || y == nil {
				return nil, false
			}
			s := int64(0)
			if x != y {
				s = sign
				if x == pj {
					s = -s
				}
			}
			switch cal.Name {
			case "(time.Time).After":
				return in.T.Bool(s > 0), true
			case "(time.Time).Before":
				return in.T.Bool(s < 0), true
			case "(time.Time).Equal":
				return in.T.Bool(s == 0), true
			case "(time.Time).Compare", "(time.Time).Sub":
				return in.T.Int(s), true
			}
			return nil, false
		},
	})
	ps := in.ParamSyms(fn)
	if len(ps) < off+2 {
		return
	}
	pi, pj = ps[off], ps[off+1]
	age := "newer"
	if sign < 0 {
		age = "older"
	}
	con := "order " + what + " " + age
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || len(p.Ret) != 1 {
			continue
		}
		ret := p.Ret[0].Strip()
		facts := strings.Join(p.FactStrings(), " & ")
		same, derived, coarse := false, false, false
		look := func(t *eng.Term) {
			t.Any(func(x *eng.Term) bool {
				if x.Op == eng.OCall && x.Any(isStart) && !isStart(x) && who(x) == nil {
					derived = true
					switch x.CalleeName() {
					case "(time.Time).Truncate", "(time.Time).Round", "(time.Time).Unix", "(time.Time).UnixMilli", "(time.Time).UnixMicro", "(time.Time).Format", "(time.Time).Second", "(time.Time).Nanosecond":
						coarse = true
					}
				}
				return false
			})
		}
		look(ret)
		p.Facts.EachTerm(func(t *eng.Term) { look(t) })
		p.Facts.Each(func(t *eng.Term, v bool) {
			if v && t.Op == eng.OBin && t.Any(isStart) && t.Contains(pi) && t.Contains(pj) {
				same = true
			}
		})
		first, isc := ret.BoolConst()
		equal := false
		if k, ok := ret.IntConst(); ok && !isc {
			first, isc, equal = k < 0, true, k == 0
		}
		switch {
		case same:
		case coarse:
			c.Fail("newest-first", fn.Pos(), con, "start times are compared only roughly: %s", facts)
		case derived:
			c.Undec("newest-first", con, "%s: %s", ret, facts)
		case isc:
			c.Check(first == (sign > 0) && !equal, "newest-first", fn.Pos(), con, "the %s of two traces is in the wrong place: %s", age, facts)
		default:
			c.Fail("newest-first", fn.Pos(), con, "traces are sorted by %s instead of their start times: %s", ret, facts)
		}
	}
}

// flattened: the helper that turns errors into problems yields the message of
// every error.
func (c *C) flattened() {
	fn := c.P.Func("internal/trcutil", "FlattenErrors")
	if fn == nil || len(fn.Params) != 1 {
		return // an internal helper: its callers are judged without it
	}
	const name = "FlattenErrors"
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	errs := ps[0]
	n := in.T.Len(errs)
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || len(p.Ret) != 1 {
			continue
		}
		v := p.Ret[0].Strip()
		facts := strings.Join(p.FactStrings(), " & ")
		if p.Facts.EqInt(n, in.T.Int(0), 0) {
			continue
		}
		if v.IsNil() {
			c.Fail("problems", fn.Pos(), name+" none", "nothing is reported although there may be errors: %s", facts)
			continue
		}
		for i, e := range p.Effects {
			if e.Kind != eng.ELoop {
				continue
			}
			l := e.Loop
			_, lv := loopVar([]*eng.Effect{e}, v)
			stores := false
			for _, x := range loopEffects(l) {
				stores = stores || x.Kind == eng.EStore && x.Addr.Op == eng.OIndex && x.Addr.Args[0].Strip() == v
			}
			if lv == nil && !stores {
				continue
			}
			if yes, known := headerExit(p.Effects, i); known {
				c.Check(yes, "problems", e.Pos, name+" early", "errors can be left out: the loop ends early")
			}
			for _, it := range l.Iters {
				ifacts := strings.Join(it.Facts.Strings(), " & ")
				var msg *eng.Term
				switch {
				case stores:
					for _, x := range it.Effects {
						if x.Kind == eng.EStore && x.Addr.Op == eng.OIndex && x.Addr.Args[0].Strip() == v {
							msg = x.Val
							if _, isc := x.Addr.Args[1].IntConst(); isc {
								c.Fail("problems", x.Pos, name+" place", "errors overwrite each other: all are put in place %s", x.Addr.Args[1])
							}
						}
					}
				case it.Next[lv.Start] == lv.Start:
				default:
					msg = lastElem(it.Next[lv.Start])
					if msg == nil {
						c.Undec("problems", name, "%v", it.Next[lv.Start])
						continue
					}
				}
				if msg == nil {
					c.Fail("problems", e.Pos, name+" each", "an error is left out: %s", ifacts)
					continue
				}
				own := msg.Any(func(t *eng.Term) bool {
					return t.CalleeName() == "(error).Error" && len(t.Args) == 1 && t.Args[0].Any(func(x *eng.Term) bool {
						return x.Op == eng.OIndex && x.Args[0].Strip() == errs && x.Args[1] == l.K
					})
				})
				if own {
					c.OK("problems", name+" each")
				} else if msg.IsConst() {
					c.Fail("problems", e.Pos, name+" each", "an error is reported as %s", msg)
				} else {
					c.Undec("problems", name, "%s", msg)
				}
			}
		}
	}
}

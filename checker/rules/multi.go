package rules

import (
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// iterations compares the number of iterations of the loop at es[i] with n.
// known is false if the facts don't say.
func iterations(in *eng.Interp, f *eng.Facts, l *eng.LoopInfo, n *eng.Term) (exactly, known bool) {
	if l.K == nil || len(l.Iters) == 0 {
		return false, false
	}
	lo := f.Le(n, l.K, 0)
	hi := true
	for _, it := range l.Iters {
		if !it.Facts.Le(in.T.Add(l.K, 1), n, 0) {
			hi = false
		}
	}
	if lo && hi {
		return true, true
	}
	// known to be different?
	for _, d := range []int64{-2, -1, 1, 2} {
		m := in.T.Add(n, d)
		if !f.Le(m, l.K, 0) {
			continue
		}
		all := true
		for _, it := range l.Iters {
			if !it.Facts.Le(in.T.Add(l.K, 1), m, 0) {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	// a constant number of iterations
	for k := int64(0); k <= 4; k++ {
		m := in.T.Int(k)
		if !f.Le(m, l.K, 0) || f.EqInt(n, m, 0) {
			continue
		}
		all := true
		for _, it := range l.Iters {
			if !it.Facts.Le(in.T.Add(l.K, 1), m, 0) {
				all = false
			}
		}
		if all {
			return false, true
		}
	}
	return false, false
}

func hasGo(es []*eng.Effect) bool {
	for _, e := range es {
		if e.Kind == eng.EGo {
			return true
		}
	}
	return false
}

func recvsOf(es []*eng.Effect) []*eng.Effect {
	var out []*eng.Effect
	for _, e := range es {
		if e.Kind == eng.ERecv || e.Kind == eng.ESelect && e.Case >= 0 && !e.Cases[e.Case].Send {
			out = append(out, e)
		}
	}
	return out
}

// recvsFrom: those of them that receive from a channel, and whether another
// case was chosen where that channel could have been received from.
func recvsFrom(es []*eng.Effect, ch *eng.Term) (out []*eng.Effect, other *eng.Effect) {
	from := func(t *eng.Term) bool { return t != nil && (ch == nil || t.Strip() == ch.Strip()) }
	for _, e := range es {
		switch {
		case e.Kind == eng.ERecv:
			out = append(out, e)
		case e.Kind == eng.ESelect && e.Case >= 0 && !e.Cases[e.Case].Send && from(e.Cases[e.Case].Chan):
			out = append(out, e)
		case e.Kind == eng.ESelect:
			for _, x := range e.Cases {
				if !x.Send && from(x.Chan) {
					other = e
				}
			}
		}
	}
	return out, other
}

// resultPart finds the part of a received (or computed) value with the type.
func resultPart(es []*eng.Effect, f *eng.Facts, from *eng.Term, typ types.Type) *eng.Term {
	var out *eng.Term
	look := func(t *eng.Term) {
		if t == nil {
			return
		}
		t.Any(func(x *eng.Term) bool {
			if x.Typ != nil && types.Identical(x.Typ, typ) && x != from && x.Contains(from) && (x.Op == eng.OFieldVal || x.Op == eng.OLoad) {
				out = x
			}
			return false
		})
	}
	f.Each(func(t *eng.Term, v bool) { look(t) })
	for _, e := range es {
		look(e.Val)
		for _, a := range e.Args {
			look(a)
		}
	}
	return out
}

// C17: searching several searchers is searching their union.
func c17(c *C) {
	fn := c.method("", "MultiSearcher", "Search")
	if fn == nil {
		return
	}
	resT := c.P.Named("", "SearchResponse")
	if resT == nil {
		c.Fail("anchor", token.NoPos, "SearchResponse", "missing")
		return
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || len(p.Ret) != 2 {
			continue
		}
		c.multiPath(in, fn, p, ps, resT)
	}
	c.flattened()
	some := false
	for what := range c.oks["sources"] {
		some = some || strings.HasSuffix(what, " some")
	}
	if !some && len(c.oks["gather-all"]) > 0 {
		c.Fail("sources", fn.Pos(), "MultiSearcher.Search some", "the list of sources is always empty")
	}
	c.Floor("asked-once", 1)
	c.Floor("merged-once", 1)
	c.Floor("sums", 2)
	c.Floor("newest-first", 1)
}

func (c *C) multiPath(in *eng.Interp, fn *ssa.Function, p *eng.Path, ps []*eng.Term, resT *types.Named) {
	const name = "MultiSearcher.Search"
	ms, req := ps[0], ps[2]
	n := in.T.Len(ms)
	none := p.Facts.EqInt(n, in.T.Int(0), 0) // without searchers, an empty answer will do
	if p.Ret[0].IsNil() || !p.Ret[1].IsNil() {
		if !none {
			c.Fail("partial", fn.Pos(), name, "the answers are given up: returns %s, %s", p.Ret[0], p.Ret[1])
		}
		return
	}
	c.OK("partial", name)
	f := finalFields(p, p.Ret[0].Strip(), resT)
	c.Check(f["Request"] != nil && f["Request"].Strip() == req, "response", fn.Pos(), name+" request", "the response refers to another request: %v", f["Request"])

	// normalized before anybody else can see the request
	norm := false
	var normRes *eng.Term
	var asks int
	var channel *eng.Term
	scattered := false
	for i, e := range p.Effects {
		switch {
		case strings.HasSuffix(callName(e), "trc.SearchRequest).Normalize") && len(e.Args) == 1 && e.Args[0].Strip() == req:
			norm, normRes = true, e.Result
		case e.Kind == eng.ELoop && hasGo(loopEffects(e.Loop)):
			scattered = true
			c.Check(norm, "normalized-first", e.Pos, name, "the request is handed out before it's normalized")
			if yes, known := headerExit(p.Effects, i); known {
				c.Check(yes, "asked-once", e.Pos, name+" all", "the scattering loop can stop early")
			}
			if ex, known := iterations(in, p.Facts, e.Loop, n); known {
				c.Check(ex, "asked-once", e.Pos, name+" all", "not every searcher is asked")
			} else {
				c.Undec("asked-once", name, "number of scattered requests")
			}
			for _, it := range e.Loop.Iters {
				gos := 0
				for _, g := range it.Effects {
					if g.Kind != eng.EGo {
						continue
					}
					gos++
					for _, sp := range g.Sub {
						if sp.Panic != nil {
							continue
						}
						ch, a := c.askPath(in, fn, sp, ms, req, e.Loop, g)
						asks += a
						if ch != nil {
							channel = ch
						}
					}
				}
				c.Check(gos == 1, "asked-once", e.Pos, name+" each", "a searcher is asked %d times: %s", gos, strings.Join(it.Facts.Strings(), " & "))
			}
		}
	}
	if !scattered {
		if none {
			return
		}
		c.Undec("asked-once", name, "no scattering loop recognised")
		return
	}
	if channel == nil {
		c.Undec("gather", name, "results aren't gathered through a channel")
		return
	}

	// gather
	resPtr := types.NewPointer(resT)
	errT := types.Universe.Lookup("error").Type()
	gathered := false
	stats := f["Stats"]
	if stats != nil {
		stats = stats.Strip()
		if stats.CalleeName() == mod+".NewSearchStats" {
			c.Check(fieldLoad(stats.Args[0], req, "Bucketing"), "stats-bucketing", fn.Pos(), name, "the stats use buckets %s", stats.Args[0])
		}
	} else {
		c.Fail("response", fn.Pos(), name+" stats", "no stats are returned")
	}
	traces := f["Traces"]
	var cutAt *eng.Effect
	for _, e := range p.Effects {
		if e.Kind == eng.ESliceOp && traces != nil && traces.Strip().Op == eng.OSlice && e.Addr != nil && e.Addr.Strip() == traces.Strip().Args[0].Strip() {
			cutAt = e
		}
	}
	base := traces
	if base != nil {
		base = base.Strip()
		if base.Op == eng.OSlice {
			base = base.Args[0].Strip()
		}
	}
	for i, e := range p.Effects {
		if e.Kind != eng.ELoop {
			continue
		}
		l := e.Loop
		rs := 0
		for _, it := range l.Iters {
			x, _ := recvsFrom(it.Effects, channel)
			rs += len(x)
		}
		if rs == 0 {
			continue
		}
		gathered = true
		if yes, known := headerExit(p.Effects, i); known {
			c.Check(yes, "gather-all", e.Pos, name+" early", "the gathering loop can stop before every answer was received")
		}
		ex, known := iterations(in, p.Facts, l, n)
		if known {
			c.Check(ex, "gather-all", e.Pos, name, "not exactly one answer per searcher is received")
		} else {
			c.Undec("gather-all", name, "number of received answers")
		}
		for _, it := range l.Iters {
			if x, other := recvsFrom(it.Effects, channel); len(x) == 0 && other != nil {
				if known && ex {
					c.Fail("gather-all", other.Pos, name+" other", "something other than an answer counts as one: %s", strings.Join(it.Facts.Strings(), " & "))
				} else {
					c.Undec("gather-all", name, "an iteration may receive no answer")
				}
				continue
			}
			c.gatherIter(in, fn, l, channel, it, f, base, stats, resPtr, errT)
		}
		// where the accumulators start
		for _, fld := range []string{"TotalCount", "MatchCount"} {
			if ll, lv := loopVar(p.Effects, f[fld]); ll == l {
				k, isc := lv.Init.IntConst()
				c.Check(isc && k == 0, "sums", fn.Pos(), name+" "+fld+" start", "starts at %s", lv.Init)
			}
		}
		if ll, lv := loopVar(p.Effects, base); ll == l {
			c.Check(emptySlice(in, p.Facts, lv.Init), "traces", fn.Pos(), name+" start", "starts with %s", lv.Init)
		}
		if ll, lv := loopVar(p.Effects, f["Problems"]); ll == l {
			c.Check(lv.Init.Any(func(t *eng.Term) bool { return t == normRes }) || lv.Init.Op == eng.OSym || lv.Init.Op == eng.OAppend, "problems", fn.Pos(), name+" request", "the problems of the request aren't reported: %s", lv.Init)
		}
	}
	if !gathered {
		c.Undec("gather-all", name, "no gathering loop recognised")
		return
	}

	// sorted, then limited
	sorted, sortIdx := false, -1
	for i, e := range p.Effects {
		if isSort(e) && len(e.Args) > 0 && e.Args[0].Strip() == base {
			sorted, sortIdx = true, i
			c.newestFirst(e, name)
		}
		if e == cutAt && e != nil {
			c.Check(sortIdx >= 0 && sortIdx < i, "sorted", e.Pos, name+" cut", "the traces are cut to the limit before they are sorted")
		}
	}
	if lim := limitTerm(p, req); lim != nil {
		tr := traces.Strip()
		if tr.Op == eng.OSlice {
			if lo := tr.Args[1]; lo != nil {
				k, isc := lo.IntConst()
				c.Check(isc && k == 0, "limited", fn.Pos(), name+" lower", "the result starts at %s of the sorted traces", lo)
			}
			hi := tr.Args[2]
			c.Check(hi != nil && p.Facts.Le(hi, lim, 0) && p.Facts.Le(lim, hi, 0), "limited", fn.Pos(), name+" cut", "the traces are cut at %v instead of the limit", hi)
		} else {
			c.Check(p.Facts.Le(in.T.Len(tr), lim, 0), "limited", fn.Pos(), name, "more traces than the limit can be returned: %s", strings.Join(p.FactStrings(), " & "))
		}
	} else {
		c.Fail("limited", fn.Pos(), name, "the number of returned traces isn't limited")
	}
	if base != nil && !emptySlice(in, p.Facts, base) {
		c.Check(sorted, "sorted", fn.Pos(), name, "the traces of all searchers aren't sorted")
	}
	c.multiSources(in, fn, p, f["Sources"])
}

// askPath: what the goroutine for one searcher does on one path.
func (c *C) askPath(in *eng.Interp, fn *ssa.Function, sp *eng.Path, ms, req *eng.Term, l *eng.LoopInfo, g *eng.Effect) (ch *eng.Term, asks int) {
	const name = "MultiSearcher.Search"
	var res *eng.Term
	sends := 0
	sp.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		switch {
		case e.Kind == eng.ECall && e.Callee != nil && strings.HasSuffix(e.Callee.Name, "trc.Searcher).Search") && len(e.Args) == 3:
			asks++
			res = e.Result
			r := e.Args[0].Strip()
			ok := r.Op == eng.OLoad && r.Args[0].Op == eng.OIndex && r.Args[0].Args[0] == ms && r.Args[0].Args[1] == l.K
			if !ok && r.Op == eng.OLoad && r.Args[0].Op == eng.OIndex && r.Args[0].Args[0] == ms {
				c.Fail("asked-once", e.Pos, name+" which", "iteration %s asks searcher %s", l.K, r.Args[0].Args[1])
			} else if !ok {
				c.Undec("asked-once", name, "asks %s", r)
			} else {
				c.OK("asked-once", name+" which")
			}
			c.Check(e.Args[2].Strip() == req, "asked-once", e.Pos, name+" request", "a searcher gets another request: %s", e.Args[2])
		case e.Kind == eng.ESend:
			sends++
			ch = e.Addr
			if ch == nil && len(e.Args) > 0 {
				ch = e.Args[0]
			}
			if ch != nil && ch.Strip().Op == eng.OMkChan {
				n := in.T.Len(ms)
				cp := ch.Strip().Args[0]
				c.Check(cp == n || sp.Facts.Le(n, cp, 0), "never-stuck", e.Pos, name, "the channel has room for %s answers only", cp)
			}
			if e.Val != nil && res != nil {
				c.Check(containsResult(e.Val, res, 0) && containsResult(e.Val, res, 1), "answer", e.Pos, name, "the answer or error of a searcher isn't passed on: %s", e.Val)
			}
		}
	})
	c.Check(asks == 1, "asked-once", g.Pos, name+" calls", "a searcher is searched %d times: %s", asks, strings.Join(sp.FactStrings(), " & "))
	if ch != nil || asks == 1 && sends == 0 {
		if sends == 0 && !usesChan(sp) {
			// results may be passed in another way
			wrote := false
			sp.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind == eng.EStore && !e.Fresh || strings.HasPrefix(callName(e), "(*sync.WaitGroup)") {
					wrote = true
				}
			})
			if !wrote {
				c.Fail("answer", g.Pos, name+" sends", "no answer is passed on: %s", strings.Join(sp.FactStrings(), " & "))
			}
			return nil, asks
		}
		c.Check(sends == 1, "answer", g.Pos, name+" sends", "%d answers are passed on for a searcher: %s", sends, strings.Join(sp.FactStrings(), " & "))
	}
	return ch, asks
}

func usesChan(p *eng.Path) bool {
	found := false
	p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if e.Kind == eng.ESend || e.Kind == eng.ESelect {
			found = true
		}
	})
	return found
}

func containsResult(v, res *eng.Term, i int) bool {
	return v.Any(func(t *eng.Term) bool { return isResult(t, res, i) })
}

// gatherIter: what happens with one received answer.
func (c *C) gatherIter(in *eng.Interp, fn *ssa.Function, l *eng.LoopInfo, channel *eng.Term, it *eng.Iter, f map[string]*eng.Term, base, stats *eng.Term, resPtr, errT types.Type) {
	const name = "MultiSearcher.Search"
	rs, _ := recvsFrom(it.Effects, channel)
	facts := strings.Join(it.Facts.Strings(), " & ")
	if !c.Check(len(rs) == 1, "gather-all", l.Header.Instrs[0].Pos(), name+" each", "%d answers are received in one iteration: %s", len(rs), facts) {
		return
	}
	r := rs[0].Result
	if r == nil {
		r = rs[0].Val
	}
	res := resultPart(it.Effects, it.Facts, r, resPtr)
	err := resultPart(it.Effects, it.Facts, r, errT)
	isNil := func(t *eng.Term) (nil_, known bool) {
		if t == nil {
			return false, false
		}
		return it.Facts.Eval(in.T.Cmp(token.EQL, t, in.T.Nil()))
	}
	resNil, resKnown := isNil(res)
	errNil, errKnown := isNil(err)
	merges := 0
	for _, e := range it.Effects {
		if strings.HasSuffix(callName(e), "trc.SearchStats).Merge") && len(e.Args) == 2 {
			merges++
			if res != nil {
				c.Check(e.Args[0].Strip() == stats && fieldLoad(e.Args[1], res, "Stats"), "merged-once", e.Pos, name+" args", "merges %s into %s", e.Args[1], e.Args[0])
			}
		}
	}
	next := func(field string) (start, nx *eng.Term) {
		v := f[field]
		if field == "Traces" {
			v = base
		}
		for _, lv := range l.Vars {
			if v != nil && lv.Start == v.Strip() {
				return lv.Start, it.Next[lv.Start]
			}
		}
		return nil, nil
	}
	pos := rs[0].Pos
	if res == nil {
		// the answer isn't even looked at
		c.Fail("merged-once", pos, name, "an answer is ignored: %s", facts)
		return
	}
	if resKnown && !resNil {
		c.Check(merges == 1, "merged-once", pos, name, "the stats of an answer are merged %d times: %s", merges, facts)
		for _, fld := range []string{"TotalCount", "MatchCount"} {
			s, nx := next(fld)
			if s == nil || nx == nil {
				if v := f[fld]; v == nil || v.IsConst() {
					c.Fail("sums", pos, name+" "+fld, "isn't summed up: %v", v)
				} else {
					c.Undec("sums", name+" "+fld, "%s", v)
				}
				continue
			}
			d := in.T.Sub(nx, s)
			c.Check(fieldLoad(d, res, fld), "sums", pos, name+" "+fld, "grows by %s for an answer: %s", d, facts)
		}
		for _, fld := range []string{"Traces", "Problems"} {
			s, nx := next(fld)
			if s == nil || nx == nil {
				if v := f[fld]; v == nil || emptySlice(in, it.Facts, v) {
					c.Fail(strings.ToLower(fld), pos, name, "the %s of an answer are dropped", strings.ToLower(fld))
				} else {
					c.Undec(strings.ToLower(fld), name, "%v", f[fld])
				}
				continue
			}
			want := 0
			nx.Any(func(t *eng.Term) bool {
				if t.Op == eng.OAppend {
					for _, a := range t.Args[1:] {
						if fieldLoad(a, res, fld) {
							want++
						}
					}
				}
				return false
			})
			if want == 0 && nx != s && nx.Op != eng.OAppend {
				c.Undec(strings.ToLower(fld), name, "%s", nx)
				continue
			}
			if want == 0 && appendsElements(it, res, fld) {
				c.OK(strings.ToLower(fld), name)
				continue
			}
			c.Check(want == 1 && nx.Contains(s), strings.ToLower(fld), pos, name, "%s become %s for an answer: %s", fld, nx, facts)
		}
		src := false
		for _, e := range it.Effects {
			if e.Kind == eng.EAppend || e.Kind == eng.ELoop || e.Kind == eng.ECall {
				for _, a := range append([]*eng.Term{e.Val}, e.Args...) {
					if a != nil && a.Any(func(t *eng.Term) bool { return fieldLoad(t, res, "Sources") }) {
						src = true
					}
				}
			}
			if e.Kind == eng.ELoop {
				for _, x := range loopEffects(e.Loop) {
					for _, a := range []*eng.Term{x.Val, x.Addr, x.Key} {
						if a != nil && a.Any(func(t *eng.Term) bool { return fieldLoad(t, res, "Sources") }) {
							src = true
						}
					}
				}
			}
		}
		c.Check(src, "sources", pos, name+" taken", "the sources of an answer are dropped: %s", facts)
	}
	if resKnown && resNil {
		c.Check(merges == 0, "merged-once", pos, name+" none", "a missing answer is merged: %s", facts)
	}
	if !resKnown && merges > 0 {
		c.Fail("merged-once", pos, name+" nil", "an answer is used although it may be missing: %s", facts)
	}
	s, nx := next("Problems")
	if s != nil && nx != nil {
		if !c.Check(nx.Contains(s), "problems", pos, name+" kept", "earlier problems are dropped: %s", facts) {
			return
		}
		if errKnown && !errNil || !errKnown && err != nil && resKnown && resNil {
			c.Check(nx.Any(func(t *eng.Term) bool { return t == err }), "problems", pos, name+" error", "the error of a searcher isn't reported: %s", facts)
		}
		if resKnown && resNil && errKnown && errNil {
			c.Check(nx != s, "problems", pos, name+" empty", "a searcher without an answer isn't reported: %s", facts)
		}
		if resKnown && resNil && !errKnown && err == nil {
			c.Check(nx != s, "problems", pos, name+" missing", "a searcher without an answer isn't reported: %s", facts)
		}
	}
}

// appendsElements: a nested loop goes over the elements of the field.
func appendsElements(it *eng.Iter, res *eng.Term, fld string) bool {
	for _, e := range it.Effects {
		if e.Kind == eng.ELoop {
			for _, x := range loopEffects(e.Loop) {
				if x.Kind == eng.EAppend && x.Val != nil && x.Val.Any(func(t *eng.Term) bool { return fieldLoad(t, res, fld) }) {
					return true
				}
			}
		}
	}
	return false
}

// multiSources: the final list of sources is sorted and has each source once.
func (c *C) multiSources(in *eng.Interp, fn *ssa.Function, p *eng.Path, v *eng.Term) {
	const name = "MultiSearcher.Search"
	if v == nil {
		c.Fail("sources", fn.Pos(), name, "no sources are returned")
		return
	}
	v = v.Strip()
	if emptySlice(in, p.Facts, v) {
		return // fine if there are none
	}
	c.OK("sources", name+" some")
	sorted := false
	n := strings.Split(v.CalleeName(), "[")[0]
	if n == "slices.Sorted" {
		return
	}
	list := v
	if n == "slices.Compact" {
		list = v.Args[0].Strip()
	}
	for list.Op == eng.OSlice && (list.Args[1] == nil || p.Facts.EqInt(list.Args[1], in.T.Int(0), 0)) {
		list = list.Args[0].Strip() // compacted in place
	}
	for _, e := range p.Effects {
		n := strings.Split(callName(e), "[")[0]
		if (n == "sort.Strings" || n == "slices.Sort" || isSort(e)) && len(e.Args) > 0 && e.Args[0].Strip() == list {
			sorted = true
		}
	}
	c.Check(sorted, "sources", fn.Pos(), name+" sorted", "the sources aren't sorted: %s", v)
	if n == "slices.Compact" {
		return
	}
	l, lv := loopVar(p.Effects, v)
	if l == nil {
		c.Undec("sources", name, "%s", v)
		return
	}
	c.Check(emptySlice(in, p.Facts, lv.Init), "sources", fn.Pos(), name+" start", "the list of sources starts with %s", lv.Init)
	for i, e := range p.Effects {
		if e.Kind == eng.ELoop && e.Loop == l {
			if yes, known := headerExit(p.Effects, i); known {
				c.Check(yes, "sources", e.Pos, name+" all", "the list of sources can end early")
			}
		}
	}
	hasRecv := false
	for _, it := range l.Iters {
		hasRecv = hasRecv || len(recvsOf(it.Effects)) > 0
	}
	if hasRecv {
		c.Fail("sources", fn.Pos(), name+" once", "sources that several searchers have are listed more than once")
		return
	}
	// keys of a map
	var m *eng.Term
	for _, it := range l.Iters {
		nx := it.Next[lv.Start]
		for _, e := range it.Effects {
			if e.Kind == eng.EMapRead && e.Key != nil && e.Key.Op == eng.ONextKey {
				m = e.Addr
				c.Check(nx != nil && nx.Op == eng.OAppend && lastElem(nx) != nil && lastElem(nx).Strip() == e.Key, "sources", fn.Pos(), name+" keys", "a source isn't listed as it is: %v", nx)
			}
		}
	}
	if m == nil {
		c.Undec("sources", name, "not the keys of a map")
		return
	}
	// every source was put there
	for i, e := range p.Effects {
		if e.Kind != eng.ELoop || e.Loop == l {
			continue
		}
		upd := false
		for _, x := range loopEffects(e.Loop) {
			upd = upd || x.Kind == eng.EMapUpdate && x.Addr == m
		}
		if !upd {
			continue
		}
		if yes, known := headerExit(p.Effects, i); known {
			c.Check(yes, "sources", e.Pos, name+" indexed", "not all sources are looked at")
		}
		for _, it := range e.Loop.Iters {
			n := 0
			for _, x := range it.Effects {
				if x.Kind == eng.EMapUpdate && x.Addr == m || x.Kind == eng.ELoop {
					n++
				}
			}
			if n == 0 && len(recvsOf(it.Effects)) == 0 {
				// the sources one by one: any of them but those already there
				indexed, there := false, false
				for _, o := range e.Loop.Iters {
					for _, x := range o.Effects {
						if x.Kind == eng.EMapUpdate && x.Addr == m && x.Key != nil && e.Loop.K != nil && x.Key.Contains(e.Loop.K) {
							indexed = true
						}
					}
				}
				it.Facts.EachTerm(func(t *eng.Term) {
					there = there || t.Any(func(t *eng.Term) bool { return t.Op == eng.OLookup || t.Op == eng.OLookupOk || t.Op == eng.OCall })
				})
				if indexed && !there {
					c.Fail("sources", e.Pos, name+" skipped", "a source may be left out: %s", strings.Join(it.Facts.Strings(), " & "))
					continue
				}
				c.Undec("sources", name, "a source may be skipped: %s", strings.Join(it.Facts.Strings(), " & "))
			}
		}
	}
}

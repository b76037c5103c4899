package rules

import (
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// lastStores: the last value stored per field of obj, with the addresses.
func lastStores(es []*eng.Effect, obj *eng.Term) map[string]*eng.Effect {
	out := map[string]*eng.Effect{}
	w := &eng.Path{Effects: es}
	w.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if e.Kind == eng.EStore && e.Addr.Op == eng.OField && e.Addr.Args[0].Strip() == obj {
			out[e.Addr.FieldVar().Name()] = e
		}
	})
	return out
}

// delta: what was added to a field by storing v.
func delta(in *eng.Interp, v, addr *eng.Term) *eng.Term {
	for _, l := range in.T.LinOf(v).V {
		if l.C == 1 && l.T.Op == eng.OLoad && l.T.Args[0] == addr {
			return in.T.Sub(v, l.T)
		}
	}
	return v
}

// timeChoice judges v as the older (or newer) of a and b, where zero times
// don't count. With assume, b isn't zero unless it's known to be.
func timeChoice(f *eng.Facts, v, a, b *eng.Term, older, assume bool) (ok, known bool, why string) {
	v, a, b = v.Strip(), a.Strip(), b.Strip()
	isZero := func(t *eng.Term) (z, known bool) {
		f.Each(func(x *eng.Term, val bool) {
			if x.CalleeName() == "(time.Time).IsZero" && x.Args[0].Strip() == t {
				z, known = val, true
			}
		})
		return
	}
	az, azk := isZero(a)
	bz, bzk := isZero(b)
	// rel: 1 a before b known, -1 b not after... as two booleans
	aBefore, aNotAfter, bBefore, bNotAfter := false, false, false, false // a<b, a<=b, b<a, b<=a
	f.Each(func(x *eng.Term, val bool) {
		n := x.CalleeName()
		if len(x.Args) != 2 || n != "(time.Time).Before" && n != "(time.Time).After" && n != "(time.Time).Equal" {
			return
		}
		p, q := x.Args[0].Strip(), x.Args[1].Strip()
		var fwd bool
		switch {
		case p == a && q == b:
			fwd = true
		case p == b && q == a:
			fwd = false
		default:
			return
		}
		if n == "(time.Time).Equal" {
			if val {
				aNotAfter, bNotAfter = true, true
			}
			return
		}
		lt := n == "(time.Time).Before" // p<q
		if !lt {
			fwd = !fwd // q<p
		}
		if fwd { // a<b
			if val {
				aBefore, aNotAfter = true, true
			} else {
				bNotAfter = true
			}
		} else {
			if val {
				bBefore, bNotAfter = true, true
			} else {
				aNotAfter = true
			}
		}
	})
	if !older {
		aBefore, bBefore = bBefore, aBefore
		aNotAfter, bNotAfter = bNotAfter, aNotAfter
	}
	// now: a preferred if aNotAfter
	isZ := v.Op == eng.OZero || v.Op == eng.OConst
	switch {
	case isZ:
		if az && bz {
			return true, true, ""
		}
		return false, azk && bzk, "zero"
	case !older && (v == a && aNotAfter || v == b && bNotAfter):
		// the zero time is the oldest of all
		return true, true, ""
	case v == a:
		if bz || aNotAfter && azk && !az {
			return true, true, ""
		}
		if azk && az && bzk && bz {
			return true, true, ""
		}
		return false, bBefore || az && !(bzk && bz) || !aNotAfter && !bNotAfter, "the first"
	case v == b:
		if az || bNotAfter && (bzk || assume) && !bz {
			return true, true, ""
		}
		return false, aBefore || bz || !aNotAfter && !bNotAfter || bNotAfter && !bzk && !assume, "the second"
	}
	return false, false, v.String()
}

// C15: statistics classify every observed trace.
func c15(c *C) {
	fn := c.method("", "SearchStats", "Observe")
	if fn == nil {
		return
	}
	ssT := c.P.Named("", "SearchStats")
	csT := c.P.Named("", "CategoryStats")
	if ssT == nil || csT == nil {
		c.Fail("anchor", token.NoPos, "SearchStats", "missing")
		return
	}
	const name = "SearchStats.Observe"
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil {
			c.Fail("no-panic", fn.Pos(), name, "panics: %s", p.Panic)
			continue
		}
		found := false
		for i, e := range p.Effects {
			if e.Kind != eng.ELoop {
				continue
			}
			obs := false
			for _, x := range loopEffects(e.Loop) {
				if r, m := c.traceMethod(x); r != nil && m == "Category" {
					obs = true
				}
			}
			if !obs {
				continue
			}
			found = true
			if yes, known := headerExit(p.Effects, i); known {
				c.Check(yes, "all-observed", e.Pos, name, "stops before all traces were observed")
			}
			if ex, known := iterations(in, p.Facts, e.Loop, in.T.Len(ps[1])); known {
				c.Check(ex, "all-observed", e.Pos, name+" count", "not every given trace is observed")
			} else {
				c.Undec("all-observed", name, "number of iterations")
			}
			for _, it := range e.Loop.Iters {
				c.observeIter(in, fn, ps, e.Loop, it)
			}
		}
		if !found {
			if p.Facts.Le(in.T.Len(ps[1]), in.T.Int(0), 0) {
				continue
			}
			c.Undec("all-observed", name, "no loop over the traces recognised")
		}
	}
	c.Floor("classified", 3)
	c.Floor("buckets", 1)
	c.totalCount()
	c.statsConstructors()
}

func (c *C) observeIter(in *eng.Interp, fn *ssa.Function, ps []*eng.Term, l *eng.LoopInfo, it *eng.Iter) {
	const name = "SearchStats.Observe"
	ss := ps[0]
	facts := strings.Join(it.Facts.Strings(), " & ")
	var tr *eng.Term
	var seq []struct {
		m string
		t *eng.Term
	}
	w := &eng.Path{Effects: it.Effects}
	w.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if r, m := c.traceMethod(e); r != nil {
			if tr == nil {
				tr = r.Strip()
			}
			if r.Strip() != tr {
				c.Fail("one-trace", e.Pos, name, "an iteration looks at two traces")
			}
			seq = append(seq, struct {
				m string
				t *eng.Term
			}{m, e.Result})
		}
	})
	if tr == nil {
		c.Fail("classified", fn.Pos(), name, "a trace isn't looked at: %s", facts)
		return
	}
	if !(tr.Op == eng.OLoad && tr.Args[0].Op == eng.OIndex && tr.Args[0].Args[0] == ps[1] && tr.Args[0].Args[1] == l.K) {
		c.Undec("classified", name, "observes %s", tr)
	}
	// the category's stats
	var cs *eng.Term
	cat := func(t *eng.Term) bool {
		r, m := c.termMethod(t.Strip())
		return r != nil && m == "Category" && r.Strip() == tr
	}
	var made *eng.Term
	var made0 *eng.Effect
	lookedUp := false
	for _, e := range it.Effects {
		switch e.Kind {
		case eng.ECall:
			if callName(e) == mod+".NewCategoryStats" && e.Result != nil {
				made, made0 = e.Result.Strip(), e
			}
		case eng.EMapRead:
			if !fieldLoad(e.Addr, ss, "Categories") {
				continue
			}
			lookedUp = true
			c.Check(cat(e.Key), "category", e.Pos, name+" lookup", "looks up %s instead of the category", e.Key)
			v := e.Val
			if e.Result != nil {
				v = e.Result
			}
			present := false
			it.Facts.Each(func(t *eng.Term, val bool) {
				if t.Op == eng.OLookupOk && val {
					present = true
				}
				if x := nilCompared(t); x != nil && x.Strip() == v.Strip() && !val {
					present = true
				}
			})
			if present {
				cs = v.Strip()
			}
		case eng.EMapUpdate:
			if !fieldLoad(e.Addr, ss, "Categories") {
				continue
			}
			c.Check(cat(e.Key), "category", e.Pos, name+" created", "new stats are filed under %s", e.Key)
			if cs != nil && cs != e.Val.Strip() {
				c.Fail("category", e.Pos, name+" replaced", "existing stats of a category are replaced: %s", facts)
			}
			cs = e.Val.Strip()
			if cs.CalleeName() == mod+".NewCategoryStats" {
				c.Check(cat(cs.Args[0]) && fieldLoad(cs.Args[1], ss, "Bucketing"), "category", e.Pos, name+" new", "new stats are made for %s and %s", cs.Args[0], cs.Args[1])
			}
		}
	}
	if cs == nil && made != nil && lookedUp && !escapes(it.Effects, made) {
		c.Fail("category", made0.Pos, name+" unfiled", "the stats made for a new category aren't filed: %s", facts)
		return
	}
	if cs == nil {
		c.Undec("category", name, "stats of the category: %s", facts)
		return
	}
	st := lastStores(it.Effects, cs)
	// how the trace is classified
	fin, unfin := boolKnown(it.Facts, func(t *eng.Term) bool { r, m := c.termMethod(t); return r != nil && m == "Finished" })
	err, unerr := boolKnown(it.Facts, func(t *eng.Term) bool { r, m := c.termMethod(t); return r != nil && m == "Errored" })
	if fin && unfin || err && unerr {
		// readings that differ: still exactly one class
	}
	d := func(f string) (int64, bool) {
		e := st[f]
		if e == nil {
			return 0, true
		}
		return in.T.LinConst(delta(in, e.Val, e.Addr))
	}
	active, ok1 := d("ActiveCount")
	errored, ok2 := d("ErroredCount")
	var bucketLoops []*eng.Effect
	var bidx []int
	for i, e := range it.Effects {
		if e.Kind == eng.ELoop {
			for _, x := range loopEffects(e.Loop) {
				if x.Kind == eng.EStore && x.Addr.Op == eng.OIndex && fieldLoad(x.Addr.Args[0], cs, "BucketCounts") {
					bucketLoops = append(bucketLoops, e)
					bidx = append(bidx, i)
					break
				}
			}
		}
	}
	for _, e := range it.Effects {
		if e.Kind == eng.EStore && e.Addr.Op == eng.OIndex && fieldLoad(e.Addr.Args[0], cs, "BucketCounts") && len(bucketLoops) == 0 && (unfin && !fin || fin && err && !unerr) {
			c.Fail("classified", e.Pos, name+" bucket", "a trace that's active or errored is counted by duration: %s", facts)
		}
	}
	if !ok1 || !ok2 {
		c.Undec("classified", name, "counts change by an unknown amount")
		return
	}
	// an early exit leaves the loop without stores in its generic iteration
	buckets := int64(len(bucketLoops))
	wantA, wantB, wantE := int64(0), int64(0), int64(0)
	class := ""
	switch {
	case unfin && !fin:
		wantA, class = 1, "active"
	case fin && err && !unerr:
		wantE, class = 1, "errored"
	case fin && unerr && !err:
		wantB, class = 1, "finished"
	default:
		c.Check(active+errored+buckets == 1, "classified", fn.Pos(), name+" mixed", "a trace is counted %d times: %s", active+errored+buckets, facts)
		c.Undec("classified", name, "%s", facts)
		return
	}
	c.Check(active == wantA && errored == wantE && buckets == wantB, "classified", fn.Pos(), name+" "+class, "a trace that's %s is counted as active %d, errored %d, by duration %d times", class, active, errored, buckets)
	// readings in an order that can't misclassify
	fi, ei := -1, -1
	for i, x := range seq {
		if x.m == "Finished" && fi < 0 {
			fi = i
		}
		if x.m == "Errored" && ei < 0 {
			ei = i
		}
	}
	if fi >= 0 && ei >= 0 {
		c.Check(fi < ei, "read-order", fn.Pos(), name, "the error state is read before the finished state, so that a trace that fails and finishes in between is counted as successful")
	}
	for i, x := range seq {
		if x.m == "Duration" && class == "finished" {
			c.Check(i > fi, "read-order", fn.Pos(), name+" duration", "the duration is read before the finished state")
		}
	}
	// events
	if e := st["EventCount"]; e == nil {
		c.Fail("events", fn.Pos(), name, "the events of a trace aren't counted: %s", facts)
	} else {
		dv := delta(in, e.Val, e.Addr)
		ok := false
		if dv.Op == eng.OLen {
			r, m := c.termMethod(dv.Args[0].Strip())
			ok = r != nil && m == "Events" && r.Strip() == tr
		}
		if !ok {
			if _, isc := in.T.LinConst(dv); isc || dv.Op == eng.OLen {
				c.Fail("events", e.Pos, name, "the event count grows by %s", dv)
			} else {
				c.Undec("events", name, "the event count grows by %s", dv)
			}
		} else {
			c.OK("events", name)
		}
	}
	// buckets
	for j, e := range bucketLoops {
		c.bucketLoop(in, fn, ss, cs, tr, it, bidx[j], e)
	}
	// times
	for _, f := range []string{"Oldest", "Newest"} {
		csT := c.P.Named("", "CategoryStats")
		fv := fieldNamed(csT, f)
		if fv == nil {
			continue
		}
		addr := in.T.Field(cs, fieldIndex(csT, fv), fv)
		var a, s *eng.Term
		for _, x := range seq {
			if x.m == "Started" {
				s = x.t
			}
		}
		e := st[f]
		if e == nil && s == nil {
			c.Fail("times", fn.Pos(), name+" "+f, "isn't maintained")
			continue
		}
		find := func(t *eng.Term) {
			t.Any(func(x *eng.Term) bool {
				if x.Op == eng.OLoad && x.Args[0] == addr {
					a = x
				}
				return false
			})
		}
		it.Facts.Each(func(t *eng.Term, _ bool) { find(t) })
		if e != nil {
			find(e.Val)
		}
		if a == nil || s == nil {
			if e != nil && e.Val.Strip() == s && s != nil {
				c.Fail("times", e.Pos, name+" "+f, "is overwritten by each trace")
			} else if e == nil && a == nil && !escapes(it.Effects, cs) {
				c.Fail("times", fn.Pos(), name+" "+f, "isn't maintained: %s", facts)
			} else {
				c.Undec("times", name+" "+f, "%v", e)
			}
			continue
		}
		v := a
		if e != nil {
			v = e.Val
		}
		ok, known, why := timeChoice(it.Facts, v, a, s, f == "Oldest", true)
		switch {
		case ok:
			c.OK("times", name+" "+f)
		case known:
			c.Fail("times", fn.Pos(), name+" "+f, "%s time is kept although that's not known to be right: %s", why, facts)
		default:
			c.Undec("times", name+" "+f, "%s: %s", why, facts)
		}
	}
}

// escapes: something other than its own fields' updates happens to t.
func escapes(es []*eng.Effect, t *eng.Term) bool {
	found := false
	w := &eng.Path{Effects: es}
	w.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		switch e.Kind {
		case eng.EStore, eng.EMapUpdate, eng.EAppend, eng.ESend:
			if e.Val != nil && e.Val.Strip() == t {
				found = true
			}
		case eng.ECall, eng.EGo:
			for _, a := range e.Args {
				if a != nil && a.Strip() == t {
					found = true
				}
			}
		}
	})
	return found
}

// bucketLoop: exactly the buckets up to the duration are counted.
func (c *C) bucketLoop(in *eng.Interp, fn *ssa.Function, ss, cs, tr *eng.Term, it *eng.Iter, i int, e *eng.Effect) {
	const name = "SearchStats.Observe"
	l := e.Loop
	isBucket := func(t *eng.Term) bool {
		t = t.Strip()
		return t.Op == eng.OLoad && t.Args[0].Op == eng.OIndex && fieldLoad(t.Args[0].Args[0], ss, "Bucketing")
	}
	isDur := func(t *eng.Term) bool {
		r, m := c.termMethod(t.Strip())
		return r != nil && m == "Duration" && r.Strip() == tr
	}
	rel := func(f *eng.Facts, idx *eng.Term) (within, beyond, any bool) {
		dur := findTerm(f, isDur)
		if dur == nil {
			return
		}
		f.EachTerm(func(t *eng.Term) {
			if isBucket(t) && (idx == nil || t.Args[0].Args[1] == idx) {
				any = true
				if f.Le(t, dur, 0) {
					within = true
				}
				if f.Le(in.T.Add(dur, 1), t, 0) {
					beyond = true
				}
			}
		})
		return
	}
	for _, bi := range l.Iters {
		facts := strings.Join(bi.Facts.Strings(), " & ")
		n := 0
		var st *eng.Effect
		for _, x := range bi.Effects {
			if x.Kind == eng.EStore && x.Addr.Op == eng.OIndex && fieldLoad(x.Addr.Args[0], cs, "BucketCounts") {
				n++
				st = x
			}
		}
		switch n {
		case 0:
			_, beyond, _ := rel(bi.Facts, nil)
			c.Check(beyond, "buckets", fn.Pos(), name+" skipped", "a bucket isn't counted although the trace may be as long: %s", facts)
		case 1:
			k, isc := in.T.LinConst(delta(in, st.Val, st.Addr))
			c.Check(isc && k == 1, "buckets", st.Pos, name+" count", "a bucket's count becomes %s", st.Val)
			idx := st.Addr.Args[1]
			within, beyond, any := rel(bi.Facts, idx)
			switch {
			case within:
				c.OK("buckets", name)
			case beyond:
				c.Fail("buckets", st.Pos, name, "a bucket is counted although the trace is shorter: %s", facts)
			case any:
				c.Fail("buckets", st.Pos, name, "a bucket is counted although the trace may be shorter: %s", facts)
			default:
				w2, _, any2 := rel(bi.Facts, nil)
				if any2 && w2 {
					c.Fail("buckets", st.Pos, name+" which", "another bucket (%s) than the one compared is counted: %s", idx, facts)
				} else {
					c.Fail("buckets", st.Pos, name, "a bucket is counted without comparing it with the duration: %s", facts)
				}
			}
		default:
			c.Undec("buckets", name, "%d stores", n)
		}
	}
	yes, known := headerExit(it.Effects, i)
	_, beyond, _ := rel(it.Facts, nil)
	if known && yes && !beyond {
		b := findTerm(it.Facts, func(t *eng.Term) bool { return fieldLoad(t, ss, "Bucketing") })
		if b != nil {
			if ex, k := iterations(in, it.Facts, l, in.T.Len(b)); k {
				c.Check(ex, "buckets", e.Pos, name+" all", "not all buckets are looked at")
			}
		}
		return
	}
	if known && !yes {
		c.Check(beyond, "buckets", e.Pos, name+" early", "the loop over the buckets ends although the trace may be longer than further buckets: %s", strings.Join(it.Facts.Strings(), " & "))
	}
}

// totalCount: the total is the sum over the classes.
func (c *C) totalCount() {
	fn := c.method("", "CategoryStats", "TotalCount")
	if fn == nil {
		return
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || len(p.Ret) != 1 {
			continue
		}
		has := map[string]int64{}
		lin := in.T.LinOf(p.Ret[0])
		other := false
		for _, l := range lin.V {
			switch {
			case fieldLoad(l.T, ps[0], "ActiveCount"):
				has["active"] += l.C
			case fieldLoad(l.T, ps[0], "ErroredCount"):
				has["errored"] += l.C
			case l.T.Op == eng.OLoad && l.T.Args[0].Op == eng.OIndex && fieldLoad(l.T.Args[0].Args[0], ps[0], "BucketCounts"):
				if k, ok := l.T.Args[0].Args[1].IntConst(); ok && k == 0 {
					has["finished"] += l.C
				} else {
					other = true
				}
			default:
				other = true
			}
		}
		b := findTerm(p.Facts, func(t *eng.Term) bool { return fieldLoad(t, ps[0], "BucketCounts") })
		wantB := int64(1)
		if b != nil && p.Facts.Le(in.T.Len(b), in.T.Int(0), 0) {
			wantB = 0
		}
		c.Check(!other && lin.K == 0 && has["active"] == 1 && has["errored"] == 1 && has["finished"] == wantB, "total", fn.Pos(), "CategoryStats.TotalCount", "is %s", p.Ret[0])
	}
}

// statsConstructors: new stats are empty and have one count per bucket.
func (c *C) statsConstructors() {
	csT, ssT := c.P.Named("", "CategoryStats"), c.P.Named("", "SearchStats")
	if fn := c.anchor("", "NewCategoryStats"); fn != nil {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			if p.Panic != nil || len(p.Ret) != 1 {
				continue
			}
			f := finalFields(p, p.Ret[0].Strip(), csT)
			c.Check(f["Category"] == ps[0], "constructor", fn.Pos(), "NewCategoryStats category", "the category is %v", f["Category"])
			b := f["BucketCounts"]
			if b == nil {
				c.Fail("constructor", fn.Pos(), "NewCategoryStats buckets", "no counts")
			} else {
				c.Check(p.Facts.EqInt(in.T.Len(b.Strip()), in.T.Len(ps[1]), 0), "constructor", fn.Pos(), "NewCategoryStats buckets", "has %s counts", in.T.Len(b.Strip()))
			}
			for n, v := range f {
				if n != "Category" && n != "BucketCounts" && !zeroLike(v) {
					c.Fail("constructor", fn.Pos(), "NewCategoryStats "+n, "starts with %s", v)
				}
			}
		}
	}
	if fn := c.anchor("", "NewSearchStats"); fn != nil {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			if p.Panic != nil || len(p.Ret) != 1 {
				continue
			}
			f := finalFields(p, p.Ret[0].Strip(), ssT)
			b := f["Bucketing"]
			ok := b != nil && (b.Strip() == ps[0] || b.Any(func(t *eng.Term) bool { return t == ps[0] }) && p.Facts.EqInt(in.T.Len(b.Strip()), in.T.Len(ps[0]), 0))
			if !ok && b != nil && b.Op == eng.OMkSlice {
				ok = p.Facts.EqInt(in.T.Len(b), in.T.Len(ps[0]), 0)
			}
			c.Check(ok, "constructor", fn.Pos(), "NewSearchStats buckets", "the buckets are %v", b)
			m := f["Categories"]
			c.Check(m != nil && m.Strip().Op == eng.OMkMap, "constructor", fn.Pos(), "NewSearchStats categories", "the categories are %v", m)
		}
	}
}

// C16: merging statistics adds them up.
func c16(c *C) {
	c.mergeCategory()
	c.mergeStats()
	c.overall()
	c.allCategories()
}

func (c *C) mergeCategory() {
	fn := c.method("", "CategoryStats", "Merge")
	csT := c.P.Named("", "CategoryStats")
	if fn == nil || csT == nil {
		return
	}
	const name = "CategoryStats.Merge"
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	cs, other := ps[0], ps[1]
	zero := func(p *eng.Path, t *eng.Term) bool {
		y, _ := boolKnown(p.Facts, func(x *eng.Term) bool {
			return strings.HasSuffix(x.CalleeName(), "trc.CategoryStats).IsZero") && x.Args[0].Strip() == t
		})
		p.Facts.Each(func(x *eng.Term, v bool) {
			if n := nilCompared(x); n != nil && v && n.Strip() == t {
				y = true
			}
		})
		return y
	}
	nonempty := false
	for _, p := range c.Run(in, fn, nil, ps) {
		facts := strings.Join(p.FactStrings(), " & ")
		if p.Panic != nil {
			diff := false
			p.Facts.Each(func(x *eng.Term, v bool) {
				if !v && strings.Contains(x.String(), "BucketCounts") {
					diff = true
				}
			})
			c.Check(diff, "panics", fn.Pos(), name, "panics although the buckets may be consistent: %s", facts)
			continue
		}
		p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			if e.Kind == eng.EStore && e.Addr.Root() == other {
				c.Fail("source-unchanged", e.Pos, name, "the merged stats are modified: %s", e.Addr)
			}
		})
		c.OK("source-unchanged", name)
		st := lastStores(p.Effects, cs)
		oz, cz := zero(p, other), zero(p, cs)
		if oz {
			c.Check(len(st) == 0, "empty", fn.Pos(), name+" nothing", "merging nothing changes the stats")
			continue
		}
		nonempty = true
		load := func(base *eng.Term, f string) *eng.Term {
			fv := fieldNamed(csT, f)
			return in.NewState().Load(in.T.Field(base, fieldIndex(csT, fv), fv), fv.Type())
		}
		for _, f := range []string{"EventCount", "ActiveCount", "ErroredCount"} {
			e := st[f]
			if e == nil {
				c.Fail("added", fn.Pos(), name+" "+f, "isn't merged: %s", facts)
				continue
			}
			lin := in.T.LinOf(e.Val)
			var own, theirs int64
			for _, l := range lin.V {
				switch {
				case fieldLoad(l.T, cs, f):
					own += l.C
				case fieldLoad(l.T, other, f):
					theirs += l.C
				}
			}
			ok := lin.K == 0 && len(lin.V) == 2 && own == 1 && theirs == 1 || cz && fieldLoad(e.Val, other, f)
			c.Check(ok, "added", e.Pos, name+" "+f, "becomes %s", e.Val)
		}
		for _, f := range []string{"Oldest", "Newest"} {
			e := st[f]
			if e != nil && cz && fieldLoad(e.Val, other, f) {
				c.OK("times", name+" "+f)
				continue
			}
			if e == nil && cz {
				c.Fail("times", fn.Pos(), name+" "+f, "isn't merged: %s", facts)
				continue
			}
			a, b := load(cs, f), load(other, f)
			v := a
			if e != nil {
				v = e.Val
			}
			a2, b2 := matchLoad(p.Facts, v, cs, f, a), matchLoad(p.Facts, v, other, f, b)
			ok, known, why := timeChoice(p.Facts, v, a2, b2, f == "Oldest", false)
			switch {
			case ok:
				c.OK("times", name+" "+f)
			case known:
				c.Fail("times", fn.Pos(), name+" "+f, "%s time is kept although that's not known to be right: %s", why, facts)
			default:
				c.Undec("times", name+" "+f, "%s: %s", why, facts)
			}
		}
		if e := st["Category"]; e != nil && !cz {
			c.Fail("category", e.Pos, name, "the category changes to %s", e.Val)
		}
		// buckets
		if e := st["BucketCounts"]; e != nil {
			v := e.Val.Strip()
			switch {
			case fieldLoad(v, other, "BucketCounts"):
				c.Fail("aliasing", e.Pos, name, "the counts are shared with the merged stats")
			case v.Op == eng.OSlice && fieldLoad(v.Args[0], other, "BucketCounts"):
				c.Fail("aliasing", e.Pos, name, "the counts are shared with the merged stats")
			case v.Op == eng.OAppend && emptySlice(in, p.Facts, v.Args[0]) && fieldLoad(v.Args[1], other, "BucketCounts"):
				// appending to a zero-length slice of shared memory?
				if b := v.Args[0].Strip(); b.Op == eng.OSlice && fieldLoad(b.Args[0].Strip(), other, "BucketCounts") && !fullSlice(in, p.Facts, b) {
					c.Fail("aliasing", e.Pos, name, "the counts are shared with the merged stats")
					continue
				}
				c.Check(cz && !fieldLoad(v.Args[0], other, "BucketCounts"), "buckets", e.Pos, name+" copied", "the counts are replaced: %s", facts)
			case strings.HasPrefix(v.CalleeName(), "slices.Clone") && fieldLoad(v.Args[0], other, "BucketCounts"):
				c.Check(cz, "buckets", e.Pos, name+" copied", "the counts are replaced: %s", facts)
			case v.Op == eng.OMkSlice && cz:
				cp := false
				for _, x := range p.Effects {
					if x.Kind == eng.ECopy && x.Addr.Strip() == v && fieldLoad(x.Val, other, "BucketCounts") {
						cp = true
					}
				}
				if cp {
					c.OK("buckets", name+" copied")
				} else {
					c.Undec("buckets", name, "%s", v)
				}
			default:
				c.Undec("buckets", name, "%s", v)
			}
			continue
		}
		done := false
		for i, e := range p.Effects {
			if e.Kind != eng.ELoop {
				continue
			}
			touches := false
			for _, x := range loopEffects(e.Loop) {
				if x.Kind == eng.EStore && x.Addr.Op == eng.OIndex && fieldLoad(x.Addr.Args[0], cs, "BucketCounts") {
					touches = true
				}
			}
			if !touches {
				continue
			}
			done = true
			if yes, known := headerExit(p.Effects, i); known {
				c.Check(yes, "buckets", e.Pos, name+" all", "the loop over the buckets can end early")
			}
			exact, known := false, false
			try := func(t *eng.Term) {
				t.Any(func(t *eng.Term) bool {
					if t.Op == eng.OLen && (fieldLoad(t.Args[0], cs, "BucketCounts") || fieldLoad(t.Args[0], other, "BucketCounts")) {
						ex, k := iterations(in, p.Facts, e.Loop, t)
						exact, known = exact || ex, known || k
					}
					return false
				})
			}
			p.Facts.EachTerm(try)
			for _, bi := range e.Loop.Iters {
				bi.Facts.EachTerm(try)
			}
			if known {
				c.Check(exact, "buckets", e.Pos, name+" number", "not all buckets are merged")
			} else {
				c.Undec("buckets", name, "number of iterations")
			}
			for _, bi := range e.Loop.Iters {
				n := 0
				for _, x := range bi.Effects {
					if x.Kind == eng.EStore && x.Addr.Op == eng.OIndex && fieldLoad(x.Addr.Args[0], cs, "BucketCounts") {
						n++
						d := delta(in, x.Val, x.Addr)
						idx := x.Addr.Args[1]
						ok := d.Op == eng.OLoad && d.Args[0].Op == eng.OIndex && fieldLoad(d.Args[0].Args[0], other, "BucketCounts") && d.Args[0].Args[1] == idx && d != x.Val
						c.Check(ok, "buckets", x.Pos, name+" added", "count %s becomes %s", idx, x.Val)
					}
				}
				c.Check(n == 1, "buckets", e.Pos, name+" each", "a bucket is merged %d times: %s", n, strings.Join(bi.Facts.Strings(), " & "))
			}
		}
		if !done {
			b := findTerm(p.Facts, func(t *eng.Term) bool { return fieldLoad(t, cs, "BucketCounts") })
			if b != nil && p.Facts.Le(in.T.Len(b), in.T.Int(0), 0) {
				continue
			}
			c.Fail("buckets", fn.Pos(), name, "the buckets aren't merged: %s", facts)
		}
	}
	if !nonempty {
		c.Undec("added", name, "no merging path recognised")
	}
	c.Floor("added", 3)
	c.Floor("times", 2)
	c.isZeroRule(csT)
}

func sameLin(in *eng.Interp, a, b *eng.Term) bool {
	k, isc := in.T.LinConst(in.T.Sub(a, b))
	return isc && k == 0
}

// matchLoad finds the load of a field of base as it's used in v or the facts.
func matchLoad(f *eng.Facts, v, base *eng.Term, field string, def *eng.Term) *eng.Term {
	if fieldLoad(v, base, field) {
		return v.Strip()
	}
	if t := findTerm(f, func(t *eng.Term) bool { return t.Op == eng.OLoad && fieldLoad(t, base, field) }); t != nil {
		return t
	}
	return def
}

// isZeroRule: only stats without any trace are considered empty.
func (c *C) isZeroRule(csT *types.Named) {
	fn := c.P.Method(csT, "IsZero")
	if fn == nil {
		return
	}
	const name = "CategoryStats.IsZero"
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || len(p.Ret) != 1 {
			continue
		}
		f := p.Facts.Clone()
		if b, ok := p.Ret[0].BoolConst(); ok {
			if !b {
				continue
			}
		} else if !f.Assume(p.Ret[0], true) {
			continue
		}
		// it claims to be empty
		isnil := false
		f.Each(func(x *eng.Term, v bool) {
			if n := nilCompared(x); n != nil && v && n.Strip() == ps[0] {
				isnil = true
			}
		})
		if isnil {
			c.OK("empty", name+" nil")
			continue
		}
		for _, fld := range []string{"ActiveCount", "ErroredCount"} {
			t := findTerm(f, func(t *eng.Term) bool { return t.Op == eng.OLoad && fieldLoad(t, ps[0], fld) })
			c.Check(t != nil && f.EqInt(t, in.T.Int(0), 0), "empty", fn.Pos(), name+" "+fld, "stats with traces are considered empty: %s", strings.Join(f.Strings(), " & "))
		}
		// bucket counts: the first one, or the sum over all
		b := findTerm(f, func(t *eng.Term) bool {
			return t.Any(func(x *eng.Term) bool { return fieldLoad(x, ps[0], "BucketCounts") })
		})
		c.Check(b != nil, "empty", fn.Pos(), name+" BucketCounts", "stats with finished traces are considered empty: %s", strings.Join(f.Strings(), " & "))
		summed := false
		for i, e := range p.Effects {
			if e.Kind != eng.ELoop {
				continue
			}
			for _, lv := range e.Loop.Vars {
				adds := len(e.Loop.Iters) > 0
				for _, it := range e.Loop.Iters {
					nx := it.Next[lv.Start]
					adds = adds && nx != nil && nx != lv.Start && nx.Any(func(x *eng.Term) bool { return fieldLoad(x, ps[0], "BucketCounts") })
				}
				if adds {
					if yes, known := headerExit(p.Effects, i); !known || yes {
						summed = true
						c.Check(f.EqInt(lv.Start, in.T.Int(0), 0), "empty", fn.Pos(), name+" finished", "stats with finished traces are considered empty: %s", strings.Join(f.Strings(), " & "))
					}
				}
			}
		}
		if !summed {
			c.Undec("empty", name, "bucket counts")
		}
	}
}

func (c *C) mergeStats() {
	fn := c.method("", "SearchStats", "Merge")
	if fn == nil {
		return
	}
	const name = "SearchStats.Merge"
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	ss, other := ps[0], ps[1]
	merged := false
	for _, p := range c.Run(in, fn, nil, ps) {
		facts := strings.Join(p.FactStrings(), " & ")
		if p.Panic != nil {
			continue
		}
		p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			if (e.Kind == eng.EStore || e.Kind == eng.EMapUpdate || e.Kind == eng.EMapDelete) && e.Addr.Root() == other {
				c.Fail("source-unchanged", e.Pos, name, "the merged stats are modified: %s", e.Addr)
			}
		})
		empty, _ := boolKnown(p.Facts, func(x *eng.Term) bool {
			return strings.HasSuffix(x.CalleeName(), "trc.SearchStats).IsZero") && x.Args[0].Strip() == other
		})
		p.Facts.Each(func(x *eng.Term, v bool) {
			if n := nilCompared(x); n != nil && v && n.Strip() == other {
				empty = true
			}
		})
		var loops int
		for i, e := range p.Effects {
			if e.Kind != eng.ELoop {
				continue
			}
			relevant := false
			for _, x := range loopEffects(e.Loop) {
				if x.Kind == eng.EMapRead || x.Kind == eng.EMapUpdate || strings.HasSuffix(callName(x), "trc.CategoryStats).Merge") {
					relevant = true
				}
			}
			if !relevant {
				continue
			}
			loops++
			if yes, known := headerExit(p.Effects, i); known {
				c.Check(yes, "all-categories", e.Pos, name, "the loop over the categories can end early")
			}
			for _, it := range e.Loop.Iters {
				c.mergeIter(in, fn, p, it, ss, other)
				merged = true
			}
		}
		if loops == 0 && !empty {
			c.Fail("all-categories", fn.Pos(), name, "nothing is merged: %s", facts)
		}
		if empty {
			continue
		}
		// an empty destination takes over the buckets
		z, _ := boolKnown(p.Facts, func(x *eng.Term) bool {
			return strings.HasSuffix(x.CalleeName(), "trc.SearchStats).IsZero") && x.Args[0].Strip() == ss
		})
		if z {
			e := lastStores(p.Effects, ss)["Bucketing"]
			c.Check(e != nil && e.Val.Any(func(t *eng.Term) bool { return fieldLoad(t, other, "Bucketing") }), "buckets", fn.Pos(), name, "empty stats don't take over the buckets")
		}
	}
	if !merged {
		c.Undec("merged-once", name, "no loop over the categories recognised")
	}
	c.Floor("merged-once", 1)
}

func (c *C) mergeIter(in *eng.Interp, fn *ssa.Function, p *eng.Path, it *eng.Iter, ss, other *eng.Term) {
	const name = "SearchStats.Merge"
	facts := strings.Join(it.Facts.Strings(), " & ")
	n := 0
	var key, ours, theirs *eng.Term
	var put *eng.Effect
	isOurs := func(m *eng.Term) bool {
		return fieldLoad(m, ss, "Categories") || m.Strip().Op == eng.OMkMap
	}
	for _, e := range it.Effects {
		switch {
		case e.Kind == eng.EMapRead && e.Key != nil && e.Key.Op == eng.ONextKey:
			key = e.Key
		case strings.HasSuffix(callName(e), "trc.CategoryStats).Merge") && len(e.Args) == 2:
			n++
			ours, theirs = e.Args[0].Strip(), e.Args[1].Strip()
		case e.Kind == eng.EMapUpdate:
			put = e
			c.Check(isOurs(e.Addr), "merged-once", e.Pos, name+" map", "a category is put into %s", e.Addr)
			nonnil := e.Addr.Strip().Op == eng.OMkMap
			p.Facts.Each(func(x *eng.Term, v bool) {
				if t := nilCompared(x); t != nil && !v && t.Strip() == e.Addr.Strip() {
					nonnil = true
				}
			})
			c.Check(nonnil, "nil-map", e.Pos, name, "stats without categories can't be merged into: writes to a map that may be nil")
			if key != nil {
				c.Check(e.Key == key, "merged-once", e.Pos, name+" key", "a category is filed under %s", e.Key)
			}
			if v := e.Val.Strip(); v.Op == eng.ONextVal {
				c.Fail("aliasing", e.Pos, name, "the stats of a category are shared with the merged stats")
			}
		}
	}
	shared := put != nil && put.Val.Strip().Op == eng.ONextVal
	if shared {
		return
	}
	if !c.Check(n == 1, "merged-once", fn.Pos(), name, "a category is merged %d times: %s", n, facts) {
		return
	}
	c.categoryOf("merged-once", fn.Pos(), name+" source", theirs, other)
	switch {
	case put != nil && put.Val.Strip() == ours:
		c.OK("merged-once", name+" new")
	case ours.Op == eng.OLookup:
		c.Check(isOurs(ours.Args[0]) && (key == nil || ours.Args[1] == key), "merged-once", fn.Pos(), name+" existing", "merges into %s", ours)
		ok, notok := boolKnown(it.Facts, func(t *eng.Term) bool {
			return t.Op == eng.OLookupOk || nilCompared(t) != nil && nilCompared(t).Strip() == ours
		})
		if !ok && !notok {
			c.Fail("merged-once", fn.Pos(), name+" missing", "merges into the stats of a category that may not exist: %s", facts)
		}
	case ours.CalleeName() == mod+".NewCategoryStats":
		c.Fail("merged-once", fn.Pos(), name+" lost", "a new category isn't put into the stats: %s", facts)
	default:
		c.Undec("merged-once", name, "into %s", ours)
	}
}

// categoryOf: t is the entry of the category an iteration is about.
func (c *C) categoryOf(rule string, pos token.Pos, name string, t, ss *eng.Term) {
	t = t.Strip()
	switch {
	case t.Op == eng.ONextVal:
		c.OK(rule, name)
	case t.Op == eng.OLookup && fieldLoad(t.Args[0], ss, "Categories"):
		k := t.Args[1].Strip()
		switch {
		case k.Op == eng.ONextKey:
			c.OK(rule, name)
		case k.IsConst():
			c.Fail(rule, pos, name, "always uses category %s", k)
		default:
			c.Undec(rule, name, "uses category %s", k)
		}
	default:
		c.Fail(rule, pos, name, "uses %s", t)
	}
}

func (c *C) overall() {
	fn := c.method("", "SearchStats", "Overall")
	if fn == nil {
		return
	}
	const name = "SearchStats.Overall"
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || len(p.Ret) != 1 {
			continue
		}
		ret := p.Ret[0].Strip()
		if ret.CalleeName() == mod+".NewCategoryStats" {
			c.Check(fieldLoad(ret.Args[1], ps[0], "Bucketing"), "overall", fn.Pos(), name+" buckets", "uses buckets %s", ret.Args[1])
		} else {
			c.Fail("overall", fn.Pos(), name+" fresh", "returns %s, so that merging into it changes the stats", ret)
			continue
		}
		loops := 0
		for i, e := range p.Effects {
			if e.Kind != eng.ELoop {
				continue
			}
			merges := false
			for _, x := range loopEffects(e.Loop) {
				merges = merges || strings.HasSuffix(callName(x), "trc.CategoryStats).Merge")
			}
			if !merges {
				continue
			}
			loops++
			if yes, known := headerExit(p.Effects, i); known {
				c.Check(yes, "overall", e.Pos, name+" all", "the loop over the categories can end early")
			}
			for _, it := range e.Loop.Iters {
				n := 0
				for _, x := range it.Effects {
					if strings.HasSuffix(callName(x), "trc.CategoryStats).Merge") && len(x.Args) == 2 {
						n++
						c.Check(x.Args[0].Strip() == ret, "overall", x.Pos, name+" into", "merges into %s", x.Args[0])
						c.categoryOf("overall", x.Pos, name+" from", x.Args[1].Strip(), ps[0])
					}
				}
				c.Check(n == 1, "overall", e.Pos, name+" each", "a category is merged %d times: %s", n, strings.Join(it.Facts.Strings(), " & "))
			}
		}
		if loops != 1 {
			c.Undec("overall", name, "%d loops over the categories", loops)
		}
	}
}

func (c *C) allCategories() {
	fn := c.method("", "SearchStats", "AllCategories")
	if fn == nil {
		return
	}
	const name = "SearchStats.AllCategories"
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || len(p.Ret) != 1 {
			continue
		}
		ret := p.Ret[0].Strip()
		last := lastElem(ret)
		computes := false
		p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			n := callName(e)
			computes = computes || strings.HasSuffix(n, "trc.SearchStats).Overall") || n == mod+".NewCategoryStats"
		})
		c.Check(computes, "all", fn.Pos(), name+" overall", "the overall statistics are missing: %s", strings.Join(p.FactStrings(), " & "))
		if ret.Op != eng.OAppend || last == nil {
			c.Undec("all", name, "%s", ret)
			continue
		}
		c.Check(strings.HasSuffix(last.Strip().CalleeName(), "trc.SearchStats).Overall") && last.Strip().Args[0].Strip() == ps[0], "all", fn.Pos(), name+" overall", "ends with %s", last)
		base := ret.Args[0].Strip()
		l, lv := loopVar(p.Effects, base)
		if l == nil {
			c.Undec("all", name, "%s", base)
			continue
		}
		c.Check(emptySlice(in, p.Facts, lv.Init), "all", fn.Pos(), name+" start", "starts with %s", lv.Init)
		for i, e := range p.Effects {
			if e.Kind == eng.ELoop && e.Loop == l {
				if yes, known := headerExit(p.Effects, i); known {
					c.Check(yes, "all", e.Pos, name+" all", "the loop over the categories can end early")
				}
			}
		}
		for _, it := range l.Iters {
			nx := it.Next[lv.Start]
			el := lastElem(nx)
			if c.Check(nx != nil && nx.Op == eng.OAppend && nx.Args[0].Strip() == lv.Start && el != nil, "all", fn.Pos(), name+" each", "a category is listed as %v: %s", nx, strings.Join(it.Facts.Strings(), " & ")) {
				c.categoryOf("all", fn.Pos(), name+" each", el, ps[0])
			}
		}
	}
}

// fullSlice: the slice operation limits the capacity to zero.
func fullSlice(in *eng.Interp, f *eng.Facts, t *eng.Term) bool {
	return len(t.Args) > 3 && t.Args[3] != nil && f.EqInt(t.Args[3], in.T.Int(0), 0)
}

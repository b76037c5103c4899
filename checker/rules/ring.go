package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// ringT are the roles of the fields of a ring buffer.
type ringT struct {
	T            *types.Named
	Mtx, Buf     *types.Var
	Cur, N       *types.Var
	iBuf, iC, iN int
}

const ringPkg = "internal/trcringbuf"

func (c *C) ringRoles() *ringT {
	n := c.P.Named(ringPkg, "RingBuffer")
	if n == nil {
		c.Undec("roles", "RingBuffer", "type not found")
		return nil
	}
	r := &ringT{T: n}
	var ints []*types.Var
	for i, f := range fieldsOf(n) {
		switch {
		case isMutex(f.Type()):
			r.Mtx = f
		default:
			if _, ok := f.Type().Underlying().(*types.Slice); ok {
				r.Buf, r.iBuf = f, i
			} else if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				ints = append(ints, f)
			}
		}
	}
	if fn := c.P.Method(n, "Stats"); fn != nil && len(ints) == 2 {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		for _, p := range in.Run(fn, nil, nil, nil) {
			if len(p.Ret) == 3 {
				if f := loadedField(p.Ret[2]); f != nil {
					for i, g := range ints {
						if g == f {
							r.N, r.Cur = g, ints[1-i]
						}
					}
				}
			}
		}
	}
	if r.N == nil {
		for _, f := range ints {
			switch f.Name() {
			case "cur":
				r.Cur = f
			case "len":
				r.N = f
			}
		}
	}
	if r.Buf == nil || r.Cur == nil || r.N == nil || r.Mtx == nil || len(ints) != 2 {
		c.Undec("roles", "RingBuffer", "fields not recognised")
		return nil
	}
	for i, f := range fieldsOf(n) {
		if f == r.Cur {
			r.iC = i
		}
		if f == r.N {
			r.iN = i
		}
	}
	return r
}

// ringRun is one case of the representation invariant.
type ringRun struct {
	r            *ringT
	in           *eng.Interp
	name         string
	buf, cur, n  *eng.Term
	L            *eng.Term
	ps           []*eng.Term
	locked       bool
	mult         map[*eng.Term]*eng.Term
	loopK        map[*eng.Term]bool
	loopOf       map[*eng.Term]*eng.LoopInfo // of the variables of loops
	wraps        map[*eng.Term]*eng.LoopInfo // of those that wrap around
	paths        []*eng.Path
	full, empty0 bool
}

// ringCase runs fn assuming one case of the invariant when the lock is taken:
// "filling": len < L, cur == len; "full": len == L, 0 <= cur < L.
func (c *C) ringCase(r *ringT, fn *ssa.Function, full bool) *ringRun {
	rr := &ringRun{r: r, full: full, name: "filling", mult: map[*eng.Term]*eng.Term{}, loopK: map[*eng.Term]bool{}, loopOf: map[*eng.Term]*eng.LoopInfo{}, wraps: map[*eng.Term]*eng.LoopInfo{}}
	if full {
		rr.name = "full"
	}
	var in *eng.Interp
	in = eng.NewInterp(c.P, eng.Config{Inline: func(f *ssa.Function) bool { return true }, OnLock: func(st *eng.State, lock *eng.Term) {
		base, ok := directField(lock, r.Mtx)
		if !ok || base != rr.ps[0] {
			return
		}
		rr.locked = true
		rr.buf = st.Load(in.T.Field(base, r.iBuf, r.Buf), r.Buf.Type())
		rr.cur = st.Load(in.T.Field(base, r.iC, r.Cur), r.Cur.Type())
		rr.n = st.Load(in.T.Field(base, r.iN, r.N), r.N.Type())
		rr.L = in.T.Len(rr.buf)
		st.AssumeLe(in.T.Int(1), rr.L, 0)
		st.AssumeLe(in.T.Int(0), rr.cur, 0)
		st.AssumeLe(rr.cur, rr.L, -1)
		st.AssumeLe(in.T.Int(0), rr.n, 0)
		st.Assume(in.T.Cmp(token.EQL, in.T.Cap(rr.buf), rr.L), true)
		if full {
			st.AssumeLe(rr.n, rr.L, 0)
			st.AssumeLe(rr.L, rr.n, 0)
		} else {
			st.AssumeLe(rr.n, rr.L, -1)
			st.AssumeLe(rr.n, rr.cur, 0)
			st.AssumeLe(rr.cur, rr.n, 0)
		}
	}})
	rr.in = in
	rr.ps = in.ParamSyms(fn)
	rr.paths = c.Run(in, fn, nil, rr.ps)
	for _, p := range rr.paths {
		p.Walk(true, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
			if e.Kind == eng.ELoop {
				for m, x := range e.Loop.Mult {
					rr.mult[m] = x
				}
				rr.loopK[e.Loop.K] = true
				for _, v := range e.Loop.Vars {
					if v.Kind == "mod" {
						rr.wraps[v.Start] = e.Loop
					}
					if v.Kind == "sym" && v.Start != nil && v.Start.Op == eng.OSym {
						rr.loopOf[v.Start] = e.Loop
					}
				}
			}
		})
	}
	return rr
}

type tri int

const (
	no tri = iota
	yes
	maybe
)

// unrem strips reductions modulo m from an index.
func (rr *ringRun) unrem(t *eng.Term, m *eng.Term) *eng.Term {
	l := rr.in.T.LinOf(t)
	out := rr.in.T.Int(l.K)
	for _, v := range l.V {
		x := v.T
		if x.Op == eng.OBin && x.Aux == "%" && x.Args[1] == m {
			x = rr.unrem(x.Args[0], m)
		}
		for i := int64(0); i < abs64(v.C) && i < 8; i++ {
			if v.C > 0 {
				out = rr.in.T.Plus(out, x)
			} else {
				out = rr.in.T.Sub(out, x)
			}
		}
	}
	return out
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

// congruent: a == b modulo m, given the facts.
func (rr *ringRun) congruent(f *eng.Facts, a, b, m *eng.Term) tri {
	d := rr.in.T.Sub(rr.unrem(a, m), rr.unrem(b, m))
	// remove multiples of m
	for round := 0; round < 2; round++ {
		l := rr.in.T.LinOf(d)
		rest := rr.in.T.Int(l.K)
		unknown := false
		for _, v := range l.V {
			if v.T == m || rr.mult[v.T] == m || f.EqInt(v.T, m, 0) {
				continue
			}
			if mm := rr.mult[v.T]; mm != nil && f.EqInt(mm, m, 0) {
				continue
			}
			if !rr.known(v.T) {
				unknown = true
			}
			for i := int64(0); i < abs64(v.C) && i < 8; i++ {
				if v.C > 0 {
					rest = rr.in.T.Plus(rest, v.T)
				} else {
					rest = rr.in.T.Sub(rest, v.T)
				}
			}
		}
		if k, ok := rr.in.T.LinConst(rest); ok {
			if k == 0 {
				return yes
			}
			return no
		}
		if f.EqInt(rest, rr.in.T.Int(0), 0) || f.EqInt(rest, m, 0) || f.EqInt(rest, rr.in.T.Sub(rr.in.T.Int(0), m), 0) {
			return yes
		}
		for x, mm := range rr.mult {
			if mm != m && !f.EqInt(mm, m, 0) {
				continue
			}
			if f.EqInt(rest, x, 0) || f.EqInt(rest, rr.in.T.Sub(rr.in.T.Int(0), x), 0) {
				return yes
			}
		}
		if unknown {
			return maybe
		}
		d = rest
	}
	return no
}

// known: a term whose meaning the analysis understands.
func (rr *ringRun) known(t *eng.Term) bool {
	return t == rr.cur || t == rr.n || t == rr.L || rr.loopK[t] || rr.mult[t] != nil || (len(rr.ps) > 1 && t == rr.ps[1])
}

func (rr *ringRun) linear(t *eng.Term) bool {
	for _, v := range rr.in.T.LinOf(t).V {
		if !rr.known(v.T) {
			return false
		}
	}
	return true
}

// step is how much t changes from an iteration to the next one.
func (rr *ringRun) step(t, k *eng.Term) int64 {
	for _, v := range rr.in.T.LinOf(t).V {
		if v.T == k {
			return v.C
		}
	}
	return 0
}

// stray: an iteration changes the variable v by something else than step,
// modulo m.
func (rr *ringRun) stray(l *eng.LoopInfo, v *eng.Term, step int64, m *eng.Term) string {
	if step == 0 {
		return ""
	}
	for _, it := range l.Iters {
		n := it.Next[v]
		if n == nil {
			continue
		}
		d := rr.in.T.Add(rr.in.T.Sub(n, v), -step)
		for _, k := range []int64{-1, 1, -step, step, -2, 2} {
			if it.Facts.EqInt(d, rr.in.T.Int(k), 0) {
				return fmt.Sprintf("%s is followed by %s", v, n)
			}
		}
	}
	return ""
}

// escapes: an iteration takes the variable v from within the buffer of length
// m to right before or behind it.
func (rr *ringRun) escapes(l *eng.LoopInfo, v, m *eng.Term) string {
	T := rr.in.T
	for _, it := range l.Iters {
		n := it.Next[v]
		if n == nil || n == v {
			continue
		}
		for _, bad := range []*eng.Term{m, T.Int(-1)} {
			f := it.Facts.Clone()
			if f.AssumeLe(T.Int(0), v, 0) && f.AssumeLe(v, m, -1) && f.AssumeLe(n, bad, 0) && f.AssumeLe(bad, n, 0) {
				return fmt.Sprintf("it becomes %s", bad)
			}
		}
	}
	return ""
}

// slot: idx is the position congruent to want, within the buffer of length m.
func (rr *ringRun) slot(f *eng.Facts, idx, want, m *eng.Term) (tri, string) {
	switch rr.congruent(f, idx, want, m) {
	case no:
		return no, fmt.Sprintf("position %s instead of %s", idx, want)
	case maybe:
		for _, v := range rr.in.T.LinOf(idx).V {
			if l := rr.loopOf[v.T]; l != nil && abs64(v.C) == 1 {
				if why := rr.stray(l, v.T, rr.step(want, l.K)*v.C, m); why != "" {
					return no, fmt.Sprintf("position %s, where %s", idx, why)
				}
			}
		}
		return maybe, fmt.Sprintf("position %s", idx)
	}
	lin := rr.linear(idx)
	hasMult := false
	for _, v := range rr.in.T.LinOf(idx).V {
		if rr.mult[v.T] != nil {
			hasMult = true
		}
	}
	if idx.Op == eng.OBin && idx.Aux == "%" && idx.Args[1] == m {
		if !rr.linear(idx.Args[0]) || f.Le(rr.in.T.Int(0), idx.Args[0], 0) {
			return yes, ""
		}
		return no, fmt.Sprintf("position %s, which can be negative", idx)
	}
	if l := rr.wraps[idx]; l != nil {
		if why := rr.escapes(l, idx, m); why != "" {
			return no, fmt.Sprintf("position %s, where %s", idx, why)
		}
	}
	if !lin || hasMult {
		return yes, "" // the range is judged where it can be
	}
	if !f.Le(rr.in.T.Int(0), idx, 0) {
		return no, fmt.Sprintf("position %s, which can be negative", idx)
	}
	if !f.Le(idx, m, -1) {
		return no, fmt.Sprintf("position %s, which can be beyond the buffer", idx)
	}
	return yes, ""
}

func (c *C) slotCheck(rr *ringRun, f *eng.Facts, idx, want, m *eng.Term, rule string, pos token.Pos, construct, what string) {
	v, why := rr.slot(f, idx, want, m)
	switch v {
	case yes:
		c.OK(rule, construct)
	case no:
		c.Fail(rule, pos, construct, "%s: %s", what, why)
	default:
		c.Undec(rule, construct, "%s", why)
	}
}

// elemOf: v is the element at an index of the buffer as of the lock.
func (rr *ringRun) elemOf(v *eng.Term) (*eng.Term, bool) {
	v = v.Strip()
	if v.Op == eng.OLoad && v.Args[0].Op == eng.OIndex && v.Args[0].Args[0] == rr.buf {
		return v.Args[0].Args[1], true
	}
	return nil, false
}

func (rr *ringRun) final(p *eng.Path, f *types.Var, pre *eng.Term) *eng.Term {
	v := pre
	for _, e := range p.Effects {
		if e.Kind == eng.EStore {
			if b, ok := directField(e.Addr, f); ok && b == rr.ps[0] {
				v = e.Val
			}
		}
	}
	return v
}

func (c *C) eqCheck(rr *ringRun, f *eng.Facts, got, want *eng.Term, rule string, pos token.Pos, construct, what string) {
	switch {
	case f.EqInt(got, want, 0):
		c.OK(rule, construct)
	case rr.linear(got):
		c.Fail(rule, pos, construct, "%s is %s instead of %s", what, got, want)
	default:
		c.Undec(rule, construct, "%s is %s", what, got)
	}
}

// C10: ring buffers hold exactly the newest elements.
func c10(c *C) {
	r := c.ringRoles()
	if r == nil {
		return
	}
	if fn := c.P.Method(r.T, "Add"); fn != nil {
		for _, full := range []bool{false, true} {
			rr := c.ringCase(r, fn, full)
			T := rr.in.T
			for _, p := range rr.paths {
				if !rr.locked || p.Panic != nil || len(p.Ret) != 2 {
					continue
				}
				name := "Add " + rr.name
				var st []*eng.Effect
				p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
					if e.Kind == eng.EStore && e.Addr.Op == eng.OIndex && e.Addr.Args[0] == rr.buf {
						st = append(st, e)
					}
				})
				if nb := rr.final(p, r.Buf, rr.buf); nb != rr.buf {
					c.Undec("ring-add", name, "the buffer is replaced")
					continue
				}
				if !c.Check(len(st) == 1, "ring-add", fn.Pos(), name, "stores %d elements instead of one: %s", len(st), strings.Join(p.FactStrings(), " & ")) {
					continue
				}
				c.Check(st[0].Val.Strip() == rr.ps[1], "ring-add", st[0].Pos, name+" value", "stores %s instead of the given element", st[0].Val)
				c.slotCheck(rr, p.Facts, st[0].Addr.Args[1], rr.cur, rr.L, "ring-add", st[0].Pos, name+" position", "the new element doesn't follow the newest one")
				n2, cur2 := rr.final(p, r.N, rr.n), rr.final(p, r.Cur, rr.cur)
				ok, known := p.Ret[1].BoolConst()
				if !known {
					ok, known = p.Facts.Eval(p.Ret[1])
				}
				if full {
					c.eqCheck(rr, p.Facts, n2, rr.L, "ring-count", fn.Pos(), name, "the count after adding")
					if known {
						c.Check(ok, "ring-evict", fn.Pos(), name, "adding to a full buffer doesn't report the evicted element")
					}
					if idx, is := rr.elemOf(p.Ret[0]); is {
						c.slotCheck(rr, p.Facts, idx, rr.cur, rr.L, "ring-evict", fn.Pos(), name+" element", "the evicted element isn't the oldest one")
						// it was read before being overwritten
					} else if p.Ret[0].Strip() == rr.ps[1] || p.Ret[0].Strip().IsNil() || p.Ret[0].Op == eng.OZero {
						c.Fail("ring-evict", fn.Pos(), name+" element", "the evicted element is reported as %s", p.Ret[0])
					} else {
						c.Undec("ring-evict", name, "evicted element %s", p.Ret[0])
					}
				} else {
					c.eqCheck(rr, p.Facts, n2, T.Add(rr.n, 1), "ring-count", fn.Pos(), name, "the count after adding")
					if known {
						c.Check(!ok, "ring-evict", fn.Pos(), name, "adding to a buffer with room reports an evicted element")
					}
				}
				c.slotCheck(rr, p.Facts, cur2, T.Add(rr.cur, 1), rr.L, "ring-cursor", fn.Pos(), name, "the next element wouldn't follow this one")
			}
		}
		// no room at all
		c.ringZero(r, fn)
	}
	if fn := c.P.Method(r.T, "Walk"); fn != nil {
		c.ringWalk(r, fn)
	}
	if fn := c.P.Method(r.T, "Stats"); fn != nil {
		c.ringStats(r, fn)
	}
	if fn := c.P.Method(r.T, "Resize"); fn != nil {
		c.ringResize(r, fn)
	}
	c.ringConstructor(r)
	c.ringMap(r)
	c.Floor("ring-add", 6)
	c.Floor("ring-walk", 2)
}

// ringConstructor: a new buffer is empty and satisfies the invariant.
func (c *C) ringConstructor(r *ringT) {
	fn := c.P.Func(ringPkg, "NewRingBuffer")
	if fn == nil {
		c.Undec("ring-new", "NewRingBuffer", "not found")
		return
	}
	in := eng.NewInterp(c.P, eng.Config{})
	ps := in.ParamSyms(fn)
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || len(p.Ret) != 1 {
			continue
		}
		f := finalFields(p, p.Ret[0], r.T)
		b := f[r.Buf.Name()]
		if b == nil || b.Op != eng.OMkSlice {
			c.Undec("ring-new", "NewRingBuffer", "buffer %v", b)
			continue
		}
		if p.Facts.EqInt(b.Args[0], ps[0], 0) {
			c.OK("ring-new", "capacity")
		} else if k, ok := in.T.LinConst(in.T.Sub(b.Args[0], ps[0])); ok && k != 0 {
			c.Fail("ring-new", fn.Pos(), "capacity", "a new buffer has room for %s elements instead of %s", b.Args[0], ps[0])
		}
		for _, g := range []*types.Var{r.Cur, r.N} {
			v := f[g.Name()]
			c.Check(v == nil || zeroLike(v), "ring-new", fn.Pos(), g.Name(), "a new buffer starts with %s = %v", g.Name(), v)
		}
	}
}

func (c *C) ringZero(r *ringT, fn *ssa.Function) {
	var in *eng.Interp
	var ps []*eng.Term
	in = eng.NewInterp(c.P, eng.Config{OnLock: func(st *eng.State, lock *eng.Term) {
		base, ok := directField(lock, r.Mtx)
		if !ok || base != ps[0] {
			return
		}
		buf := st.Load(in.T.Field(base, r.iBuf, r.Buf), r.Buf.Type())
		st.AssumeLe(in.T.Len(buf), in.T.Int(0), 0)
		st.AssumeLe(in.T.Cap(buf), in.T.Int(0), 0)
		for i, f := range map[int]*types.Var{r.iC: r.Cur, r.iN: r.N} {
			v := st.Load(in.T.Field(base, i, f), f.Type())
			st.AssumeLe(v, in.T.Int(0), 0)
			st.AssumeLe(in.T.Int(0), v, 0)
		}
	}})
	ps = in.ParamSyms(fn)
	for _, p := range c.Run(in, fn, nil, ps) {
		bad := ""
		p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			if e.Kind == eng.EIndex {
				bad = "indexes an empty buffer"
			}
		})
		c.Check(bad == "", "ring-zero", fn.Pos(), "Add to a buffer without room", "%s", bad)
	}
}

func (c *C) ringWalk(r *ringT, fn *ssa.Function) {
	for _, full := range []bool{false, true} {
		rr := c.ringCase(r, fn, full)
		T := rr.in.T
		name := "Walk " + rr.name
		for _, p := range rr.paths {
			if !rr.locked || p.Panic != nil || len(p.Ret) != 1 {
				continue
			}
			isVisit := func(e *eng.Effect) bool {
				return e.Kind == eng.ECall && e.Addr != nil && e.Addr.Strip() == rr.ps[1] && len(e.Args) == 1
			}
			// loops
			var loop *eng.LoopInfo
			visits := 0
			judge := func(e *eng.Effect, f *eng.Facts, k *eng.Term) {
				idx, ok := rr.elemOf(e.Args[0])
				if !ok {
					c.Undec("ring-walk", name, "visits %s", e.Args[0])
					return
				}
				want := T.Sub(T.Sub(rr.cur, T.Int(1)), k)
				c.slotCheck(rr, f, idx, want, rr.L, "ring-walk", e.Pos, name, "visit number "+k.String()+" isn't the next newest element")
			}
			for _, e := range p.Effects {
				if e.Kind != eng.ELoop {
					continue
				}
				for _, it := range e.Loop.Iters {
					n := 0
					for _, x := range it.Effects {
						if isVisit(x) {
							n++
							visits++
							loop = e.Loop
							judge(x, it.Facts, e.Loop.K)
							c.Check(it.Facts.Le(e.Loop.K, rr.n, -1), "ring-walk-bound", x.Pos, name, "visits more elements than the buffer has")
							if v, known := it.Facts.Eval(T.Cmp(token.EQL, x.Result, T.Nil())); known {
								c.Check(v, "ring-walk-stop", x.Pos, name, "continues after the callback failed")
							} else {
								c.Fail("ring-walk-stop", x.Pos, name, "ignores the error of the callback")
							}
						}
					}
					if loop == e.Loop {
						c.Check(n == 1, "ring-walk-each", e.Pos, name, "an iteration visits %d elements", n)
					}
				}
			}
			var last *eng.Effect
			for _, e := range p.Effects {
				if isVisit(e) {
					last = e
				}
			}
			if loop == nil && last == nil {
				// nothing visited: only if there's nothing
				if !full && p.Facts.Le(rr.n, T.Int(0), 0) {
					continue
				}
				c.Undec("ring-walk", name, "no visiting loop recognised")
				continue
			}
			if last != nil && loop != nil {
				judge(last, p.Facts, loop.K)
				c.Check(p.Ret[0].Strip() == last.Result, "ring-walk-stop", fn.Pos(), name+" error", "returns %s instead of the error of the callback", p.Ret[0])
			} else if loop != nil {
				c.Check(p.Facts.Le(rr.n, loop.K, 0), "ring-walk-all", fn.Pos(), name, "stops before the oldest element: %s", strings.Join(p.FactStrings(), " & "))
				c.Check(p.Ret[0].IsNil(), "ring-walk-stop", fn.Pos(), name+" end", "returns %s after visiting everything", p.Ret[0])
			}
		}
	}
}

func (c *C) ringStats(r *ringT, fn *ssa.Function) {
	for _, full := range []bool{false, true} {
		rr := c.ringCase(r, fn, full)
		T := rr.in.T
		name := "Stats " + rr.name
		for _, p := range rr.paths {
			if !rr.locked || p.Panic != nil || len(p.Ret) != 3 {
				continue
			}
			c.eqCheck(rr, p.Facts, p.Ret[2], rr.n, "ring-stats", fn.Pos(), name+" count", "the count")
			if p.Facts.Le(rr.n, T.Int(0), 0) {
				continue
			}
			for i, want := range []*eng.Term{T.Sub(rr.cur, T.Int(1)), T.Sub(rr.cur, rr.n)} {
				what := []string{"newest", "oldest"}[i]
				if idx, ok := rr.elemOf(p.Ret[i]); ok {
					c.slotCheck(rr, p.Facts, idx, want, rr.L, "ring-stats", fn.Pos(), name+" "+what, "the "+what+" element is wrong")
				} else {
					c.Undec("ring-stats", name+" "+what, "%s", p.Ret[i])
				}
			}
		}
	}
}

func (c *C) ringResize(r *ringT, fn *ssa.Function) {
	for _, full := range []bool{false, true} {
		rr := c.ringCase(r, fn, full)
		T := rr.in.T
		for _, p := range rr.paths {
			if p.Panic != nil || len(p.Ret) != 1 {
				continue
			}
			cp := rr.ps[1]
			name := "Resize " + rr.name
			if p.Facts.Le(cp, T.Int(0), 0) {
				n := 0
				p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
					if e.Kind == eng.EStore && !e.Fresh {
						n++
					}
				})
				c.Check(n == 0, "ring-resize-ignored", fn.Pos(), name, "a size of 0 or less modifies the buffer")
				continue
			}
			if rr.buf == nil {
				continue
			}
			nb, n2, cur2 := rr.final(p, r.Buf, rr.buf), rr.final(p, r.N, rr.n), rr.final(p, r.Cur, rr.cur)
			if nb == rr.buf {
				same := p.Facts.EqInt(cp, rr.L, 0)
				if same {
					c.eqCheck(rr, p.Facts, n2, rr.n, "ring-resize-count", fn.Pos(), name+" same size", "the count after resizing to the same size")
					c.slotCheck(rr, p.Facts, cur2, rr.cur, rr.L, "ring-resize-cursor", fn.Pos(), name+" same size", "the next element wouldn't follow the newest one")
					continue
				}
				c.Fail("ring-resize", fn.Pos(), name, "a path keeps the old buffer: %s", strings.Join(p.FactStrings(), " & "))
				continue
			}
			if nb.Op != eng.OMkSlice {
				c.Undec("ring-resize", name, "new buffer %s", nb)
				continue
			}
			if p.Facts.EqInt(nb.Args[0], cp, 0) {
				c.OK("ring-resize", name+" size")
			} else {
				c.Fail("ring-resize", fn.Pos(), name+" size", "the new buffer has %s slots instead of %s", nb.Args[0], cp)
			}
			// kept = min(n, cap)
			fits := p.Facts.Le(rr.n, cp, 0)
			shrinks := p.Facts.Le(cp, rr.n, 0)
			var kept *eng.Term
			switch {
			case fits:
				kept = rr.n
			case shrinks:
				kept = cp
			default:
				c.Undec("ring-resize", name, "path doesn't compare the count with the size")
				continue
			}
			c.eqCheck(rr, p.Facts, n2, kept, "ring-resize-count", fn.Pos(), name, "the count after resizing")
			rr.loopK[kept] = true
			if v, why := rr.slot(p.Facts, cur2, kept, cp); v == no {
				c.Fail("ring-resize-cursor", fn.Pos(), name, "the next element wouldn't follow the newest one: %s", why)
			} else if v == maybe {
				c.Undec("ring-resize-cursor", name, "%s", why)
			} else {
				c.OK("ring-resize-cursor", name)
			}
			opaque, whole := false, false
			var copyLoop, dropLoop *eng.LoopInfo
			p.Walk(true, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
				if e.Kind == eng.ECopy {
					opaque = true
				}
				if len(loops) == 0 {
					return
				}
				k := loops[len(loops)-1].K
				switch e.Kind {
				case eng.EStore:
					if e.Addr.Op == eng.OIndex && e.Addr.Args[0] == nb {
						copyLoop = loops[len(loops)-1]
						w := e.Addr.Args[1]
						rd, ok := rr.elemOf(e.Val)
						if !ok {
							c.Undec("ring-resize-copy", name, "%s", e.Val)
							return
						}
						// age of slot w is kept-1-w
						want := T.Sub(T.Sub(rr.cur, T.Int(1)), T.Sub(T.Sub(kept, T.Int(1)), w))
						c.slotCheck(rr, e.Facts, rd, want, rr.L, "ring-resize-copy", e.Pos, name, "the element copied to slot "+w.String()+" is wrong")
					}
				case eng.EAppend:
					if e.Val.Op == eng.OArr && len(e.Val.Args) == 1 {
						rd, ok := rr.elemOf(e.Val.Args[0])
						if !ok {
							return
						}
						dropLoop = loops[len(loops)-1]
						age := T.Plus(kept, k)
						want := T.Sub(T.Sub(rr.cur, T.Int(1)), age)
						v, why := rr.slot(e.Facts, rd, want, rr.L)
						if v == no {
							want2 := T.Sub(T.Sub(rr.cur, T.Int(1)), T.Sub(T.Sub(rr.n, T.Int(1)), k))
							if v2, _ := rr.slot(e.Facts, rd, want2, rr.L); v2 != no {
								v = v2
							}
						}
						if v == no && e.Facts.Le(kept, k, 0) && e.Facts.Le(k, rr.n, -1) {
							// one loop over all elements
							want3 := T.Sub(T.Sub(rr.cur, T.Int(1)), k)
							if v3, _ := rr.slot(e.Facts, rd, want3, rr.L); v3 != no {
								v, whole = v3, true
							}
						}
						switch v {
						case yes:
							c.OK("ring-resize-drop", name)
						case no:
							c.Fail("ring-resize-drop", e.Pos, name, "the element reported as evicted isn't an evicted one: %s", why)
						default:
							c.Undec("ring-resize-drop", name, "%s", why)
						}
					}
				}
			})
			if opaque {
				c.Undec("ring-resize-copy", name, "uses copy")
				continue
			}
			if copyLoop != nil {
				c.Check(p.Facts.Le(kept, copyLoop.K, 0), "ring-resize-all", fn.Pos(), name+" copied", "not every kept element is copied: %s", strings.Join(p.FactStrings(), " & "))
			} else if !p.Facts.Le(kept, T.Int(0), 0) && full {
				c.Undec("ring-resize-copy", name, "no copying loop recognised")
			}
			if !fits {
				if dropLoop == nil {
					if p.Ret[0].IsNil() || p.Ret[0].Op == eng.OZero {
						c.Fail("ring-resize-drop", fn.Pos(), name, "evicted elements aren't reported when shrinking")
					} else {
						c.Undec("ring-resize-drop", name, "returns %s", p.Ret[0])
					}
				} else if whole {
					c.Check(p.Facts.Le(rr.n, dropLoop.K, 0), "ring-resize-all", fn.Pos(), name+" evicted", "not every evicted element is reported: %s", strings.Join(p.FactStrings(), " & "))
				} else {
					c.Check(p.Facts.Le(T.Sub(rr.n, kept), dropLoop.K, 0), "ring-resize-all", fn.Pos(), name+" evicted", "not every evicted element is reported: %s", strings.Join(p.FactStrings(), " & "))
				}
			}
		}
	}
}

// ringMap: the map of ring buffers.
func (c *C) ringMap(r *ringT) {
	n := c.P.Named(ringPkg, "RingBuffers")
	if n == nil {
		c.Undec("ringmap", "RingBuffers", "type not found")
		return
	}
	var mp, capF *types.Var
	for _, f := range fieldsOf(n) {
		if _, ok := f.Type().Underlying().(*types.Map); ok {
			mp = f
		} else if b, ok := f.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			capF = f
		}
	}
	if mp == nil || capF == nil {
		c.Undec("ringmap", "RingBuffers", "fields not recognised")
		return
	}
	inl := func(fn *ssa.Function) bool { return !exportedFn(fn) }
	if fn := c.P.Method(n, "GetOrCreate"); fn != nil {
		in := eng.NewInterp(c.P, eng.Config{Inline: inl})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			if p.Panic != nil || len(p.Ret) != 1 {
				continue
			}
			present, known := false, false
			var found *eng.Term
			var upd []*eng.Effect
			var lookups []*eng.Effect
			p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				switch e.Kind {
				case eng.EMapUpdate:
					upd = append(upd, e)
				case eng.EMapRead:
					lookups = append(lookups, e)
					if e.Key != ps[1] {
						break
					}
					p.Facts.Each(func(t *eng.Term, v bool) {
						x, is := t, v
						if t.Op != eng.OLookupOk {
							x, is = nilCompared(t), !v
						}
						if x != nil && (x == e.Val || x.Op == eng.OLookupOk && e.Val != nil && x.N == e.Val.N && len(e.Val.Args) == 2 && x.Args[0] == e.Val.Args[0] && x.Args[1] == e.Val.Args[1]) {
							present, known, found = is, true, e.Val
						}
					})
				}
			})
			for _, e := range append(append([]*eng.Effect{}, lookups...), upd...) {
				if e.Key != nil && e.Key != ps[1] && e.Key.Strip() != ps[1] && e.Key.Op == eng.OCall && e.Key.Any(func(t *eng.Term) bool { return t == ps[1] }) && isPureText(e.Key) {
					c.Fail("ringmap-key", e.Pos, "GetOrCreate key", "the buffer of a category is kept under %s, which other categories may share", e.Key)
				}
			}
			if !known {
				c.Undec("ringmap-get", "GetOrCreate", "no lookup recognised")
				continue
			}
			if present {
				c.Check(len(upd) == 0, "ringmap-get", fn.Pos(), "GetOrCreate existing", "replaces the buffer of an existing category")
				if found != nil {
					c.Check(p.Ret[0].Strip() == found.Strip(), "ringmap-get", fn.Pos(), "GetOrCreate existing result", "returns %s instead of the existing buffer", p.Ret[0])
				}
				continue
			}
			if !c.Check(len(upd) == 1, "ringmap-create", fn.Pos(), "GetOrCreate new", "a new buffer isn't kept for its category") {
				continue
			}
			if last := lastLookup(lookups, upd[0]); last != nil {
				c.Check(sameSection(p, last, upd[0]), "ringmap-atomic", upd[0].Pos, "GetOrCreate", "the lock is released between looking up a category and creating it, so a buffer that another goroutine created in between is replaced")
			}
			c.Check(upd[0].Key == ps[1], "ringmap-create", upd[0].Pos, "GetOrCreate key", "the new buffer is kept under %s", upd[0].Key)
			c.Check(p.Ret[0].Strip() == upd[0].Val.Strip(), "ringmap-create", upd[0].Pos, "GetOrCreate same", "returns %s but keeps %s", p.Ret[0], upd[0].Val)
			v := upd[0].Val.Strip()
			if v.Op == eng.OCall && strings.Contains(v.CalleeName(), "NewRingBuffer") {
				c.Check(loadOf(v.Args[0].Strip(), capF), "ringmap-create", upd[0].Pos, "GetOrCreate size", "a new buffer has size %s instead of the configured one", v.Args[0])
			}
		}
	}
	if fn := c.P.Method(n, "GetAll"); fn != nil {
		in := eng.NewInterp(c.P, eng.Config{Inline: inl})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			if p.Panic != nil || len(p.Ret) != 1 {
				continue
			}
			v := p.Ret[0].Strip()
			if loadOf(v, mp) {
				c.Fail("ringmap-all", fn.Pos(), "GetAll", "returns the live map, which others modify concurrently")
				continue
			}
			if v.Op != eng.OMkMap {
				c.Undec("ringmap-all", "GetAll", "returns %s", v)
				continue
			}
			okAll, sawLoop := true, false
			for i, e := range p.Effects {
				if e.Kind != eng.ELoop {
					continue
				}
				if yes, known := headerExit(p.Effects, i); known {
					c.Check(yes, "ringmap-all", fn.Pos(), "GetAll complete", "stops before every category was copied: %s", strings.Join(p.FactStrings(), " & "))
				}
				for _, it := range e.Loop.Iters {
					sawLoop = true
					has := false
					for _, x := range it.Effects {
						if x.Kind == eng.EMapUpdate && x.Addr == v {
							has = true
							c.Check(x.Key.Op == eng.ONextKey && x.Val.Strip().Op == eng.ONextVal || x.Val.Strip().Op == eng.OLookup, "ringmap-all", x.Pos, "GetAll entry", "copies %s under %s", x.Val, x.Key)
						}
					}
					if !has {
						okAll = false
					}
				}
			}
			if sawLoop {
				c.Check(okAll, "ringmap-all", fn.Pos(), "GetAll", "skips a category")
			} else {
				c.Undec("ringmap-all", "GetAll", "no copying loop recognised")
			}
		}
	}
	if fn := c.P.Method(n, "Resize"); fn != nil {
		for _, positive := range []bool{false, true} {
			in := eng.NewInterp(c.P, eng.Config{Inline: inl})
			ps := in.ParamSyms(fn)
			st := in.NewState()
			if positive {
				st.AssumeLe(in.T.Int(1), ps[1], 0)
			} else {
				st.AssumeLe(ps[1], in.T.Int(0), 0)
			}
			for _, p := range c.Run(in, fn, st, ps) {
				if p.Panic != nil || len(p.Ret) != 1 {
					continue
				}
				var setCap *eng.Effect
				p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
					if e.Kind == eng.EStore && !e.Fresh {
						if _, ok := directField(e.Addr, capF); ok {
							setCap = e
						}
					}
				})
				if p.Facts.Le(ps[1], in.T.Int(0), 0) {
					c.Check(setCap == nil, "ringmap-resize", fn.Pos(), "Resize ignored", "a size of 0 or less is kept for new categories")
					continue
				}
				if setCap == nil {
					// nothing to do if it's the size they have
					same := false
					p.Facts.EachTerm(func(t *eng.Term) {
						if t.Any(func(x *eng.Term) bool {
							return loadOf(x, capF) && p.Facts.EqInt(x, ps[1], 0)
						}) {
							same = true
						}
					})
					if same {
						continue
					}
				}
				if c.Check(setCap != nil, "ringmap-resize", fn.Pos(), "Resize size", "the new size isn't kept for new categories") {
					c.Check(setCap.Val.Strip() == ps[1], "ringmap-resize", setCap.Pos, "Resize size", "the size kept is %s", setCap.Val)
				}
				for i, e := range p.Effects {
					if e.Kind != eng.ELoop {
						continue
					}
					if yes, known := headerExit(p.Effects, i); known {
						c.Check(yes, "ringmap-resize", fn.Pos(), "Resize complete", "stops before every category was resized: %s", strings.Join(p.FactStrings(), " & "))
					}
					for _, it := range e.Loop.Iters {
						var rs *eng.Effect
						kept := false
						for _, x := range it.Effects {
							if strings.HasSuffix(callName(x), ".Resize") {
								rs = x
							}
						}
						if rs == nil {
							c.Fail("ringmap-resize", e.Pos, "Resize each", "an existing category isn't resized")
							continue
						}
						c.Check(rs.Args[1].Strip() == ps[1], "ringmap-resize", rs.Pos, "Resize each", "a category is resized to %s", rs.Args[1])
						for _, nx := range it.Next {
							if nx.Any(func(t *eng.Term) bool { return t == rs.Result }) {
								kept = true
							}
						}
						for _, x := range it.Effects {
							if kept || x.Kind != eng.ELoop {
								continue
							}
							// copied one by one
							for _, v := range x.Loop.Vars {
								all := len(x.Loop.Iters) > 0
								for _, in := range x.Loop.Iters {
									n := in.Next[v.Start]
									if n == nil || !grows(v.Start, n) || !n.Any(func(t *eng.Term) bool { return t == rs.Result }) {
										all = false
									}
								}
								for _, nx := range it.Next {
									if all && nx.Any(func(t *eng.Term) bool { return t == v.Start }) {
										kept = true
									}
								}
							}
						}
						c.Check(kept, "ringmap-resize", rs.Pos, "Resize evicted", "elements evicted from a category aren't reported")
					}
				}
			}
		}
	}
}

// nilCompared: t is x == nil.
func nilCompared(t *eng.Term) *eng.Term {
	if t.Op == eng.OBin && t.Aux == "==" && len(t.Args) == 2 {
		if t.Args[1].IsNil() {
			return t.Args[0]
		}
		if t.Args[0].IsNil() {
			return t.Args[1]
		}
	}
	return nil
}

// lastLookup is the last lookup before e.
func lastLookup(lookups []*eng.Effect, e *eng.Effect) (last *eng.Effect) {
	for _, l := range lookups {
		if l.Key == e.Key && l.Addr == e.Addr {
			last = l
		}
	}
	return last
}

// sameSection: no lock is released between two effects of a path.
func sameSection(p *eng.Path, a, b *eng.Effect) bool {
	in, ok := false, true
	for _, e := range p.Effects {
		if e == a {
			in = true
		}
		if e == b {
			break
		}
		if in && e.Kind == eng.EUnlock {
			ok = false
		}
	}
	return ok
}

// isPureText: a function of package strings, which only transforms its input.
func isPureText(t *eng.Term) bool {
	return strings.HasPrefix(t.CalleeName(), "strings.")
}

package eng

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Path merging (property simulation): with Cfg.Keep set, abstract states that
// reach the same program point having performed the same kept effects are
// joined. Values that differ are replaced by a fresh unknown; facts are
// intersected.

// rpo numbers the blocks of fn in reverse post order.
func (p *Program) rpo(fn *ssa.Function) map[*ssa.BasicBlock]int {
	if p.rpos == nil {
		p.rpos = map[*ssa.Function]map[*ssa.BasicBlock]int{}
	}
	if m, ok := p.rpos[fn]; ok {
		return m
	}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var rec func(b *ssa.BasicBlock)
	rec = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			rec(s)
		}
		post = append(post, b)
	}
	if len(fn.Blocks) > 0 {
		rec(fn.Blocks[0])
	}
	if fn.Recover != nil {
		// the recover block comes last
		if !seen[fn.Recover] {
			seen[fn.Recover] = true
			post = append([]*ssa.BasicBlock{fn.Recover}, post...)
		}
	}
	m := map[*ssa.BasicBlock]int{}
	for i, b := range post {
		m[b] = len(post) - i
	}
	p.rpos[fn] = m
	return m
}

// before orders states so that all predecessors of a join run first.
func (in *Interp) before(a, b *State) bool {
	n := len(a.frames)
	if len(b.frames) < n {
		n = len(b.frames)
	}
	for i := 0; i < n; i++ {
		fa, fb := a.frames[i], b.frames[i]
		if fa.fn != fb.fn {
			return false
		}
		ra, rb := in.P.rpo(fa.fn)[fa.block], in.P.rpo(fb.fn)[fb.block]
		if ra != rb {
			return ra < rb
		}
		pa, pb := fa.pc, fb.pc
		if fa.pending {
			pa = -1
		}
		if fb.pending {
			pb = -1
		}
		if pa != pb {
			return pa < pb
		}
	}
	return len(a.frames) > len(b.frames)
}

func sameTerms(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (in *Interp) samePos(a, b *State) bool {
	if len(a.frames) != len(b.frames) || len(a.locks) != len(b.locks) {
		return false
	}
	for i := range a.locks {
		if a.locks[i] != b.locks[i] {
			return false
		}
	}
	for i := range a.frames {
		x, y := a.frames[i], b.frames[i]
		if x.fn != y.fn || x.block != y.block || x.pending != y.pending || x.site != y.site || x.asDefer != y.asDefer || x.recovered != y.recovered || x.resVal != y.resVal {
			return false
		}
		if x.pending && x.from != y.from {
			return false
		}
		if !x.pending && x.pc != y.pc {
			return false
		}
		if (x.panicking == nil) != (y.panicking == nil) {
			return false
		}
		if len(x.defers) != len(y.defers) {
			return false
		}
		for j := range x.defers {
			if x.defers[j].site != y.defers[j].site {
				return false
			}
		}
	}
	return true
}

func ancestor(a, b *logNode) *logNode {
	for a != b {
		switch {
		case a == nil || b == nil:
			return nil
		case a.n > b.n:
			a = a.parent
		case b.n > a.n:
			b = b.parent
		default:
			a, b = a.parent, b.parent
		}
	}
	return a
}

func (in *Interp) kept(st *State, since *logNode) []*Effect {
	var out []*Effect
	for _, e := range st.effectsSince(since) {
		if e.Kind == ELoop || in.Cfg.Keep(e) {
			out = append(out, e)
		}
	}
	return out
}

func sameKept(a, b []*Effect) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := a[i], b[i]
		if x == y {
			continue
		}
		if x.Kind != y.Kind || x.Site != y.Site || x.Case != y.Case || x.Truth != y.Truth || x.Fn != y.Fn {
			return false
		}
		if x.Kind == ELoop {
			return false
		}
	}
	return true
}

func (in *Interp) join(st *State, x, y *Term, typ types.Type) *Term {
	if x == y {
		return x
	}
	if x == nil || y == nil {
		return nil
	}
	if typ == nil {
		typ = x.Typ
	}
	if typ == nil {
		typ = y.Typ
	}
	return in.T.FreshSym("join", typ)
}

// merge joins b into a; nil when they differ in something kept.
func (in *Interp) merge(a, b *State) *State {
	if !in.samePos(a, b) {
		return nil
	}
	anc := ancestor(a.log, b.log)
	ka, kb := in.kept(a, anc), in.kept(b, anc)
	if !sameKept(ka, kb) {
		return nil
	}
	n := a.clone()
	for k := range b.escaped {
		n.escaped[k] = true
	}
	memo := map[[2]*Term]*Term{}
	var joinT func(x, y *Term, typ types.Type) *Term
	joinT = func(x, y *Term, typ types.Type) *Term {
		if x == y {
			return x
		}
		if r, ok := memo[[2]*Term{x, y}]; ok {
			return r
		}
		if x.Op == OTuple && y.Op == OTuple && len(x.Args) == len(y.Args) {
			args := make([]*Term, len(x.Args))
			for i := range args {
				args[i] = joinT(x.Args[i], y.Args[i], nil)
			}
			r := in.T.mk(OTuple, "", 0, nil, x.Typ, args...)
			memo[[2]*Term{x, y}] = r
			return r
		}
		r := in.join(n, x, y, typ)
		memo[[2]*Term{x, y}] = r
		n.escape(x)
		n.escape(y)
		// both non-nil
		nx, kx := a.facts.Eval(in.T.cmp(tokEQL, x, in.T.Nil()))
		ny, ky := b.facts.Eval(in.T.cmp(tokEQL, y, in.T.Nil()))
		if kx && ky && nx == ny && !x.IsConst() {
			n.assume(in.T.cmp(tokEQL, r, in.T.Nil()), nx)
		}
		return r
	}
	n.facts = in.joinFacts(a.facts, b.facts)
	for i := range n.frames {
		fa, fb := a.frames[i], b.frames[i]
		env := map[ssa.Value]*Term{}
		for k, x := range fa.env {
			if y, ok := fb.env[k]; ok {
				if r := joinT(x, y, k.Type()); r != nil {
					env[k] = r
				}
			}
		}
		n.frames[i].env = env
		for j := range n.frames[i].defers {
			d, e := fa.defers[j], fb.defers[j]
			nd := d
			nd.args = nil
			for q := range d.args {
				nd.args = append(nd.args, joinT(d.args[q], e.args[q], nil))
			}
			if d.fnTerm != e.fnTerm {
				if d.fnTerm.Op == OClosure && e.fnTerm.Op == OClosure && d.fnTerm.Obj == e.fnTerm.Obj && len(d.fnTerm.Args) == len(e.fnTerm.Args) {
					args := make([]*Term, len(d.fnTerm.Args))
					for q := range args {
						args[q] = joinT(d.fnTerm.Args[q], e.fnTerm.Args[q], nil)
					}
					nd.fnTerm = in.T.mk(OClosure, "", 0, d.fnTerm.Obj, d.fnTerm.Typ, args...)
				} else {
					nd.fnTerm = joinT(d.fnTerm, e.fnTerm, nil)
				}
			}
			n.frames[i].defers[j] = nd
		}
	}
	mem := map[*Term]*Term{}
	for addr, x := range a.mem {
		y, ok := b.mem[addr]
		if !ok {
			if hasIndex(addr) {
				continue
			}
			y = b.load(addr, elemType(addr.Typ))
		}
		mem[addr] = joinT(x, y, elemType(addr.Typ))
	}
	for addr, y := range b.mem {
		if _, ok := a.mem[addr]; ok {
			continue
		}
		if hasIndex(addr) {
			continue
		}
		mem[addr] = joinT(a.load(addr, elemType(addr.Typ)), y, elemType(addr.Typ))
	}
	n.mem = mem
	have := map[havoc]bool{}
	for _, h := range n.havocs {
		have[h] = true
	}
	for _, h := range b.havocs {
		if !have[h] {
			n.havocs = append(n.havocs, h)
		}
	}
	if a.epoch != b.epoch {
		n.epoch = in.T.Fresh()
	}
	for m, ms := range b.maps {
		o := n.mapOf(m)
		if o.ver != ms.ver || len(o.entries) != len(ms.entries) {
			o.entries = map[*Term]mapEntry{}
			o.ver = in.T.Fresh()
			o.fresh = false
		} else {
			for k, v := range ms.entries {
				if o.entries[k] != v {
					o.entries = map[*Term]mapEntry{}
					o.ver = in.T.Fresh()
					o.fresh = false
					break
				}
			}
		}
	}
	// joined log
	n.log = anc
	for i, e := range ka {
		c := e
		if e != kb[i] {
			cp := *e
			cp.Facts = in.joinFacts(e.Facts, kb[i].Facts)
			cp.OK = e.OK && kb[i].OK
			cp.Fresh = e.Fresh && kb[i].Fresh
			cp.NonNil = e.NonNil && kb[i].NonNil
			cp.Sub = append(append([]*Path{}, e.Sub...), kb[i].Sub...)
			if e.Addr != nil && kb[i].Addr != nil {
				cp.Addr = joinT(e.Addr, kb[i].Addr, nil)
			}
			if e.Val != nil && kb[i].Val != nil {
				cp.Val = joinT(e.Val, kb[i].Val, nil)
			}
			if e.Result != nil && kb[i].Result != nil {
				cp.Result = joinT(e.Result, kb[i].Result, nil)
			}
			if len(e.Args) == len(kb[i].Args) {
				cp.Args = make([]*Term, len(e.Args))
				for q := range e.Args {
					if e.Args[q] != nil && kb[i].Args[q] != nil {
						cp.Args[q] = joinT(e.Args[q], kb[i].Args[q], nil)
					}
				}
			}
			c = &cp
		}
		k := 1
		if n.log != nil {
			k = n.log.n + 1
		}
		n.log = &logNode{parent: n.log, eff: c, n: k}
	}
	in.Merges++
	return n
}

func (in *Interp) joinFacts(a, b *Facts) *Facts {
	if a == b {
		return a
	}
	f := NewFacts(in.T)
	for _, t := range a.order {
		v := a.atoms[t]
		if w, ok := b.atoms[t]; ok && w == v {
			f.atoms[t] = v
			f.order = append(f.order, t)
		}
	}
	seen := map[string]bool{}
	for _, l := range a.lins {
		if b.entailsLe0(l) {
			f.lins = append(f.lins, l)
			seen[l.key()] = true
		}
	}
	for _, l := range b.lins {
		if !seen[l.key()] && a.entailsLe0(l) {
			f.lins = append(f.lins, l)
		}
	}
	for _, l := range a.neqs {
		for _, m := range b.neqs {
			if l.key() == m.key() {
				f.neqs = append(f.neqs, l)
				break
			}
		}
	}
	return f
}

// exploreMerging is explore with property simulation.
func (in *Interp) exploreMerging(work []*State, lc *loopCtx) (iters, exits, done []*State) {
	absorb := func(list []*State, s *State) []*State {
		for i, o := range list {
			if m := in.merge(o, s); m != nil {
				list[i] = m
				return list
			}
		}
		return append(list, s)
	}
	for len(work) > 0 {
		if in.over() {
			return
		}
		// pick the earliest state and join the others at its position
		best := 0
		for i := 1; i < len(work); i++ {
			if in.before(work[i], work[best]) {
				best = i
			}
		}
		st := work[best]
		work = append(work[:best], work[best+1:]...)
		for i := 0; i < len(work); {
			if work[i].marker == st.marker && st.marker {
				if m := in.merge(st, work[i]); m != nil {
					st = m
					work = append(work[:i], work[i+1:]...)
					continue
				}
			}
			i++
		}
		st.marker = false
	run:
		for {
			if in.over() {
				return
			}
			if len(st.frames) == 0 {
				done = append(done, st)
				in.npaths++
				break
			}
			depth := len(st.frames)
			if lc != nil && depth < lc.depth {
				exits = append(exits, st)
				break
			}
			fr := st.top()
			entered := false
			if fr.pending {
				if lc != nil && depth == lc.depth {
					if fr.block == lc.header && lc.body[fr.from] {
						iters = absorb(iters, st)
						break
					}
					if !lc.body[fr.block] {
						exits = absorb(exits, st)
						break
					}
				}
				loops := in.P.Loops(fr.fn)
				if l := loops[fr.block]; l != nil && !l.Body[fr.from] {
					if !st.ready {
						st.ready, st.marker = true, true
						work = append(work, st)
						break
					}
					st.ready = false
					ex, dn := in.runLoop(st, l, in.Cfg.Peel)
					done = append(done, dn...)
					work = append(work, ex...)
					break
				}
				in.enterBlock(st)
				entered = true
			}
			if entered && len(fr.block.Preds) > 1 {
				st.marker = true
				work = append(work, st)
				break
			}
			nf := len(st.frames)
			succ := in.step(st)
			switch len(succ) {
			case 0:
				break run
			case 1:
				st = succ[0]
				if len(st.frames) > 0 && len(st.frames) < nf && st.top().panicking == nil {
					st.marker = true
					work = append(work, st)
					break run
				}
			default:
				work = append(work, succ...)
				break run
			}
		}
	}
	return
}

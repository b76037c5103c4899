package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type loopVar struct {
	phi          *ssa.Phi
	addr         *Term
	init         *Term
	start        *Term
	kind         string // ind, mod, sym
	step         int64
	x            *Term // mod
	mod          bool  // mod tried
	cands        []cand
	typ          types.Type
	lens         bool // lenLo*K <= len(start)-len(init) <= lenHi*K
	lenLo, lenHi int64
	lenRounds    int
}

// cand is a candidate invariant: start <= t+k (le) or t+k <= start.
type cand struct {
	le bool
	t  *Term
	k  int64
}

func (c cand) holds(f *Facts, v *Term) bool {
	if c.le {
		return f.Le(v, c.t, c.k)
	}
	return f.Le(c.t, v, -c.k)
}
func (c cand) assume(f *Facts, v *Term) bool {
	if c.le {
		return f.AssumeLe(v, c.t, c.k)
	}
	return f.AssumeLe(c.t, v, -c.k)
}

const maxUnroll = 12

// tripCount: one more than the number of iterations of a loop that counts up to
// a small constant, such as one over the elements of a literal.
func (in *Interp) tripCount(st *State, L *Loop) int {
	if in.Cfg.NoUnroll || len(L.Header.Instrs) == 0 {
		return 0
	}
	ifi, ok := L.Header.Instrs[len(L.Header.Instrs)-1].(*ssa.If)
	if !ok {
		return 0
	}
	cmp, ok := ifi.Cond.(*ssa.BinOp)
	if !ok || cmp.Op != token.LSS {
		return 0
	}
	outside := func(v ssa.Value) bool {
		i, ok := v.(ssa.Instruction)
		return !ok || !L.Body[i.Block()]
	}
	var n *Term
	if outside(cmp.Y) {
		n = st.val(cmp.Y)
	} else if call, ok := cmp.Y.(*ssa.Call); ok {
		if b, ok := call.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && outside(call.Call.Args[0]) {
			n = in.T.Len(st.val(call.Call.Args[0]))
		}
	}
	if n == nil {
		return 0
	}
	k, ok := n.IntConst()
	if !ok || k > maxUnroll {
		return 0
	}
	x := cmp.X
	if add, ok := x.(*ssa.BinOp); ok && add.Op == token.ADD {
		x = add.X
	}
	phi, ok := x.(*ssa.Phi)
	if !ok || phi.Block() != L.Header {
		return 0
	}
	if i, ok := in.phiVals(st)[phi].IntConst(); !ok || i < -1 || k-i > maxUnroll+1 {
		return 0
	}
	return int(k) + 2
}

// runLoop summarises the loop about to be entered by st: it iterates the body
// from a widened header state until the widening is stable, and returns the
// states that leave the loop.
func (in *Interp) runLoop(st *State, L *Loop, peel int) (exits, done []*State) {
	depth := len(st.frames)
	lc := &loopCtx{depth: depth, header: L.Header, body: L.Body}
	if peel == 0 {
		peel = in.tripCount(st, L)
	}
	if peel < 0 {
		peel = 0
	}
	if peel > 0 {
		s := st.clone()
		in.enterBlock(s)
		iters, ex, dn := in.explore([]*State{s}, lc)
		exits, done = append(exits, ex...), append(done, dn...)
		for _, it := range iters {
			next := peel - 1
			if next == 0 {
				next = -1
			}
			e2, d2 := in.runLoop(it, L, next)
			exits, done = append(exits, e2...), append(done, d2...)
		}
		return
	}
	tt := in.T
	fn := st.top().fn
	init := in.phiVals(st)
	K := tt.FreshSym("k", types.Typ[types.Int])
	vars := map[any]*loopVar{}
	var order []any
	havocs := map[*Term]bool{}
	mapHavoc := map[*Term]bool{}
	needBump := false
	escapes := map[*Term]bool{}

	for round := 0; ; round++ {
		if in.over() {
			return
		}
		s := st.clone()
		fr := s.top()
		fr.pending = false
		fr.from = nil
		fr.pc = 0
		for fr.pc < len(L.Header.Instrs) {
			if _, ok := L.Header.Instrs[fr.pc].(*ssa.Phi); !ok {
				break
			}
			fr.pc++
		}
		for p, v := range init {
			if lv := vars[p]; lv != nil {
				v = lv.start
			}
			fr.env[p] = v
		}
		before := tt.nextID
		if needBump {
			s.bumpEpoch()
		}
		for r := range escapes {
			s.escaped[r] = true
		}
		for h := range havocs {
			s.dropPrefix(h, tt.Fresh(), nil)
		}
		for m := range mapHavoc {
			ms := s.mapOf(m)
			ms.entries = map[*Term]mapEntry{}
			ms.ver = tt.Fresh()
			ms.fresh = false
		}
		f := s.facts.Clone()
		f.AssumeLe(tt.Int(0), K, 0)
		for _, k := range order {
			lv := vars[k]
			if lv.addr != nil {
				s.mem[lv.addr] = lv.start
			}
			for _, c := range lv.cands {
				c.assume(f, lv.start)
			}
			if lv.lens {
				grown := tt.Sub(tt.Len(lv.start), tt.Len(lv.init))
				kl := tt.LinOf(K)
				f.AssumeLe(tt.FromLin(linConst(0).addScaled(kl, lv.lenLo), types.Typ[types.Int]), grown, 0)
				f.AssumeLe(grown, tt.FromLin(linConst(0).addScaled(kl, lv.lenHi), types.Typ[types.Int]), 0)
			}
		}
		s.facts = f
		mark := tt.nextID
		info := &LoopInfo{Fn: fn, Header: L.Header, K: K, BoolAcc: map[*Term]*BoolAcc{}, Mult: map[*Term]*Term{}, Depth: depth}
		s.push(&Effect{Kind: ELoop, Pos: loopPos(L.Header), Loop: info, Fn: fn})
		logMark := s.log
		s0 := s.clone()
		iters, ex, dn := in.explore([]*State{s}, lc)
		if in.over() {
			return
		}
		varying := func(t *Term) bool {
			return t.Any(func(x *Term) bool {
				if x == K {
					return true
				}
				switch x.Op {
				case OSym, OCall, OAlloc, OMkSlice, OMkMap, OMkChan, ORecv, ONextKey, ONextVal, OLookup, OLoad, OLookupOk:
					if x.N > mark {
						return true
					}
				}
				for _, k := range order {
					lv := vars[k]
					if lv.kind == "sym" && x == lv.start {
						return true
					}
					if lv.kind == "mod" && x.Op == OSym && x.Aux == "mult" && lv.start.Contains(x) {
						return true
					}
				}
				return false
			})
		}
		// observed next values
		nexts := make([]map[any]*Term, len(iters))
		changed := false
		addrs := map[*Term]bool{}
		for i, it := range iters {
			nexts[i] = map[any]*Term{}
			for p, v := range in.phiVals(it) {
				nexts[i][p] = v
			}
			if it.epoch != s0.epoch && !needBump {
				needBump = true
				changed = true
			}
			for r := range it.escaped {
				if !s0.escaped[r] && r.N <= mark && !escapes[r] {
					escapes[r] = true
					changed = true
				}
			}
			for m, ms := range it.maps {
				if m.N > mark && (m.Op == OMkMap) {
					continue
				}
				if varying(m) {
					continue
				}
				if s0.mapOf(m).ver != ms.ver && !mapHavoc[m] {
					mapHavoc[m] = true
					changed = true
				}
			}
			for _, h := range it.havocs[len(s0.havocs):] {
				p := nonVarying(h.prefix, varying)
				if p == nil {
					continue
				}
				if p.Any(func(x *Term) bool { return x.Op == OLoad && x.N > before && x.N <= mark }) {
					continue // read from memory that's unknown at the start of an iteration
				}
				if !havocs[p] {
					if _, isVar := vars[p]; !isVar {
						havocs[p] = true
						changed = true
					}
				}
			}
			for a := range it.mem {
				addrs[a] = true
			}
			for a := range s0.mem {
				if _, ok := it.mem[a]; !ok {
					p := nonVarying(a, varying)
					if p != nil && !havocs[p] && !coveredBy(a, havocs) && !(needBump && !s0.owned(a.Root())) {
						havocs[p] = true
						delete(vars, a)
						order = removeKey(order, a)
						changed = true
					}
				}
			}
		}
		addrList := make([]*Term, 0, len(addrs))
		for a := range addrs {
			addrList = append(addrList, a)
		}
		sort.Slice(addrList, func(i, j int) bool { return addrList[i].ID < addrList[j].ID })
		for _, a := range addrList {
			r := a.Root()
			if r != nil && r.N > mark && (r.Op == OAlloc || r.Op == OMkSlice || r.Op == OCall) {
				continue // local to the iteration
			}
			diff := false
			for _, it := range iters {
				v, ok := it.mem[a]
				if !ok {
					continue
				}
				if v != s0.load(a, elemType(a.Typ)) {
					diff = true
				}
			}
			if !diff {
				continue
			}
			if varying(a) {
				p := nonVarying(a, varying)
				if p != nil && !havocs[p] {
					havocs[p] = true
					changed = true
				}
				continue
			}
			if coveredBy(a, havocs) {
				continue
			}
			for i, it := range iters {
				if v, ok := it.mem[a]; ok {
					nexts[i][a] = v
				} else {
					nexts[i][a] = s0.load(a, elemType(a.Typ))
				}
			}
			if vars[a] == nil {
				// register below via init
				vars[a] = &loopVar{addr: a, init: st.load(a, elemType(a.Typ)), typ: elemType(a.Typ)}
				order = append(order, a)
			}
		}
		// phis
		for _, ins := range L.Header.Instrs {
			p, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			if vars[p] == nil {
				diff := false
				for i := range iters {
					if nexts[i][p] != init[p] {
						diff = true
					}
				}
				if diff {
					vars[p] = &loopVar{phi: p, init: init[p], typ: p.Type()}
					order = append(order, p)
				}
			}
		}
		for _, k := range order {
			lv := vars[k]
			var nv []*Term
			for i := range iters {
				n, ok := nexts[i][k]
				if !ok {
					if lv.addr != nil {
						n = iters[i].load(lv.addr, lv.typ)
					} else {
						n = lv.start
					}
				}
				nv = append(nv, n)
			}
			if lv.start == nil { // newly widened
				changed = true
				lv.kind = "sym"
				if isIntType(lv.typ) && len(nv) > 0 {
					d := tt.LinOf(nv[0]).addScaled(tt.LinOf(lv.init), -1)
					same := d.isConst() && d.K != 0
					for _, n := range nv {
						e := tt.LinOf(n).addScaled(tt.LinOf(lv.init), -1)
						if !e.isConst() || e.K != d.K {
							same = false
						}
					}
					if same {
						lv.kind = "ind"
						lv.step = d.K
						lv.start = tt.FromLin(tt.LinOf(lv.init).addScaled(tt.LinOf(K), lv.step), types.Typ[types.Int])
					}
				}
				if lv.kind == "sym" {
					lv.start = tt.FreshSym("loop_"+lv.name(), lv.typ)
				}
				if isIntType(lv.typ) {
					lv.cands = in.candidates(st, lv, iters, s0, varying)
				}
				continue
			}
			if _, isSlice := lv.typ.Underlying().(*types.Slice); isSlice {
				// the length as a function of the number of iterations
				lo, hi, good := int64(0), int64(0), len(nv) > 0
				for i, n := range nv {
					d := tt.LinOf(tt.Len(n)).addScaled(tt.LinOf(tt.Len(lv.start)), -1)
					if !d.isConst() {
						good = false
						break
					}
					if i == 0 || d.K < lo {
						lo = d.K
					}
					if i == 0 || d.K > hi {
						hi = d.K
					}
				}
				if good != lv.lens || good && (lo != lv.lenLo || hi != lv.lenHi) {
					if lv.lenRounds++; lv.lenRounds > 3 {
						good = false
					}
					if good != lv.lens || good {
						changed = true
					}
					lv.lens, lv.lenLo, lv.lenHi = good, lo, hi
				}
			}
			if !isIntType(lv.typ) {
				continue
			}
			degrade := func() {
				lv.kind = "sym"
				lv.start = tt.FreshSym("loop_"+lv.name(), lv.typ)
				lv.cands = in.candidates(st, lv, iters, s0, varying)
				changed = true
			}
			switch lv.kind {
			case "ind":
				for _, n := range nv {
					d := tt.LinOf(n).addScaled(tt.LinOf(lv.start), -1)
					if !d.isConst() || d.K != lv.step {
						degrade()
						break
					}
				}
			case "mod":
				for i, n := range nv {
					d := tt.LinOf(n).addScaled(tt.LinOf(lv.start), -1)
					d.K -= lv.step
					if d.isConst() && d.K == 0 {
						continue
					}
					e := d.addScaled(tt.LinOf(lv.x), -1)
					g := d.addScaled(tt.LinOf(lv.x), 1)
					if (e.isConst() && e.K == 0) || (g.isConst() && g.K == 0) {
						continue
					}
					dt := tt.FromLin(d, types.Typ[types.Int])
					if f := iters[i].facts; f.EqInt(dt, lv.x, 0) || f.EqInt(tt.Sub(tt.Int(0), dt), lv.x, 0) || f.EqInt(dt, tt.Int(0), 0) {
						continue
					}
					degrade()
					break
				}
			case "sym":
				if !lv.mod {
					lv.mod = true
					nv2 := make([]*Term, len(nv))
					for i, n := range nv {
						nv2[i] = rebase(tt, iters[i].facts, n, lv)
					}
					if c, x, ok := modPattern(tt, nv2, lv.start); ok && !varying(x) {
						lv.kind = "mod"
						lv.step = c
						lv.x = x
						m := tt.FreshSym("mult", types.Typ[types.Int])
						lv.start = tt.FromLin(tt.LinOf(lv.init).addScaled(tt.LinOf(K), c).addScaled(tt.LinOf(m), 1), types.Typ[types.Int])
						lv.cands = in.candidates(st, lv, iters, s0, varying)
						changed = true
					}
				}
			}
			// Houdini
			var keep []cand
			for _, c := range lv.cands {
				ok := true
				for i, n := range nv {
					if !c.holds(iters[i].facts, n) {
						ok = false
						break
					}
				}
				if ok {
					keep = append(keep, c)
				}
			}
			if len(keep) != len(lv.cands) && !changed {
				lv.cands = keep
				changed = true
			}
		}
		if changed && round < 24 {
			continue
		}
		if changed {
			in.Incomplete = fmt.Sprintf("loop in %s did not stabilise", fn)
		}
		// final
		for i, it := range iters {
			next := map[*Term]*Term{}
			for _, k := range order {
				lv := vars[k]
				n, ok := nexts[i][k]
				if !ok {
					n = lv.start
				}
				next[lv.start] = n
			}
			info.Iters = append(info.Iters, &Iter{Effects: it.effectsSince(logMark), Facts: it.facts, Next: next})
		}
		for _, k := range order {
			lv := vars[k]
			info.Vars = append(info.Vars, &LoopVar{Phi: lv.phi, Addr: lv.addr, Init: lv.init, Start: lv.start, Kind: lv.kind, Step: lv.step})
			if lv.kind == "mod" {
				for _, v := range tt.LinOf(lv.start).V {
					t := v.T
					if t.Op == OSym && t.Aux == "mult" && !lv.init.Contains(t) {
						info.Mult[t] = lv.x
					}
				}
			}
			if b0, ok := lv.init.BoolConst(); ok && lv.kind == "sym" {
				acc := &BoolAcc{Init: b0, Setby: map[int]bool{}}
				good := true
				for i := range iters {
					n, has := nexts[i][k]
					if !has || n == lv.start {
						continue
					}
					if v, isc := n.BoolConst(); isc && v != b0 {
						acc.Setby[i] = true
					} else if v, known := iters[i].facts.Eval(n); known && v == b0 {
						// keeps the initial value
					} else if known {
						acc.Setby[i] = true
					} else {
						good = false
					}
				}
				if good {
					info.BoolAcc[lv.start] = acc
				}
			}
		}
		if len(iters) == 0 {
			for _, e := range append(append([]*State{}, ex...), dn...) {
				ff := e.facts.Clone()
				ff.AssumeLe(K, tt.Int(0), 0)
				e.facts = ff
			}
		}
		return append(exits, ex...), append(done, dn...)
	}
}

func (lv *loopVar) name() string {
	if lv.phi != nil {
		if lv.phi.Comment != "" {
			return lv.phi.Comment
		}
		return lv.phi.Name()
	}
	if v := lv.addr.FieldVar(); v != nil {
		return v.Name()
	}
	return "cell"
}

func removeKey(ks []any, k any) []any {
	var out []any
	for _, x := range ks {
		if x != k {
			out = append(out, x)
		}
	}
	return out
}

func coveredBy(a *Term, hs map[*Term]bool) bool {
	for h := range hs {
		if isPrefix(h, a) {
			return true
		}
	}
	return false
}

// nonVarying finds the longest loop-invariant prefix of an address.
func nonVarying(a *Term, varying func(*Term) bool) *Term {
	for a != nil {
		if !varying(a) {
			if a.Op == OConst {
				return nil
			}
			return a
		}
		switch a.Op {
		case OField, OIndex, OSlice:
			a = a.Args[0]
		default:
			return nil
		}
	}
	return nil
}

func loopPos(b *ssa.BasicBlock) (p tokenPos) {
	for _, ins := range b.Instrs {
		if ins.Pos().IsValid() {
			return ins.Pos()
		}
		if i, ok := ins.(*ssa.If); ok && i.Cond.Pos().IsValid() {
			return i.Cond.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, ins := range s.Instrs {
			if ins.Pos().IsValid() {
				return ins.Pos()
			}
		}
	}
	return 0
}

// rebase expresses the next value of a variable, n, in terms of the variable,
// when the facts fix the variable's own value: after "v == 0", the value L-1
// is v+L-1.
func rebase(tt *Terms, f *Facts, n *Term, lv *loopVar) *Term {
	v := lv.start
	if n.Contains(v) {
		return n
	}
	ks := []*Term{tt.Int(0), tt.Int(-1), tt.Int(1)}
	for _, c := range lv.cands {
		ks = append(ks, tt.Add(c.t, -1), c.t)
	}
	for _, k := range ks {
		if f.EqInt(v, k, 0) {
			return tt.Plus(tt.Sub(n, k), v)
		}
	}
	return n
}

// modPattern recognises next values of the form v+c or v+c±X.
func modPattern(tt *Terms, nv []*Term, v *Term) (c int64, x *Term, ok bool) {
	have := false
	var xl Lin
	for _, n := range nv {
		d := tt.LinOf(n).addScaled(tt.LinOf(v), -1)
		if d.isConst() {
			if have && d.K != c {
				return 0, nil, false
			}
			c, have = d.K, true
		}
	}
	if !have {
		return 0, nil, false
	}
	haveX := false
	for _, n := range nv {
		d := tt.LinOf(n).addScaled(tt.LinOf(v), -1)
		if d.isConst() {
			continue
		}
		d.K -= c
		if haveX {
			s := d.addScaled(xl, 1)
			if d.key() != xl.key() && !(s.isConst() && s.K == 0) {
				return 0, nil, false
			}
			continue
		}
		xl, haveX = d, true
	}
	if !haveX {
		return 0, nil, false
	}
	// normalise sign: prefer positive leading coefficient
	if leadNeg(xl) {
		xl = linConst(0).addScaled(xl, -1)
	}
	return c, tt.FromLin(xl, types.Typ[types.Int]), true
}

func (in *Interp) candidates(st *State, lv *loopVar, iters []*State, s0 *State, varying func(*Term) bool) []cand {
	tt := in.T
	seen := map[*Term]bool{}
	var terms []*Term
	add := func(t *Term) {
		if t == nil || seen[t] || varying(t) || len(terms) >= 14 {
			return
		}
		if t.Op == OConst {
			return
		}
		seen[t] = true
		terms = append(terms, t)
	}
	if lv.x != nil {
		add(lv.x)
	}
	add(lv.init)
	scan := func(f *Facts) {
		n := len(s0.facts.lins)
		if n > len(f.lins) {
			n = 0
		}
		for _, l := range f.lins[n:] {
			for _, v := range l.V {
				add(v.T)
			}
		}
	}
	for _, it := range iters {
		scan(it.facts)
		for _, e := range it.effectsSince(s0.log) {
			if e.Kind == EIndex {
				n := tt.seqLen(e.Addr)
				for _, v := range tt.LinOf(n).V {
					add(v.T)
				}
				if len(tt.LinOf(n).V) > 1 {
					add(n)
				}
			}
		}
	}
	for _, v := range tt.LinOf(lv.init).V {
		for _, l := range st.facts.lins {
			if l.coef(v.T) != 0 {
				for _, u := range l.V {
					add(u.T)
				}
			}
		}
	}
	var out []cand
	try := func(c cand) {
		if c.holds(st.facts, lv.init) {
			out = append(out, c)
		}
	}
	try(cand{false, tt.Int(0), 0})
	try(cand{false, tt.Int(-1), 0})
	for _, t := range terms {
		try(cand{true, t, -1})
		try(cand{true, t, 0})
		try(cand{false, t, 0})
	}
	return out
}

type tokenPos = token.Pos

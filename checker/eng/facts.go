package eng

import (
	"go/token"
	"sort"
)

// Facts is a conjunction of boolean atoms and linear inequalities. It is
// copied on write; Assume returns false when the conjunction is refuted.
type Facts struct {
	tt    *Terms
	atoms map[*Term]bool
	order []*Term // insertion order of atoms, for reports
	lins  []Lin   // each l <= 0
	neqs  []Lin   // each l != 0
	cache map[string]int8
}

func NewFacts(tt *Terms) *Facts {
	return &Facts{tt: tt, atoms: map[*Term]bool{}, cache: map[string]int8{}}
}

func (f *Facts) Clone() *Facts {
	a := make(map[*Term]bool, len(f.atoms))
	for k, v := range f.atoms {
		a[k] = v
	}
	return &Facts{tt: f.tt, atoms: a, order: f.order[:len(f.order):len(f.order)], lins: f.lins[:len(f.lins):len(f.lins)], neqs: f.neqs[:len(f.neqs):len(f.neqs)], cache: map[string]int8{}}
}

// Atoms lists the atoms in insertion order with their truth values.
func (f *Facts) Each(fn func(t *Term, v bool)) {
	for _, t := range f.order {
		fn(t, f.atoms[t])
	}
}

func (f *Facts) Strings() []string {
	var out []string
	for _, t := range f.order {
		if f.atoms[t] {
			out = append(out, f.atomString(t, true))
		} else {
			out = append(out, f.atomString(t, false))
		}
	}
	return out
}

func (f *Facts) atomString(t *Term, v bool) string {
	s := t.String()
	if t.Op == OBin && t.Aux == "le0" {
		s = f.tt.LinOf(t.Args[0]).String() + " <= 0"
	}
	if t.Op == OBin && t.Aux == "eq0" {
		s = f.tt.LinOf(t.Args[0]).String() + " == 0"
	}
	if !v {
		s = "not(" + s + ")"
	}
	return s
}

// Eval decides a boolean term under the facts.
func (f *Facts) Eval(b *Term) (val, known bool) {
	if b == nil {
		return false, false
	}
	if v, ok := b.BoolConst(); ok {
		return v, true
	}
	if b.Op == ONot {
		v, ok := f.Eval(b.Args[0])
		return !v, ok
	}
	if v, ok := f.atoms[b]; ok {
		return v, true
	}
	if b.Op == OBin {
		switch b.Aux {
		case "le0":
			l := f.tt.LinOf(b.Args[0])
			if f.entailsLe0(l) {
				return true, true
			}
			if f.entailsLe0(linConst(1).addScaled(l, -1)) {
				return false, true
			}
		case "eq0":
			l := f.tt.LinOf(b.Args[0])
			for _, n := range f.neqs {
				if n.key() == l.key() {
					return false, true
				}
			}
			le := f.entailsLe0(l)
			ge := f.entailsLe0(linConst(0).addScaled(l, -1))
			if le && ge {
				return true, true
			}
			if f.entailsLe0(linConst(1).addScaled(l, -1)) || f.entailsLe0(linConst(1).addScaled(l, 1)) {
				return false, true
			}
		case "==":
			return f.evalEq(b.Args[0], b.Args[1])
		case "<":
			// x < y known false when y < x or x == y is known
			if v, ok := f.atoms[f.tt.mk(OBin, "<", 0, nil, b.Typ, b.Args[1], b.Args[0])]; ok && v {
				return false, true
			}
			if v, ok := f.evalEq(b.Args[0], b.Args[1]); ok && v {
				return false, true
			}
		}
	}
	if b.Op == OAssertOk {
		// a type test on a known dynamic type is resolved by the interpreter
	}
	if b.Op == OLookupOk {
		// non-nil lookup result implies presence
		lk := f.tt.mk(OLookup, "", b.N, nil, nil, b.Args...)
		if v, ok := f.atoms[f.tt.cmp(token.EQL, lk, f.tt.Nil())]; ok && !v {
			return true, true
		}
	}
	return false, false
}

func (f *Facts) evalEq(x, y *Term) (val, known bool) {
	if x == y {
		return true, true
	}
	at := f.tt.cmp(token.EQL, x, y)
	if v, ok := at.BoolConst(); ok {
		return v, true
	}
	if v, ok := f.atoms[at]; ok {
		return v, true
	}
	if y.IsNil() {
		if x.Op == OLookup {
			if v, ok := f.atoms[f.tt.mk(OLookupOk, "", x.N, nil, nil, x.Args...)]; ok && !v {
				return true, true
			}
		}
		// len(x) > 0 implies x != nil
		l := linConst(1).with(f.tt.mk(OLen, "", 0, nil, f.tt.Int(0).Typ, x), -1)
		if f.mentions(x) && f.entailsLe0(l) {
			return false, true
		}
	}
	if y.IsConst() {
		// x == other constant known true
		for _, t := range f.order {
			if t.Op == OBin && t.Aux == "==" && f.atoms[t] && t.Args[0] == x && t.Args[1].IsConst() && t.Args[1] != y {
				return false, true
			}
		}
	}
	return false, false
}

func (f *Facts) mentions(x *Term) bool {
	for _, l := range f.lins {
		for _, v := range l.V {
			if t := v.T; t.Op == OLen && t.Args[0] == x {
				return true
			}
		}
	}
	return false
}

// Assume adds b == v. It reports false if that contradicts the facts.
func (f *Facts) Assume(b *Term, v bool) bool {
	for b.Op == ONot {
		b, v = b.Args[0], !v
	}
	if c, ok := b.BoolConst(); ok {
		return c == v
	}
	if known, ok := f.Eval(b); ok {
		if known == v {
			if _, have := f.atoms[b]; !have {
				f.atoms[b] = v
				f.order = append(f.order, b)
			}
			return true
		}
		return false
	}
	f.atoms[b] = v
	f.order = append(f.order, b)
	f.cache = map[string]int8{}
	if b.Op == OBin {
		switch b.Aux {
		case "le0":
			l := f.tt.LinOf(b.Args[0])
			if !v {
				l = linConst(1).addScaled(l, -1)
			}
			return f.addLin(l)
		case "eq0":
			l := f.tt.LinOf(b.Args[0])
			if v {
				return f.addLin(l) && f.addLin(linConst(0).addScaled(l, -1))
			}
			f.neqs = append(f.neqs, l)
			// tighten: l <= 0 known -> l <= -1
			if f.entailsLe0(l) {
				m := l.clone()
				m.K++
				return f.addLin(m)
			}
			neg := linConst(0).addScaled(l, -1)
			if f.entailsLe0(neg) {
				neg.K++
				return f.addLin(neg)
			}
			return true
		case "==":
			x, y := b.Args[0], b.Args[1]
			if y.IsNil() {
				if v {
					if isSeq(x) {
						l := linConst(0).with(f.tt.mk(OLen, "", 0, nil, f.tt.Int(0).Typ, x), 1)
						return f.addLin(l)
					}
				} else if x.Op == OLookup {
					f.Assume(f.tt.mk(OLookupOk, "", x.N, nil, nil, x.Args...), true)
				}
			}
			if s, ok := y.StrConst(); ok && v {
				l := linConst(-int64(len(s))).with(f.tt.Len(x), 1)
				return f.addLin(l) && f.addLin(linConst(0).addScaled(l, -1))
			}
		}
	}
	return true
}

func isSeq(t *Term) bool {
	if t.Typ == nil {
		return false
	}
	switch t.Typ.Underlying().String() {
	case "string":
		return true
	}
	return len(t.Typ.Underlying().String()) > 2 && t.Typ.Underlying().String()[:2] == "[]"
}

// AddLe assumes l <= 0.
func (f *Facts) addLin(l Lin) bool {
	if l.isConst() {
		return l.K <= 0
	}
	l = tighten(l)
	f.lins = append(f.lins, l)
	f.cache = map[string]int8{}
	// re-tighten disequalities touching l
	for _, n := range f.neqs {
		for _, s := range []int64{1, -1} {
			m := linConst(0).addScaled(n, s)
			if m.key() == l.key() { // m <= 0 and m != 0
				m.K++
				f.lins = append(f.lins, m)
			}
		}
	}
	return !f.infeasible(f.component(l))
}

// AssumeLe assumes x <= y + k.
func (f *Facts) AssumeLe(x, y *Term, k int64) bool {
	l := f.tt.LinOf(x).addScaled(f.tt.LinOf(y), -1)
	l.K -= k
	return f.addLin(l)
}

// Le decides x <= y + k.
func (f *Facts) Le(x, y *Term, k int64) bool {
	l := f.tt.LinOf(x).addScaled(f.tt.LinOf(y), -1)
	l.K -= k
	return f.entailsLe0(l)
}

// EqInt decides x == y + k.
func (f *Facts) EqInt(x, y *Term, k int64) bool {
	return f.Le(x, y, k) && f.Le(y, x, -k)
}

func (f *Facts) entailsLe0(l Lin) bool {
	if l.isConst() {
		return l.K <= 0
	}
	k := l.key()
	if r, ok := f.cache[k]; ok {
		return r == 1
	}
	neg := linConst(1).addScaled(l, -1) // l >= 1
	// relevant component
	cs := f.component(neg)
	cs = append(cs, neg)
	r := f.infeasible(cs)
	if !r {
		// try case splits on disequalities (one level)
		for _, n := range f.neqs {
			if shares(n, cs) {
				a := n.clone()
				a.K++ // n <= -1
				b := linConst(1).addScaled(n, -1)
				if f.infeasible(append(append([]Lin{}, cs...), a)) && f.infeasible(append(append([]Lin{}, cs...), b)) {
					r = true
					break
				}
			}
		}
	}
	if r {
		f.cache[k] = 1
	} else {
		f.cache[k] = 0
	}
	return r
}

func shares(n Lin, cs []Lin) bool {
	for _, c := range cs {
		for _, v := range c.V {
			if n.coef(v.T) != 0 {
				return true
			}
		}
	}
	return false
}

func (f *Facts) component(seed Lin) []Lin {
	vars := make(map[*Term]bool, 8)
	for _, v := range seed.V {
		vars[v.T] = true
	}
	used := make([]bool, len(f.lins))
	var out []Lin
	for changed := true; changed; {
		changed = false
		for i, l := range f.lins {
			if used[i] {
				continue
			}
			for _, v := range l.V {
				if vars[v.T] {
					used[i] = true
					changed = true
					out = append(out, l)
					for _, u := range l.V {
						vars[u.T] = true
					}
					break
				}
			}
		}
	}
	return out
}

func tighten(l Lin) Lin {
	var g int64
	for _, v := range l.V {
		g = gcd(g, abs(v.C))
	}
	if g > 1 {
		r := Lin{V: make([]LinTerm, len(l.V))}
		for i, v := range l.V {
			r.V[i] = LinTerm{v.T, v.C / g}
		}
		// sum c t + K <= 0 -> sum c/g t <= floor(-K/g) -> K' = -floor(-K/g)
		r.K = -floorDiv(-l.K, g)
		return r
	}
	return l
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}
func abs(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// infeasible decides emptiness of a small polyhedron by eliminating variables
// (Fourier-Motzkin with integer tightening); it answers false when it gives up.
func (f *Facts) infeasible(in []Lin) bool {
	// constraints keyed by their variable part; keep the tightest constant
	type bucket struct {
		cs  []Lin
		idx map[string]int
	}
	mk := func(n int) *bucket { return &bucket{make([]Lin, 0, n), make(map[string]int, n)} }
	add := func(b *bucket, l Lin) bool {
		if l.isConst() {
			return l.K > 0
		}
		l = tighten(l)
		k := l.K
		l.K = 0
		key := l.key()
		l.K = k
		if i, ok := b.idx[key]; ok {
			if k > b.cs[i].K {
				b.cs[i].K = k
			}
			return false
		}
		b.idx[key] = len(b.cs)
		b.cs = append(b.cs, l)
		return false
	}
	cur := mk(len(in) + 8)
	vars := map[*Term]bool{}
	for _, l := range in {
		if add(cur, l) {
			return true
		}
		for _, v := range l.V {
			vars[v.T] = true
		}
	}
	// implicit bounds
	var vs []*Term
	for t := range vars {
		if t.Op == OLen || t.Op == OCap {
			vs = append(vs, t)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].ID < vs[j].ID })
	for _, t := range vs {
		add(cur, linVar(t, -1))
		if t.Op == OCap {
			ln := f.tt.Len(t.Args[0])
			if ln.Op == OLen && vars[ln] {
				add(cur, linVar(ln, 1).with(t, -1))
			}
		}
	}
	type pn struct{ p, n int }
	for {
		cnt := map[*Term]pn{}
		for _, l := range cur.cs {
			for _, v := range l.V {
				p := cnt[v.T]
				if v.C > 0 {
					p.p++
				} else {
					p.n++
				}
				cnt[v.T] = p
			}
		}
		if len(cnt) == 0 {
			return false
		}
		var best *Term
		bestN := 1 << 30
		for t, c := range cnt {
			n := c.p * c.n
			if n < bestN || (n == bestN && t.ID < best.ID) {
				best, bestN = t, n
			}
		}
		next := mk(len(cur.cs))
		var pos, neg []Lin
		for _, l := range cur.cs {
			switch c := l.coef(best); {
			case c > 0:
				pos = append(pos, l)
			case c < 0:
				neg = append(neg, l)
			default:
				add(next, l)
			}
		}
		for _, p := range pos {
			for _, n := range neg {
				a, b := p.coef(best), -n.coef(best)
				if a > 1<<30 || b > 1<<30 {
					return false
				}
				r := linConst(0).addScaled(p, b).addScaled(n, a)
				if add(next, r) {
					return true
				}
			}
		}
		if len(next.cs) > 300 {
			return false
		}
		cur = next
	}
}

// EachTerm visits every subterm mentioned by the facts.
func (f *Facts) EachTerm(fn func(t *Term)) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		fn(t)
		for _, a := range t.Args {
			rec(a)
		}
	}
	for a := range f.atoms {
		rec(a)
	}
	for _, l := range f.lins {
		for _, v := range l.V {
			rec(v.T)
		}
	}
	for _, l := range f.neqs {
		for _, v := range l.V {
			rec(v.T)
		}
	}
}

package rules

import (
	"go/token"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// C12: a filter allows exactly the traces satisfying all of its conditions.
func c12(c *C) {
	fn := c.method("", "Filter", "Allow")
	if fn == nil {
		return
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api, MaxPaths: 40000, MaxSteps: 20000000})
	ps := in.ParamSyms(fn)
	if len(ps) != 2 {
		c.Undec("conditions", "Filter.Allow", "unexpected signature")
		return
	}
	fc := &filterCheck{c: c, in: in, fn: fn, f: ps[0], tr: ps[1]}
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil {
			c.Fail("no-panic", fn.Pos(), "Filter.Allow", "panics: %s", p.Panic)
			continue
		}
		if len(p.Ret) != 1 {
			continue
		}
		fc.path(p)
	}
	for _, x := range fc.conditions() {
		c.Check(fc.allowed[x.name] || len(c.Undecided) > 0, "conditions", fn.Pos(), "Filter.Allow "+x.name+" allows", "no path allows a trace that satisfies the condition")
		c.Check(fc.rejected[x.name] || len(c.Undecided) > 0, "conditions", fn.Pos(), "Filter.Allow "+x.name+" rejects", "no path rejects a trace because of the condition")
	}
	c.compiledQuery(fn)
}

type verdict int

const (
	vUnknown  verdict = iota
	vMention          // the facts deal with it in a way that's not understood
	vNA               // the condition isn't set
	vSat              // satisfied
	vViolated         // set, and not satisfied
)

type condition struct {
	name string
	eval func(p *eng.Path) (verdict, string)
}

type filterCheck struct {
	c                 *C
	in                *eng.Interp
	fn                *ssa.Function
	f, tr             *eng.Term
	allowed, rejected map[string]bool
	allows            bool // the outcome of the path under consideration
}

// isField: t is the value of the named field of the filter.
func (fc *filterCheck) isField(t *eng.Term, name string) bool {
	t = t.Strip()
	if t.Op == eng.OLoad {
		a := t.Args[0]
		return a.Op == eng.OField && a.FieldVar() != nil && a.FieldVar().Name() == name && a.Args[0].Strip() == fc.f
	}
	if t.Op == eng.OFieldVal {
		return t.FieldVar() != nil && t.FieldVar().Name() == name && t.Root() == fc.f
	}
	return false
}

func (fc *filterCheck) isTrace(t *eng.Term, meth string) bool {
	r, m := fc.c.termMethod(t)
	return r != nil && m == meth && r.Strip() == fc.tr
}

// boolKnown looks for facts about a boolean term.
func boolKnown(f *eng.Facts, pred func(*eng.Term) bool) (t, u bool) {
	f.Each(func(x *eng.Term, v bool) {
		if pred(x) {
			if v {
				t = true
			} else {
				u = true
			}
		}
	})
	return
}

// findTerm looks for a term in the facts of a path.
func findTerm(f *eng.Facts, pred func(*eng.Term) bool) *eng.Term {
	var out *eng.Term
	f.EachTerm(func(t *eng.Term) {
		if out == nil {
			t.Any(func(x *eng.Term) bool {
				if out == nil && pred(x) {
					out = x
				}
				return out != nil
			})
		}
	})
	f.Each(func(t *eng.Term, _ bool) {
		if out == nil {
			t.Any(func(x *eng.Term) bool {
				if out == nil && pred(x) {
					out = x
				}
				return out != nil
			})
		}
	})
	return out
}

func (fc *filterCheck) mentions(p *eng.Path, name string) bool {
	return findTerm(p.Facts, func(t *eng.Term) bool { return fc.isField(t, name) }) != nil
}

func eqSides(t *eng.Term) (x, y *eng.Term) {
	if t.Op == eng.OBin && t.Aux == "==" && len(t.Args) == 2 {
		return t.Args[0].Strip(), t.Args[1].Strip()
	}
	return nil, nil
}

// flag: a boolean condition on a boolean method of the trace.
func (fc *filterCheck) flag(name, meth string, want bool) condition {
	return condition{name, func(p *eng.Path) (verdict, string) {
		on, off := boolKnown(p.Facts, func(t *eng.Term) bool { return fc.isField(t, name) })
		yes, no := boolKnown(p.Facts, func(t *eng.Term) bool { return fc.isTrace(t, meth) })
		if !want {
			yes, no = no, yes
		}
		// several readings may differ: the condition holds if any says so
		switch {
		case off:
			return vNA, ""
		case yes && fc.allows:
			return vSat, ""
		case on && no:
			return vViolated, ""
		case yes:
			return vSat, ""
		case on:
			return vUnknown, "set, and " + meth + " isn't looked at"
		}
		return vUnknown, ""
	}}
}

// oneOf: membership in a list, empty for don't care.
func (fc *filterCheck) oneOf(name, meth string) condition {
	return condition{name, func(p *eng.Path) (verdict, string) {
		isList := func(t *eng.Term) bool { return fc.isField(t, name) }
		list := findTerm(p.Facts, isList)
		if list == nil {
			return vUnknown, ""
		}
		n := fc.in.T.Len(list)
		if p.Facts.Le(n, fc.in.T.Int(0), 0) {
			return vNA, ""
		}
		elemEq := func(t *eng.Term) bool {
			x, y := eqSides(t)
			if x == nil {
				return false
			}
			if fc.isTrace(x, meth) {
				x, y = y, x
			}
			return fc.isTrace(y, meth) && x.Op == eng.OLoad && x.Args[0].Op == eng.OIndex && isList(x.Args[0].Args[0])
		}
		contains := func(t *eng.Term) bool {
			return strings.HasPrefix(t.CalleeName(), "slices.Contains") && len(t.Args) == 2 && isList(t.Args[0]) && fc.isTrace(t.Args[1].Strip(), meth)
		}
		yes, _ := boolKnown(p.Facts, elemEq)
		cy, cn := boolKnown(p.Facts, contains)
		if yes || cy {
			return vSat, ""
		}
		if cn {
			return vViolated, ""
		}
		// not found: a complete loop, none of whose iterations found it
		for i, e := range p.Effects {
			if e.Kind != eng.ELoop {
				continue
			}
			all, any := true, false
			for _, it := range e.Loop.Iters {
				y, no := boolKnown(it.Facts, elemEq)
				if y || no {
					any = true
				}
				if y {
					// noted in a variable?
					noted := false
					for start, nx := range it.Next {
						if b, ok := nx.BoolConst(); ok && b {
							if v, known := p.Facts.Eval(start); known && v {
								return vSat, ""
							} else if known {
								noted = true // found, but then it would be true
							}
						}
					}
					if !noted {
						all = false
					}
					continue
				}
				if !no {
					all = false
				}
			}
			if !any {
				continue
			}
			exit, known := headerExit(p.Effects, i)
			cov, covKnown := iterations(fc.in, p.Facts, e.Loop, n)
			if all && known && exit && covKnown && cov {
				return vViolated, ""
			}
			if covKnown && !cov {
				return vUnknown, "not all elements are compared"
			}
			if known && !exit {
				return vUnknown, "left without a match"
			}
			return vMention, "loop"
		}
		if p.Facts.Le(fc.in.T.Int(1), n, 0) {
			opaque := findTerm(p.Facts, func(t *eng.Term) bool {
				return t.Op == eng.OCall && t.Any(isList)
			})
			if opaque != nil {
				return vMention, opaque.String()
			}
			return vUnknown, "set, and the elements aren't compared"
		}
		return vMention, ""
	}}
}

func (fc *filterCheck) conditions() []condition {
	tt := fc.in.T
	return []condition{
		fc.oneOf("Sources", "Source"),
		fc.oneOf("IDs", "ID"),
		{"Category", func(p *eng.Path) (verdict, string) {
			v := findTerm(p.Facts, func(t *eng.Term) bool { return fc.isField(t, "Category") })
			if v == nil {
				return vUnknown, ""
			}
			if b, known := p.Facts.Eval(tt.Cmp(token.EQL, v, tt.Str(""))); known && b {
				return vNA, ""
			}
			eq, ne := boolKnown(p.Facts, func(t *eng.Term) bool {
				x, y := eqSides(t)
				return x != nil && (fc.isField(x, "Category") && fc.isTrace(y, "Category") || fc.isField(y, "Category") && fc.isTrace(x, "Category"))
			})
			switch {
			case eq:
				return vSat, ""
			case ne:
				if b, known := p.Facts.Eval(tt.Cmp(token.EQL, v, tt.Str(""))); known && !b {
					return vViolated, ""
				}
				return vUnknown, "compared even if not set"
			}
			if findTerm(p.Facts, func(t *eng.Term) bool {
				return t.Op == eng.OCall && fc.isTrace(t, "Category") == false && t.Any(func(x *eng.Term) bool { return fc.isField(x, "Category") })
			}) != nil {
				return vUnknown, "not compared for equality"
			}
			return vUnknown, "set, and not compared"
		}},
		fc.flag("IsActive", "Finished", false),
		fc.flag("IsFinished", "Finished", true),
		fc.flag("IsSuccess", "Errored", false),
		fc.flag("IsErrored", "Errored", true),
		{"MinDuration", func(p *eng.Path) (verdict, string) {
			set, unset := false, false
			p.Facts.Each(func(t *eng.Term, v bool) {
				if x := nilCompared(t); x != nil && fc.isField(x, "MinDuration") {
					if v {
						unset = true
					} else {
						set = true
					}
				}
			})
			if unset {
				return vNA, ""
			}
			if !set {
				return vUnknown, ""
			}
			fin, unfin := boolKnown(p.Facts, func(t *eng.Term) bool { return fc.isTrace(t, "Finished") })
			min := findTerm(p.Facts, func(t *eng.Term) bool {
				return t.Op == eng.OLoad && fc.isField(t.Args[0], "MinDuration")
			})
			dur := findTerm(p.Facts, func(t *eng.Term) bool { return fc.isTrace(t, "Duration") })
			long, short := false, false
			if min != nil && dur != nil {
				long = p.Facts.Le(min, dur, 0)
				short = p.Facts.Le(tt.Add(dur, 1), min, 0)
			}
			switch {
			case fin && long && fc.allows:
				return vSat, ""
			case short:
				return vViolated, ""
			case fin && long:
				return vSat, ""
			case unfin && !long:
				return vViolated, ""
			case long:
				return vUnknown, "an active trace isn't rejected"
			case min != nil && dur != nil:
				return vUnknown, "compared differently: " + strings.Join(p.FactStrings(), " & ")
			}
			return vUnknown, "set, and the duration isn't compared"
		}},
		{"Query", fc.query},
	}
}

// currentRegexp: t is a regular expression made from the current query.
func (fc *filterCheck) currentRegexp(p *eng.Path, t *eng.Term) (yes, known bool) {
	t = t.Strip()
	if t.Op == eng.OExtract || t.Op == eng.OCall {
		x := t
		if t.Op == eng.OExtract {
			x = t.Args[0]
		}
		switch x.CalleeName() {
		case "regexp.Compile", "regexp.MustCompile":
			return fc.isField(x.Args[0], "Query"), true
		}
		return false, false
	}
	if fc.isField(t, "regexp") || t.Op == eng.OLoad {
		eq, ne := boolKnown(p.Facts, func(a *eng.Term) bool {
			x, y := eqSides(a)
			if x == nil {
				return false
			}
			if fc.isField(x, "Query") {
				x, y = y, x
			}
			return fc.isField(y, "Query") && x.CalleeName() == "(*regexp.Regexp).String" && x.Args[0].Strip() == t
		})
		if eq {
			return true, true
		}
		if ne {
			return false, true
		}
		return false, true
	}
	return false, false
}

// matched classifies a match of the query against some text of the trace.
func (fc *filterCheck) matched(t *eng.Term) (re *eng.Term, what string) {
	if t.CalleeName() != "(*regexp.Regexp).MatchString" || len(t.Args) != 2 {
		return nil, ""
	}
	x := t.Args[1].Strip()
	if !x.Any(func(y *eng.Term) bool {
		r, m := fc.c.termMethod(y)
		return r != nil && r.Strip() == fc.tr && m == "Events"
	}) {
		return t.Args[0].Strip(), ""
	}
	if x.Op == eng.OLoad && x.Args[0].Op == eng.OField {
		return t.Args[0].Strip(), x.Args[0].FieldVar().Name()
	}
	if x.Op == eng.OFieldVal {
		return t.Args[0].Strip(), x.FieldVar().Name()
	}
	if strings.HasSuffix(x.CalleeName(), "trc.Frame).CompactFileLine") {
		return t.Args[0].Strip(), "CompactFileLine"
	}
	return t.Args[0].Strip(), ""
}

func (fc *filterCheck) query(p *eng.Path) (verdict, string) {
	tt := fc.in.T
	empty := false
	p.Facts.EachTerm(func(t *eng.Term) {
		if fc.isField(t, "Query") {
			if b, known := p.Facts.Eval(tt.Cmp(token.EQL, t, tt.Str(""))); known && b {
				empty = true
			}
		}
	})
	if q := findTerm(p.Facts, func(t *eng.Term) bool { return fc.isField(t, "Query") }); q != nil && !empty {
		if b, known := p.Facts.Eval(tt.Cmp(token.EQL, q, tt.Str(""))); known && b {
			empty = true
		}
	}
	invalid := false
	p.Facts.Each(func(t *eng.Term, v bool) {
		if x := nilCompared(t); x != nil && !v {
			if y := x.Strip(); y.Op == eng.OExtract && y.Args[0].CalleeName() == "regexp.Compile" && fc.isField(y.Args[0].Args[0], "Query") && strings.HasSuffix(y.String(), ".1") {
				invalid = true
			}
		}
	})
	// what was matched on the path
	hit, stale, odd := false, false, ""
	p.Facts.Each(func(t *eng.Term, v bool) {
		re, what := fc.matched(t)
		if re == nil {
			return
		}
		cur, known := fc.currentRegexp(p, re)
		switch {
		case known && !cur:
			stale = true
		case !known:
			odd = "regular expression " + re.String()
		}
		if v {
			switch what {
			case "What", "Function", "CompactFileLine":
				hit = true
			default:
				odd = "matched against " + t.Args[1].String()
			}
		}
	})
	used := false
	p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if strings.HasPrefix(callName(e), "(*regexp.Regexp).Match") {
			used = true
			if re := e.Args[0].Strip(); !stale {
				if cur, known := fc.currentRegexp(p, re); known && !cur {
					stale = true
				}
			}
		}
	})
	switch {
	case stale:
		return vUnknown, "a regular expression that may not be the one of the query is used"
	case odd != "":
		return vMention, odd
	case hit:
		return vSat, ""
	}
	// no match: complete loops over the events and frames
	if used || fc.eventsLoop(p) != nil {
		es := fc.eventsLoop(p)
		if es == nil {
			return vMention, "no loop over the events recognised"
		}
		why, ok := fc.noMatch(p, es)
		if ok {
			if empty || invalid {
				return vUnknown, "the events are matched although there's no valid query"
			}
			return vViolated, ""
		}
		return vUnknown, why
	}
	if empty || invalid {
		return vNA, ""
	}
	if findTerm(p.Facts, func(t *eng.Term) bool { return fc.isField(t, "Query") }) == nil && findTerm(p.Facts, func(t *eng.Term) bool { return fc.isField(t, "regexp") }) == nil {
		return vUnknown, ""
	}
	// compiled without error to nothing doesn't happen
	impossible := false
	p.Facts.Each(func(t *eng.Term, v bool) {
		if x := nilCompared(t); x != nil && v {
			if y := x.Strip(); y.Op == eng.OExtract && y.Args[0].CalleeName() == "regexp.Compile" && strings.HasSuffix(y.String(), ".0") {
				impossible = true
			}
		}
	})
	if impossible {
		return vNA, ""
	}
	return vUnknown, "set, and the events aren't matched"
}

func (fc *filterCheck) eventsLoop(p *eng.Path) *eng.Effect {
	for _, e := range p.Effects {
		if e.Kind != eng.ELoop {
			continue
		}
		found := false
		for _, it := range e.Loop.Iters {
			walk := &eng.Path{Effects: it.Effects}
			walk.Walk(false, func(x *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if strings.HasPrefix(callName(x), "(*regexp.Regexp).Match") {
					found = true
				}
			})
			it.Facts.Each(func(t *eng.Term, _ bool) {
				if re, _ := fc.matched(t); re != nil {
					found = true
				}
			})
		}
		if found {
			return e
		}
	}
	return nil
}

// noMatch: the loop at e shows that nothing in any event matches.
func (fc *filterCheck) noMatch(p *eng.Path, e *eng.Effect) (why string, ok bool) {
	idx := -1
	for i, x := range p.Effects {
		if x == e {
			idx = i
		}
	}
	if yes, known := headerExit(p.Effects, idx); !known || !yes {
		return "the loop over the events can be left early", false
	}
	var evs *eng.Term
	for _, x := range p.Effects[:idx] {
		if r, m := fc.c.traceMethod(x); r != nil && m == "Events" && r.Strip() == fc.tr {
			evs = x.Result
		}
	}
	if evs == nil {
		return "events unknown", false
	}
	if ex, known := iterations(fc.in, p.Facts, e.Loop, fc.in.T.Len(evs)); !known || !ex {
		return "the loop doesn't cover all events", false
	}
	missed := func(f *eng.Facts, what string) bool {
		_, no := boolKnown(f, func(t *eng.Term) bool { re, w := fc.matched(t); return re != nil && w == what })
		return no
	}
	for _, it := range e.Loop.Iters {
		if !missed(it.Facts, "What") {
			return "the text of an event isn't matched", false
		}
		nested := false
		for j, x := range it.Effects {
			if x.Kind != eng.ELoop {
				continue
			}
			if yes, known := headerExit(it.Effects, j); !known || !yes {
				return "the loop over the frames can be left early", false
			}
			for _, it2 := range x.Loop.Iters {
				for _, w := range []string{"Function", "CompactFileLine"} {
					if !missed(it2.Facts, w) {
						return w + " of a frame isn't matched", false
					}
				}
			}
			nested = true
			stack := findTerm(it.Facts, func(t *eng.Term) bool {
				return t.Op == eng.OLoad && t.Args[0].Op == eng.OField && t.Args[0].FieldVar().Name() == "Stack"
			})
			if stack != nil {
				if ex, known := iterations(fc.in, it.Facts, x.Loop, fc.in.T.Len(stack)); known && !ex {
					return "not all frames are matched", false
				}
			}
		}
		if !nested {
			return "the stack of an event isn't matched", false
		}
	}
	return "", true
}

// path checks one path of Allow.
func (fc *filterCheck) path(p *eng.Path) {
	const name = "Filter.Allow"
	if fc.allowed == nil {
		fc.allowed, fc.rejected = map[string]bool{}, map[string]bool{}
	}
	c := fc.c
	ret, isc := p.Ret[0].BoolConst()
	if !isc {
		ret, isc = p.Facts.Eval(p.Ret[0])
	}
	if !isc {
		// both outcomes
		for _, b := range []bool{true, false} {
			q := *p
			q.Facts = p.Facts.Clone()
			if q.Facts.Assume(p.Ret[0], b) {
				q.Ret = []*eng.Term{fc.in.T.Bool(b)}
				fc.path(&q)
			}
		}
		return
	}
	fc.allows = ret
	if ret {
		for _, x := range fc.conditions() {
			v, why := x.eval(p)
			switch v {
			case vNA:
				c.OK("conditions", name+" "+x.name+" unset")
			case vSat:
				fc.allowed[x.name] = true
				c.OK("conditions", name+" "+x.name+" satisfied")
			case vMention:
				c.Undec("conditions", name+" "+x.name, "%s", why)
			case vViolated:
				c.Fail("conditions", fc.fn.Pos(), name+" "+x.name, "a trace is allowed although it doesn't satisfy the condition: %s", strings.Join(p.FactStrings(), " & "))
			default:
				c.Fail("conditions", fc.fn.Pos(), name+" "+x.name, "a trace is allowed without satisfying the condition (%s): %s", why, strings.Join(p.FactStrings(), " & "))
			}
		}
		return
	}
	var mention []string
	var last string
	for _, x := range fc.conditions() {
		v, why := x.eval(p)
		switch v {
		case vViolated:
			fc.rejected[x.name] = true
			c.OK("conditions", name+" "+x.name+" violated")
			return
		case vMention:
			mention = append(mention, x.name+": "+why)
		}
		if why != "" {
			last = x.name + ": " + why
		}
	}
	if mention != nil {
		c.Undec("conditions", name, "rejects: %s", strings.Join(mention, "; "))
		return
	}
	c.Fail("conditions", fc.fn.Pos(), name, "a trace is rejected although no condition is known to be violated (%s): %s", last, strings.Join(p.FactStrings(), " & "))
}

// compiledQuery: the only regular expression ever kept in a filter is compiled
// from its query at that time.
func (c *C) compiledQuery(allow *ssa.Function) {
	n := c.P.Named("", "Filter")
	re := fieldNamed(n, "regexp")
	if re == nil {
		c.Undec("compiled", "Filter.regexp", "no such field")
		return
	}
	for _, m := range []string{"Normalize", "Allow"} {
		fn := c.P.Method(n, m)
		if fn == nil {
			continue
		}
		if m == "Allow" {
			continue // covered by the conditions
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		ps := in.ParamSyms(fn)
		fc := &filterCheck{c: c, in: in, fn: fn, f: ps[0]}
		for _, p := range c.Run(in, fn, nil, ps) {
			p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind == eng.EStore && e.Addr.Op == eng.OField && e.Addr.FieldVar() == re && !e.Val.IsNil() {
					yes, known := fc.currentRegexp(p, e.Val)
					if known {
						c.Check(yes, "compiled", e.Pos, "Filter."+m, "keeps %s", e.Val)
					} else {
						c.Undec("compiled", "Filter."+m, "%s", e.Val)
					}
				}
			})
		}
	}
}

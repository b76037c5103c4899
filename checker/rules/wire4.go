package rules

import (
	"go/token"
	"go/types"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// keptParam: a number that's given as a parameter, and is one of the values
// that are allowed, is the one that's used.
func (c *C) keptParam(rule string, fn *ssa.Function, con string, v *eng.Term, allowed ...int64) {
	v = v.Strip()
	if v.Op != eng.OCall {
		return
	}
	cal, _ := v.Obj.(*eng.Callee)
	if cal == nil || cal.Fn == nil || !c.P.InRepo(cal.Fn) || len(cal.Fn.Blocks) == 0 {
		return
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	for _, p := range c.account(in, in.Run(cal.Fn, in.NewState(), v.Args, nil)) {
		if p.Panic != nil || p.Exit || len(p.Ret) == 0 {
			continue
		}
		// the parsed value
		var parse *eng.Effect
		n := 0
		p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			switch callName(e) {
			case "strconv.Atoi", "time.ParseDuration", "strconv.ParseInt":
				parse = e
				n++
			}
		})
		if n != 1 || parse.Result.Op != eng.OTuple {
			continue
		}
		val, err := parse.Result.Args[0], parse.Result.Args[1]
		if isnil, known := knownNil(in, p.Facts, err); !known || !isnil {
			continue
		}
		ret := p.Ret[0].Strip()
		if ret == val {
			c.OK(rule, con+" kept")
			continue
		}
		k, ok := ret.IntConst()
		if !ok {
			if ret.Any(func(x *eng.Term) bool { return x == val }) && ret.Op != eng.OMinMax {
				c.Fail(rule, posOf(parse, cal.Fn), con, "the parameter is changed to %s", ret)
			}
			continue
		}
		for _, x := range allowed {
			if x == k {
				continue
			}
			if f := p.Facts.Clone(); f.Assume(in.T.Cmp(token.EQL, val, in.T.Int(x)), true) {
				c.Fail(rule, posOf(parse, cal.Fn), con, "%d is given, and %d used", x, k)
				break
			}
		}
	}
}

// keptStrings: a helper that a list of parameters is passed to drops nothing
// but empty strings, and changes nothing.
func (c *C) keptStrings(rule string, con string, v *eng.Term) {
	v = v.Strip()
	if v.Op != eng.OCall || len(v.Args) == 0 {
		return
	}
	cal, _ := v.Obj.(*eng.Callee)
	if cal == nil || cal.Fn == nil || !c.P.InRepo(cal.Fn) || len(cal.Fn.Blocks) == 0 {
		return
	}
	list := -1
	for i, prm := range cal.Fn.Params {
		if s, ok := prm.Type().Underlying().(*types.Slice); ok && types.Identical(s.Elem().Underlying(), types.Typ[types.String]) {
			list = i
		}
	}
	if list < 0 || list >= len(v.Args) {
		return
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(cal.Fn)
	isElem := func(x *eng.Term) bool {
		return x.Op == eng.OLoad && x.Args[0].Op == eng.OIndex && x.Args[0].Args[0].Strip() == ps[list]
	}
	for _, p := range c.account(in, in.Run(cal.Fn, in.NewState(), ps, nil)) {
		p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			if e.Kind != eng.ELoop {
				return
			}
			for _, it := range e.Loop.Iters {
				if it.Facts == nil {
					continue
				}
				appended := false
				for _, x := range it.Effects {
					if x.Kind != eng.EAppend {
						continue
					}
					appended = true
					if x.Val.Op == eng.OArr && len(x.Val.Args) == 1 {
						if y := x.Val.Args[0].Strip(); !isElem(y) && y.Op == eng.OCall && y.Any(isElem) {
							c.Fail(rule, posOf(x, cal.Fn), con, "a value is changed by %s", short(y.CalleeName()))
						}
					}
				}
				if appended {
					continue
				}
				var elem *eng.Term
				it.Facts.EachTerm(func(t *eng.Term) {
					if y := t.Find(isElem); y != nil {
						elem = y
					}
				})
				if elem == nil {
					continue
				}
				f := it.Facts.Clone()
				if f.Assume(in.T.Cmp(token.EQL, in.T.Len(elem), in.T.Int(1)), true) && pureLength(it.Facts, in.T.Len(elem)) {
					c.Fail(rule, cal.Fn.Pos(), con, "values that aren't empty are dropped")
				} else {
					c.OK(rule, con+" dropped")
				}
			}
		})
	}
}

// pureLength: the facts that mention the length say nothing but how long it is.
func pureLength(f *eng.Facts, n *eng.Term) bool {
	ok := true
	f.Each(func(t *eng.Term, _ bool) {
		if t.Any(func(x *eng.Term) bool { return x == n.Args[0] }) && t.Any(func(x *eng.Term) bool { return x.Op == eng.OCall }) {
			ok = false
		}
	})
	return ok
}

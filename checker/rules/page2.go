package rules

import (
	"go/token"
	"sort"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// pageFuncs: the functions a page uses work for whatever they're given.
func (c *C) pageFuncs(pc *pageCheck) {
	names := []string{}
	for n := range pc.funcs {
		names = append(names, n)
	}
	sort.Strings(names)
	seen := map[*ssa.Function]bool{}
	for _, n := range names {
		fn := pc.funcs[n]
		if fn == nil || !c.P.InRepo(fn) || len(fn.Blocks) == 0 {
			continue
		}
		c.total(n, fn)
		c.divides(n, fn, seen)
	}
}

// total: no index or slice of the function can be out of range.
func (c *C) total(name string, fn *ssa.Function) {
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api, MaxPaths: 2000, MaxSteps: 400000})
	for _, p := range c.account(in, in.Run(fn, nil, nil, nil)) {
		p.Walk(false, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
			if e.Kind != eng.EIndex && e.Kind != eng.ESliceOp {
				return
			}
			if e.OK {
				c.OK("function", name+" index")
				return
			}
			if len(loops) > 0 || e.Facts == nil {
				return
			}
			// positions within strings
			f := e.Facts.Clone()
			plain := true
			var within func(t *eng.Term)
			within = func(t *eng.Term) {
				switch {
				case t.Op == eng.OBin || t.Op == eng.ONeg:
					for _, a := range t.Args {
						within(a)
					}
				case t.Op == eng.OConst, t.Op == eng.OLen && t.Args[0].Op == eng.OSym:
				case t.Op == eng.OCall && strings.HasPrefix(t.CalleeName(), "strings.") && strings.Contains(t.CalleeName(), "Index") && t.Args[0].Op == eng.OSym:
					k := int64(-1)
					if s, ok := t.Args[1].StrConst(); ok && !strings.HasSuffix(t.CalleeName(), "Any") {
						k = -int64(len(s))
					}
					if !f.Le(t, in.T.Int(-1), 0) {
						f.AssumeLe(t, in.T.Len(t.Args[0]), k)
					}
					f.AssumeLe(in.T.Int(-1), t, 0)
				default:
					plain = false
				}
			}
			within(e.Val)
			if e.Kind == eng.EIndex {
				n := in.T.Len(e.Addr)
				if e.Addr.Op != eng.OSym || !plain {
					return
				}
				if !f.Le(in.T.Int(0), e.Val, 0) || !f.Le(e.Val, n, -1) {
					c.Fail("function", posOf(e, fn), name, "%s can have no element %s: the page can't be rendered then", e.Addr, e.Val)
				}
				return
			}
			within(e.Key)
			if !plain || e.Addr.Op != eng.OSym || e.Addr.Typ == nil || !isString(e.Addr.Typ) {
				return
			}
			if !f.Le(in.T.Int(0), e.Val, 0) || !f.Le(e.Val, e.Key, 0) || !f.Le(e.Key, in.T.Len(e.Addr), 0) {
				c.Fail("function", posOf(e, fn), name, "%s can be too short for [%s:%s]: the page can't be rendered then", e.Addr, e.Val, e.Key)
			} else {
				c.OK("function", name+" index")
			}
		})
	}
}

// divides: whole numbers aren't divided by what can be zero.
func (c *C) divides(name string, fn *ssa.Function, seen map[*ssa.Function]bool) {
	if seen[fn] {
		return
	}
	seen[fn] = true
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.BinOp:
				if i.Op != token.QUO && i.Op != token.REM || !isInt(i.Type()) {
					continue
				}
				if _, ok := i.Y.(*ssa.Const); ok {
					c.OK("function", name+" division")
					continue
				}
				if compared(fn, i.Y) {
					continue
				}
				if _, ok := root(i.Y).(*ssa.Parameter); ok {
					c.Fail("function", i.Pos(), name, "%s is divided by, and can be zero: the page can't be rendered then", i.Y.Name())
				}
			case ssa.CallInstruction:
				if f := i.Common().StaticCallee(); f != nil && c.P.InRepo(f) && pkgPath(f) == pkgPath(fn) {
					c.divides(name, f, seen)
				}
			}
		}
	}
}

// root: the value that's converted.
func root(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

// compared: the function looks at the value.
func compared(fn *ssa.Function, v ssa.Value) bool {
	v = root(v)
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.BinOp); ok {
				switch c.Op {
				case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
					if root(c.X) == v || root(c.Y) == v {
						return true
					}
				}
			}
		}
	}
	return false
}

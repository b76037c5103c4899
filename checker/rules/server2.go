package rules

import (
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// acceptPredicates: "explicitly accepts" means that the media type is one of
// those in the Accept header.
func (c *C) acceptPredicates() {
	var fns []*ssa.Function
	for _, fn := range c.webFns() {
		res := fn.Signature.Results()
		if res.Len() != 1 || exportedFn(fn) {
			continue
		}
		b, ok := res.At(0).Type().Underlying().(*types.Basic)
		if !ok || b.Kind() != types.Bool || !hasParam(fn, isHTTPRequest) {
			continue
		}
		if c.reaches(fn, func(i ssa.Instruction) bool { return instrCalls(i, "mime.ParseMediaType") }) {
			fns = append(fns, fn)
		}
	}
	for _, fn := range outermost(c, fns, nil) {
		c.acceptPredicate(fn)
	}
	if len(fns) == 0 {
		c.Undec("accept", "media types", "cannot see how the Accept header is read")
	}
}

func (c *C) acceptPredicate(fn *ssa.Function) {
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	name := c.P.FnName(fn)
	var wants []*eng.Term
	for i, q := range fn.Params {
		if !isHTTPRequest(q.Type()) {
			wants = append(wants, ps[i])
		}
	}
	isWant := func(t *eng.Term) bool {
		return t.Any(func(x *eng.Term) bool {
			for _, w := range wants {
				if x == w {
					return true
				}
			}
			return false
		})
	}
	isParsed := func(t *eng.Term) bool {
		t = t.Strip()
		return t.Op == eng.OExtract && t.N == 0 && t.Args[0].CalleeName() == "mime.ParseMediaType"
	}
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || len(p.Ret) != 1 {
			continue
		}
		// what is collected
		headers, other := 0, false
		p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			switch n := callName(e); {
			case n == "(net/http.Header).Get" || n == "(net/http.Header).Values":
				if k, ok := e.Args[1].StrConst(); ok {
					if strings.EqualFold(k, "accept") {
						headers++
					} else {
						c.Fail("accept", e.Pos, name+" header", "accepted media types are read from the header %q", k)
					}
				}
			case n == "strings.Split" || n == "strings.SplitN":
				if k, ok := e.Args[1].StrConst(); ok {
					c.Check(strings.TrimSpace(k) == ",", "accept", e.Pos, name+" separator", "media types are separated at %q", k)
				}
				if n == "strings.SplitN" {
					if k, ok := e.Args[2].IntConst(); ok && k >= 0 {
						c.Fail("accept", e.Pos, name+" all", "no more than %d media types are considered", k)
					} else if !ok {
						other = true
					}
				}
			}
			if e.Kind == eng.EMapUpdate && !isParsed(e.Key) {
				other = true
			}
		})
		if headers == 0 || other {
			c.Undec("accept", name, "cannot see how the Accept header is read")
			return
		}
		for i, e := range p.Effects {
			if e.Kind != eng.ELoop {
				continue
			}
			parses := false
			for _, it := range e.Loop.Iters {
				var parse *eng.Effect
				if it.Facts != nil {
					keeps := false
					for _, nx := range it.Next {
						if nx == nil {
							continue
						}
						if b, ok := nx.Strip().BoolConst(); ok && b {
							keeps = true
						}
					}
					it.Facts.Each(func(t *eng.Term, val bool) {
						if val && !keeps && t.Op == eng.OLookupOk && isWant(t) && t.Any(func(x *eng.Term) bool { return x == e.Loop.K }) {
							c.Fail("accept", e.Pos, name+" true", "a media type that's in the Accept header is passed over")
						}
					})
				}
				updated, compared := false, false
				for _, x := range it.Effects {
					if x.Kind == eng.ELoop && comparesIn(x, func(t *eng.Term) bool { return t.Any(isParsed) && isWant(t) }) {
						compared = true
					}
					if x.Kind == eng.ECall && parse != nil && someArg(x, func(t *eng.Term) bool { return t.Any(isParsed) }) && someArg(x, isWant) {
						compared = true
					}
					if callName(x) == "mime.ParseMediaType" {
						parse = x
					}
					if x.Kind == eng.EMapUpdate && isParsed(x.Key) {
						updated = true
					}
					if x.Kind == eng.EBranch && x.Val != nil && x.Val.Any(isParsed) && x.Val.Any(isWant) {
						compared = true
					}
				}
				if parse == nil {
					continue
				}
				parses = true
				if res := parse.Result; res != nil && res.Op == eng.OTuple {
					if isnil, known := knownNil(in, it.Facts, res.Args[2]); known && isnil {
						if !updated && !compared {
							c.Fail("accept", parse.Pos, name+" collects", "a media type in the Accept header can be ignored")
						} else {
							c.OK("accept", name+" collects")
						}
					}
				}
			}
			yes, known := headerExit(p.Effects, i)
			v, isConst := p.Ret[0].Strip().BoolConst()
			if known && !yes && (parses || isConst && !v) {
				// left early
				if isConst && v {
					continue
				}
				c.Fail("accept", e.Pos, name+" all", "not all media types are considered")
			}
		}
		v, isConst := p.Ret[0].Strip().BoolConst()
		found := false
		p.Facts.Each(func(t *eng.Term, val bool) {
			if val && isWant(t) && (t.Op == eng.OLookupOk || t.Op == eng.OLookup || t.Op == eng.OBin && t.Aux == "==" && t.Any(isParsed)) {
				found = true
			}
		})
		r := p.Ret[0].Strip()
		switch {
		case isConst && v:
			c.Check(found, "accept", fn.Pos(), name+" true", "a request is taken to accept a media type that is not in its Accept header")
		case isConst && !v:
			c.Check(!found, "accept", fn.Pos(), name+" false", "a request is not taken to accept a media type that is in its Accept header")
		case r.Op == eng.OLookupOk && isWant(r):
			c.OK("accept", name+" true")
		default:
			c.Undec("accept", name, "cannot see what the result depends on")
		}
	}
}

// comparesIn: a nested loop compares, in some iteration, what pred accepts.
func comparesIn(loop *eng.Effect, pred func(*eng.Term) bool) bool {
	for _, it := range loop.Loop.Iters {
		for _, x := range it.Effects {
			if x.Kind == eng.EBranch && x.Val != nil && pred(x.Val) {
				return true
			}
			if x.Kind == eng.ELoop && comparesIn(x, pred) {
				return true
			}
		}
	}
	return false
}

func someArg(e *eng.Effect, pred func(*eng.Term) bool) bool {
	for _, a := range e.Args {
		if a != nil && pred(a) {
			return true
		}
	}
	return false
}

// templateFuncs: a page is either complete or an error, also if a function the
// template calls panics.
func (c *C) templateFuncs() {
	var fns []*ssa.Function
	for _, fn := range c.webFns() {
		res := fn.Signature.Results()
		if res.Len() == 0 || !isNamedErr(res.At(res.Len()-1).Type()) || takesWriter(fn) || exportedFn(fn) {
			continue
		}
		if c.reaches(fn, isExecute) {
			fns = append(fns, fn)
		}
	}
	fns = outermost(c, fns, nil)
	if len(fns) == 0 {
		c.Undec("page", "template", "cannot see where the page is rendered")
	}
	isExec := func(e *eng.Effect) bool {
		n := callName(e)
		return n == "(*html/template.Template).Execute" || n == "(*html/template.Template).ExecuteTemplate" || n == "(*text/template.Template).Execute"
	}
	for _, fn := range fns {
		name := c.P.FnName(fn)
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api, MayPanic: isExec})
		for _, p := range c.Run(in, fn, nil, nil) {
			if p.Exit {
				continue
			}
			if p.Panic != nil {
				c.Fail("page", fn.Pos(), name+" panic", "a panic while rendering the page is not turned into an error")
				continue
			}
			if len(p.Ret) == 0 {
				continue
			}
			var execs []*eng.Effect
			panicked := false
			p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if isExec(e) {
					execs = append(execs, e)
				}
				if e.Kind == eng.EPanic {
					panicked = true
				}
			})
			err := p.Ret[len(p.Ret)-1]
			isnil, known := knownNil(in, p.Facts, err)
			if !known {
				isnil, known = !nonNilErr(p.Facts, err.Strip()), nonNilErr(p.Facts, err.Strip())
			}
			if panicked {
				if known {
					c.Check(!isnil, "page", fn.Pos(), name+" panic", "a panic while rendering the page is not reported as an error: part of a page is sent with status 200")
				} else {
					c.Undec("page", name+" panic", "cannot tell the error after a panic")
				}
				continue
			}
			if !known || !isnil {
				continue
			}
			if len(execs) != 1 {
				c.Check(len(execs) > 0, "page", fn.Pos(), name+" complete", "a page is returned that was not rendered")
				continue
			}
			ok, kn := knownNil(in, p.Facts, errOf(execs[0]))
			c.Check(kn && ok, "page", execs[0].Pos, name+" error", "an error of rendering the page is not reported: part of a page is sent with status 200")
			if len(execs[0].Args) > 1 && len(p.Ret) > 1 {
				buf := execs[0].Args[1].Strip()
				if buf.Op == eng.OIface {
					buf = buf.Args[0].Strip()
				}
				c.Check(p.Ret[0].Any(func(x *eng.Term) bool { return x == buf }), "page", execs[0].Pos, name+" complete", "what is returned is not what was rendered")
			}
		}
	}
}

// webIndexing: no part of a request is taken by an index it need not have.
func (c *C) webIndexing() {
	for _, fn := range c.webFns() {
		in := eng.NewInterp(c.P, eng.Config{Inline: func(f *ssa.Function) bool { return f.Parent() != nil }, MaxPaths: 2000, MaxSteps: 400000})
		for _, p := range in.Run(fn, nil, nil, nil) {
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind != eng.EIndex && e.Kind != eng.ESliceOp {
					return
				}
				con := c.P.FnName(fn)
				if e.OK {
					c.OK("index", con)
					return
				}
				_, isK := e.Val.Strip().IntConst()
				if e.Kind == eng.EIndex && isK {
					c.Fail("index", e.Pos, con, "%s can have no element %s", e.Addr, e.Val)
					return
				}
				if isLess(e.Fn) {
					return // the sort package only passes valid indices
				}
				c.Undec("index", con, "cannot bound an index (%s)", c.P.Pos(e.Pos))
			})
		}
		for f := range in.Visited {
			c.fns[f] = true
		}
	}
	// assertions about the connection
	for _, fn := range c.P.Funcs {
		if pkgPath(fn) != mod+"/trcweb" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				ta, ok := i.(*ssa.TypeAssert)
				if !ok || !isResponseWriter(ta.X.Type()) {
					continue
				}
				c.Check(ta.CommaOk, "assert", ta.Pos(), c.P.FnName(fn), "the response writer is asserted to be a %s, which it need not be", ta.AssertedType)
			}
		}
	}
}

// isLess: a comparison function given to the sort package.
func isLess(f *ssa.Function) bool {
	if f == nil || f.Parent() == nil || len(f.Params) != 2 {
		return false
	}
	for _, q := range f.Params {
		if b, ok := q.Type().(*types.Basic); !ok || b.Kind() != types.Int {
			return false
		}
	}
	return true
}

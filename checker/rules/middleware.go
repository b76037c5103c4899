package rules

import (
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// c24: the middleware records every request and doesn't interfere with it.
func c24(c *C) {
	c.middleware()
	c.responseWriters()
	c.easyCollector()
}

// account adds the paths of a nested run to the evidence.
func (c *C) account(in *eng.Interp, ps []*eng.Path) []*eng.Path {
	for f := range in.Visited {
		c.fns[f] = true
	}
	c.npaths += len(ps)
	for _, p := range ps {
		c.neffects += len(p.Effects)
	}
	return ps
}

// callHandler calls a handler: a function, or a value with a ServeHTTP method.
func (c *C) callHandler(in *eng.Interp, st *eng.State, h *eng.Term, args ...*eng.Term) []*eng.Path {
	if ps := in.CallTerm(st, h, args); ps != nil {
		return c.account(in, ps)
	}
	t := h.DynType()
	if t == nil {
		t = h.Strip().Typ
	}
	n := namedOf(derefType(t))
	if n == nil {
		return nil
	}
	fn := c.P.Method(n, "ServeHTTP")
	if fn == nil || !c.P.InRepo(fn) {
		return nil
	}
	return c.account(in, in.Run(fn, st, append([]*eng.Term{h.Strip()}, args...), nil))
}

func isServe(e *eng.Effect, next *eng.Term) bool {
	if e.Kind != eng.ECall || e.Callee == nil || len(e.Args) != 3 {
		return false
	}
	return strings.HasSuffix(e.Callee.Name, ").ServeHTTP") && e.Args[0].Strip() == next
}

func (c *C) middleware() {
	fn := c.anchor("trcweb", "Middleware")
	if fn == nil {
		return
	}
	var next *eng.Term
	in := eng.NewInterp(c.P, eng.Config{
		Inline:   func(f *ssa.Function) bool { return !exportedFn(f) && pkgPath(f) == mod+"/trcweb" || c.serves(f) },
		MayPanic: func(e *eng.Effect) bool { return next != nil && isServe(e, next) },
	})
	ps := in.ParamSyms(fn)
	name := "middleware"
	done := 0
	for _, p1 := range c.Run(in, fn, nil, ps) {
		if len(p1.Ret) != 1 || p1.State == nil {
			continue
		}
		ht := nextType(fn)
		if ht == nil {
			c.Undec("middleware", name, "its result is not a function of a handler")
			return
		}
		next = in.T.FreshSym("next", ht)
		for _, p2 := range c.account(in, in.CallTerm(p1.State, p1.Ret[0], []*eng.Term{next})) {
			if len(p2.Ret) != 1 || p2.Panic != nil || p2.State == nil {
				continue
			}
			w, r := in.T.FreshSym("w", nil), in.T.FreshSym("r", nil)
			st := p2.State.Clone()
			st.ResetLog()
			before := p2.State
			for _, p := range c.callHandler(in, st, p2.Ret[0], w, r) {
				done++
				c.served(in, fn, p, ps, next, w, r)
				c.unshared(fn, p, before, p2.Ret[0])
			}
		}
	}
	if in.Incomplete != "" {
		c.Undec("budget", name, "%s", in.Incomplete)
	}
	if done == 0 {
		c.Undec("middleware", name, "the handler it returns could not be analysed")
	}
}

// unshared: requests are handled at the same time, so the handler keeps
// nothing about one of them in variables that it shares with others.
func (c *C) unshared(fn *ssa.Function, p *eng.Path, before *eng.State, h *eng.Term) {
	made := map[*eng.Term]bool{}
	before.EachCell(func(addr *eng.Term) { made[addr.Root()] = true })
	h.Any(func(x *eng.Term) bool {
		made[x] = made[x] || x.Op == eng.OAlloc
		return false
	})
	p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if e.Kind != eng.EStore || e.Addr.Root().Op != eng.OAlloc || !made[e.Addr.Root()] {
			return
		}
		if len(e.Locks) > 0 {
			c.Undec("middleware", "middleware request", "something is kept from one request to the next")
			return
		}
		c.Fail("middleware", posOf(e, fn), "middleware request", "a variable that's shared by all requests is written for each of them")
	})
}

// alters: a call that changes the request, or uses up its body.
func alters(e *eng.Effect, r *eng.Term) bool {
	if e.Kind != eng.ECall || e.Callee == nil {
		return false
	}
	ofReq := func(t *eng.Term) bool {
		return t.Strip() == r || t.Any(func(x *eng.Term) bool {
			return x.Op == eng.OCall && x.Args != nil && len(x.Args) > 0 && x.Args[0].Strip() == r && (strings.HasSuffix(x.CalleeName(), "Request).WithContext") || strings.HasSuffix(x.CalleeName(), "Request).Clone"))
		}) || t.Root() == r
	}
	if len(e.Args) == 0 {
		return false
	}
	recv := e.Args[0]
	switch e.Callee.Name {
	case "(net/http.Header).Del", "(net/http.Header).Set", "(net/http.Header).Add":
		l := recv.Strip()
		return l.Op == eng.OLoad && l.Args[0].FieldVar() != nil && ofReq(l.Args[0].Args[0])
	case "(*net/http.Request).ParseForm", "(*net/http.Request).ParseMultipartForm", "(*net/http.Request).FormValue", "(*net/http.Request).PostFormValue", "(*net/http.Request).FormFile", "(*net/http.Request).MultipartReader", "(*net/http.Request).AddCookie", "(*net/http.Request).SetBasicAuth":
		return ofReq(recv)
	}
	for _, a := range e.Args {
		l := a.Strip()
		if l.Op == eng.OLoad && l.Args[0].FieldVar() != nil && l.Args[0].FieldVar().Name() == "Body" && ofReq(l.Args[0].Args[0]) {
			return true
		}
	}
	return false
}

// serves: a ServeHTTP method of a type that isn't exported.
func (c *C) serves(f *ssa.Function) bool {
	if f.Name() != "ServeHTTP" || f.Signature.Recv() == nil || pkgPath(f) != mod+"/trcweb" {
		return false
	}
	n := namedOf(derefType(f.Signature.Recv().Type()))
	return n != nil && !n.Obj().Exported()
}

func nextType(fn *ssa.Function) types.Type {
	res := fn.Signature.Results()
	if res.Len() != 1 {
		return nil
	}
	sig, ok := res.At(0).Type().Underlying().(*types.Signature)
	if !ok || sig.Params().Len() != 1 {
		return nil
	}
	return sig.Params().At(0).Type()
}

func (c *C) served(in *eng.Interp, fn *ssa.Function, p *eng.Path, ps []*eng.Term, next, w, r *eng.Term) {
	ctor, categorize := ps[0], ps[1]
	name := "middleware"
	how := "returns"
	var ctors, cats, serves, finishes, panics, direct []*eng.Effect
	order := map[*eng.Effect]int{}
	n := 0
	inLoop := false
	p.Walk(false, func(e *eng.Effect, loops []*eng.LoopInfo, async bool) {
		n++
		order[e] = n
		add := func(l *[]*eng.Effect) {
			*l = append(*l, e)
			inLoop = inLoop || len(loops) > 0
		}
		switch {
		case e.Kind == eng.ECall && e.Addr != nil && e.Addr.Strip() == ctor:
			add(&ctors)
		case e.Kind == eng.ECall && e.Addr != nil && e.Addr.Strip() == categorize:
			add(&cats)
		case isServe(e, next):
			add(&serves)
		case e.Kind == eng.EPanic:
			add(&panics)
		case e.Kind == eng.ECall && len(e.Args) > 0 && e.Args[0].Strip() == w && e.Callee != nil:
			switch m := e.Callee.Name; {
			case strings.HasSuffix(m, "ResponseWriter).Write"), strings.HasSuffix(m, "ResponseWriter).WriteHeader"), strings.HasSuffix(m, "ResponseWriter).Header"):
				add(&direct)
			}
		}
	})
	if inLoop {
		c.Undec("middleware", name, "the request is handled in a loop")
		return
	}
	if len(ctors) != 1 {
		c.Fail("middleware", fn.Pos(), name+" trace", "%d traces are created for one request (%s)", len(ctors), strings.Join(p.FactStrings(), " & "))
		return
	}
	ct := ctors[0]
	ctxT, tr := ct.Result, ct.Result
	if ct.Result.Op == eng.OTuple {
		ctxT, tr = ct.Result.Args[0], ct.Result.Args[1]
	}
	p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if recv, m := c.traceMethod(e); m == "Finish" && recv.Strip() == tr {
			finishes = append(finishes, e)
		}
	})
	c.OK("middleware", name+" trace")
	okCtx := ct.Args[0].Any(func(x *eng.Term) bool {
		return x.Op == eng.OCall && strings.HasSuffix(x.CalleeName(), "(*net/http.Request).Context") && x.Args[0].Strip() == r
	})
	c.Check(okCtx, "middleware", posOf(ct, fn), name+" context", "the trace is created in %s instead of the context of the request", ct.Args[0])
	catOK := len(cats) == 1 && len(cats[0].Args) == 1 && cats[0].Args[0].Strip() == r && ct.Args[1].Strip() == cats[0].Result
	if !catOK && len(cats) > 0 && ct.Args[1].Any(func(x *eng.Term) bool { return x == cats[0].Result }) {
		c.Fail("middleware", posOf(ct, fn), name+" category", "the category of the trace is %s", ct.Args[1])
	} else {
		c.Check(catOK, "middleware", posOf(ct, fn), name+" category", "the category of the trace is not the one of the request")
	}
	if len(serves) != 1 {
		if p.Panic != nil && len(panics) > 0 && len(serves) == 0 {
			return
		}
		c.Fail("middleware", fn.Pos(), name+" serves once", "the handler is called %d times (%s)", len(serves), strings.Join(p.FactStrings(), " & "))
		return
	}
	se := serves[0]
	c.OK("middleware", name+" serves once")
	// the request
	req := se.Args[2].Strip()
	carries := req.Any(func(x *eng.Term) bool { return x == ctxT || x == ct.Result })
	base := req.Op == eng.OCall && (strings.HasSuffix(req.CalleeName(), "(*net/http.Request).WithContext") || strings.HasSuffix(req.CalleeName(), "(*net/http.Request).Clone"))
	switch {
	case req == r:
		c.Fail("middleware", posOf(se, fn), name+" request", "the context of the handler does not carry the trace")
	case base && req.Args[0].Strip() == r && carries:
		c.OK("middleware", name+" request")
	case base && req.Args[0].Strip() == r:
		c.Fail("middleware", posOf(se, fn), name+" request", "the context of the handler is %s", req.Args[1])
	default:
		c.Undec("middleware", name+" request", "the handler gets %s", req)
	}
	p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if e.Kind == eng.EStore && e.Addr.Root() == r || order[e] < order[se] && alters(e, r) {
			c.Fail("middleware", posOf(e, fn), name+" request", "the request is modified")
		}
	})
	// the response
	for _, e := range direct {
		if order[e] < order[se] || order[e] > order[se] {
			c.Fail("middleware", posOf(e, fn), name+" response", "the middleware writes to the response itself")
		}
	}
	// the end
	if len(panics) > 0 {
		how = "panics"
		c.Check(p.Panic != nil, "middleware", posOf(se, fn), name+" panics", "a panic of the handler is swallowed")
	} else if p.Panic != nil {
		c.Fail("middleware", posOf(se, fn), name+" panics", "the middleware panics")
	}
	switch {
	case len(finishes) == 0:
		c.Fail("middleware", posOf(se, fn), name+" finish", "the trace is not finished when the handler %s", how)
		return
	case order[finishes[0]] < order[se]:
		c.Fail("middleware", posOf(finishes[0], fn), name+" finish", "the trace is finished before the handler is called")
		return
	case len(finishes) > 1:
		c.Fail("middleware", posOf(finishes[1], fn), name+" finish", "the trace is finished %d times when the handler %s", len(finishes), how)
		return
	default:
		c.OK("middleware", name+" finish when it "+how)
	}
	// what is recorded
	code, size := false, false
	p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		recv, m := c.traceMethod(e)
		if m == "" || recv.Strip() != tr || !contains(eventMethods, m) || order[e] < order[se] || order[e] > order[finishes[0]] {
			return
		}
		for _, a := range e.Args[1:] {
			a.Any(func(x *eng.Term) bool {
				if x.Op == eng.OLoad && x.Args[0].FieldVar() != nil {
					switch c.writerRole(x.Args[0].FieldVar()) {
					case "code":
						code = true
					case "size":
						size = true
					}
				}
				if k, ok := x.IntConst(); ok && k == 200 {
					p.Facts.EachTerm(func(t *eng.Term) {
						if t.Op == eng.OLoad && t.Args[0].FieldVar() != nil && c.writerRole(t.Args[0].FieldVar()) == "code" && p.Facts.EqInt(t, in.T.Int(0), 0) {
							code = true
						}
					})
				}
				return false
			})
		}
	})
	wr := se.Args[1].Strip()
	if wr == w {
		c.Fail("middleware", posOf(se, fn), name+" response code", "what the handler responds is not observed")
		return
	}
	if !code && !size && len(c.writerRoles()) == 0 {
		c.Undec("middleware", name+" response code", "the recording response writer was not recognised")
		return
	}
	c.Check(code, "middleware", posOf(finishes[0], fn), name+" response code", "the response code is not recorded before the trace is finished (when the handler %s)", how)
	c.Check(size, "middleware", posOf(finishes[0], fn), name+" response size", "the response size is not recorded before the trace is finished (when the handler %s)", how)
}

// ---- recording response writers ----

func isResponseWriter(t types.Type) bool { return isNamed(t, "net/http", "ResponseWriter") }

// recorders: the types of trcweb which wrap a response writer.
func (c *C) recorders() []*types.Named {
	var out []*types.Named
	for _, n := range c.namedTypes("trcweb") {
		if wrappedWriter(n) != nil {
			out = append(out, n)
		}
	}
	return out
}

func wrappedWriter(n *types.Named) *types.Var {
	for _, f := range fieldsOf(n) {
		if isResponseWriter(f.Type()) {
			return f
		}
	}
	return nil
}

// writerRoles: the fields in which recorders keep the code and size.
func (c *C) writerRoles() map[*types.Var]string {
	out := map[*types.Var]string{}
	for _, n := range c.recorders() {
		for _, m := range []string{"WriteHeader", "Write"} {
			fn := c.P.Method(n, m)
			if fn == nil || !c.P.InRepo(fn) || fn.Synthetic != "" {
				continue
			}
			in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
			ps := in.ParamSyms(fn)
			for _, p := range in.Run(fn, nil, ps, nil) {
				for _, e := range p.Effects {
					if e.Kind != eng.EStore || e.Addr.FieldVar() == nil || e.Addr.Args[0] != ps[0] || !isInt(e.Addr.FieldVar().Type()) {
						continue
					}
					switch {
					case m == "WriteHeader" && e.Val.Strip() == ps[1]:
						out[e.Addr.FieldVar()] = "code"
					case m == "Write" && e.Val.Any(func(x *eng.Term) bool { return x.Op == eng.OLoad && x.Args[0] == e.Addr }):
						out[e.Addr.FieldVar()] = "size"
					}
				}
			}
		}
	}
	return out
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (c *C) writerRole(f *types.Var) string {
	if c.roles == nil {
		c.roles = c.writerRoles()
	}
	return c.roles[f]
}

func (c *C) responseWriters() {
	for _, n := range c.recorders() {
		c.recorder(n)
	}
}

func (c *C) recorder(n *types.Named) {
	inner := wrappedWriter(n)
	tn := n.Obj().Name()
	own := map[string]*ssa.Function{}
	for _, fn := range c.ownMethods(n) {
		own[fn.Name()] = fn
	}
	for _, m := range []string{"WriteHeader", "Write", "Header"} {
		fn := own[m]
		if fn == nil {
			if !inner.Embedded() {
				c.Undec("writer", tn+"."+m, "no such method")
			}
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		ps := in.ParamSyms(fn)
		idx := fieldIndex(n, inner)
		innerV := func(t *eng.Term) bool {
			t = t.Strip()
			return t.Op == eng.OLoad && t.Args[0] == in.T.Field(ps[0], idx, inner)
		}
		for _, p := range c.Run(in, fn, nil, ps) {
			if p.Panic != nil || p.Exit {
				continue
			}
			var fwd []*eng.Effect
			other := ""
			inLoop := false
			p.Walk(true, func(e *eng.Effect, loops []*eng.LoopInfo, async bool) {
				if e.Kind != eng.ECall || e.Callee == nil || len(e.Args) == 0 || !innerV(e.Args[0]) {
					return
				}
				switch {
				case strings.HasSuffix(e.Callee.Name, "ResponseWriter)."+m):
					fwd = append(fwd, e)
					inLoop = inLoop || len(loops) > 0 || async
				case !strings.HasSuffix(e.Callee.Name, "ResponseWriter).Header"):
					other = e.Callee.Name
				}
			})
			con := tn + "." + m
			if len(fwd) != 1 || inLoop {
				c.Fail("writer", fn.Pos(), con, "the call is forwarded %d times (%s)", len(fwd), strings.Join(p.FactStrings(), " & "))
				continue
			}
			e := fwd[0]
			same := true
			for i := 1; i < len(ps) && i < len(e.Args); i++ {
				same = same && e.Args[i].Strip() == ps[i]
			}
			c.Check(same, "writer", posOf(e, fn), con, "the call is forwarded with other arguments")
			c.Check(other == "", "writer", posOf(e, fn), con+" only", "it also calls %s", other)
			for i, ret := range p.Ret {
				c.Check(isResult(ret, e.Result, i), "writer", posOf(e, fn), con+" result", "returns %s instead of what the response writer returned", ret)
			}
			// what it keeps
			switch m {
			case "WriteHeader":
				c.keepsCode(in, fn, p, ps, con)
			case "Write":
				c.keepsSize(in, fn, p, ps, e, con)
			}
		}
	}
	// streams need their events to be flushed
	fl := own["Flush"]
	if fl == nil {
		if inner.Embedded() || true {
			if ms := types.NewMethodSet(types.NewPointer(n)); ms.Lookup(n.Obj().Pkg(), "Flush") == nil {
				c.Fail("writer", n.Obj().Pos(), tn+".Flush", "responses can't be flushed, so streams are delayed")
			}
		}
		return
	}
	c.flushes(n, fl, inner)
}

func (c *C) keepsCode(in *eng.Interp, fn *ssa.Function, p *eng.Path, ps []*eng.Term, con string) {
	var st *eng.Effect
	for _, e := range p.Effects {
		if e.Kind == eng.EStore && e.Addr.FieldVar() != nil && c.writerRole(e.Addr.FieldVar()) == "code" {
			st = e
		}
	}
	var was *eng.Term
	p.Facts.EachTerm(func(t *eng.Term) {
		if t.Op == eng.OLoad && t.Args[0].FieldVar() != nil && c.writerRole(t.Args[0].FieldVar()) == "code" {
			was = t
		}
	})
	switch {
	case st == nil:
		if was != nil && !p.Facts.EqInt(was, in.T.Int(0), 0) {
			c.OK("writer", con+" later code")
		} else {
			// a flag may say that the header was written
			flag := false
			p.Facts.EachTerm(func(t *eng.Term) {
				if t.Op == eng.OLoad && t.Args[0].FieldVar() != nil && t.Args[0].Args[0] == ps[0] {
					flag = true
				}
			})
			if flag && was == nil {
				c.Undec("writer", con+" code", "whether the code is kept depends on something else")
				return
			}
			c.Fail("writer", fn.Pos(), con+" code", "the code is not kept (%s)", strings.Join(p.FactStrings(), " & "))
		}
	case st.Val.Strip() == ps[1]:
		if was == nil {
			flag := false
			p.Facts.EachTerm(func(t *eng.Term) {
				if t.Op == eng.OLoad && t.Args[0].FieldVar() != nil && t.Args[0].Args[0] == ps[0] {
					flag = true
				}
			})
			if flag {
				c.Undec("writer", con+" code", "whether the code is kept depends on something else")
			} else {
				c.Fail("writer", posOf(st, fn), con+" code", "a later code replaces the one that was sent")
			}
			return
		}
		c.Check(p.Facts.EqInt(was, in.T.Int(0), 0), "writer", posOf(st, fn), con+" code", "a later code replaces the one that was sent (%s)", strings.Join(p.FactStrings(), " & "))
	default:
		c.Fail("writer", posOf(st, fn), con+" code", "%s is kept as the code", st.Val)
	}
}

func (c *C) keepsSize(in *eng.Interp, fn *ssa.Function, p *eng.Path, ps []*eng.Term, fwd *eng.Effect, con string) {
	var st *eng.Effect
	for _, e := range p.Effects {
		if e.Kind == eng.EStore && e.Addr.FieldVar() != nil && c.writerRole(e.Addr.FieldVar()) == "size" {
			st = e
		}
		if e.Kind == eng.EStore && e.Addr.FieldVar() != nil && c.writerRole(e.Addr.FieldVar()) == "code" {
			v := e.Val.Strip()
			if k, ok := v.IntConst(); !ok || k != 200 {
				c.Fail("writer", posOf(e, fn), con+" code", "%s is kept as the code", v)
				continue
			}
			ok := false
			p.Facts.EachTerm(func(t *eng.Term) {
				if t.Op == eng.OLoad && t.Args[0] == e.Addr && p.Facts.EqInt(t, in.T.Int(0), 0) {
					ok = true
				}
			})
			c.Check(ok, "writer", posOf(e, fn), con+" code", "the code that was sent is replaced")
		}
	}
	n := fwd.Result
	if n.Op == eng.OTuple {
		n = n.Args[0]
	}
	if st == nil {
		if p.Facts.EqInt(n, in.T.Int(0), 0) || p.Facts.Le(n, in.T.Int(0), 0) {
			return
		}
		c.Fail("writer", fn.Pos(), con+" size", "the number of bytes is not counted (%s)", strings.Join(p.FactStrings(), " & "))
		return
	}
	d := delta(in, st.Val, st.Addr)
	switch {
	case d == nil:
		c.Fail("writer", posOf(st, fn), con+" size", "the size becomes %s", st.Val)
	case d == n || sameLin(in, d, n):
		c.OK("writer", con+" size")
	default:
		c.Fail("writer", posOf(st, fn), con+" size", "%s is added to the size instead of the number of bytes written", d)
	}
}

// flushes: flushing reaches the wrapped response writer if it can be flushed.
func (c *C) flushes(n *types.Named, fl *ssa.Function, inner *types.Var) {
	tn := n.Obj().Name()
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fl)
	var viaField *types.Var
	for _, p := range c.Run(in, fl, nil, ps) {
		if p.Panic != nil || p.Exit {
			continue
		}
		calls := 0
		p.Walk(true, func(e *eng.Effect, loops []*eng.LoopInfo, async bool) {
			if e.Kind != eng.ECall {
				return
			}
			if e.Addr != nil && e.Callee != nil && e.Callee.Name == "dynamic" {
				f := e.Addr.Strip()
				if f.Op == eng.OLoad && f.Args[0].FieldVar() != nil && f.Args[0].Args[0] == ps[0] {
					viaField = f.Args[0].FieldVar()
					calls++
				}
			}
			if e.Callee != nil && strings.HasSuffix(e.Callee.Name, ").Flush") && len(e.Args) > 0 {
				r := e.Args[0].Strip()
				if r.Any(func(x *eng.Term) bool { return x.Op == eng.OLoad && x.Args[0].FieldVar() == inner }) {
					calls++
				}
				if r.Op == eng.OLoad && r.Args[0].FieldVar() != nil && r.Args[0].Args[0] == ps[0] {
					viaField = r.Args[0].FieldVar()
					calls++
				}
			}
		})
		if calls == 0 {
			// not a flusher
			not := false
			p.Facts.Each(func(t *eng.Term, v bool) {
				if t.Any(func(x *eng.Term) bool {
					return x.Op == eng.OLoad && x.Args[0].FieldVar() != nil && x.Args[0].Args[0] == ps[0]
				}) {
					not = true
				}
			})
			c.Check(not, "writer", fl.Pos(), tn+".Flush", "does not flush the response")
			continue
		}
		c.OK("writer", tn+".Flush")
	}
	if viaField == nil {
		return
	}
	// whoever makes one sets the field
	set := 0
	for _, fn := range c.P.Funcs {
		if pkgPath(fn) != mod+"/trcweb" || !c.storesField(fn, viaField) {
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		for _, p := range c.Run(in, fn, nil, nil) {
			if p.Panic != nil || p.Exit {
				continue
			}
			var last *eng.Effect
			var wr *eng.Term
			for _, e := range p.Effects {
				if e.Kind == eng.EStore && e.Addr.FieldVar() == viaField {
					last = e
				}
				if e.Kind == eng.EStore && e.Addr.FieldVar() == inner {
					wr = e.Val.Strip()
				}
			}
			if last == nil || wr == nil {
				continue
			}
			set++
			v := last.Val.Strip()
			ofW := v.Any(func(x *eng.Term) bool { return x == wr })
			can, known := false, false
			p.Facts.Each(func(t *eng.Term, b bool) {
				if t.Any(func(x *eng.Term) bool { return x == wr }) && (t.Op != eng.OAssertOk || onlyFlusher(t)) {
					can, known = b, true
				}
			})
			switch {
			case ofW:
				c.OK("writer", tn+" flusher")
			case known && !can:
				c.OK("writer", tn+" no flusher")
			default:
				c.Fail("writer", posOf(last, fn), tn+".Flush", "flushing does not reach the response writer")
			}
		}
	}
	if set == 0 {
		c.Undec("writer", tn+".Flush", "the field %s is never set where it can be seen", viaField.Name())
	}
}

// onlyFlusher: the type that's asked for is an interface with just Flush.
func onlyFlusher(t *eng.Term) bool {
	if t.Typ == nil {
		return true
	}
	i, ok := t.Typ.Underlying().(*types.Interface)
	return ok && i.NumMethods() == 1 && i.Method(0).Name() == "Flush"
}

func (c *C) storesField(fn *ssa.Function, f *types.Var) bool {
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if fa, ok := i.(*ssa.FieldAddr); ok {
				if st, ok := fa.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && st.Field(fa.Field) == f {
					for _, r := range *fa.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == fa {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

// ---- the easy API ----

// easyCollector: traces made by the easy API are the ones its handler shows.
func (c *C) easyCollector() {
	col := c.anchor("eztrc", "Collector")
	if col == nil {
		return
	}
	global := func(v ssa.Value) *ssa.Global {
		for {
			switch x := v.(type) {
			case *ssa.UnOp:
				v = x.X
			case *ssa.ChangeInterface:
				v = x.X
			case *ssa.MakeInterface:
				v = x.X
			case *ssa.ChangeType:
				v = x.X
			case *ssa.Global:
				return x
			case *ssa.Call:
				if f := x.Common().StaticCallee(); f != nil && c.P.InRepo(f) && len(x.Common().Args) == 0 {
					if g := returnedGlobal(f); g != nil {
						return g
					}
				}
				return nil
			default:
				return nil
			}
		}
	}
	g := returnedGlobal(col)
	if g == nil {
		c.Undec("easy", "Collector", "does not return a package-level variable")
		return
	}
	c.OK("easy", "Collector")
	// uses of a collector in the package
	pkg := col.Pkg
	for _, name := range []string{"New", "Middleware", "Handler"} {
		fn := c.anchor("eztrc", name)
		if fn == nil {
			continue
		}
		c.fns[fn] = true
		var src *ssa.Global
		known := false
		switch name {
		case "Handler":
			h := returnedGlobal(fn)
			var made ssa.Value
			if h != nil {
				// the only store to the variable
				for _, f := range []*ssa.Function{pkg.Func("init")} {
					for _, b := range f.Blocks {
						for _, i := range b.Instrs {
							if s, ok := i.(*ssa.Store); ok && s.Addr == h {
								made = s.Val
							}
						}
					}
				}
			} else {
				for _, b := range fn.Blocks {
					if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
						made = r.Results[0]
					}
				}
			}
			if mi, ok := made.(*ssa.MakeInterface); ok {
				made = mi.X
			}
			if call, ok := made.(*ssa.Call); ok && instrCalls(call, mod+"/trcweb.NewTraceServer") {
				src, known = global(call.Common().Args[0]), true
			} else if al, ok := made.(*ssa.Alloc); ok {
				for _, r := range *al.Referrers() {
					if fa, ok := r.(*ssa.FieldAddr); ok {
						if st, ok := derefType(al.Type()).Underlying().(*types.Struct); ok && st.Field(fa.Field).Name() == "Collector" {
							for _, rr := range *fa.Referrers() {
								if s, ok := rr.(*ssa.Store); ok {
									src, known = global(s.Val), true
								}
							}
						}
					}
				}
			}
		default:
			var visit func(f *ssa.Function)
			visit = func(f *ssa.Function) {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if call, ok := i.(ssa.CallInstruction); ok {
							if cf := call.Common().StaticCallee(); cf != nil && cf.Name() == "NewTrace" && cf.Signature.Recv() != nil && len(call.Common().Args) > 0 {
								src, known = global(call.Common().Args[0]), true
							}
						}
						if mc, ok := i.(*ssa.MakeClosure); ok {
							if cf, ok := mc.Fn.(*ssa.Function); ok && strings.HasPrefix(cf.Name(), "NewTrace") && len(mc.Bindings) == 1 {
								src, known = global(mc.Bindings[0]), true
							}
						}
						if call, ok := i.(*ssa.Call); ok && !known {
							for _, a := range call.Common().Args {
								if af, ok := a.(*ssa.Function); ok && pkgPath(af) == pkgPath(fn) && af != f {
									visit(af)
								}
							}
						}
					}
				}
				for _, a := range f.AnonFuncs {
					visit(a)
				}
			}
			visit(fn)
		}
		if !known && name == "Middleware" {
			// traces that no collector keeps
			for _, f := range append([]*ssa.Function{fn}, fn.AnonFuncs...) {
				for _, b := range f.Blocks {
					for _, i := range b.Instrs {
						if call, ok := i.(ssa.CallInstruction); ok && instrCalls(call, mod+".New") {
							known = true
						}
					}
				}
			}
		}
		switch {
		case !known:
			c.Undec("easy", name, "the collector it uses was not found")
		case src == g:
			c.OK("easy", name)
		default:
			c.Fail("easy", fn.Pos(), "eztrc."+name, "does not use the global collector")
		}
	}
	// New
	if fn := c.P.Func("eztrc", "New"); fn != nil {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			n := 0
			var call *eng.Effect
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if callName(e) == "(*"+mod+".Collector).NewTrace" {
					n++
					call = e
				}
			})
			if n == 0 {
				continue
			}
			ok := n == 1 && call.Args[1].Strip() == ps[0] && call.Args[2].Strip() == ps[1] && len(p.Ret) == 2
			for i, r := range p.Ret {
				ok = ok && isResult(r, call.Result, i)
			}
			c.Check(ok, "easy", fn.Pos(), "eztrc.New call", "does not create one trace with the given context and category, and return it")
		}
	}
	// the server of a collector
	if fn := c.anchor("trcweb", "NewTraceServer"); fn != nil {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			if len(p.Ret) != 1 || p.Panic != nil {
				continue
			}
			n := c.P.Named("trcweb", "TraceServer")
			f := finalFields(p, p.Ret[0].Strip(), n)
			for name, v := range f {
				switch name {
				case "Collector":
					c.Check(v.Strip() == ps[0], "easy", fn.Pos(), "NewTraceServer Collector", "the collector is %s", v)
				case "Searcher", "Streamer":
					ok := v.IsNil() || v.Any(func(x *eng.Term) bool { return x == ps[0] })
					c.Check(ok, "easy", fn.Pos(), "NewTraceServer "+name, "the %s is %s", name, v)
				}
			}
		}
	}
}

// returnedGlobal: the package-level variable that fn always returns.
func returnedGlobal(fn *ssa.Function) *ssa.Global {
	var g *ssa.Global
	for _, b := range fn.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || len(r.Results) == 0 {
			continue
		}
		v := r.Results[0]
		if mi, ok := v.(*ssa.MakeInterface); ok {
			v = mi.X
		}
		u, ok := v.(*ssa.UnOp)
		if !ok {
			return nil
		}
		x, ok := u.X.(*ssa.Global)
		if !ok || g != nil && g != x {
			return nil
		}
		g = x
	}
	return g
}

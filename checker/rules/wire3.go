package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

func strConst(k *ssa.Const) (string, bool) {
	if k.Value == nil || k.Value.Kind() != constant.String {
		return "", false
	}
	return constant.StringVal(k.Value), true
}

// methodCall: a call of the named method, through an interface or directly, on
// a repository type.
func (c *C) methodCall(e *eng.Effect, name string) bool {
	if e.Kind != eng.ECall || e.Callee == nil {
		return false
	}
	if m := e.Callee.Meth; m != nil {
		return m.Name() == name && m.Pkg() != nil && strings.HasPrefix(m.Pkg().Path(), mod)
	}
	f := e.Callee.Fn
	return f != nil && f.Name() == name && f.Signature.Recv() != nil && c.P.InRepo(f)
}

func instrMethod(i ssa.Instruction, names ...string) bool {
	call, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	com := call.Common()
	if com.IsInvoke() {
		return hasString(names, com.Method.Name()) && com.Method.Pkg() != nil && strings.HasPrefix(com.Method.Pkg().Path(), mod)
	}
	f := com.StaticCallee()
	return f != nil && hasString(names, f.Name()) && f.Signature.Recv() != nil && strings.HasPrefix(pkgPath(f), mod)
}

func instrCalls(i ssa.Instruction, names ...string) bool {
	call, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	f := call.Common().StaticCallee()
	return f != nil && hasString(names, f.String())
}

// handlerInline analyses in place what takes part in serving a request: the
// helpers that decode it, reject it, execute it, or choose who executes it.
// Parsers of single values and renderers stay opaque.
func (c *C) handlerInline(op, notop string) func(*ssa.Function) bool {
	memo := map[*ssa.Function]bool{}
	via := func(f *ssa.Function) bool { return c.api(f) && pkgPath(f) == mod+"/trcweb" }
	return func(f *ssa.Function) bool {
		if v, ok := memo[f]; ok {
			return v
		}
		v := func() bool {
			if exportedFn(f) || pkgPath(f) != mod+"/trcweb" {
				return false
			}
			if notop != "" && c.reachesThrough(f, via, func(i ssa.Instruction) bool { return instrMethod(i, notop) }) && f.Parent() == nil {
				if !c.reachesThrough(f, via, func(i ssa.Instruction) bool { return instrMethod(i, op) }) {
					return false
				}
			}
			if f.Parent() != nil {
				return true
			}
			res := f.Signature.Results()
			if res.Len() > 0 && isNamed(derefType(res.At(0).Type()), mod, "SearchRequest") {
				return true
			}
			for i := 0; i < res.Len(); i++ {
				if it, ok := res.At(i).Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 && !isNamedErr(res.At(i).Type()) {
					return true
				}
			}
			return c.reachesThrough(f, via, func(i ssa.Instruction) bool {
				return instrMethod(i, op) || instrCalls(i, "(*"+evsrc+".Encoder).Encode", "(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal", "net/http.Error", "net/http.MaxBytesReader")
			})
		}()
		memo[f] = v
		return v
	}
}

func isNamedErr(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

func badRequest(e *eng.Effect) (code int64, ok bool) {
	switch n := callName(e); {
	case n == "net/http.Error" && len(e.Args) == 3:
		return intOf(e.Args[2])
	case strings.HasSuffix(n, "ResponseWriter).WriteHeader") && len(e.Args) == 2:
		return intOf(e.Args[1])
	}
	return 0, false
}

func intOf(t *eng.Term) (int64, bool) { return t.Strip().IntConst() }

type serverRun struct {
	fn    *ssa.Function
	in    *eng.Interp
	ps    []*eng.Term
	paths []*eng.Path
}

func (c *C) serverPaths(op, notop string) *serverRun {
	fn := c.method("trcweb", "TraceServer", "ServeHTTP")
	if fn == nil {
		return nil
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.handlerInline(op, notop), MaxPaths: 3000})
	ps := in.ParamSyms(fn)
	return &serverRun{fn, in, ps, c.Run(in, fn, nil, ps)}
}

// searchHandler: what the client asked for is what is searched, and what was
// found is what is sent back.
func (c *C) searchHandler() {
	r := c.serverPaths("Search", "Stream")
	if r == nil {
		return
	}
	for _, p := range r.paths {
		c.searchServed(r, p)
	}
}

// leaf is one transmitted value below a struct.
type leaf struct {
	path []*types.Var
	idx  []int
}

func (l leaf) String() string {
	var ns []string
	for _, f := range l.path {
		ns = append(ns, f.Name())
	}
	return strings.Join(ns, ".")
}

func (c *C) leaves(n *types.Named) []leaf {
	var out []leaf
	for i, f := range fieldsOf(n) {
		if !f.Exported() {
			continue
		}
		if fn, ok := f.Type().(*types.Named); ok && c.P.InRepoType(fn) {
			if _, ok := fn.Underlying().(*types.Struct); ok {
				for _, l := range c.leaves(fn) {
					out = append(out, leaf{append([]*types.Var{f}, l.path...), append([]int{i}, l.idx...)})
				}
				continue
			}
		}
		out = append(out, leaf{[]*types.Var{f}, []int{i}})
	}
	return out
}

func (l leaf) addr(in *eng.Interp, base *eng.Term) *eng.Term {
	for i, f := range l.path {
		base = in.T.Field(base, l.idx[i], f)
	}
	return base
}

// of: the part of a struct value.
func (l leaf) of(v *eng.Term) *eng.Term {
	for _, i := range l.idx {
		v = v.Strip()
		if v.Op != eng.OStruct || i >= len(v.Args) {
			return nil
		}
		v = v.Args[i]
	}
	return v
}

// loadedLeaf: v is the leaf of the object at base (a pointer).
func (l leaf) loadedFrom(in *eng.Interp, v, base *eng.Term) bool {
	v = v.Strip()
	return v.Op == eng.OLoad && v.Args[0] == l.addr(in, base)
}

// loadsOther: v is another leaf of the object.
func loadsOther(v, base *eng.Term) bool {
	v = v.Strip()
	return v.Op == eng.OLoad && v.Args[0].Root() == base.Root() && v.Args[0].Op == eng.OField
}

func (c *C) searchServed(r *serverRun, p *eng.Path) {
	in, fn := r.in, r.fn
	name := "search handler"
	reqT, dataT, resT := c.P.Named("", "SearchRequest"), c.P.Named("trcweb", "SearchData"), c.P.Named("", "SearchResponse")
	if p.Panic != nil || p.Exit || reqT == nil || dataT == nil || resT == nil {
		return
	}
	s, req := r.ps[0], r.ps[2]
	var searches, renders, decodes, streams []*eng.Effect
	var at []int
	loop := false
	order := 0
	var status []int64
	var statusAt *eng.Effect
	p.Walk(false, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
		order++
		if e.Kind != eng.ECall {
			return
		}
		if into, from := decoded(e); into != nil && from.Any(func(x *eng.Term) bool {
			return x.Op == eng.OLoad && x.Args[0].Op == eng.OField && x.Args[0].FieldVar().Name() == "Body" && x.Args[0].Root() == req
		}) {
			decodes = append(decodes, e)
			return
		}
		if c.methodCall(e, "Search") && len(e.Args) == 3 {
			searches = append(searches, e)
			at = append(at, order)
			loop = loop || len(loops) > 0
			return
		}
		if code, ok := badRequest(e); ok {
			status = append(status, code)
			statusAt = e
			return
		}
		if fnc := e.Callee.Fn; fnc != nil && pkgPath(fnc) == mod+"/trcweb" && c.reaches(fnc, func(i ssa.Instruction) bool { return instrMethod(i, "Stream") }) {
			streams = append(streams, e)
			return
		}
		for _, a := range e.Args {
			if t := dataArg(a); t != nil && namedOf(derefType(t)) == dataT {
				renders = append(renders, e)
				return
			}
		}
	})
	if len(streams) > 0 && len(searches) == 0 {
		return
	}
	if loop || len(decodes) > 1 {
		c.Undec("server", name, "the request is handled in a loop")
		return
	}
	// a request which cannot be decoded
	jsonFact := func() (val, known bool) {
		p.Facts.Each(func(t *eng.Term, v bool) {
			if isContentTypeJSON(t) {
				val, known = v, true
			}
		})
		return
	}
	if len(decodes) == 1 {
		if v, known := jsonFact(); known && !v {
			c.Fail("server", posOf(decodes[0], fn), name+" mode", "the body is decoded although the request does not carry JSON")
		} else if known {
			c.OK("server", name+" mode JSON")
		}
		if findTerm(p.Facts, isContentType) == nil {
			c.Fail("server", posOf(decodes[0], fn), name+" mode", "the body is decoded whatever content type the request has")
			return
		}
		isnil, known := knownNil(in, p.Facts, errOf(decodes[0]))
		if known && !isnil {
			if len(searches) > 0 {
				c.Fail("server", posOf(searches[0], fn), name+" bad request", "a request which could not be decoded is searched all the same")
				return
			}
			if len(status) == 0 {
				c.Fail("server", posOf(decodes[0], fn), name+" bad request", "a request which could not be decoded is not rejected")
				return
			}
			c.Check(status[0] >= 400 && status[0] < 500, "server", posOf(statusAt, fn), name+" bad request", "a request which could not be decoded gets status %d", status[0])
			c.Check(len(renders) == 0, "server", posOf(statusAt, fn), name+" rejection", "a rejected request is answered a second time")
			return
		}
		if !known {
			c.Fail("server", posOf(decodes[0], fn), name+" bad request", "the error of decoding the request is ignored")
			return
		}
	} else if v, known := jsonFact(); known && v && len(searches) > 0 {
		c.Fail("server", posOf(searches[0], fn), name+" mode", "the body of a JSON request is ignored")
		return
	} else if known {
		c.OK("server", name+" mode URL")
	}
	// a body that could not be read
	if len(searches) == 0 && len(decodes) == 0 && len(status) > 0 && status[0] >= 400 && status[0] < 500 {
		failed := false
		p.Facts.Each(func(t *eng.Term, v bool) {
			x, y := eqSides(t)
			failed = failed || !v && x != nil && (x.IsNil() || y.IsNil()) && t.Any(bodyOf)
		})
		if failed {
			c.OK("server", name+" unreadable")
			return
		}
	}
	// exactly one search
	if len(searches) != 1 {
		c.Fail("server", fn.Pos(), name+" searches once", "%d searches are made for one request (%s)", len(searches), strings.Join(p.FactStrings(), " & "))
		return
	}
	c.OK("server", name+" searches once")
	se := searches[0]
	c.chosen(r, p, se, s, "Searcher", name)
	if !se.Args[1].Any(func(x *eng.Term) bool {
		return x.Op == eng.OCall && strings.HasSuffix(x.CalleeName(), "(*net/http.Request).Context")
	}) {
		c.Fail("server", posOf(se, fn), name+" context", "the search does not run in the context of the request")
	} else {
		c.OK("server", name+" context")
	}
	// what is searched
	ptr := se.Args[2].Strip()
	direct := false
	var into *eng.Term
	if len(decodes) == 1 {
		into, _ = decoded(decodes[0])
		direct = into == ptr
		if dt := namedOf(derefType(into.Typ)); dt != reqT {
			c.Fail("server", posOf(decodes[0], fn), name+" request", "a %s is decoded, but clients send a %s", dt.Obj().Name(), reqT.Obj().Name())
			return
		}
	}
	for _, l := range c.leaves(reqT) {
		a := l.addr(in, ptr)
		var last *eng.Effect
		n := 0
		seenDec := false
		p.Walk(false, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
			n++
			if n >= at[0] {
				return
			}
			if len(decodes) == 1 && e == decodes[0] {
				seenDec = true
				if direct {
					last = nil
				}
			}
			if e.Kind == eng.EStore && e.Addr == a {
				last = e
			}
		})
		_ = seenDec
		con := "request " + l.String()
		if last == nil {
			if direct {
				c.OK("server", con+" JSON")
			} else if ptr.Op == eng.OAlloc || ptr.Op == eng.OField {
				c.Undec("server", con, "no store of the field was seen")
			}
			continue
		}
		v := last.Val
		if len(decodes) == 1 {
			switch {
			case l.loadedFrom(in, v, into):
				c.OK("server", con+" JSON")
			case loadsOther(v, into), v.Strip().IsConst(), v.Strip().Op == eng.OZero:
				c.Fail("server", posOf(last, fn), con, "the field is searched for as %s, not as the client sent it", v)
			default:
				c.Undec("server", con, "searched for as %s", v)
			}
			continue
		}
		want := map[string]string{"Limit": "n", "StackDepth": "stack", "Bucketing": "b"}[l.String()]
		if want != "" {
			ks := queryKeys(v)
			switch {
			case len(ks) == 1 && ks[0] == want:
				c.OK("server", con+" URL")
				switch want {
				case "n":
					c.keptParam("server", fn, con, v, 1, 2, 5, 10, 100, 249, 250)
				case "stack":
					c.keptParam("server", fn, con, v, -1, 0, 1, 2, 10, 1000)
				}
			case len(ks) > 0 && !hasString(ks, want):
				c.Fail("server", posOf(last, fn), con, "the field is read from the parameter %q instead of %q", ks, want)
			case v.Strip().IsConst() || v.Strip().Op == eng.OZero:
				if findTerm(p.Facts, func(t *eng.Term) bool { return hasString(queryKeys(t), want) }) == nil {
					c.Fail("server", posOf(last, fn), con, "the parameter %q is ignored", want)
				}
			default:
				c.Undec("server", con, "searched for as %s", v)
			}
			continue
		}
		if len(l.path) == 2 && isFilterType(l.path[0].Type()) {
			x := v.Strip()
			switch {
			case x.Op == eng.OFieldVal && x.N == l.idx[1] && c.isParserCall(x.Args[0]):
				c.OK("server", con+" URL")
			case x.Op == eng.OFieldVal && c.isParserCall(x.Args[0]):
				c.Fail("server", posOf(last, fn), con, "the field takes the value of another one")
			case x.IsConst() || x.Op == eng.OZero:
				c.Fail("server", posOf(last, fn), con, "the filter of the URL is ignored")
			default:
				c.Undec("server", con, "searched for as %s", v)
			}
		}
	}
	// what is sent back
	if len(renders) != 1 {
		c.Fail("server", fn.Pos(), name+" answers once", "%d answers are rendered for one request (%s)", len(renders), strings.Join(p.FactStrings(), " & "))
		return
	}
	c.OK("server", name+" answers once")
	var data *eng.Term
	for _, a := range renders[0].Args {
		if t := dataArg(a); t != nil && namedOf(derefType(t)) == dataT {
			data = a.Strip()
		}
	}
	resIdx, probIdx := -1, -1
	for i, f := range fieldsOf(dataT) {
		switch f.Name() {
		case "Response":
			resIdx = i
		case "Problems":
			probIdx = i
		}
	}
	if data.Op != eng.OStruct || resIdx < 0 {
		c.Undec("server", name+" response", "the answer is not a struct value")
		return
	}
	err := errOf(se)
	isnil, known := knownNil(in, p.Facts, err)
	if known && !isnil {
		if probIdx >= 0 && probIdx < len(data.Args) {
			c.Check(carries(p, data.Args[probIdx], err, 0), "server", posOf(renders[0], fn), name+" error", "the error of the search is not reported")
		}
		return
	}
	if !known {
		c.Fail("server", posOf(se, fn), name+" error", "the error of the search is ignored")
		return
	}
	res := se.Result
	if res.Op == eng.OTuple {
		res = res.Args[0]
	}
	rn, rk := knownNil(in, p.Facts, res)
	if rk && rn {
		return
	}
	for _, l := range c.leaves(resT) {
		v := l.of(data.Args[resIdx])
		con := "response " + l.String()
		switch {
		case v == nil:
			c.Undec("server", con, "not visible")
		case l.loadedFrom(in, v, res):
			c.OK("server", con)
		case l.String() == "Stats" && v.Strip().Op == eng.OCall && strings.HasSuffix(v.Strip().CalleeName(), "NewSearchStats"):
			sn, sk := knownNil(in, p.Facts, in.T.Load(l.addr(in, res), l.path[0].Type()))
			st := findTerm(p.Facts, func(t *eng.Term) bool { return t.Op == eng.OLoad && t.Args[0] == l.addr(in, res) })
			if st != nil {
				sn, sk = knownNil(in, p.Facts, st)
			}
			c.Check(sk && sn, "server", posOf(renders[0], fn), con, "the stats of the search are replaced")
		case v.Any(func(x *eng.Term) bool { return loadsOther(x, res) }), v.Strip().IsConst(), v.Strip().Op == eng.OZero:
			c.Fail("server", posOf(renders[0], fn), con, "is answered with %s, not with what was found", v)
		default:
			c.Undec("server", con, "is answered with %s", v)
		}
	}
}

func (c *C) isParserCall(t *eng.Term) bool {
	t = t.Strip()
	if t.Op != eng.OCall {
		return false
	}
	cal, _ := t.Obj.(*eng.Callee)
	if cal == nil || cal.Fn == nil {
		return false
	}
	for _, f := range c.filterParsers() {
		if f == cal.Fn {
			return true
		}
	}
	return false
}

func isContentType(g *eng.Term) bool {
	if g.Op == eng.OLookup && len(g.Args) > 1 {
		k, _ := g.Args[1].StrConst()
		return strings.EqualFold(k, "content-type")
	}
	if g.Op != eng.OCall || !strings.HasPrefix(g.CalleeName(), "(net/http.Header).") || len(g.Args) < 2 {
		return false
	}
	k, _ := g.Args[1].StrConst()
	return strings.EqualFold(k, "content-type")
}

func isContentTypeJSON(t *eng.Term) bool {
	if t.Op != eng.OCall || t.CalleeName() != "strings.Contains" && t.CalleeName() != "strings.HasPrefix" {
		return false
	}
	if s, _ := t.Args[1].StrConst(); s != "application/json" {
		return false
	}
	return isContentType(t.Args[0].Strip())
}

// dataArg: the static type of a value passed as an argument.
func dataArg(a *eng.Term) types.Type {
	if a == nil {
		return nil
	}
	if t := a.DynType(); t != nil {
		return t
	}
	return a.Strip().Typ
}

// chosen: the implementation is the one the user provided, or else the
// collector.
func (c *C) chosen(r *serverRun, p *eng.Path, e *eng.Effect, s *eng.Term, field, name string) {
	recv := e.Args[0].Strip()
	con := name + " " + strings.ToLower(field)
	which := ""
	if recv.Op == eng.OLoad && recv.Args[0].Op == eng.OField && recv.Args[0].Args[0] == s && recv.Args[0].FieldVar() != nil {
		which = recv.Args[0].FieldVar().Name()
	}
	var val, known bool
	p.Facts.Each(func(t *eng.Term, v bool) {
		if t.Op == eng.OBin && t.Aux == "==" {
			x, y := eqSides(t)
			for _, a := range []*eng.Term{x, y} {
				if a != nil && a.Strip().Op == eng.OLoad && a.Strip().Args[0].Op == eng.OField && a.Strip().Args[0].Args[0] == s && a.Strip().Args[0].FieldVar().Name() == field {
					val, known = v, true
				}
			}
		}
	})
	switch {
	case which == "":
		c.Undec("server", con, "the receiver is %s", recv)
	case which == field && known && val:
		c.Fail("server", posOf(e, r.fn), con, "calls the %s of the server although it is nil", field)
	case which == field && !known:
		c.Fail("server", posOf(e, r.fn), con, "without a %s, the collector is not used", field)
	case which == "Collector" && !(known && val):
		c.Fail("server", posOf(e, r.fn), con, "the collector is used although a %s was provided", field)
	case which == field || which == "Collector":
		c.OK("server", con+" "+which)
	case !token.IsExported(which):
		c.Undec("server", con, "calls the %s of the server", which)
	default:
		c.Fail("server", posOf(e, r.fn), con, "calls the %s of the server", which)
	}
}

// carries: x is part of the value, also through loops that only append to it.
func carries(p *eng.Path, t, x *eng.Term, depth int) bool {
	if t.Any(func(y *eng.Term) bool { return y == x }) {
		return true
	}
	if depth > 4 {
		return false
	}
	found := false
	p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if e.Kind != eng.ELoop || e.Loop == nil || found {
			return
		}
		for _, lv := range e.Loop.Vars {
			if lv.Start == nil || lv.Init == nil || !t.Any(func(y *eng.Term) bool { return y == lv.Start }) {
				continue
			}
			kept := true
			for _, it := range e.Loop.Iters {
				if nx := it.Next[lv.Start]; nx != nil && nx != lv.Start && !grows(lv.Start, nx) {
					kept = false
				}
			}
			if kept && carries(p, lv.Init, x, depth+1) {
				found = true
			}
		}
	})
	return found
}

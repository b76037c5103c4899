package rules

import (
	"encoding/json"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// C21: the server answers every request, whatever it contains.
func c21(c *C) {
	c.requestBodies()
	c.streamLimits()
	c.searchAnswers()
	c.acceptPredicates()
	c.templateFuncs()
	c.webIndexing()
}

func isHTTPRequest(t types.Type) bool { return isNamed(derefType(t), "net/http", "Request") }

func (c *C) webFns() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.P.Funcs {
		if pkgPath(fn) == mod+"/trcweb" && fn.Parent() == nil && fn.Synthetic == "" && fn.Blocks != nil {
			out = append(out, fn)
		}
	}
	return out
}

// ---- request bodies ----

const maxBody = 1 << 20

// bodyOf: the term is the body of a request.
func bodyOf(t *eng.Term) bool {
	t = t.Strip()
	return t.Op == eng.OLoad && t.Args[0].Op == eng.OField && t.Args[0].FieldVar().Name() == "Body" && t.Args[0].Args[0].Typ != nil && isHTTPRequest(t.Args[0].Args[0].Typ)
}

// requestBodies: the body of a request is only read through a reader that
// stops at the limit.
func (c *C) requestBodies() {
	for _, op := range [][2]string{{"Search", "Stream"}, {"Stream", "Search"}} {
		r := c.serverPaths(op[0], op[1])
		if r == nil {
			return
		}
		name := strings.ToLower(op[0]) + " request body"
		for _, p := range r.paths {
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind != eng.ECall && e.Kind != eng.EGo || e.Callee == nil {
					return
				}
				for i, a := range e.Args {
					if !bodyOf(a) {
						continue
					}
					n := callName(e)
					switch {
					case n == "net/http.MaxBytesReader" && i == 1 && len(e.Args) == 3, n == "io.LimitReader" && len(e.Args) == 2:
						lim := e.Args[len(e.Args)-1]
						if e.Facts != nil && e.Facts.Le(lim, r.in.T.Int(maxBody), 0) {
							c.OK("body", name)
							continue
						}
						if k, ok := lim.Strip().IntConst(); ok {
							c.Fail("body", e.Pos, name, "%d bytes of a request body are accepted, more than the limit of %d", k, maxBody)
						} else {
							c.Undec("body", name, "the limit is not a constant")
						}
					case strings.HasSuffix(n, ").Close"):
					case e.Callee.Fn != nil && c.P.InRepo(e.Callee.Fn):
						c.Undec("body", name, "the body is passed to %s", short(n))
					default:
						c.Fail("body", e.Pos, name, "%s reads the body of a request without a limit on its size", short(n))
					}
				}
			})
		}
	}
}

// ---- stream parameters ----

// numeric: helpers that compute a number or a duration.
func (c *C) numeric(f *ssa.Function) bool {
	if exportedFn(f) || pkgPath(f) != mod+"/trcweb" || f.Signature.Results().Len() == 0 {
		return false
	}
	b, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func rawParsed(t *eng.Term) bool {
	return t.Any(func(x *eng.Term) bool {
		n := x.CalleeName()
		return n == "time.ParseDuration" || n == "strconv.Atoi" || n == "strconv.ParseInt"
	})
}

// streamLimits: what a stream request asks for is limited before it is used.
func (c *C) streamLimits() {
	fn := c.method("trcweb", "TraceServer", "ServeHTTP")
	if fn == nil {
		return
	}
	hi := c.handlerInline("Stream", "Search")
	in := eng.NewInterp(c.P, eng.Config{Inline: func(f *ssa.Function) bool { return hi(f) || c.numeric(f) }, MaxPaths: 6000})
	within := func(p *eng.Path, e *eng.Effect, con string, v *eng.Term, lo, hi int64) {
		if e.Facts == nil {
			return
		}
		okLo, okHi := e.Facts.Le(in.T.Int(lo), v, 0), e.Facts.Le(v, in.T.Int(hi), 0)
		if okLo && okHi {
			c.OK("limits", con)
			return
		}
		if k, ok := v.Strip().IntConst(); ok {
			c.Fail("limits", e.Pos, con, "the value %d is outside of the limits %d to %d", k, lo, hi)
			return
		}
		if rawParsed(v) {
			what := "below the minimum"
			if okLo {
				what = "above the maximum"
			}
			c.Fail("limits", e.Pos, con, "a value %s can be used as the request gives it (limits %d to %d)", what, lo, hi)
			return
		}
		c.Undec("limits", con, "cannot bound %s", v)
	}
	for _, p := range c.Run(in, fn, nil, nil) {
		p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			switch {
			case callName(e) == "time.NewTicker" || callName(e) == "time.Tick":
				within(p, e, "statistics interval", e.Args[0], 1e9, 60e9)
			case e.Kind == eng.EMake && e.Val != nil && chanOfTraces(c, e):
				within(p, e, "send buffer", e.Val, 0, 100000)
			}
		})
	}
	c.Floor("limits", 2)
}

func chanOfTraces(c *C, e *eng.Effect) bool {
	mc, ok := e.Site.(*ssa.MakeChan)
	if !ok {
		return false
	}
	ch, ok := mc.Type().Underlying().(*types.Chan)
	return ok && c.traceType() != nil && types.Identical(ch.Elem(), c.traceType())
}

// ---- answers to search requests ----

// takesWriter: the function has a response writer to answer with.
func takesWriter(f *ssa.Function) bool {
	return hasParam(f, isResponseWriter) || f.Parent() != nil && takesWriter(f.Parent())
}

// rendered: the call renders a page or encodes a value into memory.
func (c *C) rendered(e *eng.Effect) (kind string) {
	n := callName(e)
	switch n {
	case "(*encoding/json.Encoder).Encode", "encoding/json.Marshal", "encoding/json.MarshalIndent":
		return "json"
	case "(*html/template.Template).Execute", "(*html/template.Template).ExecuteTemplate":
		return "html"
	}
	if e.Kind == eng.ECall && e.Callee != nil && e.Callee.Fn != nil && pkgPath(e.Callee.Fn) == mod+"/trcweb" {
		f := e.Callee.Fn
		res := f.Signature.Results()
		if res.Len() == 0 || !isNamedErr(res.At(res.Len()-1).Type()) || takesWriter(f) {
			return ""
		}
		if c.reaches(f, isExecute) {
			return "html"
		}
		if c.reaches(f, func(i ssa.Instruction) bool {
			return instrCalls(i, "(*encoding/json.Encoder).Encode", "encoding/json.Marshal", "encoding/json.MarshalIndent")
		}) {
			return "json"
		}
	}
	return ""
}

func isExecute(i ssa.Instruction) bool {
	return instrCalls(i, "(*html/template.Template).Execute", "(*html/template.Template).ExecuteTemplate", "(*text/template.Template).Execute", "(*text/template.Template).ExecuteTemplate")
}

type answer struct {
	status   []*eng.Effect
	codes    []*eng.Term
	writes   []*eng.Effect
	bodies   []*eng.Term // what is written
	ctypes   []*eng.Effect
	renders  []*eng.Effect
	kinds    []string
	order    map[*eng.Effect]int
	direct   *eng.Effect // rendering straight to the connection
	loops    bool
	searched bool
	streamed bool
}

func (c *C) answerOf(p *eng.Path, w *eng.Term) *answer {
	a := &answer{order: map[*eng.Effect]int{}}
	isW := func(t *eng.Term) bool { return t.Strip() == w.Strip() }
	n := 0
	p.Walk(false, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
		n++
		a.order[e] = n
		if e.Kind != eng.ECall || e.Callee == nil {
			return
		}
		name := callName(e)
		switch {
		case strings.HasSuffix(name, "ResponseWriter).WriteHeader") && len(e.Args) == 2 && isW(e.Args[0]):
			a.status = append(a.status, e)
			a.codes = append(a.codes, e.Args[1])
		case name == "net/http.Error" && isW(e.Args[0]):
			a.status = append(a.status, e)
			a.codes = append(a.codes, e.Args[2])
		case strings.HasSuffix(name, "ResponseWriter).Write") && isW(e.Args[0]):
			a.writes = append(a.writes, e)
			a.bodies = append(a.bodies, e.Args[1])
		case (name == "(net/http.Header).Set" || name == "(net/http.Header).Add") && len(e.Args) == 3:
			if k, ok := e.Args[1].StrConst(); ok && strings.EqualFold(k, "content-type") && e.Args[0].Any(isW) {
				a.ctypes = append(a.ctypes, e)
			}
		default:
			if k := c.rendered(e); k != "" {
				a.renders = append(a.renders, e)
				a.kinds = append(a.kinds, k)
				for _, x := range e.Args {
					if x.Any(isW) {
						a.direct = e
					}
				}
				return
			}
			if c.methodCall(e, "Search") {
				a.searched = true
			}
			if f := e.Callee.Fn; f != nil && c.P.InRepo(f) && c.reaches(f, func(i ssa.Instruction) bool { return instrMethod(i, "Stream") }) {
				a.streamed = true
				return
			}
			for i, x := range e.Args {
				if !isW(x) || name == "net/http.MaxBytesReader" || strings.HasSuffix(name, ").Header") {
					continue
				}
				a.writes = append(a.writes, e)
				if i > 0 {
					a.bodies = append(a.bodies, e.Args[0])
				} else if len(e.Args) > 1 {
					a.bodies = append(a.bodies, e.Args[1])
				} else {
					a.bodies = append(a.bodies, nil)
				}
				break
			}
		}
		if len(loops) > 0 && (a.order[e] == n) {
			for _, s := range a.status {
				a.loops = a.loops || s == e
			}
			for _, s := range a.writes {
				a.loops = a.loops || s == e
			}
		}
	})
	return a
}

// acceptsFact: what the path knows about the request explicitly accepting a
// media type.
func acceptsFact(f *eng.Facts, media string) (val, known, asked bool) {
	f.Each(func(t *eng.Term, v bool) {
		if t.Op == eng.OCall && t.Any(func(x *eng.Term) bool { s, ok := x.StrConst(); return ok && s == media }) {
			val, known, asked = v, true, true
		}
	})
	if !asked {
		f.EachTerm(func(t *eng.Term) {
			if t.Any(func(x *eng.Term) bool { s, ok := x.StrConst(); return ok && strings.Contains(s, media) }) {
				asked = true
			}
		})
	}
	return
}

// asksFact: what the path knows about a parameter being present.
func asksFact(f *eng.Facts, key string) (val, known bool) {
	f.Each(func(t *eng.Term, v bool) {
		if k, how := queryKey(t); k == key && how == "Has" {
			val, known = v, true
		}
	})
	return
}

func (c *C) searchAnswers() {
	fn := c.method("trcweb", "TraceServer", "ServeHTTP")
	if fn == nil {
		return
	}
	hi := c.handlerInline("Search", "Stream")
	streams := func(f *ssa.Function) bool {
		return c.reaches(f, func(i ssa.Instruction) bool { return instrMethod(i, "Stream") })
	}
	searches := func(f *ssa.Function) bool {
		return c.reaches(f, func(i ssa.Instruction) bool { return instrMethod(i, "Search") })
	}
	in := eng.NewInterp(c.P, eng.Config{TrackDeref: true, MaxPaths: 20000, Inline: func(f *ssa.Function) bool {
		return hi(f) || c.api(f) && pkgPath(f) == mod+"/trcweb" && takesWriter(f) && (!streams(f) || searches(f))
	}})
	ps := in.ParamSyms(fn)
	w := ps[1]
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Exit {
			continue
		}
		c.searchDerefs(in, p)
		if p.Panic != nil {
			pos := fn.Pos()
			p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind == eng.EPanic {
					pos = e.Pos
				}
			})
			c.Fail("answer", pos, "search handler", "serving a request can panic")
			continue
		}
		a := c.answerOf(p, w)
		ev, eknown, _ := acceptsFact(p.Facts, "text/event-stream")
		categorized := false
		p.Facts.EachTerm(func(t *eng.Term) {
			if t.Any(func(x *eng.Term) bool { return strings.HasSuffix(x.CalleeName(), "/trcweb.Categorize") }) {
				categorized = true
			}
		})
		if a.streamed {
			if eknown {
				c.Check(ev, "negotiation", fn.Pos(), "stream", "a request is streamed that does not accept an event stream")
			} else if !categorized {
				c.Undec("negotiation", "stream", "cannot see what the choice of streaming depends on")
			}
			continue
		}
		if eknown && ev {
			c.Fail("negotiation", fn.Pos(), "stream", "a request that accepts an event stream is not streamed")
			continue
		}
		c.answered(in, fn, p, a)
	}
	c.categorize()
	c.Floor("answer", 3)
	c.Floor("negotiation", 3)
}

// searchDerefs: results of a searcher can be missing.
func (c *C) searchDerefs(in *eng.Interp, p *eng.Path) {
	p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if e.Kind != eng.EDeref || e.NonNil {
			return
		}
		x := e.Addr.Strip()
		t := x
		if t.Op == eng.OExtract {
			t = t.Args[0]
		}
		switch {
		case t.Op == eng.OCall && c.methodCall(&eng.Effect{Kind: eng.ECall, Callee: t.Obj.(*eng.Callee), Args: t.Args}, "Search"):
			c.Fail("nil", e.Pos, "search result", "the result of a search is used although it can be nil")
		case x.Op == eng.OLoad && x.Args[0].Op == eng.OField && isNamed(derefType(x.Typ), mod, "SearchStats"):
			c.Fail("nil", e.Pos, "search statistics", "the statistics of a search are used although they can be nil")
		}
	})
	c.OK("nil", "search handler")
}

func (c *C) answered(in *eng.Interp, fn *ssa.Function, p *eng.Path, a *answer) {
	name := "search handler"
	if a.loops {
		c.Undec("answer", name, "the response is written in a loop")
		return
	}
	if len(a.status)+len(a.writes) == 0 {
		c.Fail("answer", fn.Pos(), name, "a request is not answered at all")
		return
	}
	if len(a.status) > 1 {
		c.Fail("answer", a.status[1].Pos, name+" status", "a response gets a second status")
		return
	}
	if !a.searched {
		// rejected: http.Error, or a status of its own
		if len(a.renders) == 0 && len(a.status) == 1 {
			if k, ok := intOf(a.codes[0]); ok {
				c.Check(k >= 400, "answer", a.status[0].Pos, name+" rejection", "a rejected request gets status %d", k)
			}
			return
		}
	}
	if a.direct != nil {
		c.Fail("answer", a.direct.Pos, name+" complete", "the response is rendered straight to the connection: if that fails, the client gets status 200 and part of a response")
		return
	}
	// order
	for _, e := range a.writes {
		for _, s := range a.status {
			if callName(s) == "net/http.Error" {
				c.Fail("answer", e.Pos, name+" status", "something is written besides the error response")
				return
			}
			if a.order[e] < a.order[s] {
				c.Fail("answer", e.Pos, name+" status", "the status is set after the response was started, and thus has no effect")
				return
			}
		}
		for _, s := range a.ctypes {
			if a.order[e] < a.order[s] {
				c.Fail("answer", s.Pos, name+" content type", "the content type is set after the response was started, and thus has no effect")
				return
			}
		}
	}
	for _, s := range a.ctypes {
		for _, t := range a.status {
			if a.order[t] < a.order[s] {
				c.Fail("answer", s.Pos, name+" content type", "the content type is set after the status was sent, and thus has no effect")
				return
			}
		}
	}
	if len(a.renders) == 0 {
		c.Undec("answer", name, "cannot see how the response is rendered")
		return
	}
	// the format, by what was rendered
	kind := a.kinds[len(a.kinds)-1]
	rend := a.renders[len(a.renders)-1]
	if len(a.ctypes) > 0 {
		last := a.ctypes[len(a.ctypes)-1]
		if ct, ok := last.Args[2].StrConst(); ok {
			want := map[string]string{"json": "application/json", "html": "text/html"}[kind]
			c.Check(strings.HasPrefix(ct, want), "answer", last.Pos, name+" "+kind+" content type", "a response that is %s is sent with the content type %q", strings.ToUpper(kind), ct)
		} else {
			c.Undec("answer", name+" "+kind+" content type", "the content type is not a constant")
		}
	} else {
		c.Fail("answer", posOf(rend, fn), name+" "+kind+" content type", "the response has no content type")
	}
	c.negotiated(fn, p, rend, kind)
	// the status
	code := int64(200)
	at := rend
	if len(a.status) == 1 {
		k, ok := intOf(a.codes[0])
		if !ok {
			c.Undec("answer", name+" "+kind+" status", "the status is not a constant")
			return
		}
		code, at = k, a.status[0]
	}
	isnil, known := knownNil(in, p.Facts, errOf(rend))
	switch {
	case !known:
		c.Fail("answer", rend.Pos, name+" "+kind+" status", "the error of rendering the response is ignored")
	case isnil:
		c.Check(code == 200, "answer", at.Pos, name+" "+kind+" status", "a response that was rendered gets status %d", code)
		c.sends(in, p, a, rend, name+" "+kind+" body")
	default:
		c.Check(code >= 500, "answer", at.Pos, name+" "+kind+" failure", "a response that could not be rendered gets status %d", code)
		if len(a.writes) == 0 && len(a.status) == 1 && callName(a.status[0]) != "net/http.Error" {
			c.Fail("answer", at.Pos, name+" "+kind+" failure", "a response that could not be rendered is empty instead of an error")
		}
		if kind == "json" {
			c.errorBody(p, a, name)
		}
	}
}

// errorBody: the body that replaces a failed response is JSON.
func (c *C) errorBody(p *eng.Path, a *answer, name string) {
	check := func(e *eng.Effect, t *eng.Term) {
		for t != nil && t.Strip().Op == eng.OConv {
			t = t.Strip().Args[0]
		}
		if t == nil {
			return
		}
		if s, ok := t.StrConst(); ok {
			c.Check(json.Valid([]byte(s)), "answer", e.Pos, name+" json failure body", "the body of the failure is not JSON: %q", s)
		}
	}
	p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if n := callName(e); n == "(*bytes.Buffer).WriteString" || n == "(*bytes.Buffer).Write" {
			check(e, e.Args[1])
		}
	})
	for i, e := range a.writes {
		check(e, a.bodies[i])
	}
}

// sends: what is written is what was rendered.
func (c *C) sends(in *eng.Interp, p *eng.Path, a *answer, rend *eng.Effect, con string) {
	var from []*eng.Term
	if rend.Result != nil && rend.Result.Op == eng.OTuple {
		from = append(from, rend.Result.Args[0].Strip())
	}
	for _, x := range rend.Args {
		x.Any(func(y *eng.Term) bool {
			if y.Op == eng.OAlloc {
				from = append(from, y)
			}
			return false
		})
	}
	if len(a.writes) == 0 {
		c.Fail("answer", rend.Pos, con, "what was rendered is not sent")
		return
	}
	for i, e := range a.writes {
		b := a.bodies[i]
		if b == nil {
			continue
		}
		for _, f := range from {
			if b.Any(func(y *eng.Term) bool { return y == f }) {
				c.OK("answer", con)
				if len(a.writes) > 1 {
					c.Undec("answer", con, "the response is sent in several parts")
				}
				return
			}
		}
		_ = e
	}
	if len(from) > 0 {
		c.Fail("answer", a.writes[0].Pos, con, "what is sent is not what was rendered")
	}
}

// negotiated: HTML for who accepts it explicitly and does not ask for JSON.
func (c *C) negotiated(fn *ssa.Function, p *eng.Path, rend *eng.Effect, kind string) {
	html, hknown, asked := acceptsFact(p.Facts, "text/html")
	js, jknown := asksFact(p.Facts, "json")
	if !asked {
		// whatever the request accepts
		if seen := c.webMentions("text/html"); seen {
			if jknown && js && kind == "json" {
				c.OK("negotiation", "json asked for")
				return
			}
			c.Undec("negotiation", kind, "cannot see what the choice of the format depends on")
		} else {
			c.Fail("negotiation", rend.Pos, kind, "the format does not depend on whether the request accepts text/html")
		}
		return
	}
	switch kind {
	case "html":
		c.Check(hknown && html, "negotiation", rend.Pos, "html accepted", "a request gets HTML that does not accept it explicitly")
		c.Check(jknown && !js, "negotiation", rend.Pos, "html not json", "a request gets HTML that asks for JSON in its URL")
	case "json":
		c.Check(hknown && !html || jknown && js, "negotiation", rend.Pos, "json", "a request gets JSON that accepts HTML explicitly, and does not ask for JSON")
	}
}

func (c *C) webMentions(s string) bool {
	for _, fn := range c.P.Funcs {
		if pkgPath(fn) != mod+"/trcweb" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				var ops [12]*ssa.Value
				for _, op := range i.Operands(ops[:0]) {
					if k, ok := constString(*op); ok && strings.Contains(k, s) {
						return true
					}
				}
			}
		}
	}
	return false
}

// categorize: the exported classifier, which the handler must agree with.
func (c *C) categorize() {
	fn := c.anchor("trcweb", "Categorize")
	if fn == nil {
		return
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: func(f *ssa.Function) bool { return false }})
	kinds := map[string]bool{}
	for _, p := range c.Run(in, fn, nil, nil) {
		if len(p.Ret) != 1 {
			continue
		}
		s, ok := p.Ret[0].StrConst()
		v, known, _ := acceptsFact(p.Facts, "text/event-stream")
		if !ok || !known {
			c.Undec("negotiation", "Categorize", "cannot see what the category depends on")
			continue
		}
		kinds[s] = true
		c.Check(v == (s == "stream"), "negotiation", fn.Pos(), "Categorize "+s, "requests that accept an event stream: %v, are categorized as %q", v, s)
	}
	// the handler compares with the same name
	sv := c.method("trcweb", "TraceServer", "ServeHTTP")
	if sv == nil || len(kinds) == 0 {
		return
	}
	hi := c.handlerInline("Search", "")
	in = eng.NewInterp(c.P, eng.Config{Inline: func(f *ssa.Function) bool {
		return f.Parent() != nil || hi(f) && !c.reaches(f, func(i ssa.Instruction) bool { return instrMethod(i, "Stream", "Search") })
	}})
	for _, p := range c.Run(in, sv, nil, nil) {
		var which string
		p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			if e.Kind == eng.ECall && e.Callee != nil && e.Callee.Fn != nil && c.P.InRepo(e.Callee.Fn) {
				for _, m := range []string{"Stream", "Search"} {
					if c.reaches(e.Callee.Fn, func(i ssa.Instruction) bool { return instrMethod(i, m) }) {
						which = m
					}
				}
			}
		})
		if which == "" {
			continue
		}
		p.Facts.Each(func(t *eng.Term, v bool) {
			x, y := eqSides(t)
			if x == nil {
				return
			}
			for _, xy := range [][2]*eng.Term{{x, y}, {y, x}} {
				if !strings.HasSuffix(xy[0].Strip().CalleeName(), "/trcweb.Categorize") {
					continue
				}
				if s, ok := xy[1].StrConst(); ok {
					c.Check(kinds[s], "negotiation", sv.Pos(), "category "+s, "requests are told apart by the category %q, which they never have", s)
					if v {
						c.Check((which == "Stream") == (s == "stream"), "negotiation", sv.Pos(), "dispatch "+s, "requests of category %q are handled as %s", s, which)
					}
				}
			}
		})
	}
}

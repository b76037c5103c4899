package rules

import (
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// serverKeys: the names of the query parameters trcweb reads; all is false if
// some are not constant.
func (c *C) serverKeys() (keys map[string]bool, all bool) {
	keys, all = map[string]bool{}, true
	for _, fn := range c.P.Funcs {
		if pkgPath(fn) != mod+"/trcweb" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				var k ssa.Value
				switch x := i.(type) {
				case *ssa.Lookup:
					if isValues(x.X.Type()) {
						k = x.Index
					}
				case ssa.CallInstruction:
					f := x.Common().StaticCallee()
					if f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "net/url" && f.Signature.Recv() != nil && isValues(f.Signature.Recv().Type()) && (f.Name() == "Get" || f.Name() == "Has") {
						k = x.Common().Args[1]
					}
				}
				if k == nil {
					continue
				}
				if s, ok := constString(k); ok {
					keys[s] = true
				} else if par, ok := k.(*ssa.Parameter); ok {
					// a helper: its callers supply the names
					for _, g := range c.P.Funcs {
						for _, b := range g.Blocks {
							for _, i := range b.Instrs {
								call, ok := i.(ssa.CallInstruction)
								if !ok || call.Common().StaticCallee() != fn {
									continue
								}
								for n, q := range fn.Params {
									if q == par && n < len(call.Common().Args) {
										if s, ok := constString(call.Common().Args[n]); ok {
											keys[s] = true
										} else {
											all = false
										}
									}
								}
							}
						}
					}
				} else {
					all = false
				}
			}
		}
	}
	return keys, all
}

func constString(v ssa.Value) (string, bool) {
	k, ok := v.(*ssa.Const)
	if !ok || k.Value == nil {
		return "", false
	}
	return strConst(k)
}

var (
	reAction  = regexp.MustCompile(`(?s)\{\{.*?\}\}`)
	reControl = regexp.MustCompile(`(?is)<(input|select|textarea)\b[^>]*?\bname="([A-Za-z_]+)"[^>]*>`)
	reHref    = regexp.MustCompile(`(?is)\b(?:href|action)="\?([^"]*)"`)
	rePrintf  = regexp.MustCompile(`printf\s+"([^"]*)"`)
	reParam   = regexp.MustCompile(`(?:^|[?&])([A-Za-z_]+)=%`)
	reEmpty   = regexp.MustCompile(`(?i)\bvalue=""`)
)

type pageKey struct {
	key, file string
	line      int
	empty     bool // a form control that submits an empty value for "no restriction"
	multi     bool
}

func (c *C) pages() []string {
	var out []string
	filepath.Walk(filepath.Join(c.P.Dir, "trcweb"), func(path string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(path, ".html") && !strings.Contains(path, "testdata") {
			out = append(out, path)
		}
		return nil
	})
	return out
}

func (c *C) pageKeys() []pageKey {
	var out []pageKey
	for _, path := range c.pages() {
		b, err := os.ReadFile(path)
		if err != nil {
			continue
		}
		text := string(b)
		rel, _ := filepath.Rel(c.P.Dir, path)
		line := func(off int) int { return 1 + strings.Count(text[:off], "\n") }
		for _, m := range reControl.FindAllStringSubmatchIndex(text, -1) {
			tag, kind, key := text[m[0]:m[1]], strings.ToLower(text[m[2]:m[3]]), text[m[4]:m[5]]
			k := pageKey{key: key, file: rel, line: line(m[0])}
			if kind == "select" {
				if end := strings.Index(text[m[1]:], "</select>"); end >= 0 {
					k.empty = reEmpty.MatchString(text[m[1] : m[1]+end])
				}
			} else {
				k.empty = reEmpty.MatchString(tag)
			}
			out = append(out, k)
		}
		for _, m := range reHref.FindAllStringSubmatchIndex(text, -1) {
			q := reAction.ReplaceAllString(text[m[2]:m[3]], "")
			for _, part := range strings.Split(q, "&") {
				name, _, _ := strings.Cut(part, "=")
				name, _, _ = strings.Cut(name, "#")
				if name != "" && !strings.ContainsAny(name, "; ") {
					out = append(out, pageKey{key: name, file: rel, line: line(m[0])})
				}
			}
		}
		for _, m := range rePrintf.FindAllStringSubmatchIndex(text, -1) {
			for _, s := range reParam.FindAllStringSubmatch(text[m[2]:m[3]], -1) {
				out = append(out, pageKey{key: s[1], file: rel, line: line(m[0])})
			}
		}
	}
	return out
}

// pageParams: the links and forms of the page use parameters the server reads.
func (c *C) pageParams() {
	keys, all := c.serverKeys()
	for _, k := range c.pageKeys() {
		con := k.file + " " + k.key
		switch {
		case keys[k.key]:
			c.OK("page", con)
		case !all:
			c.Undec("page", con, "the server also reads parameters whose names are not constant")
		default:
			c.Fail("page", token.NoPos, con, "line %d: the page sends the parameter %q, which the server never reads", k.line, k.key)
		}
	}
	// an empty value in a form means no restriction
	for _, fn := range c.filterParsers() {
		in := eng.NewInterp(c.P, eng.Config{Inline: func(f *ssa.Function) bool { return false }})
		for _, p := range c.Run(in, fn, nil, nil) {
			if len(p.Ret) == 0 || p.Ret[0].Strip().Op != eng.OStruct {
				continue
			}
			fT := c.P.Named("", "Filter")
			for i, f := range fieldsOf(fT) {
				if fieldClass(f.Type()) != "strings" || i >= len(p.Ret[0].Strip().Args) {
					continue
				}
				v := p.Ret[0].Strip().Args[i].Strip()
				for _, k := range c.pageKeys() {
					if !k.empty || !hasString(queryKeys(v), k.key) {
						continue
					}
					con := "empty " + k.key
					if _, how := queryKey(v); how == "All" {
						c.Fail("page", fn.Pos(), con, "%s:%d: the form submits an empty %q to mean no restriction, but the server then only allows the empty %s", k.file, k.line, k.key, f.Name())
						continue
					}
					if v.Op == eng.OCall {
						if cal, _ := v.Obj.(*eng.Callee); cal != nil && cal.Fn != nil && c.P.InRepo(cal.Fn) {
							yes, known := c.dropsEmpty(cal.Fn)
							if known {
								c.Check(yes, "page", fn.Pos(), con, "%s:%d: the form submits an empty %q to mean no restriction, but the server can keep it", k.file, k.line, k.key)
								continue
							}
						}
					}
					c.Undec("page", con, "cannot tell what happens to an empty value")
				}
			}
		}
	}
}

// dropsEmpty: every element the function appends to its result is non-empty.
func (c *C) dropsEmpty(fn *ssa.Function) (yes, known bool) {
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ok, seen, bad := true, false, false
	for _, p := range c.Run(in, fn, nil, nil) {
		p.Walk(false, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
			if e.Kind != eng.EAppend || len(loops) == 0 || e.Facts == nil {
				return
			}
			seen = true
			good := false
			e.Facts.EachTerm(func(t *eng.Term) {
				t.Any(func(x *eng.Term) bool {
					if x.Op == eng.OLoad && x.Args[0].Op == eng.OIndex {
						if e.Facts.EqInt(in.T.Len(x), in.T.Int(0), 0) {
							bad = true
						}
						if e.Facts.Le(in.T.Int(1), in.T.Len(x), 0) {
							good = true
						}
						if v, known := e.Facts.Eval(in.T.Cmp(token.EQL, in.T.Len(x), in.T.Int(0))); known && !v {
							good = true
						}
					}
					return false
				})
			})
			ok = ok && good
		})
	}
	if bad {
		return false, true
	}
	return true, ok && seen
}

// ---- search over HTTP: the client ----

func isDo(e *eng.Effect) bool {
	n := callName(e)
	return strings.HasSuffix(n, "HTTPClient).Do") || n == "(*net/http.Client).Do"
}

// decoded: the effect decodes JSON into the returned object.
func decoded(e *eng.Effect) (into *eng.Term, from *eng.Term) {
	switch n := callName(e); {
	case n == "(*encoding/json.Decoder).Decode" && len(e.Args) == 2:
		return e.Args[1].Strip(), e.Args[0]
	case n == "encoding/json.Unmarshal" && len(e.Args) == 2:
		return e.Args[1].Strip(), e.Args[0]
	}
	return nil, nil
}

func errOf(e *eng.Effect) *eng.Term {
	r := e.Result
	if r == nil {
		return nil
	}
	if r.Op == eng.OTuple {
		return r.Args[len(r.Args)-1]
	}
	return r
}

func knownNil(in *eng.Interp, f *eng.Facts, t *eng.Term) (isnil, known bool) {
	if t == nil {
		return false, false
	}
	if t.Strip().IsNil() {
		return true, true
	}
	return f.Eval(in.T.Cmp(token.EQL, t, in.T.Nil()))
}

func (c *C) searchClient() {
	fn := c.method("trcweb", "SearchClient", "Search")
	if fn == nil {
		return
	}
	name := "SearchClient.Search"
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	req := ps[2]
	dataT := c.P.Named("trcweb", "SearchData")
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || p.Exit || len(p.Ret) != 2 {
			continue
		}
		var do *eng.Effect
		ctype, accept := "", ""
		dos := 0
		looped := false
		p.Walk(false, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
			if isDo(e) {
				do = e
				dos++
				looped = looped || len(loops) > 0
			}
			if n := callName(e); do == nil && (n == "(net/http.Header).Set" || n == "(net/http.Header).Add") && len(e.Args) == 3 {
				k, kok := e.Args[1].StrConst()
				v, ok := e.Args[2].StrConst()
				if !ok {
					v = "?"
				}
				if !kok {
					ctype, accept = "?", "?"
				}
				switch strings.ToLower(k) {
				case "content-type":
					ctype = v
				case "accept":
					accept = v
				}
			}
		})
		if looped {
			c.Undec("client", name, "the request is sent in a loop")
			return
		}
		if do != nil {
			c.Check(dos == 1, "client", posOf(do, fn), name+" sends once", "the search is sent %d times", dos)
			if ctype != "?" {
				c.Check(strings.Contains(ctype, "application/json"), "client", posOf(do, fn), name+" content type", "the request is not marked as JSON (content-type %q): the server ignores its body", ctype)
			}
			if accept != "?" {
				c.Check(!strings.Contains(accept, "text/html") && !strings.Contains(accept, "event-stream"), "client", posOf(do, fn), name+" accept", "the client accepts %q, and does not get JSON", accept)
			}
			c.clientBody(in, fn, p, name, req)
		}
		rv, re := p.Ret[0].Strip(), p.Ret[1]
		isnil, known := knownNil(in, p.Facts, re)
		if known && !isnil || !known && nonNilErr(p.Facts, re.Strip()) {
			c.OK("client", name+" error")
			continue
		}
		if !known {
			c.Undec("client", name, "cannot tell whether %s is an error", re)
			continue
		}
		// success
		if rn, k := knownNil(in, p.Facts, rv); k && rn {
			c.Fail("client", fn.Pos(), name, "neither a response nor an error is returned (%s)", strings.Join(p.FactStrings(), " & "))
			continue
		}
		if do == nil {
			c.Fail("client", fn.Pos(), name, "a response is returned although the server was not asked")
			continue
		}
		if n, k := knownNil(in, p.Facts, errOf(do)); k && !n {
			c.Fail("client", posOf(do, fn), name, "a response is returned although the request failed")
			continue
		} else if !k {
			c.Fail("client", posOf(do, fn), name, "the error of the request is not checked")
			continue
		}
		c.clientStatus(in, fn, p, do, name)
		// the response comes from what was decoded
		var dec *eng.Effect
		var into *eng.Term
		p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			if t, _ := decoded(e); t != nil {
				dec, into = e, t
			}
		})
		if dec == nil {
			c.Undec("client", name, "the response is not decoded here")
			continue
		}
		if n, k := knownNil(in, p.Facts, errOf(dec)); !k || !n {
			c.Fail("client", posOf(dec, fn), name, "a response which could not be decoded is returned as if it were complete")
			continue
		}
		if dt := namedOf(derefType(into.Typ)); dt != nil && dataT != nil && dt != dataT {
			if resp := c.P.Named("", "SearchResponse"); dt == resp {
				c.Fail("client", posOf(dec, fn), name, "decodes a %s, but the server sends a %s", dt.Obj().Name(), dataT.Obj().Name())
				continue
			}
			c.Undec("client", name, "decodes a %s", dt.Obj().Name())
			continue
		}
		switch {
		case rv.Op == eng.OField && rv.Args[0] == into && rv.FieldVar() != nil && rv.FieldVar().Name() == "Response":
			c.OK("client", name+" response")
		case rv.Op == eng.OAlloc && c.pointee(p, rv) != nil && mentions(c.pointee(p, rv), into):
			c.OK("client", name+" response")
		case rv.Any(func(x *eng.Term) bool { return x == into }):
			c.OK("client", name+" response")
		case rv.Op == eng.OAlloc && c.copyOf(p, rv, into):
			c.OK("client", name+" response")
		default:
			c.Fail("client", fn.Pos(), name, "the returned response (%s) is not the decoded one", rv)
		}
		// nothing changes it afterwards
		after := false
		p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			if e == dec {
				after = true
				return
			}
			if after && e.Kind == eng.EStore && e.Addr != nil && e.Addr.Root() == into && !sameValue(e) {
				c.Fail("client", posOf(e, fn), name, "the decoded response is modified: %s", e)
			}
		})
	}
}

func sameValue(e *eng.Effect) bool {
	v := e.Val
	return v != nil && v.Op == eng.OLoad && v.Args[0] == e.Addr
}

func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// copyOf: obj's fields are all stored from the object src.
func (c *C) copyOf(p *eng.Path, obj, src *eng.Term) bool {
	n := 0
	ok := true
	p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if e.Kind == eng.EStore && e.Addr != nil && e.Addr != obj && e.Addr.Root() == obj {
			n++
			if !e.Val.Any(func(x *eng.Term) bool { return x == src }) {
				ok = false
			}
		}
	})
	return ok && n > 0
}

func (c *C) clientBody(in *eng.Interp, fn *ssa.Function, p *eng.Path, name string, req *eng.Term) {
	reqT := c.P.Named("", "SearchRequest")
	var mk, enc *eng.Effect
	p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		switch callName(e) {
		case "net/http.NewRequestWithContext", "net/http.NewRequest":
			mk = e
		case "encoding/json.Marshal", "encoding/json.MarshalIndent":
			enc = e
		case "(*encoding/json.Encoder).Encode":
			enc = e
		}
	})
	if mk == nil || enc == nil {
		c.Undec("client", name, "the request is not built here")
		return
	}
	arg := enc.Args[0]
	if strings.HasSuffix(callName(enc), "Encode") {
		arg = enc.Args[1]
	}
	body := mk.Args[len(mk.Args)-1]
	arg = arg.Strip()
	if t := derefType(arg.Typ); reqT != nil && namedOf(t) != reqT {
		c.Fail("client", posOf(enc, fn), name+" body", "a %s is sent instead of the search request", t)
		return
	}
	if arg != req && !(arg.Op == eng.OLoad && arg.Args[0] == req) {
		if arg.Op == eng.OAlloc && c.copyOf(p, arg, req) || arg.Op == eng.OStruct {
			c.Undec("client", name+" body", "a copy of the request is sent")
			return
		}
		if arg.Op == eng.OAlloc && c.pointee(p, arg) == nil {
			c.Fail("client", posOf(enc, fn), name+" body", "what is sent (%s) is not the search request", arg)
			return
		}
		c.Undec("client", name+" body", "sends %s", arg)
		return
	}
	if body.Strip().IsNil() {
		c.Fail("client", posOf(mk, fn), name+" body", "the request is sent without a body")
		return
	}
	c.OK("client", name+" body")
}

// clientStatus: only a 200 counts as a response.
func (c *C) clientStatus(in *eng.Interp, fn *ssa.Function, p *eng.Path, do *eng.Effect, name string) {
	st := findTerm(p.Facts, func(t *eng.Term) bool {
		return t.Op == eng.OLoad && t.Args[0].Op == eng.OField && t.Args[0].FieldVar() != nil && t.Args[0].FieldVar().Name() == "StatusCode"
	})
	if st == nil {
		c.Fail("client", posOf(do, fn), name+" status", "a response is returned without a look at its status code")
		return
	}
	if p.Facts.EqInt(st, in.T.Int(200), 0) {
		c.OK("client", name+" status")
		return
	}
	sure := true
	for _, code := range []int64{201, 202, 204, 206, 301, 304, 400, 404, 500, 503} {
		f := p.Facts.Clone()
		if !f.Assume(in.T.Cmp(token.EQL, st, in.T.Int(code)), true) {
			continue
		}
		holds, known := true, true
		f.Each(func(t *eng.Term, v bool) {
			if !t.Any(func(x *eng.Term) bool { return x == st }) {
				return
			}
			n, ok := evalInt(t, map[*eng.Term]int64{st: code})
			switch {
			case !ok:
				known = false
			case (n != 0) != v:
				holds = false
			}
		})
		switch {
		case !holds:
		case !known:
			sure = false
		default:
			c.Fail("client", posOf(do, fn), name+" status", "an HTTP %d is returned as a successful response", code)
			return
		}
	}
	if !sure {
		c.Undec("client", name+" status", "the status code is compared indirectly")
		return
	}
	c.OK("client", name+" status")
}

// evalInt evaluates a term over integers and booleans for given values of some
// of its parts.
func evalInt(t *eng.Term, env map[*eng.Term]int64) (int64, bool) {
	t = t.Strip()
	if v, ok := env[t]; ok {
		return v, true
	}
	if v, ok := t.IntConst(); ok {
		return v, true
	}
	if v, ok := t.BoolConst(); ok {
		if v {
			return 1, true
		}
		return 0, true
	}
	b := func(x bool) (int64, bool) {
		if x {
			return 1, true
		}
		return 0, true
	}
	var xs []int64
	for _, a := range t.Args {
		if a == nil {
			continue
		}
		v, ok := evalInt(a, env)
		if !ok {
			return 0, false
		}
		xs = append(xs, v)
	}
	switch {
	case t.Op == eng.ONot && len(xs) == 1:
		return b(xs[0] == 0)
	case t.Op == eng.OConv && len(xs) == 1:
		return xs[0], true
	case t.Op == eng.OBin && len(xs) >= 1:
		x, y := xs[0], int64(0)
		if len(xs) > 1 {
			y = xs[1]
		}
		switch t.Aux {
		case "+":
			return x + y, true
		case "-":
			return x - y, true
		case "*":
			return x * y, true
		case "/", "%":
			if y == 0 {
				return 0, false
			}
			if t.Aux == "/" {
				return x / y, true
			}
			return x % y, true
		case "==":
			return b(x == y)
		case "!=":
			return b(x != y)
		case "<":
			return b(x < y)
		case "<=":
			return b(x <= y)
		case ">":
			return b(x > y)
		case ">=":
			return b(x >= y)
		case "le0":
			return b(x <= 0)
		case "eq0":
			return b(x == 0)
		}
	}
	return 0, false
}

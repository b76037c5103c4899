package rules

import (
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// ---- shared helpers ----

func isFilterType(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return isNamed(t, mod, "Filter")
}

func isValues(t types.Type) bool { return t != nil && isNamed(t, "net/url", "Values") }

// qop is one write to a set of query parameters.
type qop struct {
	e      *eng.Effect
	at     int // index of the outermost effect on the path
	key    string
	known  bool
	val    *eng.Term
	vals   *eng.Term // whole value slice
	verb   string    // set, add, put, del
	loops  []*eng.LoopInfo
	iter   *eng.Iter
	target *eng.Term
}

// valuesMap: a set of query parameters, possibly as a plain map.
func valuesMap(t *eng.Term) bool {
	if isValues(t.Typ) {
		return true
	}
	m, ok := t.Typ.Underlying().(*types.Map)
	if !ok || !isString(m.Key()) {
		return false
	}
	s, ok := m.Elem().Underlying().(*types.Slice)
	return ok && isString(s.Elem())
}

func valuesOp(e *eng.Effect) *qop {
	q := &qop{e: e}
	switch e.Kind {
	case eng.ECall:
		n := callName(e)
		if !strings.HasPrefix(n, "(net/url.Values).") || len(e.Args) < 2 {
			return nil
		}
		q.target = e.Args[0]
		switch {
		case strings.HasSuffix(n, ".Set") && len(e.Args) == 3:
			q.verb, q.val = "set", e.Args[2]
		case strings.HasSuffix(n, ".Add") && len(e.Args) == 3:
			q.verb, q.val = "add", e.Args[2]
		case strings.HasSuffix(n, ".Del"):
			q.verb = "del"
		default:
			return nil
		}
		q.key, q.known = e.Args[1].StrConst()
	case eng.EMapUpdate, eng.EMapDelete:
		if e.Addr == nil || !valuesMap(e.Addr) || e.Key == nil {
			return nil
		}
		q.target = e.Addr
		q.verb, q.vals = "put", e.Val
		if v := e.Val; v != nil {
			switch {
			case v.Op == eng.OArr && len(v.Args) == 1:
				q.verb, q.val, q.vals = "set", v.Args[0], nil
			case v.Op == eng.OAppend && v.Args[1].Op == eng.OArr && len(v.Args[1].Args) == 1 && v.Args[0].Strip().Op == eng.OLookup && v.Args[0].Strip().Args[1] == e.Key:
				q.verb, q.val, q.vals = "add", v.Args[1].Args[0], nil
			}
		}
		if e.Kind == eng.EMapDelete {
			q.verb = "del"
		}
		q.key, q.known = e.Key.StrConst()
	default:
		return nil
	}
	return q
}

func qops(p *eng.Path) []*qop {
	var out []*qop
	var walk func(es []*eng.Effect, at int, loops []*eng.LoopInfo, it *eng.Iter)
	walk = func(es []*eng.Effect, at int, loops []*eng.LoopInfo, it *eng.Iter) {
		for i, e := range es {
			k := at
			if k < 0 {
				k = i
			}
			if q := valuesOp(e); q != nil {
				q.at, q.loops, q.iter = k, loops, it
				out = append(out, q)
			}
			if e.Kind == eng.ELoop && e.Loop != nil {
				for _, it := range e.Loop.Iters {
					walk(it.Effects, k, append(loops[:len(loops):len(loops)], e.Loop), it)
				}
			}
		}
	}
	walk(p.Effects, -1, nil, nil)
	return out
}

// queryKey: t reads a query parameter with a constant name.
func queryKey(t *eng.Term) (key, how string) {
	t = t.Strip()
	if t == nil {
		return "", ""
	}
	switch t.Op {
	case eng.OCall:
		n := t.CalleeName()
		if strings.HasPrefix(n, "(net/url.Values).") && len(t.Args) == 2 {
			if k, ok := t.Args[1].StrConst(); ok {
				return k, n[strings.LastIndex(n, ".")+1:]
			}
		}
	case eng.OLookup, eng.OLookupOk:
		if len(t.Args) > 1 && isValues(t.Args[0].Typ) {
			if k, ok := t.Args[1].StrConst(); ok {
				if t.Op == eng.OLookupOk {
					return k, "Has"
				}
				return k, "All"
			}
		}
	}
	return "", ""
}

// queryKeys: the query parameters a value is computed from.
func queryKeys(t *eng.Term) []string {
	m := map[string]bool{}
	t.Any(func(x *eng.Term) bool {
		if k, _ := queryKey(x); k != "" {
			m[k] = true
		}
		return false
	})
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// filterEncoders: the outermost helpers of trcweb which write a filter into
// query parameters.
func (c *C) filterEncoders() []*ssa.Function {
	writes := func(i ssa.Instruction) bool {
		if mu, ok := i.(*ssa.MapUpdate); ok {
			return isValues(mu.Map.Type())
		}
		call, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := call.Common().StaticCallee()
		return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "net/url" && (f.Name() == "Set" || f.Name() == "Add")
	}
	var exported, helpers []*ssa.Function
	for _, fn := range c.P.Funcs {
		if pkgPath(fn) != mod+"/trcweb" || fn.Parent() != nil || !hasParam(fn, isFilterType) || !c.reaches(fn, writes) {
			continue
		}
		if exportedFn(fn) {
			exported = append(exported, fn)
		} else {
			helpers = append(helpers, fn)
		}
	}
	return outermost(c, c.without(helpers, "net/http.NewRequest", "net/http.NewRequestWithContext", "net/url.Parse", evsrc+".New"), exported)
}

// without drops the functions which also do one of the named things, unless
// all of them do.
func (c *C) without(fns []*ssa.Function, names ...string) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range fns {
		if !c.reaches(fn, func(i ssa.Instruction) bool { return instrCalls(i, names...) }) {
			out = append(out, fn)
		}
	}
	if len(out) == 0 {
		return fns
	}
	return out
}

func hasParam(fn *ssa.Function, pred func(types.Type) bool) bool {
	for _, p := range fn.Params {
		if pred(p.Type()) {
			return true
		}
	}
	return false
}

func outermost(c *C, helpers, exported []*ssa.Function) []*ssa.Function {
	if len(helpers) == 0 {
		return exported
	}
	var out []*ssa.Function
	for _, h := range helpers {
		inner := false
		for _, o := range helpers {
			if o != h && c.reaches(o, func(i ssa.Instruction) bool {
				call, ok := i.(ssa.CallInstruction)
				return ok && call.Common().StaticCallee() == h
			}) {
				inner = true
			}
		}
		if !inner {
			out = append(out, h)
		}
	}
	return out
}

// presenceKeys: the parameters of which a parser only asks whether they are
// there.
func (c *C) presenceKeys() map[string]bool {
	out := map[string]bool{}
	for _, fn := range c.filterParsers() {
		c.reaches(fn, func(i ssa.Instruction) bool {
			if instrCalls(i, "(net/url.Values).Has") {
				if s, ok := constString(i.(ssa.CallInstruction).Common().Args[1]); ok {
					out[s] = true
				}
			}
			return false
		})
	}
	return out
}

// filterParsers: the outermost helpers of trcweb which build a filter from
// query parameters.
func (c *C) filterParsers() []*ssa.Function {
	reads := func(i ssa.Instruction) bool {
		if l, ok := i.(*ssa.Lookup); ok {
			return isValues(l.X.Type())
		}
		call, ok := i.(ssa.CallInstruction)
		if !ok {
			return false
		}
		f := call.Common().StaticCallee()
		return f != nil && f.Pkg != nil && f.Pkg.Pkg.Path() == "net/url" && (f.Name() == "Get" || f.Name() == "Has")
	}
	var helpers []*ssa.Function
	for _, fn := range c.P.Funcs {
		if pkgPath(fn) != mod+"/trcweb" || fn.Parent() != nil || exportedFn(fn) || !c.reaches(fn, reads) {
			continue
		}
		res := fn.Signature.Results()
		if res.Len() == 0 || !isFilterType(res.At(0).Type()) {
			continue
		}
		helpers = append(helpers, fn)
	}
	return outermost(c, c.without(helpers, "(*encoding/json.Decoder).Decode", "encoding/json.Unmarshal"), nil)
}

// wireFields are the exported fields of Filter.
func (c *C) wireFields() []*types.Var {
	n := c.P.Named("", "Filter")
	if n == nil {
		return nil
	}
	var out []*types.Var
	for _, f := range fieldsOf(n) {
		if f.Exported() {
			out = append(out, f)
		}
	}
	return out
}

func fieldClass(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "bool"
		case u.Info()&types.IsString != 0:
			return "string"
		}
	case *types.Slice:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			return "strings"
		}
	case *types.Pointer:
		if isNamed(u.Elem(), "time", "Duration") {
			return "duration"
		}
	}
	return "other"
}

// ---- C20 ----

func c20(c *C) {
	c.jsonTypes()
	keys := c.encodedFilter()
	c.parsedFilter(keys)
	c.pageParams()
	c.searchClient()
	c.searchHandler()
	c.Floor("json", 30)
	c.Floor("encode", 9)
	c.Floor("parse", 9)
	c.Floor("page", 10)
	c.Floor("client", 4)
	c.Floor("server", 6)
}

// jsonTypes: everything reachable from the transmitted types has a JSON
// representation that both ends share.
func (c *C) jsonTypes() {
	seen := map[types.Type]bool{}
	var visit func(t types.Type, where string, pos token.Pos)
	visitStruct := func(n *types.Named, s *types.Struct) {
		name := n.Obj().Name()
		has := func(m string) bool {
			obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), m)
			_, ok := obj.(*types.Func)
			return ok
		}
		enc, dec := has("MarshalJSON") || has("MarshalText"), has("UnmarshalJSON") || has("UnmarshalText")
		if enc || dec {
			c.Undec("json", name, "custom JSON encoding")
			return
		}
		byName := map[string]string{}
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			con := name + "." + f.Name()
			if !f.Exported() {
				if f.Embedded() {
					c.Undec("json", con, "embedded unexported type")
					continue
				}
				if !derivedField(f.Type()) && c.P.FieldMutable(f) {
					c.Undec("json", con, "unexported state of a transmitted type")
				}
				continue
			}
			tag := reflect.StructTag(s.Tag(i)).Get("json")
			jn, opts, _ := strings.Cut(tag, ",")
			if tag == "-" {
				if !c.Check(holdsError(f.Type(), nil), "json", f.Pos(), con, "the field is never transmitted: its JSON tag is \"-\"") {
					continue
				}
				continue
			}
			if f.Embedded() && jn == "" {
				c.Undec("json", con, "embedded field")
				continue
			}
			if jn == "" {
				jn = f.Name()
			}
			if o := byName[strings.ToLower(jn)]; o != "" {
				c.Fail("json", f.Pos(), con, "shares its JSON name %q with %s: one of them is lost or takes the other's value", jn, o)
				continue
			}
			byName[strings.ToLower(jn)] = f.Name()
			if strings.Contains(","+opts+",", ",omitempty,") {
				if _, ok := f.Type().Underlying().(*types.Array); ok {
					c.Undec("json", con, "omitempty array")
				}
			}
			c.OK("json", con)
			visit(f.Type(), con, f.Pos())
		}
	}
	visit = func(t types.Type, where string, pos token.Pos) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch u := t.(type) {
		case *types.Alias:
			visit(types.Unalias(u), where, pos)
			return
		case *types.Named:
			if u.Obj().Pkg() == nil || !c.P.InRepoType(u) {
				return // standard library types have their own encodings
			}
			if s, ok := u.Underlying().(*types.Struct); ok {
				visitStruct(u, s)
				return
			}
		}
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			visit(u.Elem(), where, pos)
		case *types.Slice:
			visit(u.Elem(), where, pos)
		case *types.Array:
			visit(u.Elem(), where, pos)
		case *types.Map:
			visit(u.Elem(), where, pos)
		case *types.Signature, *types.Chan:
			c.Fail("json", pos, where, "a %s cannot be transmitted: encoding fails", u)
		case *types.Interface:
			c.Fail("json", pos, where, "an interface value cannot be decoded on the other end")
		}
	}
	for _, t := range []struct{ rel, name string }{{"", "SearchRequest"}, {"", "SearchResponse"}, {"", "StaticTrace"}, {"", "Filter"}, {"", "StreamStats"}, {"trcweb", "SearchData"}} {
		n := c.P.Named(t.rel, t.name)
		if n == nil {
			c.Fail("anchor", token.NoPos, t.name, "exported type is missing")
			continue
		}
		visit(n, t.name, n.Obj().Pos())
	}
}

// derivedField: unexported state that is recomputed or local.
func derivedField(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if _, ok := t.Underlying().(*types.Signature); ok {
		return true
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		return true // approximate rates, computed from the counts
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "regexp", "sync", "sync/atomic":
		return true
	}
	return false
}

// holdsError: the type contains error values, which JSON cannot carry.
func holdsError(t types.Type, seen map[types.Type]bool) bool {
	if seen == nil {
		seen = map[types.Type]bool{}
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Slice:
		return holdsError(u.Elem(), seen)
	case *types.Map:
		return holdsError(u.Elem(), seen)
	case *types.Pointer:
		return holdsError(u.Elem(), seen)
	case *types.Signature, *types.Chan:
		return true
	}
	return false
}

var lossy = []string{".Truncate", ".Round", ".Milliseconds", ".Microseconds", ".Seconds", ".Minutes", "strings.", "Humanize", "QueryEscape", "PathEscape"}

func lossyCall(t *eng.Term) string {
	out := ""
	t.Any(func(x *eng.Term) bool {
		if x.Op == eng.OCall {
			n := x.CalleeName()
			for _, l := range lossy {
				if strings.Contains(n, l) {
					out = n
				}
			}
		}
		return out != ""
	})
	return out
}

// encodedFilter: per field of Filter, the query parameter which carries it.
func (c *C) encodedFilter() map[string]string {
	encs := c.filterEncoders()
	if len(encs) == 0 {
		c.Undec("encode", "trcweb", "no function writes a filter into query parameters")
		return nil
	}
	keys := map[string]string{}
	for _, fn := range encs {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api, MaxPaths: 4000})
		ps := in.ParamSyms(fn)
		paths := c.Run(in, fn, nil, ps)
		var fp *eng.Term
		for i, p := range fn.Params {
			if isFilterType(p.Type()) {
				fp = ps[i]
			}
		}
		if in.Incomplete != "" || fp == nil {
			return nil
		}
		undecided := false
		ops := map[*eng.Path][]*qop{}
		for _, p := range paths {
			ops[p] = qops(p)
			for _, q := range ops[p] {
				if !q.known {
					undecided = true
				}
			}
		}
		if undecided {
			c.Undec("encode", c.P.FnName(fn), "query parameter names are not constant")
			continue
		}
		fT := c.P.Named("", "Filter")
		for _, f := range c.wireFields() {
			ft := in.FieldVal(fp, fieldIndex(fT, f), f.Type())
			if _, ok := fp.Typ.Underlying().(*types.Pointer); ok {
				ft = nil
			}
			isF := func(t *eng.Term) bool { return fieldLoad(t, fp, f.Name()) }
			if k := c.encodedField(in, fn, f, ft, isF, paths, ops); k != "" {
				keys[f.Name()] = k
			}
		}
		// two fields in one parameter
		byKey := map[string]string{}
		for _, f := range c.wireFields() {
			k := keys[f.Name()]
			if k == "" {
				continue
			}
			if o := byKey[k]; o != "" {
				c.Fail("encode", fn.Pos(), c.P.FnName(fn), "%s and %s are both written to the query parameter %q", o, f.Name(), k)
			}
			byKey[k] = f.Name()
		}
		// everything written reaches the request
		for _, p := range paths {
			if p.Panic != nil || p.Exit {
				continue
			}
			last, stored, lastStore := -1, false, -1
			for _, q := range ops[p] {
				last = q.at
			}
			base := true
			for i, e := range p.Effects {
				if e.Kind == eng.EStore && e.Addr != nil && e.Addr.Op == eng.OField && e.Addr.FieldVar() != nil && e.Addr.FieldVar().Name() == "RawQuery" {
					stored, lastStore = true, i
					base = e.Val.Any(func(x *eng.Term) bool {
						return x.Op == eng.OCall && strings.HasSuffix(x.CalleeName(), "(net/url.Values).Encode")
					})
					if base {
						// the parameters already in the URL are kept
						base = e.Val.Any(func(x *eng.Term) bool {
							n := x.CalleeName()
							return x.Op == eng.OCall && (strings.HasSuffix(n, "(*net/url.URL).Query") || strings.HasSuffix(n, "url.ParseQuery"))
						}) || e.Val.Any(func(x *eng.Term) bool { return x.Op == eng.OSym || x.Op == eng.OLoad })
						c.Check(base, "encode", posOf(e, fn), "parameters", "the query parameters already in the URL are dropped")
					} else {
						c.Undec("encode", c.P.FnName(fn), "the query is not encoded by url.Values")
					}
				}
			}
			takesValues := hasParam(fn, isValues) || fn.Signature.Results().Len() > 0
			switch {
			case last < 0 || takesValues:
			case !stored:
				c.Fail("encode", fn.Pos(), c.P.FnName(fn), "the filter is written to query parameters which never reach the request")
			case lastStore < last:
				c.Fail("encode", fn.Pos(), c.P.FnName(fn), "a part of the filter is written after the query of the request was set")
			default:
				c.OK("encode", "reaches the request")
			}
		}
	}
	return keys
}

// readsField: fn, or what it calls, uses the field.
func (c *C) readsField(fn *ssa.Function, f *types.Var) bool {
	return c.reaches(fn, func(i ssa.Instruction) bool {
		switch i := i.(type) {
		case *ssa.FieldAddr:
			st, ok := derefType(i.X.Type()).Underlying().(*types.Struct)
			return ok && st.Field(i.Field) == f
		case *ssa.Field:
			st, ok := i.X.Type().Underlying().(*types.Struct)
			return ok && st.Field(i.Field) == f
		}
		return false
	})
}

func (c *C) encodedField(in *eng.Interp, fn *ssa.Function, f *types.Var, ft *eng.Term, isF func(*eng.Term) bool, paths []*eng.Path, ops map[*eng.Path][]*qop) string {
	name := "Filter." + f.Name()
	mention := func(t *eng.Term) bool { return t != nil && t.Any(isF) }
	switch fieldClass(f.Type()) {
	case "bool":
		// the parameters present exactly when the field is set
		with, without := map[string]int{}, map[string]int{}
		nt, nf := 0, 0
		for _, p := range paths {
			if p.Panic != nil {
				continue
			}
			t, u := boolKnown(p.Facts, isF)
			keys := map[string]bool{}
			for _, q := range ops[p] {
				if q.verb != "del" && len(q.loops) == 0 {
					keys[q.key] = true
				}
			}
			switch {
			case t && !u:
				nt++
				for k := range keys {
					with[k]++
				}
			case u && !t:
				nf++
				for k := range keys {
					without[k]++
				}
			}
		}
		if nt == 0 || nf == 0 {
			// no path depends on it
			for _, p := range paths {
				for _, q := range ops[p] {
					if mention(q.val) || mention(q.vals) {
						if c.presenceKeys()[q.key] {
							c.Fail("encode", posOf(q.e, fn), name, "the parameter %q is always sent, but the server takes its presence for true", q.key)
							return ""
						}
						c.Undec("encode", name, "not written as a flag")
						return ""
					}
				}
			}
			if c.readsField(fn, f) {
				c.Undec("encode", name, "cannot see how the field is written")
				return ""
			}
			c.Fail("encode", fn.Pos(), name, "%s does not depend on the field: it is lost on the way to the server", c.P.FnName(fn))
			return ""
		}
		var cands []string
		for k, n := range with {
			if n == nt && without[k] == 0 {
				cands = append(cands, k)
			}
		}
		sort.Strings(cands)
		switch len(cands) {
		case 1:
			c.OK("encode", name)
			return cands[0]
		case 0:
			c.Fail("encode", fn.Pos(), name, "no query parameter is present exactly when the field is set")
		default:
			c.Undec("encode", name, "several parameters depend on the field: %v", cands)
		}
		return ""
	}
	// fields carried by value
	cands := map[string]*qop{}
	for _, p := range paths {
		for _, q := range ops[p] {
			v := q.val
			if q.vals != nil {
				v = q.vals
			}
			if mention(v) {
				cands[q.key] = q
			}
		}
	}
	if len(cands) == 0 {
		if c.readsField(fn, f) {
			c.Undec("encode", name, "cannot see where the field is written")
			return ""
		}
		c.Fail("encode", fn.Pos(), name, "%s writes the field to no query parameter: it is lost on the way to the server", c.P.FnName(fn))
		return ""
	}
	if len(cands) > 1 {
		c.Undec("encode", name, "written to several parameters")
		return ""
	}
	var key string
	for k := range cands {
		key = k
	}
	ok := true
	for _, p := range paths {
		if p.Panic != nil || p.Exit {
			continue
		}
		// is the field known to be empty here?
		if t := ft; t == nil {
			ft = findTerm(p.Facts, isF)
		}
		empty := false
		if ft != nil {
			switch fieldClass(f.Type()) {
			case "string", "strings":
				empty = p.Facts.EqInt(in.T.Len(ft), in.T.Int(0), 0)
			case "duration":
				v, known := p.Facts.Eval(in.T.Cmp(token.EQL, ft, in.T.Nil()))
				empty = known && v
			}
		}
		var mine []*qop
		for _, q := range ops[p] {
			if q.key == key {
				mine = append(mine, q)
			}
		}
		good := 0
		for _, q := range mine {
			v := q.val
			if q.vals != nil {
				v = q.vals
			}
			if q.verb == "del" {
				continue
			}
			if !mention(v) {
				c.Fail("encode", posOf(q.e, fn), name, "the query parameter %q also carries something else", key)
				ok = false
				continue
			}
			if l := lossyCall(v); l != "" {
				c.Fail("encode", posOf(q.e, fn), name, "the value is changed by %s on its way into the query", short(l))
				ok = false
				continue
			}
			switch fieldClass(f.Type()) {
			case "strings":
				if q.vals != nil {
					good++
					continue
				}
				if len(q.loops) == 0 {
					if isF(v.Strip()) {
						good++
					} else if x := v.Strip(); x.Op == eng.OLoad && x.Args[0].Op == eng.OIndex {
						c.Fail("encode", posOf(q.e, fn), name, "only one element of the field is written")
						ok = false
					} else {
						c.Undec("encode", name, "a joined representation")
						return ""
					}
					continue
				}
				if q.verb == "set" {
					c.Fail("encode", posOf(q.e, fn), name, "Set in a loop keeps only the last element of the field")
					ok = false
					continue
				}
				// every element
				full := true
				for i, e := range p.Effects {
					if e.Kind == eng.ELoop && e.Loop == q.loops[0] {
						yes, known := headerExit(p.Effects, i)
						if known && !yes {
							full = false
						}
						for _, it := range e.Loop.Iters {
							n := 0
							for _, x := range it.Effects {
								if o := valuesOp(x); o != nil && o.key == key {
									n++
								}
							}
							if n == 0 && !emptyElem(in, it, isF) {
								c.Fail("encode", posOf(q.e, fn), name, "an element of the field can be left out")
								ok = false
							}
						}
					}
				}
				if !full {
					c.Fail("encode", posOf(q.e, fn), name, "the loop over the field can stop early")
					ok = false
					continue
				}
				good++
			case "string":
				if isF(v.Strip()) {
					good++
				} else {
					c.Undec("encode", name, "the value is derived from the field by an unknown function")
					return ""
				}
			case "duration":
				x := v.Strip()
				if x.Op == eng.OCall && strings.HasSuffix(x.CalleeName(), "(time.Duration).String") && derefOf(x.Args[0], isF) {
					good++
				} else {
					c.Undec("encode", name, "the duration is not written by String")
					return ""
				}
			default:
				c.Undec("encode", name, "unknown kind of field")
				return ""
			}
		}
		if good == 0 && ok && !empty {
			if ft != nil && len(mine) == 0 {
				c.Fail("encode", fn.Pos(), name, "the field is not written although it can be set (%s)", strings.Join(p.FactStrings(), " & "))
				ok = false
			}
		}
		if good > 1 && fieldClass(f.Type()) == "strings" {
			n := 0
			for _, q := range mine {
				if len(q.loops) > 0 {
					n++
				}
			}
			if n > 1 && len(mine[0].loops) > 0 && mine[0].loops[0] != mine[1].loops[0] {
				c.Fail("encode", fn.Pos(), name, "the elements are written more than once")
				ok = false
			}
		}
	}
	if ok {
		c.OK("encode", name)
	}
	return key
}

// emptyElem: the iteration knows that its element is the empty string.
func emptyElem(in *eng.Interp, it *eng.Iter, isF func(*eng.Term) bool) bool {
	found := false
	if it.Facts == nil {
		return false
	}
	it.Facts.EachTerm(func(t *eng.Term) {
		t.Any(func(x *eng.Term) bool {
			if x.Op == eng.OLoad && x.Args[0].Op == eng.OIndex && x.Args[0].Args[0].Any(isF) {
				if it.Facts.EqInt(in.T.Len(x), in.T.Int(0), 0) {
					found = true
				}
			}
			return false
		})
	})
	return found
}

func derefOf(t *eng.Term, isF func(*eng.Term) bool) bool {
	t = t.Strip()
	return t.Op == eng.OLoad && isF(t.Args[0].Strip())
}

// parsedFilter: the server reads every field from the parameter which carries
// it.
func (c *C) parsedFilter(keys map[string]string) {
	fns := c.filterParsers()
	if len(fns) == 0 {
		c.Undec("parse", "trcweb", "no function builds a filter from query parameters")
		return
	}
	fT := c.P.Named("", "Filter")
	for _, fn := range fns {
		in := eng.NewInterp(c.P, eng.Config{Inline: func(f *ssa.Function) bool {
			// list helpers keep their argument visible
			sig := f.Signature
			if sig.Results().Len() == 1 {
				if _, ok := sig.Results().At(0).Type().Underlying().(*types.Slice); ok && f.Parent() == nil {
					return false
				}
			}
			return c.api(f)
		}, MaxPaths: 4000})
		paths := c.Run(in, fn, nil, nil)
		if in.Incomplete != "" {
			return
		}
		type seen struct {
			depends bool
			bad     bool
		}
		st := map[string]*seen{}
		for _, f := range c.wireFields() {
			st[f.Name()] = &seen{}
		}
		for _, p := range paths {
			if p.Panic != nil || p.Exit || len(p.Ret) == 0 {
				continue
			}
			v := p.Ret[0].Strip()
			final := map[string]*eng.Term{}
			switch {
			case v.Op == eng.OStruct:
				for i, f := range fieldsOf(fT) {
					if i < len(v.Args) {
						final[f.Name()] = v.Args[i]
					}
				}
			case v.Op == eng.OAlloc:
				final = finalFields(p, v, fT)
			default:
				c.Undec("parse", c.P.FnName(fn), "the result is not a filter built here")
				return
			}
			for _, f := range c.wireFields() {
				c.parsedField(in, fn, p, f, final[f.Name()], keys[f.Name()], &st[f.Name()].depends, &st[f.Name()].bad)
			}
		}
		for _, f := range c.wireFields() {
			s := st[f.Name()]
			if s.bad {
				continue
			}
			c.Check(s.depends, "parse", fn.Pos(), "Filter."+f.Name(), "the server ignores the parameter of the field: it is the same for every request")
		}
	}
}

func (c *C) parsedField(in *eng.Interp, fn *ssa.Function, p *eng.Path, f *types.Var, v *eng.Term, key string, depends, bad *bool) {
	name := "Filter." + f.Name()
	fail := func(format string, args ...any) {
		*bad = true
		c.Fail("parse", fn.Pos(), name, format, args...)
	}
	if v == nil {
		return // never set on this path
	}
	ks := queryKeys(v)
	if x := v.Strip(); x.Op == eng.OAlloc {
		if d := c.pointee(p, x); d != nil {
			ks = append(ks, queryKeys(d)...)
			v = d
		}
	}
	switch fieldClass(f.Type()) {
	case "bool":
		if b, ok := v.BoolConst(); ok {
			// decided by a branch
			var has *eng.Term
			p.Facts.Each(func(t *eng.Term, val bool) {
				if k, how := queryKey(t); k == key && key != "" && how == "Has" {
					has = t
					if val != b {
						fail("the field is %v when the parameter %q is %s", b, key, map[bool]string{true: "present", false: "absent"}[val])
					}
				}
			})
			if has != nil {
				*depends = true
			} else if findTerm(p.Facts, func(t *eng.Term) bool { k, _ := queryKey(t); return k == key && key != "" }) != nil {
				*depends = true
			}
			return
		}
		if len(ks) == 0 {
			c.Undec("parse", name, "the value is not read from a query parameter")
			*depends = true
			return
		}
		*depends = true
		if key != "" && !hasString(ks, key) {
			fail("the client sends the field as %q, the server reads %q", key, ks)
			return
		}
		x := v.Strip()
		if x.Op == eng.ONot {
			if _, how := queryKey(x.Args[0]); how == "Has" {
				fail("the field is set when the parameter is absent")
			}
		}
	case "duration":
		isDur := func(x *eng.Term) bool {
			return x.Op == eng.OCall && x.CalleeName() == "time.ParseDuration" && (key == "" || hasString(queryKeys(x), key))
		}
		if v.IsNil() {
			// only if there's none
			p.Facts.Each(func(t *eng.Term, val bool) {
				x, y := eqSides(t)
				if val && x != nil && (x.IsNil() || y.IsNil()) && t.Any(isDur) {
					fail("a duration that is given is ignored")
				}
			})
			return
		}
		*depends = true
		if len(ks) == 0 {
			c.Undec("parse", name, "the value is not read from a query parameter")
			return
		}
		if key != "" && !hasString(ks, key) {
			fail("the client sends the field as %q, the server reads %q", key, ks)
			return
		}
		if l := lossyCall(v); l != "" {
			fail("the value is changed by %s", short(l))
			return
		}
		if !v.Any(func(x *eng.Term) bool {
			return x.Op == eng.OCall && x.CalleeName() == "time.ParseDuration"
		}) {
			c.Undec("parse", name, "not read by time.ParseDuration")
		} else if x := v.Strip(); x.Op == eng.OCall && x.CalleeName() != "time.ParseDuration" || x.Op == eng.OBin {
			if cal, _ := x.Obj.(*eng.Callee); x.Op == eng.OBin || cal == nil || cal.Fn == nil || !c.P.InRepo(cal.Fn) {
				fail("the value is changed: it's %s", x)
			}
		}
	default:
		if v.IsNil() || v.Op == eng.OZero || v.IsConst() {
			// absent on this path: fine when the parameter is known to be absent or empty
			if findTerm(p.Facts, func(t *eng.Term) bool { k, _ := queryKey(t); return k == key && key != "" }) != nil {
				*depends = true
			}
			return
		}
		*depends = true
		if len(ks) == 0 {
			c.Undec("parse", name, "the value is not read from a query parameter")
			return
		}
		if key != "" && !hasString(ks, key) {
			fail("the client sends the field as %q, the server reads %q", key, ks)
			return
		}
		if fieldClass(f.Type()) == "strings" {
			c.keptStrings("parse", name, v)
			single := true
			v.Any(func(x *eng.Term) bool {
				if _, how := queryKey(x); how == "All" {
					single = false
				}
				return false
			})
			if single {
				fail("only the first of the values of %q is read", key)
				return
			}
			if x := v.Strip(); x.Op == eng.OSlice {
				fail("only a part of the values of %q is read", key)
			}
		}
		if fieldClass(f.Type()) == "string" {
			if l := lossyCall(v); l != "" {
				fail("the value is changed by %s", short(l))
			}
		}
	}
}

func hasString(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// pointee: the last value stored to a fresh object on the path.
func (c *C) pointee(p *eng.Path, obj *eng.Term) *eng.Term {
	var v *eng.Term
	p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if e.Kind == eng.EStore && e.Addr == obj {
			v = e.Val
		}
	})
	return v
}

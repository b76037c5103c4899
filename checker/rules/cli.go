package rules

import (
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// C27: the command line tool asks for what its flags say, of every instance,
// and prints every result.

const (
	ffPkg    = "github.com/peterbourgon/ff/v4"
	trcPkg   = "github.com/peterbourgon/trc"
	trcWeb   = trcPkg + "/trcweb"
	jsonEnc  = "encoding/json.NewEncoder"
	jsonEncE = "(*encoding/json.Encoder).Encode"
)

// filterFlag: the flag for each field of a filter.
var filterFlag = map[string]string{
	"Sources":     "source",
	"IDs":         "id",
	"Category":    "category",
	"Query":       "query",
	"IsActive":    "active",
	"IsFinished":  "finished",
	"MinDuration": "duration",
	"IsSuccess":   "success",
	"IsErrored":   "errored",
}

// otherFlags are the flags besides those.
var otherFlags = []string{"uri", "uri-path", "output", "limit", "stack-depth", "include-request", "include-stats", "events", "send-buffer", "recv-buffer", "stats-interval", "retry-interval"}

type cli struct {
	c       *C
	main    *ssa.Function
	target  map[string]*types.Var // flag → the config field it sets
	flag    map[*types.Var]string // and back
	execs   map[string]*ssa.Function
	writers map[*types.Var]string // config field → os.Stdout, os.Stderr
	stored  map[string]bool       // the fields of the filter which main sets
}

func c27(c *C) {
	fn := c.P.Func("cmd/trc", "main")
	if fn == nil {
		c.Fail("flags", token.NoPos, "cmd/trc", "the command has no main function")
		return
	}
	cl := &cli{c: c, main: fn, target: map[string]*types.Var{}, flag: map[*types.Var]string{}, execs: map[string]*ssa.Function{}, writers: map[*types.Var]string{}, stored: map[string]bool{}}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api, MaxPaths: 4000})
	paths := c.Run(in, fn, nil, in.ParamSyms(fn))
	cl.flags(paths)
	if len(cl.flag) == 0 {
		c.Undec("flags", "cmd/trc", "no flag registration is recognised")
		return
	}
	for _, p := range paths {
		cl.setup(in, p)
	}
	if ex := cl.execs["search"]; ex != nil {
		cl.search(ex)
	} else {
		c.Undec("search", "cmd/trc", "the search command isn't recognised")
	}
	if ex := cl.execs["stream"]; ex != nil {
		cl.stream(ex)
	} else {
		c.Undec("stream", "cmd/trc", "the stream command isn't recognised")
	}
}

// structField: a field of a struct value.
func structField(t *eng.Term, name string) *eng.Term {
	t = t.Strip()
	if t == nil || t.Op != eng.OStruct {
		return nil
	}
	for i, f := range fieldsOf(namedOf(t.Typ)) {
		if f.Name() == name && i < len(t.Args) {
			return t.Args[i]
		}
	}
	return nil
}

// flags reads which flag sets which field.
func (cl *cli) flags(paths []*eng.Path) {
	c := cl.c
	opaque := false
	for _, p := range paths {
		p.Walk(false, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
			if e.Kind == eng.EStore && e.Addr.FieldVar() != nil {
				if g := globalOf(e.Val.Strip()); g != nil && (g.Name() == "Stdout" || g.Name() == "Stderr") && g.Pkg.Pkg.Path() == "os" {
					v := e.Addr.FieldVar()
					if was := cl.writers[v]; was != "" && was != g.Name() {
						cl.writers[v] = "?"
					} else {
						cl.writers[v] = g.Name()
					}
				}
				if e.Addr.FieldVar().Name() == "Exec" && e.Val.Strip().Op == eng.OClosure {
					base := e.Addr.Args[0]
					for _, x := range p.Effects {
						if x.Kind == eng.EStore && x.Addr.Op == eng.OField && x.Addr.Args[0] == base && x.Addr.FieldVar().Name() == "Name" {
							if s, ok := x.Val.StrConst(); ok {
								if f := cl.method(e.Val.Strip()); f != nil {
									cl.execs[s] = f
								}
							}
						}
					}
				}
			}
			n := callName(e)
			if !strings.HasPrefix(n, "(*"+ffPkg+".FlagSet).") && !strings.HasPrefix(n, "(*"+ffPkg+".CoreFlags).") && !strings.HasPrefix(n, "(*"+ffPkg+".CoreFlagSet).") {
				return
			}
			var name string
			var addr *eng.Term
			switch {
			case strings.HasSuffix(n, ").AddFlag") && len(e.Args) == 2:
				cfg := e.Args[1].Strip()
				l, v := structField(cfg, "LongName"), structField(cfg, "Value")
				if l == nil || v == nil {
					opaque = true
					return
				}
				name, _ = l.StrConst()
				v.Any(func(x *eng.Term) bool {
					if x.Op == eng.OCall && len(x.Args) > 0 && x.Args[0].Strip().FieldVar() != nil && addr == nil {
						addr = x.Args[0].Strip()
					}
					return false
				})
			case strings.Contains(n, "Var"):
				for _, a := range e.Args[1:] {
					if s, ok := a.StrConst(); ok && name == "" {
						name = s
					}
					if a.Strip().FieldVar() != nil && addr == nil {
						addr = a.Strip()
					}
				}
			default:
				return
			}
			if name == "" || addr == nil {
				opaque = true
				return
			}
			f := addr.FieldVar()
			if was := cl.target[name]; was != nil && was != f {
				c.Fail("flags", e.Pos, "--"+name, "sets both %s and %s", was.Name(), f.Name())
			}
			if was := cl.flag[f]; was != "" && was != name {
				c.Fail("flags", e.Pos, "--"+name, "sets the same value (%s) as --%s", f.Name(), was)
			}
			cl.target[name], cl.flag[f] = f, name
		})
	}
	if len(cl.flag) == 0 {
		return
	}
	names := append([]string{}, otherFlags...)
	for _, n := range filterFlag {
		names = append(names, n)
	}
	for _, n := range names {
		if cl.target[n] == nil && opaque {
			c.Undec("flags", "--"+n, "its registration isn't recognised")
			continue
		}
		c.Check(cl.target[n] != nil, "flags", cl.main.Pos(), "--"+n, "the flag doesn't exist")
	}
}

// method: the method behind a bound method value, or the function itself.
func (cl *cli) method(t *eng.Term) *ssa.Function {
	f, _ := t.Obj.(*ssa.Function)
	if f == nil {
		return nil
	}
	if f.Synthetic == "" {
		return f
	}
	if o, ok := f.Object().(*types.Func); ok {
		return cl.c.P.Prog.FuncValue(o)
	}
	return nil
}

// flagOf: the flag whose value t is.
func (cl *cli) flagOf(t *eng.Term) string {
	t = t.Strip()
	if t == nil || t.Op != eng.OLoad {
		return ""
	}
	return cl.flag[t.Args[0].FieldVar()]
}

// filterField: the field of the prepared filter that t is.
func (cl *cli) filterField(t *eng.Term) string {
	t = t.Strip()
	if t == nil {
		return ""
	}
	var f *types.Var
	switch t.Op {
	case eng.OLoad:
		f = t.Args[0].FieldVar()
	case eng.OFieldVal:
		f, _ = t.Obj.(*types.Var)
	}
	if f == nil || !structFieldOf(cl.c.P.Named("", "Filter"), f) {
		return ""
	}
	return f.Name()
}

func isFFCall(e *eng.Effect, name string) bool {
	n := callName(e)
	return strings.HasPrefix(n, "(*"+ffPkg+".Command).") && strings.HasSuffix(n, ")."+name)
}

// setup: what happens before the selected command is run.
func (cl *cli) setup(in *eng.Interp, p *eng.Path) {
	c := cl.c
	if p.Panic != nil {
		return
	}
	con := c.P.FnName(cl.main)
	var parse, run *eng.Effect
	code, exited := int64(0), false
	codeKnown := true
	var exitAt *eng.Effect
	said := false
	p.Walk(false, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
		switch {
		case isFFCall(e, "Parse"):
			parse = e
		case isFFCall(e, "Run") || isFFCall(e, "ParseAndRun"):
			run = e
			if isFFCall(e, "ParseAndRun") {
				parse = e
			}
		case callName(e) == "os.Exit" && len(e.Args) == 1:
			exited, exitAt = true, e
			code, codeKnown = e.Args[0].IntConst()
		case callName(e) == "fmt.Fprintf" || callName(e) == "fmt.Fprintln" || callName(e) == "fmt.Fprint":
			if len(e.Args) > 0 {
				if g := globalOf(e.Args[0].Strip()); g != nil && g.Name() == "Stderr" {
					said = true
				}
			}
		case strings.HasPrefix(callName(e), "log.Print") || strings.HasPrefix(callName(e), "log.Fatal"):
			said = true
		}
	})
	if !exited {
		code, codeKnown = 0, !p.Exit
	}
	pos := cl.main.Pos()
	if exitAt != nil {
		pos = exitAt.Pos
	}
	// exit status
	benign, other := false, ""
	p.Facts.Each(func(t *eng.Term, v bool) {
		n := t.CalleeName()
		if v && n == "errors.As" {
			benign = true
		}
		if v && n == "errors.Is" && len(t.Args) == 2 {
			if g := globalOf(t.Args[1].Strip()); g != nil && g.Name() != "Canceled" && g.Name() != "ErrHelp" && g.Name() != "ErrNoExec" {
				other = g.Name()
				return
			}
			benign = true
		}
	})
	var runErr *eng.Term
	if run != nil {
		runErr = errOf(run)
	}
	if other != "" && !benign && codeKnown {
		c.Check(code != 0, "exit-code", pos, con, "a command which failed with %s exits with 0", other)
	}
	switch {
	case !codeKnown:
		c.Undec("exit-code", con, "the exit status isn't constant")
	case run != nil:
		isnil, known := knownNil(in, p.Facts, runErr)
		switch {
		case known && isnil:
			c.Check(code == 0, "exit-code", pos, con, "a successful command exits with %d", code)
		case benign:
			c.OK("exit-code", con)
		case known:
			c.Check(code != 0, "exit-code", pos, con, "a command which failed exits with 0")
			c.Check(said, "exit-code", pos, con, "a command which failed doesn't print its error")
		default:
			if code == 0 {
				c.Fail("exit-code", pos, con, "exits with 0 without regard to the error of the command")
			}
		}
	case !benign:
		c.Check(code != 0, "exit-code", pos, con, "exits with 0 although no command was run: %s", lastFact(p))
		c.Check(said, "exit-code", pos, con, "refuses to run a command without printing an error: %s", lastFact(p))
	}
	if run == nil {
		return
	}
	if parse != nil {
		isnil, known := knownNil(in, p.Facts, errOf(parse))
		if run != parse {
			c.Check(known && isnil, "flags", run.Pos, con, "the command runs although its flags couldn't be parsed")
		}
	}
	cl.uris(in, p, run, parse)
	// the filter
	last := map[string]*eng.Effect{}
	at := map[*eng.Effect]int{}
	i := 0
	p.Walk(false, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
		i++
		at[e] = i
		if e.Kind == eng.EStore && e.Addr.Op == eng.OField && structFieldOf(c.P.Named("", "Filter"), e.Addr.FieldVar()) {
			if b := e.Addr.Args[0]; b.Op == eng.OField {
				last[e.Addr.FieldVar().Name()] = e
				if len(loops) > 0 {
					last[e.Addr.FieldVar().Name()] = nil
				}
			}
		}
	})
	for f, flag := range filterFlag {
		e := last[f]
		if e == nil || run == parse || at[e] > at[run] {
			continue
		}
		cl.stored[f] = true
		name := "filter " + f
		if parse != nil && at[e] < at[parse] {
			c.Fail("filter", e.Pos, name, "is set before the flags are parsed")
			continue
		}
		cl.filterValue("filter", e.Pos, name, in, p, e.Val, f, flag)
	}
}

func lastFact(p *eng.Path) string {
	fs := p.FactStrings()
	if len(fs) == 0 {
		return "always"
	}
	return "when " + fs[len(fs)-1]
}

// filterValue: v is what the flag says for the field f.
func (cl *cli) filterValue(rule string, pos token.Pos, name string, in *eng.Interp, p *eng.Path, v *eng.Term, f, flag string) {
	c := cl.c
	v = v.Strip()
	if f == "MinDuration" {
		set, unset, byValue := false, false, false
		p.Facts.Each(func(t *eng.Term, val bool) {
			if t.Any(func(x *eng.Term) bool { return strings.HasSuffix(x.CalleeName(), ").IsSet") }) {
				if val {
					set = true
				} else {
					unset = true
				}
			} else if !val && t.Any(func(x *eng.Term) bool { return strings.HasSuffix(x.CalleeName(), ").GetFlag") }) {
				unset = true
			} else if t.Any(func(x *eng.Term) bool { return cl.flagOf(x) == flag }) {
				byValue = true
			}
		})
		isnil, known := knownNil(in, p.Facts, v)
		switch {
		case known && isnil:
			c.Check(!set, rule, pos, name, "--%s is ignored", flag)
			c.Check(!byValue || unset, rule, pos, name, "some values of --%s are ignored", flag)
		case cl.flag[v.FieldVar()] != "":
			if c.Check(cl.flag[v.FieldVar()] == flag, rule, pos, name, "is the value of --%s", cl.flag[v.FieldVar()]) {
				c.Check(set || !unset, rule, pos, name, "restricts the traces to finished ones although --%s isn't given", flag)
				if !set && !unset && !byValue {
					c.Fail(rule, pos, name, "is set, and so rejects every active trace, whether or not --%s is given", flag)
				}
			}
		default:
			if pv := c.pointee(p, v); pv != nil {
				if g := cl.flagOf(pv); g != "" {
					c.Check(g == flag, rule, pos, name, "is the value of --%s", g)
					return
				}
			}
			c.Undec(rule, name, "cannot relate %s to a flag", v)
		}
		return
	}
	if g := cl.flagOf(v); g != "" {
		c.Check(g == flag, rule, pos, name, "is the value of --%s, not of --%s", g, flag)
		return
	}
	if v.Op == eng.OConst || v.Op == eng.OField {
		c.Fail(rule, pos, name, "is always %s, so --%s is ignored", v, flag)
		return
	}
	if v.Any(func(x *eng.Term) bool { return cl.flagOf(x) == flag }) {
		c.Undec(rule, name, "is computed from --%s", flag)
		return
	}
	if v.Any(func(x *eng.Term) bool { return cl.flagOf(x) != "" }) {
		c.Fail(rule, pos, name, "isn't made from --%s: %s", flag, v)
		return
	}
	c.Undec(rule, name, "cannot relate %s to a flag", v)
}

// uris: at least one URI, each of them valid and with the common path.
func (cl *cli) uris(in *eng.Interp, p *eng.Path, run, parse *eng.Effect) {
	c := cl.c
	if run == parse {
		return
	}
	isURIs := func(t *eng.Term) bool { return cl.flagOf(t) == "uri" }
	some := false
	p.Facts.Each(func(t *eng.Term, v bool) {
		if t.Any(func(x *eng.Term) bool { return x.Op == eng.OLen && isURIs(x.Args[0]) }) {
			some = true
		}
	})
	c.Check(some, "uris", run.Pos, "uri required", "the command runs without checking that there is a URI to ask")
	for i, e := range p.Effects {
		if e == run {
			break
		}
		if e.Kind != eng.ELoop || e.Loop == nil {
			continue
		}
		parses := func(x *eng.Effect) bool {
			n := callName(x)
			return n == "net/url.ParseRequestURI" || n == "net/url.Parse"
		}
		has := false
		for _, it := range e.Loop.Iters {
			for _, x := range it.Effects {
				has = has || parses(x)
			}
		}
		if !has {
			continue
		}
		yes, known := headerExit(p.Effects, i)
		if known && !yes {
			c.Fail("uris", e.Pos, "every uri", "the command runs although not every URI was checked: %s", lastFact(p))
		} else if !known {
			c.Undec("uris", "every uri", "cannot tell how the loop ends")
		}
		for _, it := range e.Loop.Iters {
			cl.uri(in, it, e.Pos)
		}
	}
}

func (cl *cli) uri(in *eng.Interp, it *eng.Iter, pos token.Pos) {
	c := cl.c
	var u, str *eng.Term
	var at *eng.Effect
	var path *eng.Effect
	ofElem := func(t *eng.Term) bool {
		return t.Any(func(x *eng.Term) bool {
			return x.Op == eng.OLoad && x.Args[0].Op == eng.OIndex && x.Args[0].Any(func(y *eng.Term) bool { return cl.flagOf(y) == "uri" })
		})
	}
	kept := false
	for _, x := range it.Effects {
		n := callName(x)
		switch {
		case (n == "net/url.ParseRequestURI" || n == "net/url.Parse") && len(x.Args) == 1:
			at = x
			c.Check(ofElem(x.Args[0]), "uris", x.Pos, "each uri", "the parsed URI (%s) isn't the given one", x.Args[0])
			isnil, known := knownNil(in, it.Facts, errOf(x))
			c.Check(known && isnil, "uris", x.Pos, "each uri", "an invalid URI isn't reported")
			u = x.Result
			if u != nil && u.Op == eng.OTuple {
				u = u.Args[0]
			}
		case u != nil && n == "(*net/url.URL).String" && len(x.Args) == 1:
			if x.Args[0].Any(func(y *eng.Term) bool { return y == at.Result || y == u }) {
				str = x.Result
			}
		case u != nil && x.Kind == eng.EStore && x.Addr.FieldVar() != nil && x.Addr.FieldVar().Name() == "Path" && str == nil:
			path = x
		case str != nil && x.Kind == eng.EStore && mentions(x.Val, str) && x.Addr.Op == eng.OIndex && isString(derefType(x.Addr.Typ)):
			kept = x.Addr.Args[1].Op != eng.OConst && (cl.flagOf(x.Addr.Args[0]) != "uri" || mentions(at.Args[0], x.Addr.Args[1]))
		}
	}
	if u == nil {
		if len(it.Effects) > 0 {
			blank := false
			it.Facts.Each(func(t *eng.Term, v bool) {
				if t.Any(func(x *eng.Term) bool { return x.Op == eng.OLen && ofElem(x) }) {
					blank = true
				}
			})
			if !blank {
				c.Undec("uris", "each uri", "cannot tell why a URI isn't checked")
			}
		}
		return
	}
	if str != nil {
		for start, v := range it.Next {
			if grows(start, v) && mentions(v, str) {
				kept = true
			}
		}
		c.Check(kept, "uris", at.Pos, "each uri", "the checked URI isn't the one which is used")
	}
	if cl.target["uri-path"] == nil {
		return
	}
	given, not := false, false
	it.Facts.EachTerm(func(t *eng.Term) {
		if t.Op == eng.OLoad && cl.flagOf(t) == "uri-path" {
			if empty, known := it.Facts.Eval(in.T.Cmp(token.EQL, t, in.T.Str(""))); known {
				given, not = !empty, empty
			}
		}
	})
	switch {
	case path != nil:
		if c.Check(cl.flagOf(path.Val) == "uri-path" || path.Val.Any(func(x *eng.Term) bool { return cl.flagOf(x) == "uri-path" }), "uris", path.Pos, "uri-path", "the path of a URI becomes %s", path.Val) {
			c.Check(given, "uris", path.Pos, "uri-path", "the path of a URI is replaced although --uri-path isn't given")
		}
	case given:
		c.Fail("uris", at.Pos, "uri-path", "--uri-path isn't applied to a URI")
	case !not:
		c.Undec("uris", "uri-path", "the loop doesn't look at --uri-path")
	}
}

// grows: v is start with something appended.
func grows(start, v *eng.Term) bool {
	v = v.Strip()
	return v.Op == eng.OAppend && len(v.Args) > 0 && v.Args[0].Strip() == start.Strip()
}

// lastBefore: the values of the fields of an object when a call is made.
func lastBefore(es []*eng.Effect, call *eng.Effect, obj *eng.Term) map[string]*eng.Effect {
	out := map[string]*eng.Effect{}
	for _, e := range es {
		if e == call {
			break
		}
		if e.Kind == eng.EStore && e.Addr.Op == eng.OField && e.Addr.Root() == obj {
			name := ""
			for a := e.Addr; a != obj && a != nil && a.Op == eng.OField; a = a.Args[0] {
				if name != "" {
					name = "." + name
				}
				name = a.FieldVar().Name() + name
			}
			out[name] = e
		}
	}
	return out
}

// preparedField: the filter field f, as the prepared filter or the flag has it.
func (cl *cli) preparedField(rule string, pos token.Pos, name string, in *eng.Interp, p *eng.Path, v *eng.Term, f string) {
	c := cl.c
	if g := cl.filterField(v); g != "" {
		if !c.Check(g == f, rule, pos, name, "the %s of the request is the %s of the filter", f, g) {
			return
		}
		c.Check(cl.stored[f], rule, pos, name, "nothing sets the %s of the filter: --%s is ignored", f, filterFlag[f])
		return
	}
	cl.filterValue(rule, pos, name, in, p, v, f, filterFlag[f])
}

// search: the search command.
func (cl *cli) search(fn *ssa.Function) {
	c := cl.c
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api, MaxPaths: 4000})
	ps := in.ParamSyms(fn)
	name := c.P.FnName(fn)
	n := 0
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || p.Exit || len(p.Ret) != 1 {
			continue
		}
		var call, enc *eng.Effect
		calls, encs := 0, 0
		p.Walk(true, func(e *eng.Effect, loops []*eng.LoopInfo, async bool) {
			if c.methodCall(e, "Search") && len(e.Args) == 3 {
				call = e
				calls++
				if len(loops) > 0 || async {
					calls = 2
				}
			}
			if callName(e) == jsonEncE {
				enc = e
				encs++
			}
		})
		ret := p.Ret[0]
		rnil, rknown := knownNil(in, p.Facts, ret)
		if rknown && !rnil || nonNilErr(p.Facts, ret.Strip()) {
			c.OK("search", name+" error")
			continue
		}
		if call == nil {
			if rknown && rnil {
				c.Fail("search", fn.Pos(), name, "succeeds without searching: %s", lastFact(p))
			}
			continue
		}
		if calls != 1 {
			c.Undec("search", name, "searches more than once")
			continue
		}
		n++
		if k, known := knownNil(in, p.Facts, errOf(call)); !known || !k {
			c.Fail("search", call.Pos, name, "the error of the search is ignored")
			continue
		}
		cl.searchers(in, p, call)
		cl.request(in, p, call)
		if enc == nil {
			out := false
			p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				for _, a := range e.Args {
					if e.Kind == eng.ECall && cl.writerOf(a) == "Stdout" {
						out = true
					}
				}
			})
			if out {
				c.Undec("output", name, "the result is printed in a way which isn't recognised")
			} else {
				c.Fail("output", fn.Pos(), name, "succeeds without printing the result: %s", lastFact(p))
			}
			continue
		}
		if encs != 1 {
			c.Fail("output", enc.Pos, name, "prints the result %d times", encs)
			continue
		}
		// the result
		if ek := errOf(enc); ek != nil {
			k, known := knownNil(in, p.Facts, ek)
			c.Check(known && k || ret.Strip() == ek.Strip(), "output", enc.Pos, name+" write error", "a result which couldn't be written is reported as success")
		}
		res := call.Result
		if res != nil && res.Op == eng.OTuple {
			res = res.Args[0]
		}
		v := enc.Args[1].Strip()
		same := v == res || v.Any(func(x *eng.Term) bool { return x == res || x == call.Result })
		if !same && v.Op == eng.OAlloc {
			p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind == eng.EStore && e.Addr.Root() == v && e.Val.Any(func(x *eng.Term) bool { return x == res || x == call.Result }) {
					same = true
				}
			})
		}
		c.Check(same, "output", enc.Pos, name, "prints %s, not the result of the search", v)
		cl.encoder(in, p, enc, p.Effects)
		// what's left out
		respT := c.P.Named("", "SearchResponse")
		dropped := map[string]bool{}
		before := true
		p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			before = before && e != enc
			if !before || e.Kind != eng.EStore || e.Addr.Op != eng.OField || !structFieldOf(respT, e.Addr.FieldVar()) {
				return
			}
			f := e.Addr.FieldVar().Name()
			if isnil, known := knownNil(in, p.Facts, e.Val); known && isnil {
				dropped[f] = true
			} else if e.Val.Any(func(x *eng.Term) bool { return x == res || x == call.Result }) {
				dropped[f] = false
			} else {
				c.Undec("output", name, "the result is changed: %s", e)
			}
		})
		opts := map[string]string{"Request": "include-request", "Stats": "include-stats"}
		for f, d := range dropped {
			if d && opts[f] == "" {
				c.Fail("output", enc.Pos, name+" "+f, "the %s of the result is dropped", f)
			}
		}
		for f, flag := range opts {
			yes, no := boolKnown(p.Facts, func(t *eng.Term) bool { return cl.flagOf(t) == flag })
			switch {
			case yes:
				c.Check(!dropped[f], "output", enc.Pos, name+" "+f, "--%s is given, but the %s is dropped", flag, f)
			case no:
				c.Check(dropped[f], "output", enc.Pos, name+" "+f, "the %s is printed without --%s", f, flag)
			default:
				c.Fail("output", enc.Pos, name+" "+f, "--%s is ignored", flag)
			}
		}
	}
	if n == 0 {
		c.Undec("search", name, "no path searches and succeeds")
	}
}

// writerOf: which of the standard files t is.
func (cl *cli) writerOf(t *eng.Term) string {
	t = t.Strip()
	if t == nil {
		return ""
	}
	if g := globalOf(t); g != nil && g.Pkg.Pkg.Path() == "os" {
		return g.Name()
	}
	if t.Op == eng.OLoad {
		return cl.writers[t.Args[0].FieldVar()]
	}
	return ""
}

// encoder: JSON goes to stdout, indented if and only if that's asked for.
func (cl *cli) encoder(in *eng.Interp, p *eng.Path, enc *eng.Effect, es []*eng.Effect) {
	c := cl.c
	con := c.P.FnName(enc.Fn) + " encoder"
	e := enc.Args[0].Strip()
	var w *eng.Term
	e.Any(func(x *eng.Term) bool {
		if x.CalleeName() == jsonEnc && len(x.Args) == 1 {
			w = x.Args[0]
		}
		return false
	})
	if w == nil {
		c.Undec("output", con, "cannot tell where %s writes to", e)
	} else if g := cl.writerOf(w); g == "" || g == "?" {
		c.Undec("output", con, "cannot tell where %s writes to", w)
	} else {
		c.Check(g == "Stdout", "output", enc.Pos, con, "results are written to os.%s", g)
	}
	indent := false
	for _, x := range es {
		if callName(x) == "(*encoding/json.Encoder).SetIndent" && x.Args[0].Strip() == e {
			indent = true
			for _, a := range x.Args[1:] {
				if s, ok := a.StrConst(); ok && s != "" {
					indent = true
				}
			}
		}
	}
	is := map[string]bool{}
	isnt := map[string]bool{}
	p.Facts.Each(func(t *eng.Term, v bool) {
		a, b := eqSides(t)
		if a == nil {
			return
		}
		for _, x := range [][2]*eng.Term{{a, b}, {b, a}} {
			if s, ok := x[1].StrConst(); ok && cl.flagOf(x[0]) == "output" {
				if v {
					is[s] = true
				} else {
					isnt[s] = true
				}
			}
		}
	})
	switch {
	case is["prettyjson"]:
		c.Check(indent, "output", enc.Pos, con, "--output prettyjson isn't indented")
	case is["ndjson"] || isnt["prettyjson"]:
		c.Check(!indent, "output", enc.Pos, con, "--output ndjson spans several lines")
	case len(is)+len(isnt) == 0:
		c.Fail("output", enc.Pos, con, "--output is ignored")
	default:
		c.Undec("output", con, "cannot tell the output format")
	}
}

// searchers: every URI is searched.
func (cl *cli) searchers(in *eng.Interp, p *eng.Path, call *eng.Effect) {
	c := cl.c
	con := c.P.FnName(call.Fn) + " searchers"
	recv := call.Args[0].Strip()
	made := func(x *eng.Effect) bool { return callName(x) == trcWeb+".NewSearchClient" && len(x.Args) == 2 }
	found := false
	for i, e := range p.Effects {
		if e == call {
			break
		}
		if e.Kind != eng.ELoop || e.Loop == nil {
			continue
		}
		has := false
		for _, it := range e.Loop.Iters {
			for _, x := range it.Effects {
				has = has || made(x)
			}
		}
		if !has {
			continue
		}
		found = true
		yes, known := headerExit(p.Effects, i)
		if !known {
			c.Undec("every-uri", con, "cannot tell how the loop over the URIs ends")
		} else {
			c.Check(yes, "every-uri", e.Pos, con, "the loop over the URIs is left early: %s", lastFact(p))
		}
		for _, it := range e.Loop.Iters {
			var cs []*eng.Effect
			for _, x := range it.Effects {
				if made(x) {
					cs = append(cs, x)
				}
			}
			if len(cs) == 0 {
				about := false
				it.Facts.EachTerm(func(t *eng.Term) {
					about = about || t.Op == eng.OLoad && t.Args[0].Op == eng.OIndex && cl.flagOf(t.Args[0].Args[0]) == "uri"
				})
				if about {
					c.Undec("every-uri", con, "an iteration makes no client, depending on the URI")
				} else {
					c.Fail("every-uri", e.Pos, con, "an instance isn't searched: %s", strings.Join(it.Facts.Strings(), " & "))
				}
				continue
			}
			if !c.Check(len(cs) == 1, "every-uri", e.Pos, con, "an instance is searched %d times", len(cs)) {
				continue
			}
			x := cs[0]
			u := x.Args[1].Strip()
			elem := u.Op == eng.OLoad && u.Args[0].Op == eng.OIndex && cl.flagOf(u.Args[0].Args[0]) == "uri"
			ranged := elem && u.Args[0].Args[1].Op != eng.OConst
			if !elem && u.Any(func(y *eng.Term) bool { return cl.flagOf(y) == "uri" }) {
				c.Undec("every-uri", con, "cannot tell which URI %s is", u)
			} else {
				c.Check(ranged, "every-uri", x.Pos, con, "a client is made for %s, not for the URI at hand", u)
			}
			kept := false
			for start, v := range it.Next {
				if grows(start, v) && mentions(v, x.Result) {
					kept = true
				}
			}
			for _, y := range it.Effects {
				if y.Kind == eng.EStore && y.Addr.Op == eng.OIndex && y.Addr.Root() == recv.Root() && mentions(y.Val, x.Result) {
					kept = true
				}
			}
			c.Check(kept, "every-uri", x.Pos, con, "a client isn't kept with the others, so its instance isn't searched")
		}
	}
	if !found {
		c.Undec("every-uri", con, "the clients aren't made in a loop over the URIs")
	}
}

// request: the search request says what the flags say.
func (cl *cli) request(in *eng.Interp, p *eng.Path, call *eng.Effect) {
	c := cl.c
	con := c.P.FnName(call.Fn) + " request"
	req := call.Args[2].Strip()
	fs := lastBefore(p.Effects, call, req)
	if req.Op != eng.OAlloc || len(fs) == 0 {
		c.Undec("request", con, "cannot see how the request is made")
		return
	}
	for f := range filterFlag {
		e := fs["Filter."+f]
		if e == nil {
			c.Fail("request", call.Pos, con+" "+f, "the %s of the filter isn't requested, so --%s is ignored", f, filterFlag[f])
			continue
		}
		cl.preparedField("request", e.Pos, con+" "+f, in, p, e.Val, f)
	}
	if e := fs["Limit"]; e == nil {
		c.Fail("request", call.Pos, con+" Limit", "--limit is ignored")
	} else if g := cl.flagOf(e.Val); g != "" {
		c.Check(g == "limit", "request", e.Pos, con+" Limit", "the limit is --%s", g)
	} else if e.Val.Strip().Op == eng.OConst {
		c.Fail("request", e.Pos, con+" Limit", "the limit is always %s", e.Val)
	} else {
		c.Undec("request", con+" Limit", "cannot relate %s to a flag", e.Val)
	}
	e := fs["StackDepth"]
	if e == nil {
		c.Fail("request", call.Pos, con+" StackDepth", "--stack-depth is ignored")
		return
	}
	v := e.Val.Strip()
	var flagT *eng.Term
	p.Facts.EachTerm(func(t *eng.Term) {
		t.Any(func(x *eng.Term) bool {
			if cl.flagOf(x) == "stack-depth" {
				flagT = x
			}
			return false
		})
	})
	if cl.flagOf(v) == "stack-depth" {
		flagT = v
	}
	if flagT == nil {
		if v.Op == eng.OConst || cl.flagOf(v) != "" {
			c.Fail("request", e.Pos, con+" StackDepth", "the stack depth is %s, whatever --stack-depth says", v)
		} else {
			c.Undec("request", con+" StackDepth", "cannot relate %s to a flag", v)
		}
		return
	}
	eq, known := p.Facts.Eval(in.T.Cmp(token.EQL, flagT, in.T.Int(0)))
	if !known {
		le, k := p.Facts.Eval(in.T.Cmp(token.LEQ, flagT, in.T.Int(0)))
		if k && !le {
			eq, known = false, true
		}
	}
	n, isConst := v.IntConst()
	switch {
	case isConst && known && eq:
		c.Check(n < 0, "request", e.Pos, con+" StackDepth", "without --stack-depth, %d stack frames are requested (0 means all)", n)
	case isConst && !known:
		le, k := p.Facts.Eval(in.T.Cmp(token.LEQ, flagT, in.T.Int(0)))
		c.Check(k && le && n < 0, "request", e.Pos, con+" StackDepth", "the stack depth is %d, whatever --stack-depth says", n)
	case isConst:
		c.Check(n < 0 && impliesNeg(in, p, flagT), "request", e.Pos, con+" StackDepth", "the stack depth is %d although --stack-depth is given", n)
	case cl.flagOf(v) == "stack-depth":
		c.Check(known && !eq, "request", e.Pos, con+" StackDepth", "without --stack-depth, 0 is requested, which means all stack frames")
	case cl.flagOf(v) != "":
		c.Fail("request", e.Pos, con+" StackDepth", "the stack depth is --%s", cl.flagOf(v))
	default:
		c.Undec("request", con+" StackDepth", "cannot relate %s to a flag", v)
	}
}

func impliesNeg(in *eng.Interp, p *eng.Path, t *eng.Term) bool {
	lt, k := p.Facts.Eval(in.T.Cmp(token.LSS, t, in.T.Int(0)))
	return k && lt
}

// stream: the stream command.
func (cl *cli) stream(fn *ssa.Function) {
	c := cl.c
	in := eng.NewInterp(c.P, eng.Config{Inline: func(f *ssa.Function) bool { return c.api(f) || f.Name() == "NewStreamClient" && pkgPath(f) == trcWeb }, MaxPaths: 4000})
	ps := in.ParamSyms(fn)
	name := c.P.FnName(fn)
	n := 0
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || p.Exit || len(p.Ret) != 1 {
			continue
		}
		if isnil, known := knownNil(in, p.Facts, p.Ret[0]); known && !isnil {
			continue
		}
		streams := 0
		p.Walk(true, func(e *eng.Effect, loops []*eng.LoopInfo, async bool) {
			if callName(e) == "(*"+trcWeb+".StreamClient).Stream" && len(e.Args) == 4 {
				streams++
			}
		})
		if streams == 0 {
			c.Fail("stream", fn.Pos(), name, "returns without streaming, and without an error: %s", lastFact(p))
			continue
		}
		n++
		cl.streamPath(in, fn, p)
	}
	if n == 0 {
		c.Undec("stream", name, "no path streams")
	}
}

// nested calls f for every list of effects below p: the path itself, and those
// of the functions it hands out, with the effects around them.
func nested(p *eng.Path, f func(sub *eng.Path, chain []*eng.Path, async bool)) {
	var path func(p *eng.Path, chain []*eng.Path, async bool)
	var effects func(es []*eng.Effect, p *eng.Path, chain []*eng.Path, async bool)
	effects = func(es []*eng.Effect, p *eng.Path, chain []*eng.Path, async bool) {
		for _, e := range es {
			for _, s := range e.Sub {
				path(s, append(append([]*eng.Path{}, chain...), p), async || e.Kind == eng.EGo)
			}
			if e.Loop != nil {
				for _, it := range e.Loop.Iters {
					effects(it.Effects, p, chain, async)
				}
			}
		}
	}
	path = func(p *eng.Path, chain []*eng.Path, async bool) {
		f(p, chain, async)
		effects(p.Effects, p, chain, async)
	}
	path(p, nil, false)
}

func (cl *cli) streamPath(in *eng.Interp, fn *ssa.Function, p *eng.Path) {
	c := cl.c
	name := c.P.FnName(fn)
	isStream := func(e *eng.Effect) bool {
		return callName(e) == "(*"+trcWeb+".StreamClient).Stream" && len(e.Args) == 4
	}
	hasStream := func(es []*eng.Effect, sub bool) bool {
		has := false
		(&eng.Path{Effects: es}).Walk(sub, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) { has = has || isStream(e) })
		return has
	}
	var ch *eng.Term
	// the last value of the two flags which say what's streamed
	events, nevents := boolKnown(p.Facts, func(t *eng.Term) bool { return cl.flagOf(t) == "events" })
	if !events && !nevents {
		c.Fail("stream", fn.Pos(), name+" events", "--events is ignored: %s", lastFact(p))
	}
	filterT := c.P.Named("", "Filter")
	overrides := map[string]*eng.Effect{}
	for _, e := range p.Effects {
		has := false
		for _, s := range e.Sub {
			has = has || hasStream(s.Effects, true)
		}
		if has || isStream(e) {
			break
		}
		if e.Kind == eng.EStore && e.Addr.Op == eng.OField && structFieldOf(filterT, e.Addr.FieldVar()) && e.Addr.Args[0].Op == eng.OField {
			overrides[e.Addr.FieldVar().Name()] = e
		}
	}
	nested(p, func(s *eng.Path, chain []*eng.Path, async bool) {
		// the loop over the URIs
		for i, e := range s.Effects {
			if e.Kind != eng.ELoop || e.Loop == nil {
				continue
			}
			over := false
			for _, it := range e.Loop.Iters {
				if hasStream(it.Effects, true) {
					for _, x := range it.Effects {
						over = over || x.Kind == eng.EBranch && x.Site != nil && x.Site.Block() == e.Loop.Header && x.Val.Any(func(y *eng.Term) bool { return y.Op == eng.OLen && cl.flagOf(y.Args[0]) == "uri" })
					}
				}
			}
			if !over {
				continue
			}
			con := c.P.FnName(e.Fn) + " streams"
			yes, known := headerExit(s.Effects, i)
			if !known {
				c.Undec("every-uri", con, "cannot tell how the loop over the URIs ends")
			} else {
				c.Check(yes, "every-uri", e.Pos, con, "the loop over the URIs is left early")
			}
			for _, it := range e.Loop.Iters {
				starts := 0
				for _, x := range it.Effects {
					if a := sharedVar(x, it); a != nil && len(x.Sub) > 0 && a.Val.Any(func(y *eng.Term) bool { return cl.flagOf(y) == "uri" }) {
						c.Fail("every-uri", x.Pos, con, "the goroutines share the variable which holds the URI, so they may all stream the same instance")
					}
					if isStream(x) {
						c.Fail("every-uri", x.Pos, con, "an instance is streamed before the next one is started, and so alone")
					}
					for _, sub := range x.Sub {
						if hasStream(sub.Effects, true) {
							starts++
							if x.Kind != eng.EGo && !strings.HasSuffix(callName(x), ".Add") && !strings.HasSuffix(callName(x), ".Go") {
								c.Undec("every-uri", con, "a stream is started by %s", x)
							}
							break
						}
					}
				}
				c.Check(starts == 1, "every-uri", e.Pos, con, "%d streams are started for a URI", starts)
			}
		}
		// the stream calls
		var calls []*eng.Effect
		inLoop := map[*eng.Effect]bool{}
		s.Walk(false, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
			if isStream(e) {
				calls = append(calls, e)
				inLoop[e] = len(loops) > 0
			}
		})
		for _, e := range calls {
			ch = e.Args[3].Strip()
			cl.streamCall(in, p, e, append(append([]*eng.Path{}, chain...), s), overrides, events)
		}
		// it's kept up
		if async && hasStream(s.Effects, true) {
			cl.keptUp(in, s, fn, hasStream, isStream)
		}
	})
	if ch == nil {
		return
	}
	cl.writer(in, fn, p, ch)
}

// sharedVar: the store by which the iteration changes a variable that a closure
// started by x uses, and which is the same in every iteration.
func sharedVar(x *eng.Effect, it *eng.Iter) *eng.Effect {
	if x.Kind != eng.EGo || x.Addr == nil || x.Site == nil {
		return nil
	}
	g, _ := x.Site.(*ssa.Go)
	if g == nil {
		return nil
	}
	mc, _ := g.Call.Value.(*ssa.MakeClosure)
	if mc == nil {
		return nil
	}
	for _, b := range mc.Bindings {
		al, _ := b.(*ssa.Alloc)
		if al == nil || sameLoop(al.Block(), g.Block()) {
			continue
		}
		for _, e := range it.Effects {
			if e == x {
				break
			}
			if st, ok := e.Site.(*ssa.Store); ok && e.Kind == eng.EStore && st.Addr == al {
				return e
			}
		}
	}
	return nil
}

// sameLoop: b is reached from a, and a from b.
func sameLoop(a, b *ssa.BasicBlock) bool {
	reach := func(from, to *ssa.BasicBlock) bool {
		seen := map[*ssa.BasicBlock]bool{}
		work := append([]*ssa.BasicBlock{}, from.Succs...)
		for len(work) > 0 {
			x := work[0]
			work = work[1:]
			if x == to {
				return true
			}
			if !seen[x] {
				seen[x] = true
				work = append(work, x.Succs...)
			}
		}
		return false
	}
	return reach(b, a)
}

// keptUp: a goroutine which streams in a loop stops only with its context.
func (cl *cli) keptUp(in *eng.Interp, s *eng.Path, fn *ssa.Function, hasStream func([]*eng.Effect, bool) bool, isStream func(*eng.Effect) bool) {
	c := cl.c
	con := c.P.FnName(fn) + " keeps streaming"
	loop := -1
	direct := false
	for i, e := range s.Effects {
		if e.Kind == eng.ELoop && e.Loop != nil {
			for _, it := range e.Loop.Iters {
				if hasStream(it.Effects, true) {
					loop = i
				}
			}
		}
		direct = direct || isStream(e)
	}
	if loop < 0 {
		if direct {
			return // the goroutine for one attempt
		}
		ends := false
		for _, e := range s.Effects {
			ends = ends || endsWithContext(in, s, e)
		}
		if !ends {
			c.Fail("stream", s.Root.Pos(), con, "an instance whose stream fails isn't tried again")
		}
		return
	}
	ends := false
	for _, e := range s.Effects[loop+1:] {
		ends = ends || endsWithContext(in, s, e)
	}
	c.Check(ends, "stream", s.Effects[loop].Pos, con, "an instance is given up although its context isn't done: %s", lastFact(s))
}

// endsWithContext: e shows that a context is done.
func endsWithContext(in *eng.Interp, s *eng.Path, e *eng.Effect) bool {
	switch e.Kind {
	case eng.EBranch:
		return e.Val.Any(func(x *eng.Term) bool {
			if x.CalleeName() != "(context.Context).Err" {
				return false
			}
			isnil, known := knownNil(in, s.Facts, x)
			return known && !isnil
		})
	case eng.ESelect:
		return e.Case >= 0 && !e.Cases[e.Case].Send && isDoneCall(e.Cases[e.Case].Chan)
	case eng.ERecv:
		return e.Addr != nil && isDoneCall(e.Addr)
	}
	return false
}

func (cl *cli) streamCall(in *eng.Interp, p *eng.Path, call *eng.Effect, chain []*eng.Path, overrides map[string]*eng.Effect, events bool) {
	c := cl.c
	con := c.P.FnName(call.Fn) + " stream call"
	sc := call.Args[0].Strip()
	fs := map[string]*eng.Effect{}
	for _, s := range chain {
		s.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			if e.Kind == eng.EStore && e.Addr.Op == eng.OField && e.Addr.Args[0] == sc {
				fs[e.Addr.FieldVar().Name()] = e
			}
		})
	}
	if sc.Op == eng.OAlloc && len(fs) > 0 {
		for f, flag := range map[string]string{"SendBuffer": "send-buffer", "RetryInterval": "retry-interval", "StatsInterval": "stats-interval"} {
			e := fs[f]
			switch {
			case e == nil:
				c.Fail("stream", call.Pos, con+" "+f, "--%s is ignored", flag)
			case cl.flagOf(e.Val) != "":
				c.Check(cl.flagOf(e.Val) == flag, "stream", e.Pos, con+" "+f, "the %s is --%s", f, cl.flagOf(e.Val))
			case e.Val.Strip().Op == eng.OConst:
				c.Fail("stream", e.Pos, con+" "+f, "the %s is always %s", f, e.Val)
			default:
				c.Undec("stream", con+" "+f, "cannot relate %s to a flag", e.Val)
			}
		}
		if e := fs["URI"]; e == nil {
			c.Fail("every-uri", call.Pos, con+" URI", "the stream has no URI")
		} else {
			u := e.Val.Strip()
			elem := u.Op == eng.OLoad && u.Args[0].Op == eng.OIndex && cl.flagOf(u.Args[0].Args[0]) == "uri"
			switch {
			case elem:
				c.Check(u.Args[0].Args[1].Op != eng.OConst, "every-uri", e.Pos, con+" URI", "every stream is of %s", u)
			case u.Any(func(y *eng.Term) bool { return cl.flagOf(y) == "uri" }):
				c.Undec("every-uri", con+" URI", "cannot tell which URI %s is", u)
			case u.Op == eng.OLoad && u.Args[0].Op == eng.OAlloc:
				c.Fail("every-uri", e.Pos, con+" URI", "the streams share the variable which holds the URI, so they may all stream the same instance")
			default:
				c.Undec("every-uri", con+" URI", "cannot tell which URI %s is", u)
			}
		}
	} else {
		c.Undec("stream", con, "cannot see how the client is made")
	}
	f := call.Args[2].Strip()
	for fld := range filterFlag {
		v := structField(f, fld)
		if v == nil {
			if f.Op == eng.OLoad {
				fT := c.P.Named("", "Filter")
				fv := fieldNamed(fT, fld)
				i := fieldIndex(fT, fv)
				v = in.T.Load(in.T.Field(f.Args[0], i, fv), fv.Type())
			} else {
				c.Undec("stream", con+" "+fld, "cannot see the filter %s", f)
				continue
			}
		}
		name := con + " " + fld
		switch fld {
		case "IsActive", "IsFinished":
			want := fld == "IsFinished" && !events
			if e := overrides[fld]; e != nil && cl.filterField(v) == fld {
				v = e.Val
			}
			b, ok := v.Strip().BoolConst()
			switch {
			case ok:
				c.Check(b == want, "stream", call.Pos, name, "is %v, so %s", b, map[bool]string{true: "the stream isn't of the selected traces (events: every change, otherwise: finished traces)", false: "active traces are streamed as if they were finished"}[b])
			case cl.flagOf(v) == "events" && fld == "IsFinished":
				c.Fail("stream", call.Pos, name, "is the opposite of what --events says")
			case cl.flagOf(v) != "" || cl.filterField(v) != "":
				c.Fail("stream", call.Pos, name, "isn't determined by --events: %s", v)
			case v.Strip().Any(func(x *eng.Term) bool { return cl.flagOf(x) == "events" }):
				c.OK("stream", name)
			case v.Strip().Any(func(x *eng.Term) bool {
				ff := cl.filterField(x)
				return cl.flagOf(x) != "" || ff != "" && ff != fld
			}):
				c.Fail("stream", call.Pos, name, "isn't determined by --events: %s", v)
			default:
				c.Undec("stream", name, "cannot relate %s to a flag", v)
			}
		default:
			if e := overrides[fld]; e != nil {
				v = e.Val
			}
			cl.preparedField("stream", call.Pos, name, in, p, v, fld)
		}
	}
}

// sameChan: both are the same variable, which is set once.
func sameChan(a, b *eng.Term) bool {
	a, b = a.Strip(), b.Strip()
	if a == b {
		return true
	}
	return a.Op == eng.OLoad && b.Op == eng.OLoad && a.Args[0].FieldVar() != nil && a.Args[0].FieldVar() == b.Args[0].FieldVar()
}

// writer: each streamed trace is printed once.
func (cl *cli) writer(in *eng.Interp, fn *ssa.Function, p *eng.Path, ch *eng.Term) {
	c := cl.c
	con := c.P.FnName(fn) + " output"
	recvd := func(e *eng.Effect) *eng.Term {
		if e.Kind == eng.ESelect && e.Case >= 0 && !e.Cases[e.Case].Send && sameChan(e.Cases[e.Case].Chan, ch) {
			return e.Val
		}
		if e.Kind == eng.ERecv && e.Addr != nil && sameChan(e.Addr, ch) {
			return e.Val
		}
		return nil
	}
	found := false
	nested(p, func(s *eng.Path, chain []*eng.Path, async bool) {
		check := func(es []*eng.Effect, facts *eng.Facts) {
			var v *eng.Term
			var at, enc *eng.Effect
			encs := 0
			for _, e := range es {
				if x := recvd(e); x != nil {
					v, at = x, e
				}
				if callName(e) == jsonEncE && at != nil {
					encs++
					enc = e
				}
			}
			if at == nil {
				return
			}
			found = true
			if enc == nil {
				other := false
				facts.Each(func(t *eng.Term, b bool) {
					a, _ := eqSides(t)
					if a != nil && b && t.Any(func(x *eng.Term) bool { return cl.flagOf(x) == "output" }) {
						other = true
					}
				})
				none := map[string]bool{}
				facts.Each(func(t *eng.Term, b bool) {
					if a, bb := eqSides(t); a != nil && !b && t.Any(func(x *eng.Term) bool { return cl.flagOf(x) == "output" }) {
						for _, k := range []*eng.Term{a, bb} {
							if s, ok := k.StrConst(); ok {
								none[s] = true
							}
						}
					}
				})
				if !other && none["ndjson"] && none["prettyjson"] {
					return // no such format
				}
				used := false
				for _, e := range es {
					if e.Kind == eng.ECall {
						if _, m := c.traceMethod(e); m != "" {
							continue
						}
						for _, a := range e.Args {
							used = used || v != nil && mentions(a, v)
						}
					}
				}
				if used {
					c.Undec("output", con, "a received trace is handled in a way which isn't recognised")
				} else {
					c.Fail("output", at.Pos, con, "a received trace isn't printed: %s", lastFact(s))
				}
				return
			}
			if v != nil {
				c.Check(mentions(enc.Args[1], v), "output", enc.Pos, con, "%s is printed, not the received trace", enc.Args[1])
			}
			if c.Check(encs == 1, "output", enc.Pos, con, "a received trace is printed %d times", encs) {
				cl.encoder(in, s, enc, append(append([]*eng.Effect{}, s.Effects...), es...))
			}
		}
		for _, e := range s.Effects {
			if e.Kind == eng.ELoop && e.Loop != nil {
				for _, it := range e.Loop.Iters {
					check(it.Effects, it.Facts)
				}
			}
		}
		// left while a trace is at hand
		after := false
		for _, e := range s.Effects {
			if e.Kind == eng.ELoop {
				after = true
			}
			if after && recvd(e) != nil {
				c.Fail("output", e.Pos, con, "the output ends with a received trace: %s", lastFact(s))
			}
		}
	})
	if !found {
		c.Undec("output", con, "nothing is seen to receive the traces")
	}
}

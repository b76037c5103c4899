package rules

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// innerField: the Trace-typed field of a wrapper.
func (c *C) innerField(n *types.Named) *types.Var {
	for _, f := range fieldsOf(n) {
		if types.Identical(f.Type(), c.traceType()) {
			return f
		}
	}
	return nil
}

func isInner(t *eng.Term, recv *eng.Term, f *types.Var) bool {
	t = t.Strip()
	if t.Op != eng.OLoad {
		return false
	}
	b, ok := directField(t.Args[0], f)
	return ok && b == recv
}

// hasMethodField: the field of n whose type has a method with that name.
func methodField(n *types.Named, meth string) *types.Var {
	for _, f := range fieldsOf(n) {
		if obj, _, _ := types.LookupFieldOrMethod(f.Type(), true, nil, meth); obj != nil {
			if _, ok := obj.(*types.Func); ok && !f.Embedded() {
				return f
			}
		}
	}
	return nil
}

type indexed struct {
	e     *eng.Effect
	i     int
	loop  bool
	async bool
}

// C06: wrappers forward every event exactly once and unchanged.
func c06(c *C) {
	ws := c.wrappers()
	for _, w := range ws {
		c.wrapper(w)
	}
	c.Floor("forward-once", 12)
	c.ez()
	c.prefixRule()
	c.regionRule()
	c.loggerRule()
	c.formatSafety()
}

func (c *C) wrapper(w *types.Named) {
	inner := c.innerField(w)
	pub := methodField(w, "Publish")
	var dst *types.Var
	for _, f := range fieldsOf(w) {
		if isNamed(f.Type(), "io", "Writer") {
			dst = f
		}
	}
	marks := map[bool]map[string]token.Pos{false: {}, true: {}} // of log lines of normal and error events
	for _, m := range append([]string{"Finish"}, eventMethods...) {
		fn := c.P.Method(w, m)
		own := fn != nil && namedOf(fn.Signature.Recv().Type()) != nil && namedOf(fn.Signature.Recv().Type()).Obj() == w.Obj() && fn.Synthetic == ""
		name := w.Obj().Name() + "." + m
		if !own {
			if pub != nil {
				c.Fail("publish-after-record", w.Obj().Pos(), name, "%s is not intercepted, so subscribers never see the change", m)
			}
			if dst != nil {
				c.Fail("log-once", w.Obj().Pos(), name, "%s is not intercepted, so it isn't logged", m)
			}
			c.OK("forward-once", name+" (promoted)")
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		ps := in.ParamSyms(fn)
		outcomes := map[bool]map[string]token.Pos{false: {}, true: {}}
		for _, p := range c.Run(in, fn, nil, ps) {
			if p.Panic != nil || p.Exit {
				continue
			}
			var calls, pubs, logs, other, reads, formats []indexed
			i := 0
			p.Walk(true, func(e *eng.Effect, loops []*eng.LoopInfo, async bool) {
				i++
				x := indexed{e, i, len(loops) > 0, async || e.Async}
				if m != "Finish" && e.Kind == eng.ECall && len(e.Args) > 0 && e.Args[0].Strip().Op == eng.OAlloc {
					formats = append(formats, x)
				}
				if recv, mm := c.traceMethod(e); mm != "" && isInner(recv, ps[0], inner) {
					if mm == "Duration" {
						reads = append(reads, x)
					}
					if mm == m {
						calls = append(calls, x)
					} else if mm == "Finish" || contains(eventMethods, mm) {
						other = append(other, x)
					}
				}
				if strings.HasSuffix(callName(e), ").Publish") {
					pubs = append(pubs, x)
				}
				if dst != nil && e.Kind == eng.ECall {
					for _, a := range e.Args {
						if isInner(a, ps[0], dst) {
							logs = append(logs, x)
							break
						}
					}
				}
			})
			c.Check(len(other) == 0, "forward-kind", posOf2(other, fn), name, "forwards a %s as another kind of call", m)
			if len(other) > 0 {
				continue
			}
			if pub != nil && len(calls) != 1 && len(pubs) == 0 {
				c.Fail("publish-after-record", fn.Pos(), name, "a path doesn't publish the trace: %s", strings.Join(p.FactStrings(), " & "))
			}
			if !c.Check(len(calls) == 1 && !calls[0].loop && !calls[0].async, "forward-once", fn.Pos(), name, "a path forwards the call to the wrapped trace %d times: %s", len(calls), strings.Join(p.FactStrings(), " & ")) {
				continue
			}
			call := calls[0].e
			if m != "Finish" {
				p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
					if (e.Kind == eng.EStore || e.Kind == eng.ECopy) && e.Addr != nil && len(ps) > 2 && e.Addr.Root() == ps[2] {
						c.Fail("forward-args", e.Pos, name, "the given args are modified in place: %s := %s", e.Addr, e.Val)
					}
				})
			}
			if m != "Finish" && len(call.Args) == 3 {
				c.forwardArgs(in, call, ps, w, name)
			}
			if pub != nil {
				ok := false
				for _, x := range pubs {
					if x.i > calls[0].i && !x.async && len(x.e.Args) >= 2 {
						a := x.e.Args[len(x.e.Args)-1]
						if isInner(a, ps[0], inner) || a.Strip() == ps[0] {
							ok = true
						}
					}
				}
				c.Check(len(pubs) < 2 && !(len(pubs) == 1 && pubs[0].loop), "publish-after-record", fn.Pos(), name+" once", "a path publishes the trace %d times: %s", len(pubs), strings.Join(p.FactStrings(), " & "))
				c.Check(ok, "publish-after-record", fn.Pos(), name, "a path doesn't publish the trace after recording the change: %s", strings.Join(p.FactStrings(), " & "))
			}
			if dst != nil {
				if c.Check(len(logs) == 1 && !logs[0].loop, "log-once", fn.Pos(), name, "a path writes the log line %d times", len(logs)) && m == "Finish" {
					if c.Check(logs[0].i > calls[0].i, "log-after-finish", logs[0].e.Pos, name, "the outcome and duration are logged before the trace is finished") && len(reads) > 0 {
						c.Check(reads[len(reads)-1].i > calls[0].i, "log-after-finish", reads[0].e.Pos, name, "the duration that's logged is taken before the trace is finished")
					}
					c.logOutcome(p, ps[0], inner, outcomes)
				} else if len(logs) == 1 {
					l := logs[0].e
					okf, oka := false, false
					las := l.Args
					for _, x := range formats {
						if x.i < logs[0].i { // into a buffer of its own, which is then written
							las = append(las[:len(las):len(las)], x.e.Args...)
						}
					}
					for _, a := range las {
						a.Any(func(t *eng.Term) bool {
							if t.Op == eng.OSlice && strings.HasPrefix(t.Args[0].Strip().CalleeName(), "fmt.") {
								c.Fail("log-text", l.Pos, name, "only a part of the event is logged: %s", t)
							}
							return false
						})
						if a.Any(func(t *eng.Term) bool { return t == ps[1] }) {
							okf = true
						}
						if a.Strip() == ps[2] || a.Any(func(t *eng.Term) bool { return t == ps[2] }) {
							oka = true
						}
					}
					var text []string
					for _, a := range las {
						a.Any(func(t *eng.Term) bool {
							if s, ok := t.StrConst(); ok && strings.TrimSpace(s) != "" {
								text = append(text, strings.TrimSpace(s))
							}
							return false
						})
					}
					marks[isErrKind(m)][strings.Join(text, "|")] = l.Pos
					c.Check(okf && oka, "log-text", l.Pos, name, "the log line isn't made from the given format and args")
				}
			}
		}
		for s, pos := range outcomes[true] {
			if _, both := outcomes[false][s]; both {
				c.Fail("log-outcome", pos, name, "the same outcome is logged (%s) for a trace that is errored and one that isn't", s)
			}
		}
		if len(outcomes[true]) > 0 && len(outcomes[false]) > 0 {
			c.OK("log-outcome", name)
		}
	}
	for s, pos := range marks[true] {
		if _, both := marks[false][s]; both {
			c.Fail("log-marked", pos, w.Obj().Name(), "an error event is logged like a normal one")
		} else {
			c.OK("log-marked", w.Obj().Name())
		}
	}
	if pub != nil || dst != nil {
		c.createdRule(w, pub, dst)
	}
	// Free
	if fn := c.P.Method(w, "Free"); fn != nil && fn.Synthetic == "" {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		ps := in.ParamSyms(fn)
		name := w.Obj().Name() + ".Free"
		for _, p := range c.Run(in, fn, nil, ps) {
			n := 0
			p.Walk(true, func(e *eng.Effect, loops []*eng.LoopInfo, async bool) {
				if strings.HasSuffix(callName(e), ".Free") && len(e.Args) == 1 {
					a := e.Args[0].Strip()
					if isInner(a, ps[0], inner) || (a.Op == eng.OAssert && isInner(a.Args[0], ps[0], inner)) || a.Any(func(t *eng.Term) bool { return isInner(t, ps[0], inner) }) {
						n++
					}
				}
			})
			supported, known := false, false
			p.Facts.Each(func(t *eng.Term, v bool) {
				if t.Op == eng.OAssertOk && isInner(t.Args[0], ps[0], inner) {
					supported, known = v, true
				}
			})
			if known && !supported {
				c.Check(n == 0, "free-forwarded", fn.Pos(), name, "frees a trace that doesn't support it")
				continue
			}
			c.Check(n == 1, "free-forwarded", fn.Pos(), name, "a path forwards Free to the wrapped trace %d times", n)
		}
	} else if pub != nil || dst != nil {
		c.Fail("free-forwarded", w.Obj().Pos(), w.Obj().Name(), "a decorator doesn't forward Free, so traces collected through it are never recycled")
	}
}

// logOutcome collects what's logged when the trace is finished, by whether the
// trace is errored.
func (c *C) logOutcome(p *eng.Path, self *eng.Term, inner *types.Var, out map[bool]map[string]token.Pos) {
	errored, known := false, false
	p.Facts.Each(func(t *eng.Term, v bool) {
		if strings.HasSuffix(t.CalleeName(), ").Errored") && len(t.Args) == 1 && isInner(t.Args[0], self, inner) {
			errored, known = v, true
		}
	})
	if !known {
		return
	}
	var text []string
	p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		note := func(t *eng.Term) {
			if t == nil {
				return
			}
			if s, ok := t.Strip().StrConst(); ok && s != "" {
				text = append(text, s)
			}
		}
		switch e.Kind {
		case eng.EStore:
			note(e.Val)
		case eng.ECall:
			for _, a := range e.Args {
				note(a)
			}
		}
	})
	if len(text) > 0 {
		out[errored][strings.Join(text, "|")] = p.EndPos
	}
}

func contains(ss []string, s string) bool {
	for _, x := range ss {
		if x == s {
			return true
		}
	}
	return false
}

// nothing: an empty slice.
func nothing(t *eng.Term) bool {
	t = t.Strip()
	if t.IsNil() || t.Op == eng.OZero {
		return true
	}
	n := t
	if t.Op == eng.OSlice {
		n = t.Args[2]
	} else if t.Op == eng.OMkSlice {
		n = t.Args[0]
	}
	if n == nil || n == t {
		return false
	}
	k, ok := n.IntConst()
	return ok && k == 0
}

func posOf2(xs []indexed, fn *ssa.Function) token.Pos {
	if len(xs) > 0 {
		return xs[0].e.Pos
	}
	return fn.Pos()
}

// concatParts flattens a string concatenation.
func concatParts(t *eng.Term) []*eng.Term {
	t = t.Strip()
	if t.Op == eng.OBin && t.Typ != nil && isString(t.Typ) {
		return append(concatParts(t.Args[0]), concatParts(t.Args[1])...)
	}
	return []*eng.Term{t}
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// forwardArgs: the wrapped trace gets the given format and args, optionally
// after a prefix that belongs to the wrapper.
func (c *C) forwardArgs(in *eng.Interp, call *eng.Effect, ps []*eng.Term, w *types.Named, name string) {
	f, a := call.Args[1].Strip(), call.Args[2].Strip()
	if f == ps[1] && a == ps[2] {
		c.OK("forward-args", name)
		return
	}
	parts := concatParts(f)
	if last := parts[len(parts)-1]; last != ps[1] {
		if changed := last.Op == eng.OSlice && last.Args[0].Strip() == ps[1] || strings.HasPrefix(last.CalleeName(), "strings.") && last.CalleeName() != "strings.Clone" && len(last.Args) > 0 && last.Args[0].Strip() == ps[1]; changed {
			c.Fail("forward-args", call.Pos, name, "the format passed on is %s", f)
		} else if f.Contains(ps[1]) {
			c.Undec("forward-args", name, "format %s", f)
		} else {
			c.Fail("forward-args", call.Pos, name, "the format passed on is %s", f)
		}
		return
	}
	var prefixArgs *types.Var
	for _, fl := range fieldsOf(w) {
		if s, ok := fl.Type().Underlying().(*types.Slice); ok && types.IsInterface(s.Elem()) {
			if prefixArgs != nil && a.Any(func(t *eng.Term) bool {
				if t.Op != eng.OSlice || loadedField(t.Args[0]) != fl || t.Args[2] == nil {
					return false
				}
				k, isc := t.Args[2].IntConst()
				return isc && k == 0
			}) {
				continue // a buffer that's overwritten
			}
			prefixArgs = fl
		}
	}
	pfx := 0
	for _, x := range parts[:len(parts)-1] {
		if v := loadedField(x); v != nil && isString(v.Type()) {
			pfx++
		} else if s, ok := x.StrConst(); ok && !strings.Contains(s, "%") {
			continue
		} else {
			c.Undec("forward-args", name, "format part %s", x)
		}
	}
	if pfx == 0 {
		c.Check(len(parts) == 1, "forward-args", call.Pos, name+" format", "the format passed on is %s", f)
		c.Check(a == ps[2], "forward-args", call.Pos, name, "the args passed on are %s", a)
		return
	}
	c.Check(pfx == 1, "forward-args", call.Pos, name+" prefix", "the prefix is applied %d times", pfx)
	// args: prefix args, then the given args, without writing to shared memory
	base := a
	for base.Op == eng.OAppend && nothing(base.Args[0]) && base.Args[1].Strip().Op == eng.OAppend {
		base = base.Args[1].Strip() // copied once more
	}
	var tail []*eng.Term
	for base.Op == eng.OAppend {
		tail = append([]*eng.Term{base.Args[1].Strip()}, tail...)
		base = base.Args[0].Strip()
	}
	src, shared := base, false
	if base.Op == eng.OSlice {
		src = base.Args[0]
		shared = base.Args[3] == nil || !(base.Args[2] == base.Args[3] || in.T.Sub(base.Args[3], in.T.Len(src)) == in.T.Int(0))
		if k, ok := base.Args[3], base.Args[3] != nil; ok {
			if v, isc := k.IntConst(); isc && v == 0 {
				shared = false
			}
		}
	} else if base.Op == eng.OLoad {
		shared = true
	}
	var order []string
	classify := func(t *eng.Term) string {
		t = t.Strip()
		switch {
		case t == ps[2]:
			return "given"
		case loadedField(t) != nil && loadedField(t) == prefixArgs:
			return "prefix"
		}
		return "?"
	}
	if loadedField(src) == prefixArgs && prefixArgs != nil {
		if base.Op == eng.OSlice && base.Args[3] != nil {
			if v, isc := base.Args[3].IntConst(); !isc || v != 0 {
				order = append(order, "prefix")
			}
		} else {
			order = append(order, "prefix")
		}
	} else if src == ps[2] {
		order = append(order, "given")
	} else if loadedField(src) != nil && shared && len(tail) > 0 {
		c.Fail("args-not-aliased", call.Pos, name, "args are put into memory that's kept by the wrapper, where other events overwrite them: %s", a)
		return
	} else if src.Op != eng.OMkSlice && !src.IsNil() && src.Op != eng.OAlloc && src.Op != eng.OArr {
		c.Undec("forward-args", name, "args %s", a)
		return
	} else if src.Op == eng.OMkSlice {
		if k, ok := src.Args[0].IntConst(); !ok || k != 0 {
			c.Undec("forward-args", name, "args %s", a)
			return
		}
	}
	for _, t := range tail {
		order = append(order, classify(t))
	}
	// parts that are known to be empty may be left out
	empty := map[string]bool{"given": call.Facts.Le(in.T.Len(ps[2]), in.T.Int(0), 0)}
	call.Facts.EachTerm(func(t *eng.Term) {
		if t.Op == eng.OLen && prefixArgs != nil && loadedField(t.Args[0]) == prefixArgs && call.Facts.Le(t, in.T.Int(0), 0) {
			empty["prefix"] = true
		}
	})
	if empty["prefix"] && !contains(order, "prefix") {
		order = append([]string{"prefix"}, order...)
	}
	if empty["given"] && !contains(order, "given") {
		order = append(order, "given")
	}
	if contains(order, "?") {
		c.Undec("forward-args", name, "args %s", a)
		return
	}
	c.Check(len(order) == 2 && order[0] == "prefix" && order[1] == "given", "forward-args", call.Pos, name, "the args passed on are %s", strings.Join(order, ", "))
	if len(tail) > 0 {
		c.Check(!shared, "args-not-aliased", call.Pos, name, "the given args are appended in place to the args of the prefix, where concurrent or nested events overwrite each other's args: %s", a)
	}
}

// ez: the package-level event functions.
func (c *C) ez() {
	for _, m := range eventMethods {
		fn := c.anchor("eztrc", m)
		if fn == nil {
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			if p.Panic != nil || p.Exit {
				continue
			}
			n, bad := 0, ""
			skip := false
			p.Facts.Each(func(t *eng.Term, v bool) {
				if t.Any(func(x *eng.Term) bool { return strings.HasSuffix(x.CalleeName(), ".MaybeGet") }) && !v {
					skip = true
				}
			})
			p.Walk(true, func(e *eng.Effect, loops []*eng.LoopInfo, async bool) {
				recv, mm := c.traceMethod(e)
				if mm == "" || !(mm == "Finish" || contains(eventMethods, mm)) {
					return
				}
				n++
				r := recv.Strip()
				if r.Op == eng.OExtract {
					r = r.Args[0]
				}
				src := r.CalleeName()
				switch {
				case mm != m:
					bad = "it records " + mm
				case !(strings.HasSuffix(src, "trc.Get") || strings.HasSuffix(src, "trc.MaybeGet")) || r.Args[0].Strip() != ps[0]:
					bad = "the trace isn't the one in the given context"
				case e.Args[1].Strip() != ps[1] || e.Args[2].Strip() != ps[2]:
					bad = "the format or args differ from the given ones"
				case len(loops) > 0 || async:
					bad = "in a loop or goroutine"
				}
			})
			if skip && n == 0 {
				continue
			}
			c.Check(n == 1 && bad == "", "ez-forward", fn.Pos(), "eztrc."+m, "doesn't record exactly one %s event in the trace of the context: %s", m, bad)
		}
	}
	c.Floor("ez-forward", 4)
	// thin forwards
	for name, target := range map[string]string{"Region": "trc.Region", "Prefix": "trc.Prefix", "Get": "trc.Get", "MaybeGet": "trc.MaybeGet"} {
		fn := c.anchor("eztrc", name)
		if fn == nil {
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			n, same := 0, true
			var res *eng.Term
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if callName(e) == mod+"."+strings.TrimPrefix(target, "trc.") {
					n++
					res = e.Result
					for i := range ps {
						if i >= len(e.Args) || e.Args[i].Strip() != ps[i] {
							same = false
						}
					}
				}
			})
			if n == 0 {
				c.Undec("ez-helpers", "eztrc."+name, "doesn't call %s", target)
				continue
			}
			ok := n == 1 && same
			for i, r := range p.Ret {
				ok = ok && isResult(r, res, i)
			}
			c.Check(ok, "ez-helpers", fn.Pos(), "eztrc."+name, "doesn't pass its arguments to %s and return the results", target)
		}
	}
}

// prefixRule: Prefix returns the trace in the context wrapped with the prefix.
func (c *C) prefixRule() {
	fn := c.anchor("", "Prefix")
	if fn == nil {
		return
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	wraps := 0
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || len(p.Ret) != 2 {
			continue
		}
		var fields = map[*types.Var]*eng.Term{}
		var obj *eng.Term
		p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			if e.Kind == eng.EStore && e.Addr.Op == eng.OField {
				if n := namedOf(e.Addr.Args[0].Typ); n != nil && c.innerField(n) != nil && c.isTraceType(n) {
					fields[e.Addr.FieldVar()] = e.Val.Strip()
					obj = e.Addr.Args[0]
				}
			}
		})
		ret := p.Ret[1].Strip()
		if obj == nil {
			// no prefix: the context and its trace come back unchanged, and only
			// for a blank prefix
			blank := false
			p.Facts.EachTerm(func(t *eng.Term) {
				if isString(t.Typ) && t.Any(func(x *eng.Term) bool { return x == ps[1] }) {
					if v, known := p.Facts.Eval(in.T.Cmp(token.EQL, t, in.T.Str(""))); known && v {
						blank = true
					}
					if p.Facts.EqInt(in.T.Len(t), in.T.Int(0), 0) {
						blank = true
					}
				}
			})
			c.Check(p.Ret[0].Strip() == ps[0], "prefix-blank", fn.Pos(), "Prefix without prefix", "returns another context: %s", p.Ret[0])
			c.Check(blank, "prefix-applied", fn.Pos(), "Prefix without prefix", "a path that isn't specific to a blank prefix returns an unprefixed trace")
			c.Check(strings.HasSuffix(ret.CalleeName(), "trc.Get") && ret.Args[0].Strip() == ps[0], "prefix-blank", fn.Pos(), "Prefix without prefix: trace", "returns %s instead of the trace in the context", ret)
			continue
		}
		wraps++
		for f, v := range fields {
			switch {
			case types.Identical(f.Type(), c.traceType()):
				if v.CalleeName() == "" && v.Any(func(t *eng.Term) bool { return strings.HasSuffix(t.CalleeName(), "trc.Get") }) {
					c.Undec("prefix-wraps", "Prefix wrapped trace", "wraps %s", v)
					continue
				}
				c.Check(strings.HasSuffix(v.CalleeName(), "trc.Get") && v.Args[0].Strip() == ps[0], "prefix-wraps", fn.Pos(), "Prefix wrapped trace", "wraps %s instead of the trace in the context", v)
			case isString(f.Type()):
				c.Check(v.Contains(ps[1]), "prefix-wraps", fn.Pos(), "Prefix format", "the prefix is %s", v)
			default:
				if _, ok := f.Type().Underlying().(*types.Slice); ok {
					if v == ps[2] {
						c.OK("prefix-wraps", "Prefix args")
					} else if part := v.Op == eng.OSlice && v.Args[0].Strip() == ps[2] && (v.Args[1] != nil || v.Args[2] != nil && !p.Facts.EqInt(v.Args[2], in.T.Len(ps[2]), 0)); part || !v.Contains(ps[2]) {
						c.Fail("prefix-wraps", fn.Pos(), "Prefix args", "the prefix args are %s", v)
					}
				}
			}
		}
		put := false
		p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			if callName(e) == mod+".Put" && e.Args[0].Strip() == ps[0] && e.Args[1].Strip() == obj.Strip() {
				put = isResult(p.Ret[0], e.Result, 0)
			}
			if callName(e) == "context.WithValue" && e.Args[0].Strip() == ps[0] && e.Args[2].Strip() == obj.Strip() {
				put = p.Ret[0].Strip() == e.Result
			}
		})
		c.Check(put, "prefix-in-context", fn.Pos(), "Prefix", "the returned context doesn't contain the prefixed trace")
		if ret != obj.Strip() && !(ret.Op == eng.OExtract && ret.Any(func(t *eng.Term) bool { return t == obj })) {
			c.Fail("prefix-in-context", fn.Pos(), "Prefix", "returns %s instead of the prefixed trace", ret)
		}
	}
	if wraps == 0 {
		c.Undec("prefix-wraps", "Prefix", "no path creates a prefixed trace")
	}
}

// regionRule: Region emits an entry event, and an exit event when finished.
func (c *C) regionRule() {
	fn := c.anchor("", "Region")
	if fn == nil {
		return
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || len(p.Ret) != 3 {
			continue
		}
		events := func(q *eng.Path, what string, from int) {
			n, named, mine, prefixed := 0, true, true, false
			for _, e := range q.Effects[from:] {
				recv, mm := c.traceMethod(e)
				if mm == "" || !contains(eventMethods, mm) {
					continue
				}
				n++
				any := false
				for _, a := range e.Args[1:] {
					if a.Any(func(t *eng.Term) bool { return t == ps[1] }) {
						any = true
					}
				}
				named = named && any
				r := recv.Strip()
				if !(strings.HasSuffix(r.CalleeName(), "trc.Get") && r.Args[0].Strip() == ps[0]) {
					mine = false
					prefixed = r.Op == eng.OExtract && strings.HasSuffix(r.Args[0].CalleeName(), "trc.Prefix")
					if strings.HasSuffix(r.CalleeName(), "trc.Get") {
						x := r.Args[0].Strip()
						prefixed = x.Op == eng.OExtract && strings.HasSuffix(x.Args[0].CalleeName(), "trc.Prefix")
					}
				}
			}
			c.Check(n == 1, "region-events", fn.Pos(), "Region "+what, "records %d %s events instead of one", n, what)
			if n == 1 {
				c.Check(named, "region-events", fn.Pos(), "Region "+what+" name", "the %s event doesn't contain the name", what)
				if !mine && prefixed {
					c.Fail("region-events", fn.Pos(), "Region "+what, "the %s event isn't recorded in the surrounding trace, but in that of the region", what)
				} else if !mine {
					c.Undec("region-events", "Region "+what, "recorded on another trace value")
				}
			}
		}
		events(p, "entry", 0)
		for i := 0; i < 2; i++ {
			r := p.Ret[i].Strip()
			ok := r.Op == eng.OExtract && int(r.N) == i && strings.HasSuffix(r.Args[0].CalleeName(), "trc.Prefix") && r.Args[0].Args[0].Strip() == ps[0]
			if !ok {
				c.Undec("region-prefix", "Region", "result %d is %s", i, r)
			} else {
				c.OK("region-prefix", []string{"context", "trace"}[i])
			}
		}
		fin := p.Ret[2].Strip()
		n0 := len(p.Effects)
		for _, q := range in.CallTerm(p.State, fin, nil) {
			if q.Panic != nil {
				continue
			}
			from := 0
			if len(q.Effects) >= n0 {
				from = n0
			}
			events(q, "exit", from)
			ended := false
			for _, e := range q.Effects[from:] {
				if strings.HasSuffix(callName(e), "Region).End") {
					ended = true
				}
			}
			c.Check(ended, "region-ended", fn.Pos(), "Region finish", "the runtime region isn't ended")
		}
	}
}

// loggerRule: writers in front of a logger pass on everything, once.
func (c *C) loggerRule() {
	for _, n := range c.namedTypes("") {
		var lf *types.Var
		for _, f := range fieldsOf(n) {
			if isNamed(f.Type(), "log", "Logger") || namedOf(f.Type()) != nil && namedOf(f.Type()).Obj().Name() == "Logger" && namedOf(f.Type()).Obj().Pkg() != nil && namedOf(f.Type()).Obj().Pkg().Path() == "log" {
				lf = f
			}
		}
		fn := c.P.Method(n, "Write")
		if lf == nil || fn == nil || fn.Synthetic != "" {
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		ps := in.ParamSyms(fn)
		name := n.Obj().Name() + ".Write"
		for _, p := range c.Run(in, fn, nil, ps) {
			if p.Panic != nil || p.Exit || len(ps) != 2 {
				continue
			}
			k, part := 0, false
			p.Walk(true, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
				if e.Kind != eng.ECall || !strings.HasPrefix(callName(e), "(*log.Logger).") || len(e.Args) < 2 {
					return
				}
				k++
				if len(loops) > 0 {
					k++
				}
				for _, a := range e.Args[1:] {
					a.Any(func(t *eng.Term) bool {
						if t.Op == eng.OSlice && t.Args[0].Strip() == ps[1] {
							part = true
						}
						return false
					})
				}
			})
			if p.Facts.Le(in.T.Len(ps[1]), in.T.Int(0), 0) && k == 0 {
				continue
			}
			c.Check(k == 1, "log-once", fn.Pos(), name, "a path logs what's written %d times: %s", k, strings.Join(p.FactStrings(), " & "))
			c.Check(!part, "log-text", fn.Pos(), name, "only a part of what's written is logged")
		}
	}
}

// createdRule: a decorator also does its work when it's applied.
func (c *C) createdRule(w *types.Named, pub, dst *types.Var) {
	tt := c.traceType()
	for _, fn := range c.P.Funcs {
		sig := fn.Signature
		if pkgPath(fn) != c.P.Mod || sig.Recv() != nil || sig.Params().Len() != 1 || sig.Results().Len() != 1 || !types.Identical(sig.Params().At(0).Type(), tt) || !types.Identical(sig.Results().At(0).Type(), tt) {
			continue
		}
		makes := false
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if al, ok := ins.(*ssa.Alloc); ok {
					if n := namedOf(al.Type()); n != nil && n.Obj() == w.Obj() {
						makes = true
					}
				}
				if call, ok := ins.(ssa.CallInstruction); ok {
					if g := call.Common().StaticCallee(); g != nil && g.Signature.Results().Len() == 1 {
						if n := namedOf(g.Signature.Results().At(0).Type()); n != nil && n.Obj() == w.Obj() {
							makes = true
						}
					}
				}
			}
		}
		if !makes {
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		ps := in.ParamSyms(fn)
		name := "applying " + w.Obj().Name()
		for _, p := range c.Run(in, fn, nil, ps) {
			if p.Panic != nil || p.Exit {
				continue
			}
			var dstVal *eng.Term
			pubs, logs := 0, 0
			p.Walk(true, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
				if e.Kind == eng.EStore && dst != nil {
					if _, ok := directField(e.Addr, dst); ok {
						dstVal = e.Val.Strip()
					}
				}
				if strings.HasSuffix(callName(e), ").Publish") {
					pubs++
				} else if e.Kind == eng.ECall && dstVal != nil {
					for _, a := range e.Args {
						if a.Strip() == dstVal || loadOf(a.Strip(), dst) {
							logs++
							break
						}
					}
				}
			})
			if pub != nil {
				c.Check(pubs == 1, "publish-created", fn.Pos(), name, "a new trace is published %d times when it's created", pubs)
			}
			if dst != nil && dstVal != nil {
				c.Check(logs == 1, "log-created", fn.Pos(), name, "a new trace is logged %d times when it's created", logs)
			}
		}
	}
}

// ---- format strings ----

type fmtVerdict int

const (
	fmtOK fmtVerdict = iota
	fmtUnknown
	fmtBad
)

func worse(a, b fmtVerdict) fmtVerdict {
	if b > a {
		return b
	}
	return a
}

// fmtIndex: the index of the format parameter of a printf-like signature (the
// string before a final ...any or []any), or -1.
func fmtIndex(sig *types.Signature) int {
	n := sig.Params().Len()
	if n < 2 {
		return -1
	}
	s, ok := sig.Params().At(n - 1).Type().Underlying().(*types.Slice)
	if !ok || !types.IsInterface(s.Elem()) {
		return -1
	}
	if e, ok := s.Elem().Underlying().(*types.Interface); !ok || !e.Empty() {
		return -1
	}
	b, ok := sig.Params().At(n - 2).Type().(*types.Basic)
	if !ok || b.Kind() != types.String {
		return -1
	}
	return n - 2
}

func (c *C) formatSafety() {
	n := 0
	for _, fn := range c.P.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				com := call.Common()
				sig := com.Signature()
				i := fmtIndex(sig)
				if i < 0 {
					continue
				}
				if callee := com.StaticCallee(); callee != nil && !c.P.InRepo(callee) {
					switch callee.Name() {
					case "Sprintf", "Fprintf", "Printf", "Errorf", "Fatalf", "Panicf", "Logf", "Appendf":
					default:
						continue
					}
				}
				args := com.Args
				if !com.IsInvoke() && sig.Recv() != nil {
					i++
				}
				if i >= len(args) {
					continue
				}
				n++
				v, why := c.fmtSource(fn, args[i], map[ssa.Value]bool{}, 0)
				name := c.P.FnName(fn) + " -> " + calleeShort(com)
				switch v {
				case fmtBad:
					c.Fail("format-not-data", ins.Pos(), name, "data is used as a format string, so a %% in it is interpreted: %s", why)
				case fmtUnknown:
					c.Undec("format-not-data", name, "%s", why)
				default:
					c.OK("format-not-data", name)
				}
			}
		}
	}
	c.Floor("format-not-data", 20)
}

func calleeShort(com *ssa.CallCommon) string {
	if com.IsInvoke() {
		return com.Method.Name()
	}
	if f := com.StaticCallee(); f != nil {
		return f.Name()
	}
	return "func value"
}

func (c *C) fmtSource(fn *ssa.Function, v ssa.Value, seen map[ssa.Value]bool, depth int) (fmtVerdict, string) {
	if seen[v] {
		return fmtOK, ""
	}
	seen[v] = true
	if depth > 12 {
		return fmtUnknown, "too deep"
	}
	switch x := v.(type) {
	case *ssa.Const:
		return fmtOK, ""
	case *ssa.BinOp:
		a, w1 := c.fmtSource(fn, x.X, seen, depth+1)
		b, w2 := c.fmtSource(fn, x.Y, seen, depth+1)
		if b > a {
			return b, w2
		}
		return a, w1
	case *ssa.Phi:
		r, w := fmtOK, ""
		for _, e := range x.Edges {
			if a, wa := c.fmtSource(fn, e, seen, depth+1); a > r {
				r, w = a, wa
			}
		}
		return r, w
	case *ssa.Slice:
		return c.fmtSource(fn, x.X, seen, depth+1)
	case *ssa.Convert:
		return c.fmtSource(fn, x.X, seen, depth+1)
	case *ssa.ChangeType:
		return c.fmtSource(fn, x.X, seen, depth+1)
	case *ssa.Parameter:
		pf := x.Parent()
		idx := -1
		for i, p := range pf.Params {
			if p == x {
				idx = i
			}
		}
		si := idx
		if pf.Signature.Recv() != nil {
			si--
		}
		if si >= 0 && fmtIndex(pf.Signature) == si {
			return fmtOK, ""
		}
		if exportedFn(pf) || (token.IsExported(pf.Name()) && pf.Parent() == nil) {
			return fmtBad, "parameter " + x.Name() + " of " + c.P.FnName(pf)
		}
		// an unexported helper: look at its callers
		r, w := fmtOK, ""
		found := false
		for _, g := range c.P.Funcs {
			for _, b := range g.Blocks {
				for _, ins := range b.Instrs {
					if call, ok := ins.(ssa.CallInstruction); ok && call.Common().StaticCallee() == pf && idx < len(call.Common().Args) {
						found = true
						if a, wa := c.fmtSource(g, call.Common().Args[idx], seen, depth+1); a > r {
							r, w = a, wa
						}
					}
				}
			}
		}
		if !found {
			return fmtUnknown, "parameter " + x.Name()
		}
		return r, w
	case *ssa.FreeVar:
		r, w := fmtUnknown, "captured variable "+x.Name()
		if p := x.Parent().Parent(); p != nil {
			i := -1
			for k, f := range x.Parent().FreeVars {
				if f == x {
					i = k
				}
			}
			for _, b := range p.Blocks {
				for _, ins := range b.Instrs {
					if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(x.Parent()) {
						return c.fmtSource(p, mc.Bindings[i], seen, depth+1)
					}
				}
			}
		}
		return r, w
	case *ssa.UnOp:
		if x.Op != token.MUL {
			return fmtUnknown, x.String()
		}
		return c.fmtSource(fn, x.X, seen, depth+1)
	case *ssa.Alloc:
		return c.fmtStores(x, x, seen, depth)
	case *ssa.Global:
		return c.fmtStores(x, nil, seen, depth)
	case *ssa.FieldAddr:
		return c.fmtField(x.X.Type(), x.Field, seen, depth)
	case *ssa.Field:
		return c.fmtField(x.X.Type(), x.Field, seen, depth)
	case *ssa.Extract:
		return fmtUnknown, x.Tuple.String()
	case *ssa.Call:
		com := x.Common()
		if com.IsInvoke() {
			if com.Method.Name() == "ID" {
				return fmtOK, "" // identifiers are ULIDs
			}
			return fmtBad, "result of " + com.Method.Name()
		}
		callee := com.StaticCallee()
		if callee == nil {
			return fmtUnknown, "result of a func value"
		}
		if c.P.InRepo(callee) {
			if callee.Name() == "ID" {
				return fmtOK, ""
			}
			r, w := fmtOK, ""
			for _, b := range callee.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(ret.Results) == 1 {
					if a, wa := c.fmtSource(callee, ret.Results[0], seen, depth+1); a > r {
						r, w = a, wa
					}
				}
			}
			return r, w
		}
		pk := ""
		if callee.Pkg != nil {
			pk = callee.Pkg.Pkg.Path()
		}
		switch {
		case pk == "strings" && (strings.HasPrefix(callee.Name(), "Trim") || strings.HasPrefix(callee.Name(), "To") || callee.Name() == "Clone"):
			return c.fmtSource(fn, com.Args[0], seen, depth+1)
		case pk == "strings" && callee.Name() == "Repeat":
			return c.fmtSource(fn, com.Args[0], seen, depth+1)
		case pk == "strings" && (callee.Name() == "ReplaceAll" || callee.Name() == "Replace"):
			if k, ok := com.Args[1].(*ssa.Const); ok && k.Value != nil && constant.StringVal(k.Value) == "%" {
				return fmtOK, "" // escaped
			}
			return c.fmtSource(fn, com.Args[0], seen, depth+1)
		case pk == "strings" && callee.Name() == "Join":
			return fmtUnknown, "strings.Join"
		case pk == "fmt" && strings.HasPrefix(callee.Name(), "Sprint"):
			elems, ok := variadicElems(com.Args[len(com.Args)-1])
			if !ok {
				return fmtBad, "text formatted by " + callee.Name()
			}
			r, w := fmtOK, ""
			for _, e := range elems {
				if mi, ok := e.(*ssa.MakeInterface); ok {
					e = mi.X
				}
				if !isString(e.Type()) {
					continue // numbers and the like
				}
				if a, wa := c.fmtSource(fn, e, seen, depth+1); a > r {
					r, w = a, wa
				}
			}
			return r, w
		case pk == "strconv" && (strings.HasPrefix(callee.Name(), "Itoa") || strings.HasPrefix(callee.Name(), "Format")):
			return fmtOK, ""
		}
		return fmtBad, "result of " + callee.String()
	}
	return fmtUnknown, v.String()
}

// variadicElems: the elements of a variadic argument built at the call.
func variadicElems(v ssa.Value) ([]ssa.Value, bool) {
	if k, ok := v.(*ssa.Const); ok && k.Value == nil {
		return nil, true
	}
	s, ok := v.(*ssa.Slice)
	if !ok {
		return nil, false
	}
	al, ok := s.X.(*ssa.Alloc)
	if !ok {
		return nil, false
	}
	var out []ssa.Value
	for _, r := range *al.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok {
			for _, rr := range *ia.Referrers() {
				if st, ok := rr.(*ssa.Store); ok && st.Addr == ssa.Value(ia) {
					out = append(out, st.Val)
				}
			}
		}
	}
	return out, true
}

func (c *C) fmtStores(addr ssa.Value, al *ssa.Alloc, seen map[ssa.Value]bool, depth int) (fmtVerdict, string) {
	r, w := fmtOK, ""
	n := 0
	for _, g := range c.P.Funcs {
		if al != nil && g != al.Parent() {
			continue
		}
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && st.Addr == addr {
					n++
					if a, wa := c.fmtSource(g, st.Val, seen, depth+1); a > r {
						r, w = a, wa
					}
				}
			}
		}
	}
	if n == 0 {
		return fmtUnknown, "variable " + addr.Name()
	}
	return r, w
}

func (c *C) fmtField(t types.Type, idx int, seen map[ssa.Value]bool, depth int) (fmtVerdict, string) {
	n := namedOf(t)
	if n == nil || !c.P.InRepoType(n) {
		return fmtBad, "field of " + t.String()
	}
	st, _ := n.Underlying().(*types.Struct)
	if st == nil {
		return fmtUnknown, t.String()
	}
	fv := st.Field(idx)
	if fv.Exported() && n.Obj().Exported() {
		return fmtBad, "field " + fv.Name() + " of " + n.Obj().Name()
	}
	r, w := fmtOK, ""
	k := 0
	for _, g := range c.P.Funcs {
		for _, b := range g.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				fa, ok := s.Addr.(*ssa.FieldAddr)
				if !ok || fa.Field != idx || namedOf(fa.X.Type()) == nil || namedOf(fa.X.Type()).Obj() != n.Obj() {
					continue
				}
				k++
				if a, wa := c.fmtSource(g, s.Val, seen, depth+1); a > r {
					r, w = a, wa
				}
			}
		}
	}
	if k == 0 {
		return fmtUnknown, "field " + fv.Name()
	}
	return r, w
}

package rules

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// collectorRoles are the fields of a collector that hold its configuration,
// and the fields of the config they come from.
type collectorRoles struct {
	col, cfg                                  *types.Named
	source, newTrace, broker, decorators      *types.Var
	cfgSource, cfgNew, cfgBroker, cfgDecorate *types.Var
}

func (c *C) collectorRoles() *collectorRoles {
	r := &collectorRoles{col: c.P.Named("", "Collector"), cfg: c.P.Named("", "CollectorConfig")}
	if r.col == nil || r.cfg == nil {
		c.Undec("roles", "Collector", "types not found")
		return nil
	}
	n := 0
	for _, f := range fieldsOf(r.col) {
		switch t := f.Type(); {
		case isNamed(t, mod, "NewTraceFunc"):
			r.newTrace = f
			n++
		case isStringTyp(t):
			r.source = f
			n++
		case isNamed(derefType(t), mod, "Broker"):
			r.broker = f
			n++
		default:
			if s, ok := t.Underlying().(*types.Slice); ok && isNamed(s.Elem(), mod, "DecoratorFunc") {
				r.decorators = f
				n++
			}
		}
	}
	for _, f := range fieldsOf(r.cfg) {
		switch f.Name() {
		case "Source":
			r.cfgSource = f
		case "NewTrace":
			r.cfgNew = f
		case "Broker":
			r.cfgBroker = f
		case "Decorators":
			r.cfgDecorate = f
		}
	}
	if n != 4 || r.source == nil || r.newTrace == nil || r.broker == nil || r.decorators == nil {
		c.Undec("roles", "Collector", "fields not recognised")
		return nil
	}
	for _, f := range []*types.Var{r.cfgSource, r.cfgNew, r.cfgBroker, r.cfgDecorate} {
		if f == nil {
			c.Fail("roles", r.cfg.Obj().Pos(), "CollectorConfig", "a documented field is missing")
			return nil
		}
	}
	return r
}

func isStringTyp(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// isFuncNamed: t is the function of the package.
func isFuncNamed(t *eng.Term, name string) bool {
	t = t.Strip()
	return t != nil && t.Op == eng.OFunc && strings.HasSuffix(t.String(), name)
}

// C28: a collector is what it was configured to be.
func c28(c *C) {
	r := c.collectorRoles()
	if r == nil {
		return
	}
	c.collectorNew(r)
	c.collectorDefault(r)
	c.collectorSetters(r)
	c.collectorUse(r)
	c.Floor("config-kept", 4)
	c.Floor("setter", 3)
}

// collectorInline: the setters, and more, are part of a constructor.
func (c *C) collectorInline(more *ssa.Function) func(*ssa.Function) bool {
	return func(f *ssa.Function) bool {
		return f == more && f != nil || strings.HasPrefix(f.Name(), "Set") && isCollectorMethod(f) || c.apiRing(f)
	}
}

func isCollectorMethod(f *ssa.Function) bool {
	r := f.Signature.Recv()
	return r != nil && isNamed(derefType(r.Type()), mod, "Collector")
}

// collectorNew: NewCollector keeps what it's given and completes the rest.
func (c *C) collectorNew(r *collectorRoles) {
	fn := c.anchor("", "NewCollector")
	if fn == nil {
		return
	}
	const name = "NewCollector"
	for mask := 0; mask < 8; mask++ {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.collectorInline(nil)})
		ps := in.ParamSyms(fn)
		if len(ps) != 1 {
			c.Undec("config-kept", name, "parameters")
			return
		}
		st := in.NewState()
		given := func(f *types.Var) *eng.Term {
			return in.FieldVal(ps[0], fieldIndex(r.cfg, f), f.Type())
		}
		hasSrc, hasNew, hasBroker := mask&1 != 0, mask&2 != 0, mask&4 != 0
		st.Assume(in.T.Cmp(token.EQL, given(r.cfgSource), in.T.Str("")), !hasSrc)
		st.Assume(in.T.Cmp(token.EQL, given(r.cfgNew), in.T.Nil()), !hasNew)
		st.Assume(in.T.Cmp(token.EQL, given(r.cfgBroker), in.T.Nil()), !hasBroker)
		what := fmt.Sprintf("source given %v, constructor given %v, broker given %v", hasSrc, hasNew, hasBroker)
		seen := 0
		for _, p := range c.Run(in, fn, st, ps) {
			if p.Panic != nil || len(p.Ret) != 1 {
				continue
			}
			fields := finalFields(p, p.Ret[0], r.col)
			if len(fields) == 0 {
				c.Undec("config-kept", name, "returns %s", p.Ret[0])
				continue
			}
			seen++
			kept := func(f, cf *types.Var, has bool, isDefault func(*eng.Term) bool, dflt string) {
				v := fields[f.Name()]
				if v == nil {
					v = in.T.Nil()
				}
				v = v.Strip()
				con := name + " " + cf.Name()
				switch {
				case has && v == given(cf):
					c.OK("config-kept", con)
				case has:
					c.Fail("config-kept", fn.Pos(), con, "the collector gets %s instead of the given one (%s)", v, what)
				case isDefault(v):
					c.OK("config-default", con)
				case v == given(cf) || v.IsNil() || v.IsConst() || v.Op == eng.OFunc:
					c.Fail("config-default", fn.Pos(), con, "the collector gets %s instead of %s when none is given", v, dflt)
				default:
					c.Undec("config-default", con, "%s", v)
				}
			}
			kept(r.source, r.cfgSource, hasSrc, func(t *eng.Term) bool { s, ok := t.StrConst(); return ok && s == "default" }, "\"default\"")
			kept(r.newTrace, r.cfgNew, hasNew, func(t *eng.Term) bool { return isFuncNamed(t, mod+".New") || isFuncNamed(t, "New") }, "New")
			kept(r.broker, r.cfgBroker, hasBroker, func(t *eng.Term) bool {
				return t.CalleeName() == mod+".NewBroker" || t.Op == eng.OAlloc
			}, "a new broker")
			// the decorators
			d := fields[r.decorators.Name()]
			g := given(r.cfgDecorate)
			switch {
			case d == nil:
				c.Fail("config-kept", fn.Pos(), name+" Decorators", "the given decorators are dropped")
			case d.Strip() == g:
				c.OK("config-kept", name+" Decorators")
			case fullCopy(in, p, d.Strip(), g):
				c.OK("config-kept", name+" Decorators")
			case !d.Any(func(t *eng.Term) bool { return t == g }):
				if d.Strip().IsNil() || d.Op == eng.OZero {
					if !p.Facts.Le(in.T.Len(g), in.T.Int(0), 0) {
						c.Fail("config-kept", fn.Pos(), name+" Decorators", "the given decorators are dropped")
					}
				} else {
					c.Undec("config-kept", name+" Decorators", "%s", d)
				}
			case d.Strip().Op == eng.OSlice || d.Strip().Op == eng.OAppend:
				c.Fail("config-kept", fn.Pos(), name+" Decorators", "the collector gets %s instead of the given decorators", d)
			default:
				c.Undec("config-kept", name+" Decorators", "%s", d)
			}
		}
		if seen == 0 {
			c.Undec("config-kept", name, "no result recognised")
		}
	}
}

// fullCopy: v is a copy of all elements of g, in a new slice.
func fullCopy(in *eng.Interp, p *eng.Path, v, g *eng.Term) bool {
	switch {
	case v.Op == eng.OCall && strings.HasPrefix(strings.Split(v.CalleeName(), "[")[0], "slices.Clone") && len(v.Args) == 1:
		return v.Args[0].Strip() == g
	case v.Op == eng.OAppend && len(v.Args) == 2:
		return p.Facts.Le(in.T.Len(v.Args[0]), in.T.Int(0), 0) && v.Args[1].Strip() == g
	}
	return false
}

// collectorDefault: NewDefaultCollector has the documented defaults.
func (c *C) collectorDefault(r *collectorRoles) {
	fn := c.anchor("", "NewDefaultCollector")
	if fn == nil {
		return
	}
	const name = "NewDefaultCollector"
	ctor := c.P.Func("", "NewCollector")
	in := eng.NewInterp(c.P, eng.Config{Inline: c.collectorInline(ctor)})
	for _, p := range c.Run(in, fn, nil, nil) {
		if p.Panic != nil || len(p.Ret) != 1 {
			continue
		}
		f := finalFields(p, p.Ret[0], r.col)
		if len(f) == 0 {
			c.Undec("config-default", name, "returns %s", p.Ret[0])
			continue
		}
		if v := f[r.source.Name()]; v != nil {
			s, ok := v.StrConst()
			if ok {
				c.Check(s == "default", "config-default", fn.Pos(), name+" source", "the source is %q", s)
			} else {
				c.Undec("config-default", name+" source", "%s", v)
			}
		} else {
			c.Fail("config-default", fn.Pos(), name+" source", "the source isn't set")
		}
		if v := f[r.newTrace.Name()]; v == nil || v.Strip().IsNil() {
			c.Fail("config-default", fn.Pos(), name+" constructor", "the trace constructor isn't set")
		} else if v.Strip().Op == eng.OFunc {
			c.Check(isFuncNamed(v, "New"), "config-default", fn.Pos(), name+" constructor", "the trace constructor is %s", v)
		}
		if v := f[r.broker.Name()]; v == nil || v.Strip().IsNil() {
			c.Fail("config-default", fn.Pos(), name+" broker", "there's no broker")
		} else {
			c.OK("config-default", name+" broker")
		}
		if v := f[r.decorators.Name()]; v != nil && !v.Strip().IsNil() && v.Op != eng.OZero && !p.Facts.Le(in.T.Len(v), in.T.Int(0), 0) {
			c.Fail("config-default", fn.Pos(), name+" decorators", "the decorators are %s", v)
		}
	}
}

// collectorSetters: each sets its own setting, to what it's given.
func (c *C) collectorSetters(r *collectorRoles) {
	for name, f := range map[string]*types.Var{"SetSourceName": r.source, "SetNewTrace": r.newTrace, "SetDecorators": r.decorators} {
		fn := c.method("", "Collector", name)
		if fn == nil {
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.apiRing})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			if p.Panic != nil {
				continue
			}
			var val *eng.Term
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind != eng.EStore || e.Fresh {
					return
				}
				b, g := ownerField(e.Addr)
				if g == nil || b == nil || b.Strip() != ps[0] {
					return
				}
				switch g {
				case f:
					val = e.Val.Strip()
				case r.source, r.newTrace, r.broker, r.decorators:
					c.Fail("setter", e.Pos, name+" other", "changes the %s", g.Name())
				}
			})
			switch {
			case val == nil:
				c.Fail("setter", fn.Pos(), name, "a path doesn't set anything: %s", strings.Join(p.FactStrings(), " & "))
			case val == ps[1], f == r.decorators && fullCopy(in, p, val, ps[1]):
				c.OK("setter", name)
			case val.Op == eng.OSlice, val.Op == eng.OAppend, val.IsConst(), val.Op == eng.OFunc, val.Op == eng.OBin:
				c.Fail("setter", fn.Pos(), name, "sets %s instead of what's given", val)
			default:
				c.Undec("setter", name, "sets %s", val)
			}
			if len(p.Ret) == 1 {
				c.Check(p.Ret[0].Strip() == ps[0], "setter-returns", fn.Pos(), name, "returns %s instead of the collector", p.Ret[0])
			}
		}
	}
	if fn := c.method("", "Collector", "SetCategorySize"); fn != nil {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.apiRing})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			if p.Panic == nil && len(p.Ret) == 1 {
				c.Check(p.Ret[0].Strip() == ps[0], "setter-returns", fn.Pos(), "SetCategorySize", "returns %s instead of the collector", p.Ret[0])
			}
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind != eng.EStore || e.Fresh {
					return
				}
				if b, g := ownerField(e.Addr); g != nil && b != nil && b.Strip() == ps[0] {
					switch g {
					case r.source, r.newTrace, r.broker, r.decorators:
						c.Fail("setter", e.Pos, "SetCategorySize other", "changes the %s", g.Name())
					}
				}
			})
		}
	}
}

// collectorUse: what the collector does uses its configuration, and nothing
// else changes it.
func (c *C) collectorUse(r *collectorRoles) {
	if fn := c.method("", "Collector", "NewTrace"); fn != nil {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.apiRing})
		ps := in.ParamSyms(fn)
		n := 0
		for _, p := range c.Run(in, fn, nil, ps) {
			if p.Panic != nil {
				continue
			}
			p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind != eng.ECall || e.Callee == nil || len(e.Args) < 4 {
					return
				}
				if callName(e) == mod+".New" {
					c.Fail("constructor", e.Pos, "Collector.NewTrace", "creates a trace with New instead of the configured constructor")
					n++
				}
				if e.Callee.Name != "dynamic" || e.Addr == nil {
					return
				}
				n++
				b, g := ownedLoad(e.Addr.Strip())
				c.Check(g == r.newTrace && b == ps[0], "constructor", e.Pos, "Collector.NewTrace", "creates a trace with %s instead of the configured constructor", e.Addr)
				b, g = ownedLoad(e.Args[1].Strip())
				c.Check(g == r.source && b == ps[0], "source", e.Pos, "Collector.NewTrace", "creates a trace with source %s instead of the configured one", e.Args[1])
			})
		}
		if n == 0 {
			c.Undec("constructor", "Collector.NewTrace", "no call of a constructor recognised")
		}
	}
	setters := map[string]bool{"SetSourceName": true, "SetNewTrace": true, "SetDecorators": true}
	for _, fn := range c.touching(c.apiRoots(""), r.col) {
		if setters[fn.Name()] {
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.apiRing, MaxPaths: 3000})
		for _, p := range c.Run(in, fn, nil, nil) {
			p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if e.Kind != eng.EStore || e.Fresh {
					return
				}
				_, g := ownerField(e.Addr)
				switch g {
				case nil:
				case r.source, r.newTrace, r.broker, r.decorators:
					c.Fail("config-stable", e.Pos, c.P.FnName(fn)+" "+g.Name(), "changes the %s of a collector", g.Name())
				}
			})
		}
		c.OK("config-stable", c.P.FnName(fn))
	}
}

// ownedLoad: t is the value of a field; it returns the owner and the field.
func ownedLoad(t *eng.Term) (*eng.Term, *types.Var) {
	if t == nil || t.Op != eng.OLoad || t.Args[0].Op != eng.OField {
		return nil, nil
	}
	return t.Args[0].Args[0].Strip(), t.Args[0].FieldVar()
}

package rules

import (
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// C22: nothing keeps running, or stays open, after the call that started it.
func c22(c *C) {
	for _, fn := range c.resourceRoots() {
		in := eng.NewInterp(c.P, eng.Config{Inline: c.resourceInline(), MaxPaths: 4000})
		ps := in.ParamSyms(fn)
		for _, p := range c.Run(in, fn, nil, ps) {
			if p.Exit {
				continue
			}
			rc := &resCheck{C: c, in: in, fn: fn, p: p, name: c.P.FnName(fn)}
			rc.check()
		}
	}
	c.callerContext()
	c.Floor("goroutine", 4)
	c.Floor("cancel", 4)
	c.Floor("ticker", 2)
	c.Floor("body", 1)
	c.Floor("connection", 1)
}

func instrAcquires(i ssa.Instruction) bool {
	if _, ok := i.(*ssa.Go); ok {
		return true
	}
	call, ok := i.(ssa.CallInstruction)
	if !ok {
		return false
	}
	com := call.Common()
	if com.IsInvoke() {
		return com.Method.Name() == "Do" && com.Signature().Results().Len() == 2 && isNamed(derefType(com.Signature().Results().At(0).Type()), "net/http", "Response")
	}
	f := com.StaticCallee()
	return f != nil && acquires(f.String()) != ""
}

func acquires(name string) string {
	switch name {
	case "context.WithCancel", "context.WithTimeout", "context.WithDeadline", "context.WithCancelCause", "context.WithTimeoutCause", "os/signal.NotifyContext":
		return "cancel"
	case "time.NewTicker", "time.Tick":
		return "ticker"
	case "(*net/http.Client).Do", "(*net/http.Client).Get", "net/http.Get", "net/http.Post":
		return "body"
	case evsrc + ".New":
		return "connection"
	}
	if strings.HasSuffix(name, "HTTPClient).Do") {
		return "body"
	}
	return ""
}

// concerns: the instruction takes part in acquiring, releasing or waiting.
func concerns(i ssa.Instruction) bool {
	if instrAcquires(i) {
		return true
	}
	switch x := i.(type) {
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		return true
	case *ssa.UnOp:
		return x.Op == token.ARROW
	case ssa.CallInstruction:
		com := x.Common()
		if b, ok := com.Value.(*ssa.Builtin); ok {
			return b.Name() == "close"
		}
		if com.IsInvoke() {
			return com.Method.Name() == "Close"
		}
		f := com.StaticCallee()
		if f == nil {
			sig, ok := com.Value.Type().Underlying().(*types.Signature)
			return ok && sig.Params().Len() == 0 && sig.Results().Len() == 0
		}
		n := f.String()
		return strings.HasSuffix(n, ".Close") || strings.HasSuffix(n, ".Stop") || strings.HasPrefix(n, "(*sync.WaitGroup)")
	}
	return false
}

func (c *C) resourceInline() func(*ssa.Function) bool {
	memo := map[*ssa.Function]bool{}
	return func(f *ssa.Function) bool {
		if exportedFn(f) || strings.Contains(pkgPath(f), "/internal/") {
			return false
		}
		if f.Parent() != nil {
			return true
		}
		v, ok := memo[f]
		if !ok {
			v = c.reachesThrough(f, c.api, concerns)
			memo[f] = v
		}
		return v
	}
}

func (c *C) resourceRoots() []*ssa.Function {
	inl := c.resourceInline()
	var out []*ssa.Function
	for _, fn := range c.P.Funcs {
		if fn.Parent() != nil || fn.Synthetic != "" || fn.Blocks == nil {
			continue
		}
		if c.reachesThrough(fn, inl, instrAcquires) {
			out = append(out, fn)
		}
	}
	return out
}

type resCheck struct {
	*C
	in   *eng.Interp
	fn   *ssa.Function
	p    *eng.Path
	name string
}

// scope is a stretch of execution, and what follows it.
type scope struct {
	es    []*eng.Effect
	rest  []*eng.Effect
	facts *eng.Facts
	iter  bool
	loop  *eng.LoopInfo
	ret   []*eng.Term
	async bool
}

func scopesOf(es, rest []*eng.Effect, facts *eng.Facts, ret []*eng.Term, iter, async bool, l *eng.LoopInfo) []scope {
	out := []scope{{es, rest, facts, iter, l, ret, async}}
	for i, e := range es {
		if e.Loop != nil {
			after := append(append([]*eng.Effect{}, es[i+1:]...), rest...)
			for _, it := range e.Loop.Iters {
				out = append(out, scopesOf(it.Effects, after, it.Facts, nil, true, async, e.Loop)...)
			}
		}
		for _, s := range e.Sub {
			if s.Panic == nil && !s.Exit {
				out = append(out, scopesOf(s.Effects, nil, s.Facts, s.Ret, false, async || e.Kind == eng.EGo, nil)...)
			}
		}
	}
	return out
}

// deep visits effects at any depth; Sub only of synchronous callbacks.
func deep(es []*eng.Effect, f func(e *eng.Effect, async bool) bool) bool {
	var walk func(es []*eng.Effect, async bool) bool
	walk = func(es []*eng.Effect, async bool) bool {
		for _, e := range es {
			if f(e, async) {
				return true
			}
			if e.Loop != nil {
				for _, it := range e.Loop.Iters {
					if walk(it.Effects, async) {
						return true
					}
				}
			}
			for _, s := range e.Sub {
				if walk(s.Effects, async || e.Kind == eng.EGo) {
					return true
				}
			}
		}
		return false
	}
	return walk(es, false)
}

// surely is deep, but what a callback does counts only if it always does it.
func surely(es []*eng.Effect, f func(e *eng.Effect) bool) bool {
	for _, e := range es {
		if f(e) {
			return true
		}
		if e.Loop != nil {
			for _, it := range e.Loop.Iters {
				if surely(it.Effects, f) {
					return true
				}
			}
		}
		if e.Kind == eng.EGo || strings.HasSuffix(callName(e), ".ServeHTTP") {
			continue // in parallel, or not at all
		}
		always := map[*ssa.Function]bool{}
		for _, s := range e.Sub {
			if s.Panic == nil && !s.Exit {
				v, ok := always[s.Root]
				always[s.Root] = (v || !ok) && surely(s.Effects, f)
			}
		}
		for _, v := range always {
			if v {
				return true
			}
		}
	}
	return false
}

func (rc *resCheck) check() {
	p := rc.p
	for _, s := range scopesOf(p.Effects, nil, p.Facts, p.Ret, false, false, nil) {
		for i, e := range s.es {
			if e.Kind == eng.EGo {
				rc.goroutine(s, i, e)
				continue
			}
			if e.Kind != eng.ECall || e.Callee == nil {
				continue
			}
			switch acquires(callName(e)) {
			case "cancel":
				rc.cancel(s, i, e)
			case "ticker":
				rc.ticker(s, i, e)
			case "body":
				rc.body(s, i, e)
			case "connection":
				rc.connection(s, i, e)
			}
		}
	}
}

func tupleAt(e *eng.Effect, i int) *eng.Term {
	if e.Result == nil {
		return nil
	}
	if e.Result.Op == eng.OTuple {
		if i < len(e.Result.Args) {
			return e.Result.Args[i].Strip()
		}
		return nil
	}
	if i == 0 {
		return e.Result.Strip()
	}
	return nil
}

// holds: t is, or captures a variable that was set to, x.
func (rc *resCheck) holds(t, x *eng.Term) bool {
	if t == nil {
		return false
	}
	if t.Any(func(y *eng.Term) bool { return y == x }) {
		return true
	}
	found := false
	t.Any(func(y *eng.Term) bool {
		if y.Op == eng.OAlloc {
			deep(rc.p.Effects, func(e *eng.Effect, _ bool) bool {
				if e.Kind == eng.EStore && e.Val != nil && e.Addr.Any(func(z *eng.Term) bool { return z == y }) && e.Val.Any(func(z *eng.Term) bool { return z == x }) {
					found = true
				}
				return found
			})
		}
		return found
	})
	return found
}

// isItself: the value is x, or something that wraps or captures x itself, as
// opposed to something read from x.
func (rc *resCheck) isItself(t, x *eng.Term) bool {
	seen := map[*eng.Term]bool{}
	var walk func(t *eng.Term) bool
	walk = func(t *eng.Term) bool {
		if t == nil || seen[t] {
			return false
		}
		seen[t] = true
		if t == x || rc.resolve(t) == x {
			return true
		}
		switch t.Op {
		case eng.OLoad, eng.OCall, eng.OField:
			return false
		case eng.OAlloc:
			return rc.holds(t, x)
		}
		for _, a := range t.Args {
			if walk(a) {
				return true
			}
		}
		return false
	}
	return walk(t)
}

// resolve follows variables that are shared with closures.
func (rc *resCheck) resolve(t *eng.Term) *eng.Term {
	for n := 0; n < 8 && t != nil; n++ {
		t = t.Strip()
		if t.Op != eng.OLoad || t.Args[0].Op != eng.OAlloc {
			return t
		}
		var vals []*eng.Term
		deep(rc.p.Effects, func(e *eng.Effect, _ bool) bool {
			if e.Kind == eng.EStore && e.Addr == t.Args[0] {
				vals = append(vals, e.Val)
			}
			return false
		})
		if len(vals) == 0 {
			return t
		}
		t = vals[len(vals)-1]
	}
	return t
}

// isCallOf: the effect calls the function value x.
func (rc *resCheck) isCallOf(e *eng.Effect, x *eng.Term) bool {
	return e.Kind == eng.ECall && e.Callee != nil && e.Callee.Fn == nil && e.Callee.Meth == nil && e.Addr != nil && rc.resolve(e.Addr) == x
}

// escapes: x is handed to something that is not analysed.
func (rc *resCheck) escapes(s scope, x *eng.Term, own func(string) bool) bool {
	for _, r := range s.ret {
		if rc.isItself(r, x) {
			return true
		}
	}
	return deep(append(append([]*eng.Effect{}, s.es...), s.rest...), func(e *eng.Effect, _ bool) bool {
		switch e.Kind {
		case eng.ECall:
			if len(e.Sub) > 0 || own != nil && own(callName(e)) {
				return false
			}
			for _, a := range e.Args {
				if rc.isItself(a, x) {
					return true
				}
			}
		case eng.EStore:
			if e.Val != nil && rc.isItself(e.Val, x) && e.Addr.Root() != nil && e.Addr.Root().Op != eng.OAlloc {
				return true
			}
		case eng.ESend, eng.EMapUpdate:
			return e.Val != nil && rc.isItself(e.Val, x)
		}
		return false
	})
}

func (rc *resCheck) cancel(s scope, i int, e *eng.Effect) {
	con := rc.name + " cancels its context"
	x := tupleAt(e, 1)
	if x == nil {
		return
	}
	after := append(append([]*eng.Effect{}, s.es[i+1:]...), s.rest...)
	called := surely(after, func(y *eng.Effect) bool { return rc.isCallOf(y, x) })
	switch {
	case called:
		rc.OK("cancel", con)
	case rc.escapes(s, x, nil):
		rc.OK("cancel", con+" (handed on)")
	case rc.p.Panic != nil:
		// only deferred calls run
	case deep(after, func(y *eng.Effect, async bool) bool { return async && rc.isCallOf(y, x) }):
		rc.Undec("cancel", con, "it is only cancelled by a goroutine")
	default:
		rc.Fail("cancel", e.Pos, con, "the function can return without having cancelled the context it derived")
	}
}

func (rc *resCheck) ticker(s scope, i int, e *eng.Effect) {
	con := rc.name + " stops its ticker"
	if callName(e) == "time.Tick" {
		rc.Fail("ticker", e.Pos, con, "the ticker can't be stopped")
		return
	}
	x := tupleAt(e, 0)
	after := append(append([]*eng.Effect{}, s.es[i+1:]...), s.rest...)
	stopped := deep(after, func(y *eng.Effect, _ bool) bool {
		return callName(y) == "(*time.Ticker).Stop" && rc.resolve(y.Args[0]) == x
	})
	switch {
	case stopped:
		rc.OK("ticker", con)
	case rc.escapes(s, x, func(n string) bool { return strings.HasPrefix(n, "(*time.Ticker)") }):
		rc.Undec("ticker", con, "the ticker is handed to something else")
	case rc.p.Panic != nil:
	default:
		rc.Fail("ticker", e.Pos, con, "the function can return without having stopped its ticker")
	}
}

func (rc *resCheck) body(s scope, i int, e *eng.Effect) {
	con := rc.name + " closes the response body"
	x := tupleAt(e, 0)
	if x == nil || s.facts == nil {
		return
	}
	if isnil, known := knownNil(rc.in, s.facts, errOf(e)); !known || !isnil {
		if !known {
			rc.Undec("body", con, "cannot tell whether there is a response")
		}
		return // no response
	}
	after := append(append([]*eng.Effect{}, s.es[i+1:]...), s.rest...)
	closed := deep(after, func(y *eng.Effect, _ bool) bool {
		return y.Kind == eng.ECall && y.Callee != nil && strings.HasSuffix(callName(y), "Closer).Close") && len(y.Args) > 0 && y.Args[0].Any(func(z *eng.Term) bool { return z == x || rc.resolve(z) == x })
	})
	switch {
	case closed:
		rc.OK("body", con)
	case rc.escapes(s, x, nil):
		rc.Undec("body", con, "the response is handed to something else")
	case rc.p.Panic != nil:
	default:
		rc.Fail("body", e.Pos, con, "the function can return without having closed the body of the response: the connection is never released")
	}
}

func (rc *resCheck) connection(s scope, i int, e *eng.Effect) {
	con := rc.name + " closes the event source"
	x := tupleAt(e, 0)
	after := append(append([]*eng.Effect{}, s.es[i+1:]...), s.rest...)
	isClose := func(y *eng.Effect) bool {
		return callName(y) == "(*"+evsrc+".EventSource).Close" && rc.resolve(y.Args[0]) == x
	}
	if deep(after, func(y *eng.Effect, async bool) bool { return !async && isClose(y) }) {
		rc.OK("connection", con)
		return
	}
	// by a goroutine, which must get there
	for _, g := range after {
		if g.Kind != eng.EGo {
			continue
		}
		all, some, stuck := true, false, false
		for _, alt := range g.Sub {
			has := false
			for _, y := range alt.Effects {
				if isClose(y) {
					has = true
					break
				}
				if ctx := rc.waitsFor(y); ctx != nil && !rc.ends(ctx, after) {
					stuck = true
				}
			}
			all, some = all && has, some || has
		}
		if some {
			if stuck {
				rc.Fail("connection", e.Pos, con, "the function can return while the goroutine that closes the event source still waits")
			} else {
				rc.Check(all, "connection", e.Pos, con, "the goroutine can end without having closed the event source")
			}
			return
		}
	}
	if rc.p.Panic != nil {
		return
	}
	if rc.escapes(s, x, func(n string) bool { return strings.HasPrefix(n, "(*"+evsrc) }) {
		rc.Undec("connection", con, "the event source is handed to something else")
		return
	}
	rc.Fail("connection", e.Pos, con, "the function can return without having closed the event source: it keeps reconnecting")
}

// waitsFor: the context whose end the effect waits for.
func (rc *resCheck) waitsFor(e *eng.Effect) *eng.Term {
	done := func(t *eng.Term) *eng.Term {
		t = rc.resolve(t)
		if t != nil && isDoneCall(t) && len(t.Args) > 0 {
			return t.Args[0]
		}
		return nil
	}
	switch e.Kind {
	case eng.ERecv:
		return done(e.Addr)
	case eng.ESelect:
		if !e.Blocking {
			return nil
		}
		for _, k := range e.Cases {
			if !k.Send {
				if d := done(k.Chan); d != nil {
					return d
				}
			}
		}
	}
	return nil
}

// chain: the contexts t is derived from, itself included, and the calls that
// derived them.
func (rc *resCheck) chain(t *eng.Term) (ctxs []*eng.Term) {
	for n := 0; n < 10 && t != nil; n++ {
		t = rc.resolve(t)
		ctxs = append(ctxs, t)
		u := t
		if u.Op == eng.OExtract {
			u = u.Args[0]
		}
		if u.Op != eng.OCall || len(u.Args) == 0 {
			return
		}
		found := false
		for _, a := range u.Args {
			if a.Typ != nil && isNamed(a.Typ, "context", "Context") {
				t, found = a, true
				break
			}
		}
		if !found {
			return
		}
	}
	return
}

// cancelOf: the function that cancels the context.
func cancelOf(t *eng.Term) (call *eng.Term) {
	if t.Op == eng.OExtract && t.N == 0 && acquires(t.Args[0].CalleeName()) == "cancel" {
		return t.Args[0]
	}
	return nil
}

// ends: the context is cancelled, or known to be done, in these effects.
func (rc *resCheck) ends(ctx *eng.Term, es []*eng.Effect) bool {
	return rc.endIndex(ctx, es) >= 0
}

func (rc *resCheck) endIndex(ctx *eng.Term, es []*eng.Effect) int {
	ch := rc.chain(ctx)
	for i, e := range es {
		hit := surely([]*eng.Effect{e}, func(y *eng.Effect) bool {
			for _, x := range ch {
				if w := cancelOf(x); w != nil && y.Kind == eng.ECall && y.Addr != nil {
					if f := rc.resolve(y.Addr); f.Op == eng.OExtract && f.N == 1 && f.Args[0] == w {
						return true
					}
				}
			}
			// told by the context itself, or one derived from it
			var d *eng.Term
			switch y.Kind {
			case eng.ERecv:
				d = rc.waitsFor(y)
			case eng.ESelect:
				if y.Case >= 0 && y.Case < len(y.Cases) && !y.Cases[y.Case].Send {
					if t := rc.resolve(y.Cases[y.Case].Chan); t != nil && isDoneCall(t) && len(t.Args) > 0 {
						d = t.Args[0]
					}
				}
			case eng.EBranch:
				if y.Val != nil && y.Val.Any(func(z *eng.Term) bool { return strings.HasSuffix(z.CalleeName(), "context.Context).Err") }) {
					if a, b := eqSides(y.Val); a != nil && (a.IsNil() || b.IsNil()) && !y.Truth {
						z := y.Val.Find(func(z *eng.Term) bool { return strings.HasSuffix(z.CalleeName(), "context.Context).Err") })
						d = z.Args[0]
					}
				}
			}
			if d != nil {
				for _, a := range rc.chain(d) {
					for _, b := range ch {
						if a == b {
							return true
						}
					}
				}
			}
			return false
		})
		if hit {
			return i
		}
	}
	return -1
}

func isWaitGroup(e *eng.Effect, m string) *eng.Term {
	if callName(e) == "(*sync.WaitGroup)."+m && len(e.Args) > 0 {
		return e.Args[0].Strip()
	}
	return nil
}

// goroutine: it is waited for, or can end by itself.
func (rc *resCheck) goroutine(s scope, i int, g *eng.Effect) {
	con := rc.name + " goroutine"
	if g.Callee != nil && g.Callee.Fn != nil {
		con = rc.name + " " + shortFn(rc.C, g.Callee.Fn)
	}
	if len(g.Sub) == 0 && g.Callee != nil && g.Callee.Fn != nil && neverReturns(g.Callee.Fn) {
		rc.Fail("goroutine", g.Pos, con, "the goroutine never ends")
		return
	}
	if len(g.Sub) == 0 {
		rc.Undec("goroutine", con, "its body is not analysed")
		return
	}
	if rc.p.Panic != nil {
		return
	}
	after := append(append([]*eng.Effect{}, s.es[i+1:]...), s.rest...)
	// how its end is announced
	signals := map[*eng.Term]bool{}
	for n, alt := range g.Sub {
		cur := map[*eng.Term]bool{}
		deep(alt.Effects, func(y *eng.Effect, async bool) bool {
			if !async {
				if y.Kind == eng.EClose || y.Kind == eng.ESend {
					cur[rc.resolve(y.Addr)] = true
				}
				if w := isWaitGroup(y, "Done"); w != nil {
					cur[rc.resolve(w)] = true
				}
			}
			return false
		})
		for t := range signals {
			if !cur[t] {
				delete(signals, t)
			}
		}
		if n == 0 {
			signals = cur
		}
	}
	join := -1
	for j, e := range after {
		if deep([]*eng.Effect{e}, func(y *eng.Effect, async bool) bool {
			if async {
				return false
			}
			switch y.Kind {
			case eng.ERecv:
				return signals[rc.resolve(y.Addr)]
			case eng.ESelect:
				if y.Case >= 0 && y.Case < len(y.Cases) && !y.Cases[y.Case].Send {
					return signals[rc.resolve(y.Cases[y.Case].Chan)]
				}
			}
			if w := isWaitGroup(y, "Wait"); w != nil {
				return signals[rc.resolve(w)]
			}
			return false
		}) {
			join = j
			break
		}
	}
	if join >= 0 {
		// told to stop before it is waited for
		ok := true
		for _, alt := range g.Sub {
			if alt.Panic != nil {
				continue
			}
			deep(alt.Effects, func(y *eng.Effect, async bool) bool {
				if async {
					return false
				}
				ctx := rc.waitsFor(y)
				if ctx == nil {
					ctx = rc.streamCtx(y)
				}
				if ctx != nil && ok && !rc.received(after[:join+1], after[join], signals) && rc.endIndex(ctx, after[:join]) < 0 {
					ok = false
				}
				return false
			})
		}
		rc.Check(ok, "goroutine", g.Pos, con, "the function waits for the goroutine before it told it to stop")
		return
	}
	// on its own
	bad := ""
	for _, alt := range g.Sub {
		deep(alt.Effects, func(y *eng.Effect, async bool) bool {
			if async || bad != "" {
				return false
			}
			if ctx := rc.waitsFor(y); ctx != nil {
				if !rc.ends(ctx, after) {
					bad = "the goroutine waits for a context that is not done when the function returns"
				}
				return false
			}
			switch y.Kind {
			case eng.ERecv:
				bad = "the goroutine waits for a channel that nothing may be sent on anymore"
			case eng.ESend:
				if !rc.hasRoom(s, y.Addr) {
					bad = "nothing may receive what the goroutine sends, in which case it's stuck"
				}
			case eng.ESelect:
				if y.Blocking {
					bad = "the goroutine waits for channels that nothing may be sent on anymore"
				}
			}
			if ctx := rc.streamCtx(y); ctx != nil {
				if !rc.ends(ctx, after) {
					bad = "the goroutine keeps streaming when the function returns"
				}
			}
			return false
		})
	}
	if bad != "" {
		rc.Fail("goroutine", g.Pos, con, "%s", bad)
		return
	}
	// a server's streams end with the request, and the command's with its runner
	server, command := strings.HasSuffix(pkgPath(rc.fn), "/trcweb") && takesWriter(rc.fn), strings.HasSuffix(pkgPath(rc.fn), "/cmd/trc")
	if server || command {
		for _, alt := range g.Sub {
			if deep(alt.Effects, func(y *eng.Effect, async bool) bool { return !async && rc.streamCtx(y) != nil }) {
				rc.Fail("goroutine", g.Pos, con, "the %s can return while the stream it started still exists", map[bool]string{true: "handler", false: "command's stream runner"}[server])
				return
			}
		}
	}
	rc.OK("goroutine", con)
}

// neverReturns: no return can be reached.
func neverReturns(f *ssa.Function) bool {
	if len(f.Blocks) == 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if len(b.Instrs) > 0 {
			switch b.Instrs[len(b.Instrs)-1].(type) {
			case *ssa.Return, *ssa.Panic:
				return false
			}
		}
		for _, s := range b.Succs {
			if !walk(s) {
				return false
			}
		}
		return true
	}
	return walk(f.Blocks[0])
}

// received: the goroutine ended by itself.
func (rc *resCheck) received(es []*eng.Effect, join *eng.Effect, signals map[*eng.Term]bool) bool {
	return join.Kind == eng.ESelect
}

// streamCtx: the context of a call that lasts as long as its context.
func (rc *resCheck) streamCtx(e *eng.Effect) *eng.Term {
	if rc.methodCall(e, "Stream") && len(e.Args) >= 3 {
		return e.Args[1]
	}
	return nil
}

// hasRoom: the channel takes what the goroutine sends although nobody receives.
func (rc *resCheck) hasRoom(s scope, ch *eng.Term) bool {
	ch = rc.resolve(ch)
	if ch == nil || ch.Op != eng.OMkChan || len(ch.Args) == 0 {
		return false
	}
	n := ch.Args[0].Strip()
	if k, ok := n.IntConst(); ok {
		if k < 1 {
			return false
		}
		// one goroutine for each channel
		if s.iter {
			made := false
			for _, e := range s.es {
				if e.Kind == eng.EMake && e.Site != nil && ch.Obj == any(e.Site) {
					made = true
				}
				if e.Kind == eng.EMake && e.Val != nil && e.Val.Strip() == n {
					if _, ok := e.Site.(*ssa.MakeChan); ok {
						made = true
					}
				}
			}
			return made
		}
		return true
	}
	return n.Op == eng.OLen
}

func shortFn(c *C, f *ssa.Function) string {
	n := c.P.FnName(f)
	if i := strings.LastIndex(n, "."); i >= 0 {
		n = n[i+1:]
	}
	return n
}

// callerContext: a remote search is part of the caller's context.
func (c *C) callerContext() {
	fn := c.method("trcweb", "SearchClient", "Search")
	if fn == nil {
		return
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	con := "SearchClient.Search context"
	for _, p := range c.Run(in, fn, nil, ps) {
		p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			if !isDo(e) || len(e.Args) < 2 {
				return
			}
			req := e.Args[1]
			switch {
			case req.Any(func(x *eng.Term) bool { return x == ps[1] }):
				c.OK("context", con)
			case req.Any(func(x *eng.Term) bool { return x.Op == eng.OLoad && x.Args[0].Op == eng.OAlloc }):
				c.Undec("context", con, "cannot see how the request was made")
			default:
				c.Fail("context", e.Pos, con, "the request isn't made in the context of the caller: it goes on when that's cancelled")
			}
		})
	}
}

package rules

import (
	"go/token"
	"go/types"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

const evsrc = "github.com/bernerdschaefer/eventsource"

// c26: a remote stream delivers what the server streams.
func c26(c *C) {
	types := c.streamServer()
	c.streamClient(types)
	c.clientOptions()
}

// group is everything one callback or goroutine may do.
type group struct {
	at    *eng.Effect
	alts  []*eng.Path
	async bool
}

// groups: the goroutines started and callbacks run on a path, at any depth.
func groups(p *eng.Path) []group {
	var out []group
	var walk func(es []*eng.Effect)
	walk = func(es []*eng.Effect) {
		for _, e := range es {
			if len(e.Sub) > 0 {
				out = append(out, group{e, e.Sub, e.Kind == eng.EGo})
				for _, s := range e.Sub {
					walk(s.Effects)
				}
			}
			if e.Loop != nil {
				for _, it := range e.Loop.Iters {
					walk(it.Effects)
				}
			}
		}
	}
	walk(p.Effects)
	return out
}

// derived: every value t may have on the path satisfies pred; variables shared
// with a goroutine are followed to what was stored in them.
func derived(p *eng.Path, t *eng.Term, pred func(*eng.Term) bool, depth int) bool {
	if t == nil || depth > 6 {
		return false
	}
	if t.Any(pred) {
		return true
	}
	if f := t.Find(func(x *eng.Term) bool { return x.Op == eng.OLoad && x.Args[0].Op == eng.OAlloc }); f != nil {
		n, ok := 0, true
		p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
			if e.Kind == eng.EStore && e.Addr == f.Args[0] {
				n++
				ok = ok && derived(p, e.Val, pred, depth+1)
			}
		})
		return n > 0 && ok
	}
	return false
}

func isRequestContext(x *eng.Term) bool {
	return x.Op == eng.OCall && strings.HasSuffix(x.CalleeName(), "(*net/http.Request).Context")
}

// segment is one pass through the body of the event loop, or the part of a
// path after it.
type segment struct {
	es    []*eng.Effect
	facts *eng.Facts
	last  bool // the path ends after it
	loop  *eng.LoopInfo
	path  *eng.Path
}

// segments splits a path at its outermost loop which satisfies pred.
func segments(p *eng.Path, pred func(*eng.Effect) bool) (segs []segment, found bool) {
	for i, e := range p.Effects {
		if e.Kind != eng.ELoop || e.Loop == nil {
			continue
		}
		has := false
		for _, it := range e.Loop.Iters {
			for _, x := range it.Effects {
				has = has || pred(x)
			}
		}
		for _, x := range p.Effects[i+1:] {
			has = has || pred(x)
		}
		if !has {
			continue
		}
		for _, it := range e.Loop.Iters {
			segs = append(segs, segment{it.Effects, it.Facts, false, e.Loop, p})
		}
		segs = append(segs, segment{p.Effects[i+1:], p.Facts, true, e.Loop, p})
		return segs, true
	}
	return nil, false
}

func isEncode(e *eng.Effect) bool {
	return callName(e) == "(*"+evsrc+".Encoder).Encode" && len(e.Args) == 2
}

// eventPart: the type and the data of an encoded event.
func eventParts(c *C, ev *eng.Term) (typ, data *eng.Term) {
	ev = ev.Strip()
	if ev.Op != eng.OStruct {
		return nil, nil
	}
	for i, f := range fieldsOf(namedOf(ev.Typ)) {
		if i >= len(ev.Args) {
			break
		}
		switch f.Name() {
		case "Type":
			typ = ev.Args[i]
		case "Data":
			data = ev.Args[i]
		}
	}
	return
}

// streamServer checks the handler of stream requests, and returns the types of
// the events which carry traces and stats.
func (c *C) streamServer() map[string]string {
	kinds := map[string]string{}
	r := c.serverPaths("Stream", "Search")
	if r == nil {
		return kinds
	}
	served := 0
	for _, p := range r.paths {
		if c.streamServed(r, p, kinds) {
			served++
		}
	}
	if len(r.paths) > 0 && served == 0 {
		c.Fail("server", r.fn.Pos(), "stream handler", "no request is ever streamed")
	}
	return kinds
}

func streamCall(c *C, e *eng.Effect) bool { return c.methodCall(e, "Stream") && len(e.Args) == 4 }

func (c *C) streamServed(r *serverRun, p *eng.Path, kinds map[string]string) bool {
	in, fn := r.in, r.fn
	name := "stream handler"
	s, req := r.ps[0], r.ps[2]
	if p.Panic != nil || p.Exit {
		return false
	}
	var direct []*eng.Effect
	var searches, status int
	var code int64
	p.Walk(false, func(e *eng.Effect, loops []*eng.LoopInfo, _ bool) {
		if streamCall(c, e) {
			direct = append(direct, e)
		}
		if e.Kind == eng.ECall && e.Callee != nil && e.Callee.Fn != nil && pkgPath(e.Callee.Fn) == mod+"/trcweb" && c.reaches(e.Callee.Fn, func(i ssa.Instruction) bool { return instrMethod(i, "Search") }) {
			searches++
		}
		if k, ok := badRequest(e); ok {
			status++
			code = k
		}
	})
	var calls []*eng.Effect
	pathOf := map[*eng.Effect]*eng.Path{}
	min, max := len(direct), len(direct)
	for _, e := range direct {
		calls = append(calls, e)
		pathOf[e] = p
	}
	for _, g := range groups(p) {
		lo, hi := -1, 0
		for _, a := range g.alts {
			if a.Panic != nil || a.Exit {
				continue
			}
			n := 0
			a.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if streamCall(c, e) {
					n++
					calls = append(calls, e)
					pathOf[e] = a
				}
			})
			if lo < 0 || n < lo {
				lo = n
			}
			if n > hi {
				hi = n
			}
		}
		if lo > 0 {
			min += lo
		}
		max += hi
	}
	// who gets a stream
	asks := findTerm(p.Facts, func(t *eng.Term) bool {
		if t.Op == eng.OCall && strings.HasPrefix(t.CalleeName(), mod) {
			for _, a := range t.Args {
				if a == req {
					return true
				}
			}
		}
		k, _ := t.StrConst()
		return k == "text/event-stream"
	})
	if max == 0 && status == 0 {
		return false // a search
	}
	if asks == nil {
		c.Fail("server", fn.Pos(), name+" chosen", "a stream is served whatever the client accepts")
	} else {
		c.OK("server", name+" chosen")
	}
	// an invalid filter
	var norm *eng.Effect
	p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if callName(e) == "(*"+mod+".Filter).Normalize" {
			norm = e
		}
	})
	if norm != nil {
		n := in.T.Len(norm.Result)
		bad := p.Facts.Le(in.T.Int(1), n, 0)
		good := p.Facts.Le(n, in.T.Int(0), 0)
		switch {
		case bad && max > 0:
			c.Fail("server", posOf(norm, fn), name+" invalid filter", "an invalid filter is streamed all the same")
			return true
		case bad:
			c.Check(status == 1 && code >= 400 && code < 500, "server", posOf(norm, fn), name+" invalid filter", "an invalid filter is answered with %d statuses, the last one %d", status, code)
			return false
		case !good && max > 0:
			c.Fail("server", posOf(norm, fn), name+" invalid filter", "the problems of the filter are ignored")
		}
	} else if max > 0 {
		c.Fail("server", fn.Pos(), name+" invalid filter", "the filter is streamed without being checked")
	}
	if max == 0 {
		return false
	}
	if min != 1 || max != 1 {
		c.Fail("server", fn.Pos(), name+" streams once", "between %d and %d subscriptions are made for one request", min, max)
		return true
	}
	c.OK("server", name+" streams once")
	c.Check(status == 0 && searches == 0, "server", fn.Pos(), name+" only streams", "a streamed request is also answered otherwise")

	var ch *eng.Term
	for _, e := range calls {
		sp := *pathOf[e]
		c.chosen(r, &sp, e, s, "Streamer", name)
		c.Check(derived(p, e.Args[1], isRequestContext, 0), "server", posOf(e, fn), name+" context", "the subscription does not end with the request")
		x := e.Args[3].Strip()
		if ch != nil && ch != x {
			c.Undec("server", name+" channel", "several channels")
		}
		ch = x
		c.streamedFilter(r, p, e, norm, req)
	}
	if ch.Op != eng.OMkChan {
		c.Undec("server", name+" channel", "the channel is %s", ch)
		return true
	}
	if len(ch.Args) > 0 {
		c.paramKey("server", fn, name+" buffer", ch.Args[0], "sendbuf")
		c.keptParam("server", fn, name+" buffer", ch.Args[0], 0, 1, 2, 100, 99999, 100000)
	}
	p.Walk(true, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if callName(e) == "time.NewTicker" && hasString(queryKeys(e.Args[0]), "stats") {
			const sec = int64(1e9)
			c.keptParam("server", fn, name+" interval", e.Args[0], sec, 3*sec/2, 2*sec, 10*sec, 59*sec, 60*sec)
		}
	})
	c.eventLoop(r, p, ch, kinds)
	return true
}

// paramKey: v comes from the parameter key of the URL.
func (c *C) paramKey(rule string, fn *ssa.Function, con string, v *eng.Term, key string) {
	ks := queryKeys(v)
	switch {
	case len(ks) == 1 && ks[0] == key:
		c.OK(rule, con)
	case len(ks) > 0 && !hasString(ks, key):
		c.Fail(rule, fn.Pos(), con, "is taken from the parameter %q instead of %q", ks, key)
	case v.IsConst():
		c.Fail(rule, fn.Pos(), con, "the parameter %q is ignored", key)
	default:
		c.Undec(rule, con, "is %s", v)
	}
}

// streamedFilter: the filter the client sent is the filter of the subscription.
func (c *C) streamedFilter(r *serverRun, p *eng.Path, e, norm *eng.Effect, req *eng.Term) {
	in, fn := r.in, r.fn
	fT := c.P.Named("", "Filter")
	if fT == nil {
		return
	}
	// decoded from the body?
	var dec *eng.Effect
	p.Walk(false, func(x *eng.Effect, _ []*eng.LoopInfo, _ bool) {
		if into, _ := decoded(x); into != nil {
			dec = x
		}
	})
	var into *eng.Term
	if dec != nil {
		into, _ = decoded(dec)
		v, known := false, false
		p.Facts.Each(func(t *eng.Term, b bool) {
			if isContentTypeJSON(t) {
				v, known = b, true
			}
		})
		if known && !v {
			c.Fail("server", posOf(dec, fn), "stream filter mode", "the body is decoded although the request does not carry JSON")
		}
	}
	for _, l := range c.leaves(fT) {
		con := "stream filter " + l.String()
		v := l.of(e.Args[2])
		if v == nil {
			x := e.Args[2].Strip()
			if c.isParserCall(x) {
				c.OK("server", con)
			} else {
				c.Undec("server", con, "not visible")
			}
			continue
		}
		v = v.Strip()
		// a variable that was normalized after it was filled
		if v.Op == eng.OLoad && v.Args[0].Op == eng.OField {
			base := v.Args[0].Args[0]
			if v.Args[0] != l.addr(in, base) {
				c.Fail("server", posOf(e, fn), con, "the field takes the value of another one")
				continue
			}
			if dec != nil && base == into {
				c.OK("server", con+" JSON")
				continue
			}
			var last *eng.Effect
			p.Walk(false, func(x *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if x.Kind == eng.EStore && x.Addr == v.Args[0] {
					last = x
				}
			})
			if last != nil {
				v = last.Val.Strip()
			}
		}
		switch {
		case v.Op == eng.OFieldVal && v.N == l.idx[0] && c.isParserCall(v.Args[0]):
			c.Check(dec == nil, "server", posOf(e, fn), con, "the decoded filter is not the one that is streamed")
		case v.Op == eng.OFieldVal && c.isParserCall(v.Args[0]):
			c.Fail("server", posOf(e, fn), con, "the field takes the value of another one")
		case v.Op == eng.OLoad && dec != nil && l.loadedFrom(in, v, into):
			c.OK("server", con+" JSON")
		case v.IsConst() || v.Op == eng.OZero || v.IsNil():
			c.Fail("server", posOf(e, fn), con, "the filter of the client is not used")
		default:
			c.Undec("server", con, "is %s", v)
		}
	}
}

// eventLoop: every trace from the subscription becomes one event.
func (c *C) eventLoop(r *serverRun, p *eng.Path, ch *eng.Term, kinds map[string]string) {
	fn := r.fn
	isRecv := func(e *eng.Effect) *eng.Term {
		switch {
		case e.Kind == eng.ESelect && e.Case >= 0 && !e.Cases[e.Case].Send && e.Cases[e.Case].Chan.Strip() == ch:
			return e.Val
		case e.Kind == eng.ERecv && e.Addr.Strip() == ch:
			return e.Val
		}
		return nil
	}
	found := false
	units := []*eng.Path{p}
	for _, g := range groups(p) {
		units = append(units, g.alts...)
	}
	for _, u := range units {
		segs, ok := segments(u, func(e *eng.Effect) bool { return isRecv(e) != nil })
		if !ok {
			continue
		}
		found = true
		for _, sg := range segs {
			c.eventSegment(r, p, sg, ch, isRecv, kinds)
		}
	}
	if !found {
		c.Fail("server", fn.Pos(), "stream events", "nothing reads the traces of the subscription")
	}
}

func marshalOf(t *eng.Term) *eng.Term {
	t = t.Strip()
	for t.Op == eng.OExtract {
		t = t.Args[0]
	}
	if t.Op == eng.OCall && strings.HasPrefix(t.CalleeName(), "encoding/json.Marshal") && len(t.Args) > 0 {
		return t.Args[0].Strip()
	}
	return nil
}

func (c *C) eventSegment(r *serverRun, p *eng.Path, sg segment, ch *eng.Term, isRecv func(*eng.Effect) *eng.Term, kinds map[string]string) {
	in, fn := r.in, r.fn
	var recv, statsRes *eng.Term
	var recvAt, encAt *eng.Effect
	var sent []string
	ended, failedEnc, unknownEnc, opaque := false, false, false, false
	ticker := false
	for _, e := range sg.es {
		if e.Kind == eng.ESelect && e.Case >= 0 {
			cs := e.Cases[e.Case]
			if !cs.Send && (isDoneCall(cs.Chan) || cs.Chan.Strip().Op == eng.OSym) {
				ended = true
			}
			if !cs.Send && isTickerChan(cs.Chan) {
				ticker = true
			}
			if !e.Blocking && e.Case < 0 {
				continue
			}
		}
		if v := isRecv(e); v != nil && !ended {
			if recv != nil {
				c.Undec("server", "stream event trace", "two traces are received at a time")
			}
			recv, recvAt = v, e
			continue
		}
		if c.methodCall(e, "StreamStats") && len(e.Args) == 3 {
			c.Check(e.Args[2].Strip() == ch, "server", posOf(e, fn), "stream event stats", "the stats of another subscription are requested")
			statsRes = e.Result
			if statsRes.Op == eng.OTuple {
				statsRes = statsRes.Args[0]
			}
		}
		if isEncode(e) {
			typ, data := eventParts(c, e.Args[1])
			k, isConst := "", false
			if typ != nil {
				k, isConst = typ.Strip().StrConst()
			}
			m := (*eng.Term)(nil)
			if data != nil {
				m = marshalOf(data)
			}
			if n, known := knownNil(in, sg.facts, e.Result); known && !n {
				failedEnc = true
			}
			switch {
			case !isConst || m == nil:
				unknownEnc = true
				c.Undec("server", "stream event", "%s carries %s", typ, data)
			case recv != nil && m == recv:
				sent = append(sent, k)
				encAt = e
				kinds[k] = "trace"
			case statsRes != nil && m == statsRes.Strip():
				kinds[k] = "stats"
				c.OK("server", "stream event stats")
			default:
				if kinds[k] == "" {
					kinds[k] = "other"
				}
			}
			continue
		}
		if e.Kind == eng.ECall && recv != nil && !c.isTraceCall(e) && marshalOf(e.Result) == nil {
			for _, a := range e.Args {
				if a.Strip() == recv {
					opaque = true
				}
			}
		}
	}
	if recv != nil {
		closed := false
		sg.facts.Each(func(t *eng.Term, v bool) {
			if t.Op == eng.OSym && t.Aux == "recvok" && !v {
				closed = true
			}
		})
		own := c.ownTrace(in, p, sg.facts, recv)
		badJSON := false
		sg.facts.Each(func(t *eng.Term, v bool) {
			if t.Op == eng.OBin && t.Aux == "==" && !v {
				x, y := eqSides(t)
				if x != nil && (marshalOf(x) == recv || marshalOf(y) == recv) {
					badJSON = true
				}
			}
		})
		switch {
		case len(sent) == 1:
			if sent[0] == "" {
				c.Fail("server", posOf(encAt, fn), "stream event trace", "the event has no type")
			} else {
				c.OK("server", "stream event trace")
			}
		case len(sent) > 1:
			c.Fail("server", posOf(encAt, fn), "stream event trace", "a trace is sent %d times", len(sent))
		case closed || own || badJSON:
			c.OK("server", "stream event skipped")
		case unknownEnc || opaque:
			c.Undec("server", "stream event trace", "the trace is passed to a function that is not analysed")
		default:
			c.Fail("server", posOf(recvAt, fn), "stream event trace", "a trace of the subscription is not sent to the client (%s)", strings.Join(newFacts(sg.facts, p.Facts), " & "))
		}
	}
	if sg.last && !ended && !failedEnc && !unknownEnc && sg.path.Panic == nil && !sg.path.Exit {
		c.Fail("server", sg.path.EndPos, "stream end", "the stream ends although neither the request nor the connection did (%s)", strings.Join(newFacts(sg.facts, p.Facts), " & "))
	} else if sg.last {
		c.OK("server", "stream end")
	}
	if ticker && statsRes == nil && recv == nil && !sg.last {
		for _, e := range sg.es {
			if isEncode(e) {
				return
			}
		}
		c.Fail("server", fn.Pos(), "stream event stats", "no stats are sent when they are due")
	}
}

// newFacts: what is known in f but not in base.
func newFacts(f, base *eng.Facts) []string {
	have := map[string]bool{}
	for _, s := range base.Strings() {
		have[s] = true
	}
	var out []string
	for _, s := range f.Strings() {
		if !have[s] {
			out = append(out, s)
		}
	}
	return out
}

func (c *C) isTraceCall(e *eng.Effect) bool {
	r, m := c.traceMethod(e)
	return r != nil && m != ""
}

func isDoneCall(t *eng.Term) bool {
	t = t.Strip()
	return t.Op == eng.OCall && strings.HasSuffix(t.CalleeName(), "context.Context).Done")
}

func isTickerChan(t *eng.Term) bool {
	t = t.Strip()
	return t.Op == eng.OLoad && t.Args[0].FieldVar() != nil && t.Args[0].FieldVar().Name() == "C" && t.Args[0].Args[0].Op == eng.OCall && t.Args[0].Args[0].CalleeName() == "time.NewTicker"
}

// ownTrace: the facts say that recv is the trace of the request itself.
func (c *C) ownTrace(in *eng.Interp, p *eng.Path, f *eng.Facts, recv *eng.Term) bool {
	own := false
	f.Each(func(t *eng.Term, v bool) {
		if !v || t.Op != eng.OBin || t.Aux != "==" {
			return
		}
		x, y := eqSides(t)
		if x == nil {
			return
		}
		id := func(t *eng.Term) *eng.Term {
			r, m := c.termMethod(t.Strip())
			if m == "ID" {
				return r
			}
			return nil
		}
		rx, ry := id(x), id(y)
		if rx == nil || ry == nil {
			return
		}
		if ry.Strip() == recv {
			rx, ry = ry, rx
		}
		if rx.Strip() == recv && derived(p, ry, isRequestContext, 0) && ry.Any(func(x *eng.Term) bool { return x.Op == eng.OCall && x.CalleeName() == mod+".Get" || x.Op == eng.OLoad }) {
			own = true
		}
	})
	return own
}

// streamInline: what the client does to make the request, read the events and
// deliver them; encoders of filters and the defaults of options stay opaque.
func (c *C) streamInline(options bool) func(*ssa.Function) bool {
	enc := map[*ssa.Function]bool{}
	for _, f := range c.filterEncoders() {
		enc[f] = true
	}
	memo := map[*ssa.Function]bool{}
	return func(f *ssa.Function) bool {
		if exportedFn(f) || pkgPath(f) != mod+"/trcweb" || enc[f] {
			return false
		}
		if f.Parent() != nil || options {
			return true
		}
		if v, ok := memo[f]; ok {
			return v
		}
		via := func(g *ssa.Function) bool { return c.api(g) && pkgPath(g) == mod+"/trcweb" }
		memo[f] = c.reachesThrough(f, via, func(i ssa.Instruction) bool {
			if _, ok := i.(*ssa.Send); ok {
				return true
			}
			if _, ok := i.(*ssa.Select); ok {
				return true
			}
			return instrCalls(i, evsrc+".New", "(*"+evsrc+".EventSource).Read", "encoding/json.Unmarshal", "(*encoding/json.Decoder).Decode", "net/http.NewRequest", "net/http.NewRequestWithContext", "(net/url.Values).Set", "(net/url.Values).Add")
		})
		return memo[f]
	}
}

// streamClient checks what the client sends, and what it delivers.
func (c *C) streamClient(kinds map[string]string) {
	fn := c.method("trcweb", "StreamClient", "Stream")
	if fn == nil {
		return
	}
	in := eng.NewInterp(c.P, eng.Config{Inline: c.streamInline(false), MaxPaths: 4000})
	ps := in.ParamSyms(fn)
	paths := c.Run(in, fn, nil, ps)
	n := 0
	for _, p := range paths {
		if p.Panic != nil || p.Exit {
			continue
		}
		var es *eng.Effect
		var at int
		for i, e := range p.Effects {
			if callName(e) == evsrc+".New" {
				es, at = e, i
			}
		}
		if es == nil {
			// gave up before the connection
			if len(p.Ret) == 1 {
				c.Check(!p.Ret[0].Strip().IsNil(), "client", p.EndPos, "stream client set-up", "the client returns without streaming and without an error")
			}
			continue
		}
		n++
		c.streamRequest(in, fn, p, ps, es, at)
		c.clientLoop(in, fn, p, ps, es, kinds)
	}
	if n == 0 && len(paths) > 0 {
		c.Fail("client", fn.Pos(), "stream client", "the client never connects to an event source")
	}
}

func (c *C) streamRequest(in *eng.Interp, fn *ssa.Function, p *eng.Path, ps []*eng.Term, es *eng.Effect, at int) {
	recv, f := ps[0], ps[2]
	req := es.Args[0].Strip()
	enc := map[*ssa.Function]bool{}
	for _, g := range c.filterEncoders() {
		enc[g] = true
	}
	var encoded *eng.Effect
	encIdx := -1
	sets := map[string]*eng.Effect{}
	for i, e := range p.Effects[:at] {
		if e.Kind == eng.ECall && e.Callee != nil && enc[e.Callee.Fn] {
			encoded, encIdx = e, i
		}
		if o := valuesOp(e); o != nil {
			if k, ok := constOfArgs(e); ok {
				sets[k] = e
			}
		}
	}
	if encoded == nil {
		c.Fail("client", posOf(es, fn), "stream client filter", "the filter is not sent to the server")
		return
	}
	whole, toReq := false, false
	fT := c.P.Named("", "Filter")
	for _, a := range encoded.Args {
		if a.Strip() == f {
			whole = true
		}
		if namedOf(a.Typ) == fT || a.Strip().Op == eng.OStruct {
			whole = true
			for _, l := range c.leaves(fT) {
				v := l.of(a)
				if v == nil {
					continue
				}
				v = v.Strip()
				if !(v.Op == eng.OFieldVal && v.Args[0] == f && v.N == l.idx[0] || v == in.FieldVal(f, l.idx[0], l.path[0].Type())) {
					whole = false
					if v.Op == eng.OFieldVal || v.IsConst() || v.Op == eng.OZero {
						c.Fail("client", posOf(encoded, fn), "stream client filter "+l.String(), "is sent as %s", v)
					} else {
						c.Undec("client", "stream client filter "+l.String(), "is sent as %s", v)
					}
				}
			}
		}
		if mentions(a, req) || mentions(req, a.Strip()) || a.Strip().Root() == req.Root() {
			toReq = true
		}
	}
	if whole {
		c.OK("client", "stream client filter")
	}
	if !toReq {
		// the encoder may return something the request is built from
		if encoded.Result != nil && (mentions(req, encoded.Result) || derived(p, req, func(x *eng.Term) bool { return x == encoded.Result }, 0)) {
			toReq = true
		}
	}
	c.Check(toReq, "client", posOf(encoded, fn), "stream client filter sent", "the filter is put in another request")
	// overwritten afterwards?
	for i := encIdx + 1; i < at; i++ {
		e := p.Effects[i]
		if e.Kind == eng.EStore && e.Addr.FieldVar() != nil && e.Addr.FieldVar().Name() == "RawQuery" && toReq && mentionsRoot(e.Addr, req) {
			fresh := false
			for _, q := range p.Effects[encIdx+1 : i] {
				if callName(q) == "(*net/url.URL).Query" {
					fresh = true
				}
			}
			c.Check(fresh, "client", posOf(e, fn), "stream client filter kept", "the query with the filter is overwritten")
		}
	}
	// the server's URI
	uri := fieldNamed(c.P.Named("trcweb", "StreamClient"), "URI")
	if uri != nil {
		ok := derived(p, req, func(x *eng.Term) bool {
			return x.Op == eng.OLoad && x.Args[0].FieldVar() == uri && x.Args[0].Args[0] == recv
		}, 0)
		if ok {
			c.OK("client", "stream client URI")
		} else {
			c.Undec("client", "stream client URI", "the request is %s", req)
		}
	}
	for key, fld := range map[string]string{"sendbuf": "SendBuffer", "stats": "StatsInterval"} {
		fv := fieldNamed(c.P.Named("trcweb", "StreamClient"), fld)
		if fv == nil {
			continue
		}
		con := "stream client " + key
		e := sets[key]
		ld := findTerm(p.Facts, func(t *eng.Term) bool { return t.Op == eng.OLoad && t.Args[0].FieldVar() == fv })
		if e == nil {
			if ld != nil && p.Facts.Le(ld, in.T.Int(0), 0) {
				c.OK("client", con+" unset")
			} else {
				c.Fail("client", posOf(es, fn), con, "is not sent to the server")
			}
			continue
		}
		v := e.Args[len(e.Args)-1]
		var bad string
		has := false
		v.Any(func(x *eng.Term) bool {
			if x.Op == eng.OLoad && x.Args[0].FieldVar() != nil && x.Args[0].Args[0] == recv {
				if x.Args[0].FieldVar() == fv {
					has = true
				} else {
					bad = x.Args[0].FieldVar().Name()
				}
			}
			return false
		})
		switch {
		case bad != "":
			c.Fail("client", posOf(e, fn), con, "is sent with the value of %s", bad)
		case has:
			c.OK("client", con)
		case v.IsConst():
			c.Fail("client", posOf(e, fn), con, "is always sent as %s", v)
		default:
			c.Undec("client", con, "is sent as %s", v)
		}
	}
}

func mentionsRoot(a, x *eng.Term) bool {
	return a.Any(func(y *eng.Term) bool { return y == x }) || a.Root() == x.Root()
}

// constOfArgs: the constant key of a url.Values operation.
func constOfArgs(e *eng.Effect) (string, bool) {
	n := callName(e)
	if (n == "(net/url.Values).Set" || n == "(net/url.Values).Add") && len(e.Args) == 3 {
		return e.Args[1].Strip().StrConst()
	}
	if e.Kind == eng.EMapUpdate && e.Key != nil {
		return e.Key.Strip().StrConst()
	}
	return "", false
}

func isRead(e *eng.Effect) bool { return callName(e) == "(*"+evsrc+".EventSource).Read" }

func (c *C) clientLoop(in *eng.Interp, fn *ssa.Function, p *eng.Path, ps []*eng.Term, es *eng.Effect, kinds map[string]string) {
	segs, ok := segments(p, isRead)
	if !ok {
		c.Fail("client", posOf(es, fn), "stream client reads", "the client does not read events until the stream ends")
		return
	}
	for _, sg := range segs {
		c.clientSegment(in, fn, p, ps, es, sg, kinds)
	}
}

func (c *C) clientSegment(in *eng.Interp, fn *ssa.Function, p *eng.Path, ps []*eng.Term, es *eng.Effect, sg segment, kinds map[string]string) {
	recv, ch := ps[0], ps[3]
	onRead := fieldNamed(c.P.Named("trcweb", "StreamClient"), "OnRead")
	name := "stream client"
	var read *eng.Effect
	var onReads, sends, lossy, unguarded, decodes []*eng.Effect
	var sentVal []*eng.Term
	ctxEnd := false
	for _, e := range sg.es {
		switch {
		case isRead(e):
			if read != nil {
				c.Undec("client", name+" read", "two events are read at a time")
			}
			read = e
		case e.Kind == eng.ECall && e.Addr != nil && onRead != nil && e.Addr.Any(func(x *eng.Term) bool {
			return x.Op == eng.OLoad && x.Args[0].FieldVar() == onRead && x.Args[0].Args[0] == recv
		}):
			onReads = append(onReads, e)
		case e.Kind == eng.ESend && e.Addr.Strip() == ch:
			sends = append(sends, e)
			unguarded = append(unguarded, e)
			sentVal = append(sentVal, e.Val)
		case e.Kind == eng.ESelect:
			has, done := -1, false
			for i, cs := range e.Cases {
				if cs.Send && cs.Chan.Strip() == ch {
					has = i
				}
				if !cs.Send && isDoneCall(cs.Chan) {
					done = true
				}
			}
			if has >= 0 {
				sends = append(sends, e)
				sentVal = append(sentVal, e.Cases[has].Val)
				if !e.Blocking || e.Case != has && (e.Cases[e.Case].Send || !isDoneCall(e.Cases[e.Case].Chan)) {
					lossy = append(lossy, e)
				}
				if !done {
					unguarded = append(unguarded, e)
				}
			}
			if e.Case >= 0 && !e.Cases[e.Case].Send && isDoneCall(e.Cases[e.Case].Chan) {
				ctxEnd = true
			}
		default:
			if into, _ := decoded(e); into != nil {
				decodes = append(decodes, e)
			}
		}
	}
	if read == nil {
		if sg.last && len(p.Ret) == 1 {
			return
		}
		if !sg.last {
			c.Fail("client", posOf(es, fn), name+" reads", "the client loops without reading an event")
		}
		return
	}
	if read.Args[0].Strip() != es.Result {
		c.Undec("client", name+" read", "events are read from %s", read.Args[0])
		return
	}
	rerr := errOf(read)
	var evT *eng.Term
	if read.Result.Op == eng.OTuple {
		evT = read.Result.Args[0]
	}
	isnil, known := knownNil(in, sg.facts, rerr)
	closed, closedKnown := false, false
	sg.facts.Each(func(t *eng.Term, v bool) {
		isClosed := func(x *eng.Term) bool {
			return x.Any(func(y *eng.Term) bool { return y.Op == eng.OGlobal && strings.HasSuffix(y.String(), "ErrClosed") })
		}
		if t.Op == eng.OCall && t.CalleeName() == "errors.Is" && t.Args[0] == rerr && isClosed(t.Args[1]) {
			closed, closedKnown = v, true
		}
		if t.Op == eng.OBin && t.Aux == "==" {
			x, y := eqSides(t)
			if x != nil && (x.Strip() == rerr && isClosed(y) || y.Strip() == rerr && isClosed(x)) {
				closed, closedKnown = v, true
			}
		}
	})
	if closedKnown && closed {
		if !sg.last {
			c.Fail("client", posOf(read, fn), name+" closed", "the client keeps reading from a closed event source")
		} else if len(p.Ret) == 1 {
			c.Check(p.Ret[0].Strip().IsNil() || ctxErr(p.Ret[0]), "client", p.EndPos, name+" closed", "the end of the stream is reported as an error")
		}
		return
	}
	if known && !isnil {
		if !sg.last {
			c.Fail("client", posOf(read, fn), name+" failed read", "the client keeps reading after an unrecoverable error")
		} else if len(p.Ret) == 1 {
			bad := p.Ret[0].Strip().IsNil()
			c.Check(!bad, "client", p.EndPos, name+" failed read", "an unrecoverable error is not reported")
		}
		return
	}
	if !known {
		c.Fail("client", posOf(read, fn), name+" failed read", "errors of reading the stream are ignored")
		return
	}
	// an event was read
	part := func(n string) *eng.Term {
		for i, f := range fieldsOf(namedOf(evT.Typ)) {
			if f.Name() == n {
				return in.FieldVal(evT, i, f.Type())
			}
		}
		return nil
	}
	if evT == nil || namedOf(evT.Typ) == nil {
		c.Undec("client", name+" event", "the event is not visible")
		return
	}
	typ, data := part("Type"), part("Data")
	if onRead != nil {
		switch len(onReads) {
		case 1:
			a := onReads[0].Args
			if len(a) == 3 {
				c.Check(a[1].Strip() == typ && a[2].Strip() == data, "client", posOf(onReads[0], fn), name+" OnRead", "OnRead gets %s and %s", a[1], a[2])
			}
		case 0:
			c.Fail("client", posOf(read, fn), name+" OnRead", "OnRead is not called for an event (%s)", strings.Join(newFacts(sg.facts, p.Facts), " & "))
		default:
			c.Fail("client", posOf(onReads[1], fn), name+" OnRead", "OnRead is called %d times for one event", len(onReads))
		}
	}
	kind, kindKnown := "", false
	not := map[string]bool{}
	sg.facts.Each(func(t *eng.Term, v bool) {
		if t.Op != eng.OBin || t.Aux != "==" {
			return
		}
		x, y := eqSides(t)
		if x == nil {
			return
		}
		if y.Strip() == typ {
			x, y = y, x
		}
		if x.Strip() != typ {
			return
		}
		if k, ok := y.Strip().StrConst(); ok {
			if v {
				kind, kindKnown = k, true
			} else {
				not[k] = true
			}
		}
	})
	isTrace := kindKnown && kinds[kind] == "trace"
	maybeTrace := !kindKnown
	for k, what := range kinds {
		if what == "trace" && not[k] && !kindKnown {
			maybeTrace = false
		}
	}
	stT := c.P.Named("", "StaticTrace")
	if !isTrace && !maybeTrace {
		if len(sends) > 0 {
			c.Fail("client", posOf(sends[0], fn), name+" other events", "an event of type %q is delivered as a trace", kind)
		} else {
			c.OK("client", name+" other events")
		}
		for _, d := range decodes {
			into, from := decoded(d)
			if !from.Any(func(x *eng.Term) bool { return x == data }) {
				continue
			}
			if n := namedOf(derefType(into.Typ)); n != nil && kindKnown && kinds[kind] == "stats" {
				c.Check(n.Obj().Name() == "StreamStats", "client", posOf(d, fn), name+" stats", "stats are decoded as %s", n.Obj().Name())
			}
		}
		if sg.last && !ctxEnd {
			dec := false
			for _, d := range decodes {
				if n, k := knownNil(in, sg.facts, errOf(d)); k && !n {
					dec = true
				}
			}
			if !dec {
				c.Fail("client", p.EndPos, name+" other events", "the stream ends after an event of type %q", kind)
			}
		}
		return
	}
	// a trace
	var dec *eng.Effect
	for _, d := range decodes {
		if _, from := decoded(d); from.Any(func(x *eng.Term) bool { return x == data }) {
			dec = d
		}
	}
	if dec == nil {
		c.Fail("client", posOf(read, fn), name+" trace", "the data of a trace event is not decoded (%s)", strings.Join(newFacts(sg.facts, p.Facts), " & "))
		return
	}
	into, _ := decoded(dec)
	if dn, dk := knownNil(in, sg.facts, errOf(dec)); dk && !dn {
		if sg.last {
			if len(p.Ret) == 1 {
				c.Check(!p.Ret[0].Strip().IsNil(), "client", p.EndPos, name+" bad trace", "a trace that can't be decoded is dropped without an error")
			}
			c.Check(len(sends) == 0, "client", posOf(dec, fn), name+" bad trace", "a trace that can't be decoded is delivered")
		} else {
			c.Fail("client", posOf(dec, fn), name+" bad trace", "a trace that can't be decoded is skipped without an error")
		}
		return
	} else if !dk {
		c.Fail("client", posOf(dec, fn), name+" bad trace", "the error of decoding a trace is ignored")
		return
	}
	if n := namedOf(derefType(into.Typ)); n != stT {
		c.Undec("client", name+" trace", "is decoded as %s", into.Typ)
		return
	}
	if len(sends) != 1 {
		c.Fail("client", posOf(dec, fn), name+" trace", "a trace is delivered %d times (%s)", len(sends), strings.Join(newFacts(sg.facts, p.Facts), " & "))
		return
	}
	c.Check(len(lossy) == 0, "client", posOf(sends[0], fn), name+" trace", "a trace is dropped if the receiver isn't ready")
	c.Check(len(unguarded) == 0, "client", posOf(sends[0], fn), name+" cancelation", "while a trace is delivered, the end of the context isn't noticed")
	v := sentVal[0].Strip()
	switch {
	case v == into:
		c.OK("client", name+" delivered")
		c.freshPerEvent(fn, into, sg, dec)
	case v.Op == eng.OAlloc:
		c.Fail("client", posOf(sends[0], fn), name+" delivered", "another trace than the decoded one is delivered")
	default:
		c.Undec("client", name+" delivered", "%s is delivered", v)
	}
	if sg.last && !ctxEnd {
		c.Fail("client", p.EndPos, name+" trace", "the stream ends after a trace was delivered")
	}
}

func ctxErr(t *eng.Term) bool {
	return t.Any(func(x *eng.Term) bool {
		return x.Op == eng.OCall && strings.HasSuffix(x.CalleeName(), "context.Context).Err")
	})
}

// freshPerEvent: each event is decoded into a trace of its own.
func (c *C) freshPerEvent(fn *ssa.Function, obj *eng.Term, sg segment, at *eng.Effect) {
	if obj.Op != eng.OAlloc {
		c.Undec("client", "stream client own trace", "decoded into %s", obj)
		return
	}
	al, _ := obj.Obj.(*ssa.Alloc)
	if al == nil || sg.loop == nil || sg.loop.Header == nil {
		c.Undec("client", "stream client own trace", "decoded into %s", obj)
		return
	}
	if al.Parent() == sg.loop.Header.Parent() && !sg.loop.Header.Dominates(al.Block()) {
		c.Fail("client", posOf(at, fn), "stream client own trace", "every event is decoded into the same trace, which changes after it was delivered")
		return
	}
	c.OK("client", "stream client own trace")
}

// clientOptions: the documented defaults and limits of the options of the
// client are what the connection uses.
func (c *C) clientOptions() {
	n := c.P.Named("trcweb", "StreamClient")
	fn := c.method("trcweb", "StreamClient", "Stream")
	if n == nil || fn == nil {
		return
	}
	const sec = 1000000000
	opts := []struct {
		field        string
		def, lo, hi  int64
		hasDef       bool
		set          string
		observeRetry bool
	}{
		{"RetryInterval", 3 * sec, 1 * sec, 60 * sec, true, "", true},
		{"StatsInterval", 10 * sec, 1 * sec, 60 * sec, true, "stats", false},
		{"SendBuffer", 0, 0, 100000, false, "sendbuf", false},
	}
	mid := map[string]int64{"RetryInterval": 5 * sec, "StatsInterval": 5 * sec, "SendBuffer": 50}
	for _, o := range opts {
		fv := fieldNamed(n, o.field)
		if fv == nil {
			c.Fail("options", fn.Pos(), o.field, "StreamClient has no %s", o.field)
			continue
		}
		in := eng.NewInterp(c.P, eng.Config{Inline: c.streamInline(true), MaxPaths: 4000})
		st := in.NewState()
		ps := in.ParamSyms(fn)
		var orig *eng.Term
		for i, f := range fieldsOf(n) {
			a := in.T.Field(ps[0], i, f)
			v := st.Load(a, f.Type())
			switch {
			case f == fv:
				orig = v
			case mid[f.Name()] != 0:
				st.SetMem(a, in.T.Int(mid[f.Name()]))
			case f.Name() == "URI":
				st.SetMem(a, in.T.Str("http://example.com"))
			default:
				if _, ok := f.Type().Underlying().(*types.Interface); ok {
					st.Assume(in.T.Cmp(token.EQL, v, in.T.Nil()), false)
				}
				if _, ok := f.Type().Underlying().(*types.Signature); ok {
					st.Assume(in.T.Cmp(token.EQL, v, in.T.Nil()), false)
				}
			}
		}
		seen := 0
		for _, p := range c.Run(in, fn, st, ps) {
			if p.Panic != nil || p.Exit {
				continue
			}
			var v *eng.Term
			var at *eng.Effect
			connected := false
			for _, e := range p.Effects {
				if callName(e) == evsrc+".New" && len(e.Args) == 2 {
					connected = true
					if o.observeRetry {
						v, at = e.Args[1], e
					}
				}
				if o.set != "" {
					if k, ok := constOfArgs(e); ok && k == o.set {
						v, at = e.Args[len(e.Args)-1], e
					}
				}
			}
			if !connected {
				continue
			}
			if v == nil {
				if o.set != "" && !p.Facts.Le(orig, in.T.Int(0), 0) {
					c.Fail("options", p.EndPos, o.field, "isn't used although it is set (%s)", strings.Join(p.FactStrings(), " & "))
				}
				continue
			}
			seen++
			v = numberIn(v)
			c.clamped(in, p, fn, at, o.field, v, orig, o.def, o.lo, o.hi, o.hasDef)
		}
		if seen == 0 {
			c.Undec("options", o.field, "no use of the option was seen")
		}
	}
}

// numberIn: the number formatted by v.
func numberIn(v *eng.Term) *eng.Term {
	v = v.Strip()
	for v.Op == eng.OCall && len(v.Args) >= 1 {
		switch v.CalleeName() {
		case "strconv.Itoa", "strconv.FormatInt", "(time.Duration).String":
			v = v.Args[0].Strip()
			continue
		}
		break
	}
	return v
}

// clamped: v is orig limited to [lo, hi], or the default if it isn't set.
func (c *C) clamped(in *eng.Interp, p *eng.Path, fn *ssa.Function, at *eng.Effect, con string, v, orig *eng.Term, def, lo, hi int64, hasDef bool) {
	f := p.Facts
	if s, ok := v.StrConst(); ok {
		c.Undec("options", con, "is sent as %q", s)
		return
	}
	k, isConst := v.IntConst()
	num := in.T.Int
	zero := f.EqInt(orig, num(0), 0)
	inside := f.Le(num(lo), v, 0) && f.Le(v, num(hi), 0)
	if !inside {
		c.Fail("options", posOf(at, fn), con, "%s is used, which isn't between %d and %d (%s)", v, lo, hi, strings.Join(p.FactStrings(), " & "))
		return
	}
	switch {
	case hasDef && zero:
		c.Check(isConst && k == def, "options", posOf(at, fn), con+" default", "%s is used by default instead of %d", v, def)
	case isConst && f.EqInt(orig, v, 0):
		c.OK("options", con)
	case isConst && k == lo && f.Le(orig, num(lo), 0), isConst && k == hi && f.Le(num(hi), orig, 0):
		c.OK("options", con+" limit")
	case v == orig || f.EqInt(v, orig, 0):
		if hasDef && f.Le(orig, num(0), 0) && f.Le(num(0), orig, 0) {
			return
		}
		c.OK("options", con)
	case isConst:
		c.Fail("options", posOf(at, fn), con, "%d is used instead of the configured value (%s)", k, strings.Join(p.FactStrings(), " & "))
	default:
		c.Undec("options", con, "%s is used", v)
	}
}

package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Config tunes one analysis run.
type Config struct {
	// Inline decides whether a repository callee is analysed in place. nil:
	// every repository function is.
	Inline func(fn *ssa.Function) bool
	// MayPanic decides whether an opaque call forks an extra panicking path.
	MayPanic func(e *Effect) bool
	// MutableField: fields that can change after publication (nil: all).
	MutableField func(*types.Var) bool
	// Assume is called on every fresh branch atom; it may decide it.
	Decide func(st *State, atom *Term) (val, known bool)
	// Intrinsic may model an opaque call. Returning ok=false declines.
	Intrinsic func(st *State, c *Callee, args []*Term) (res *Term, ok bool)
	// FieldConsts: possible constant values of a field.
	FieldConsts func(*types.Var) []*Term
	// Pure lists additional pure callees.
	Pure       func(name string) bool
	TrackLoads bool
	TrackDeref bool
	NoBranches bool
	Peel       int
	NoUnroll   bool // summarise loops over literals, too
	// OnLock is called after a lock was acquired, to assume invariants.
	OnLock   func(st *State, lock *Term)
	MaxPaths int
	MaxDepth int
	MaxSteps int
	NoSub    bool // do not explore callbacks
	// Keep selects the effects the rule depends on; when set, states that
	// agree on them are merged at join points.
	Keep func(*Effect) bool
}

// Interp runs the abstract interpretation.
type Interp struct {
	P          *Program
	T          *Terms
	Cfg        Config
	steps      int
	npaths     int
	Incomplete string
	Inlined    map[*ssa.Function]bool
	Visited    map[*ssa.Function]bool
	callees    map[string]*Callee
	subDepth   int
	Merges     int
}

const tokEQL = token.EQL

func NewInterp(p *Program, cfg Config) *Interp {
	if cfg.MaxPaths == 0 {
		cfg.MaxPaths = 20000
	}
	if cfg.MaxDepth == 0 {
		cfg.MaxDepth = 14
	}
	if cfg.MaxSteps == 0 {
		cfg.MaxSteps = 3_000_000
	}
	tt := NewTerms()
	if cfg.MutableField == nil {
		cfg.MutableField = p.FieldMutable
	}
	if cfg.FieldConsts == nil {
		cfg.FieldConsts = func(v *types.Var) []*Term {
			var out []*Term
			for _, c := range p.FieldConstVals(v) {
				out = append(out, tt.Const(c, v.Type()))
			}
			return out
		}
	}
	return &Interp{P: p, T: tt, Cfg: cfg, Inlined: map[*ssa.Function]bool{}, Visited: map[*ssa.Function]bool{}, callees: map[string]*Callee{}}
}

// NewState makes an empty state.
func (in *Interp) NewState() *State {
	return &State{in: in, mem: map[*Term]*Term{}, maps: map[*Term]*mapState{}, facts: NewFacts(in.T), escaped: map[*Term]bool{}}
}

// State accessors for rules.
func (st *State) Facts() *Facts                       { return st.facts }
func (st *State) Assume(b *Term, v bool) bool         { return st.assume(b, v) }
func (st *State) Load(addr *Term, t types.Type) *Term { return st.load(addr, t) }
func (st *State) SetMem(addr, v *Term)                { st.rawStore(addr, v) }
func (st *State) EachCell(f func(addr *Term)) {
	for a := range st.mem {
		f(a)
	}
}
func (st *State) Clone() *State         { return st.clone() }
func (st *State) ResetLog()             { st.log = nil }
func (st *State) Owned(root *Term) bool { return st.owned(root) }
func (st *State) AssumeLe(x, y *Term, k int64) bool {
	f := st.facts.Clone()
	if !f.AssumeLe(x, y, k) {
		return false
	}
	st.facts = f
	return true
}

// ParamSyms makes symbols for the parameters of fn.
func (in *Interp) ParamSyms(fn *ssa.Function) []*Term {
	var out []*Term
	for _, p := range fn.Params {
		out = append(out, in.T.Sym(p.Name(), p.Type()))
	}
	return out
}

func body(fn *ssa.Function) *ssa.Function {
	if fn != nil && len(fn.Blocks) == 0 && fn.Origin() != nil {
		return fn.Origin()
	}
	return fn
}

// Run analyses fn from st with the given arguments.
func (in *Interp) Run(fn *ssa.Function, st *State, args []*Term, free []*Term) []*Path {
	fn = body(fn)
	if st == nil {
		st = in.NewState()
	}
	if args == nil {
		args = in.ParamSyms(fn)
	}
	st = st.clone()
	if !in.enterFn(st, fn, args, free, nil, nil, false) {
		return nil
	}
	_, _, done := in.explore([]*State{st}, nil)
	return in.paths(fn, done)
}

// CallTerm analyses a call of a function-valued term from st.
func (in *Interp) CallTerm(st *State, f *Term, args []*Term) []*Path {
	f = f.Strip()
	switch f.Op {
	case OClosure:
		return in.Run(f.Obj.(*ssa.Function), st, args, f.Args)
	case OFunc:
		return in.Run(f.Obj.(*ssa.Function), st, args, nil)
	}
	return nil
}

func (in *Interp) paths(fn *ssa.Function, done []*State) []*Path {
	var out []*Path
	for _, s := range done {
		out = append(out, &Path{Root: fn, Effects: s.effectsSince(nil), Facts: s.facts, Ret: s.ret, Panic: s.panicV, Exit: s.exit, Locks: s.locks, State: s, EndPos: s.endPos})
	}
	return out
}

func (in *Interp) enterFn(st *State, fn *ssa.Function, args, free []*Term, site ssa.Instruction, res ssa.Value, asDefer bool) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	in.Visited[fn] = true
	fr := &Frame{fn: fn, env: map[ssa.Value]*Term{}, block: fn.Blocks[0], site: site, resVal: res, asDefer: asDefer}
	for i, p := range fn.Params {
		if i < len(args) && args[i] != nil {
			fr.env[p] = args[i]
		} else {
			fr.env[p] = in.T.FreshSym(p.Name(), p.Type())
		}
	}
	for i, fv := range fn.FreeVars {
		if i < len(free) && free[i] != nil {
			fr.env[fv] = free[i]
		} else {
			fr.env[fv] = in.T.Sym("captured "+fv.Name()+" of "+fn.Name(), fv.Type())
		}
	}
	st.frames = append(st.frames, fr)
	return true
}

// val evaluates an SSA operand.
func (st *State) val(v ssa.Value) *Term {
	in := st.in
	tt := in.T
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return in.zero(v.Type())
		}
		return tt.Const(v.Value, v.Type())
	case *ssa.Global:
		return tt.mk(OGlobal, "", 0, v, v.Type())
	case *ssa.Function:
		return tt.mk(OFunc, "", 0, v, v.Type())
	case *ssa.Builtin:
		return tt.mk(OSym, "builtin "+v.Name(), 0, nil, v.Type())
	}
	if t, ok := st.top().env[v]; ok {
		return t
	}
	t := tt.FreshSym("undef_"+v.Name(), v.Type())
	st.top().env[v] = t
	return t
}

func (st *State) set(v ssa.Value, t *Term) {
	st.top().env[v] = t
}

type loopCtx struct {
	depth  int
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
}

func (in *Interp) over() bool {
	if in.steps > in.Cfg.MaxSteps {
		in.Incomplete = fmt.Sprintf("step budget %d exceeded", in.Cfg.MaxSteps)
		return true
	}
	if in.npaths > in.Cfg.MaxPaths {
		in.Incomplete = fmt.Sprintf("path budget %d exceeded", in.Cfg.MaxPaths)
		return true
	}
	return false
}

// explore runs states to completion, to the loop header (iters) or out of the
// loop (exits).
func (in *Interp) explore(work []*State, lc *loopCtx) (iters, exits, done []*State) {
	if in.Cfg.Keep != nil {
		return in.exploreMerging(work, lc)
	}
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
	run:
		for {
			if in.over() {
				return
			}
			if len(st.frames) == 0 {
				done = append(done, st)
				in.npaths++
				break
			}
			depth := len(st.frames)
			if lc != nil && depth < lc.depth {
				exits = append(exits, st)
				break
			}
			fr := st.top()
			if fr.pending {
				if lc != nil && depth == lc.depth {
					if fr.block == lc.header && lc.body[fr.from] {
						iters = append(iters, st)
						break
					}
					if !lc.body[fr.block] {
						exits = append(exits, st)
						break
					}
				}
				loops := in.P.Loops(fr.fn)
				if l := loops[fr.block]; l != nil && !l.Body[fr.from] {
					ex, dn := in.runLoop(st, l, in.Cfg.Peel)
					done = append(done, dn...)
					work = append(work, ex...)
					break
				}
				in.enterBlock(st)
			}
			succ := in.step(st)
			switch len(succ) {
			case 0:
				break run
			case 1:
				st = succ[0]
			default:
				st = succ[0]
				work = append(work, succ[1:]...)
			}
		}
	}
	return
}

// enterBlock evaluates the phis of the pending block.
func (in *Interp) enterBlock(st *State) {
	fr := st.top()
	vals := in.phiVals(st)
	for p, t := range vals {
		fr.env[p] = t
	}
	fr.pc = 0
	for fr.pc < len(fr.block.Instrs) {
		if _, ok := fr.block.Instrs[fr.pc].(*ssa.Phi); !ok {
			break
		}
		fr.pc++
	}
	fr.pending = false
}

func (in *Interp) phiVals(st *State) map[*ssa.Phi]*Term {
	fr := st.top()
	idx := -1
	for i, p := range fr.block.Preds {
		if p == fr.from {
			idx = i
		}
	}
	vals := map[*ssa.Phi]*Term{}
	for _, ins := range fr.block.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals[p] = st.val(p.Edges[idx])
	}
	return vals
}

func (in *Interp) jump(st *State, to *ssa.BasicBlock) {
	fr := st.top()
	fr.from = fr.block
	fr.block = to
	fr.pending = true
}

// step executes one instruction.
func (in *Interp) step(st *State) []*State {
	in.steps++
	fr := st.top()
	if fr.panicking != nil || fr.recovered {
		return in.unwind(st)
	}
	if fr.pc >= len(fr.block.Instrs) {
		return nil
	}
	ins := fr.block.Instrs[fr.pc]
	tt := in.T
	one := []*State{st}
	switch ins := ins.(type) {
	case *ssa.DebugRef:
		fr.pc++
		return one
	case *ssa.Phi:
		fr.pc++
		return one
	case *ssa.Alloc:
		fr.pc++
		a := tt.mk(OAlloc, shortType(elemType(ins.Type())), tt.Fresh(), nil, ins.Type())
		a.Obj = ins
		st.set(ins, a)
		return one
	case *ssa.BinOp:
		fr.pc++
		return in.binop(st, ins)
	case *ssa.UnOp:
		fr.pc++
		return in.unop(st, ins)
	case *ssa.Call:
		fr.pc++
		return in.call(st, &ins.Call, ins, ins, false)
	case *ssa.Defer:
		fr.pc++
		d := deferred{site: ins}
		d.fnTerm, d.callee, d.args, d.invoke = in.resolve(st, &ins.Call)
		fr.defers = append(fr.defers, d)
		st.push(&Effect{Kind: EDefer, Pos: ins.Pos(), Callee: d.callee, Args: d.args, Addr: d.fnTerm, Site: ins})
		return one
	case *ssa.Go:
		fr.pc++
		return in.goStmt(st, ins)
	case *ssa.RunDefers:
		if len(fr.defers) == 0 {
			fr.pc++
			return one
		}
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		return in.invoke(st, d.fnTerm, d.callee, d.args, d.invoke, d.site, nil, true)
	case *ssa.Panic:
		v := st.val(ins.X)
		st.push(&Effect{Kind: EPanic, Pos: ins.Pos(), Val: v, Site: ins})
		fr.panicking = v
		return one
	case *ssa.Return:
		ret := make([]*Term, len(ins.Results))
		for i, r := range ins.Results {
			ret[i] = st.val(r)
		}
		pos := ins.Pos()
		in.popFrame(st, ret, pos)
		return one
	case *ssa.Jump:
		in.jump(st, fr.block.Succs[0])
		return one
	case *ssa.If:
		return in.branch(st, st.val(ins.Cond), ins)
	case *ssa.Store:
		fr.pc++
		addr := st.val(ins.Addr)
		in.deref(st, addr, ins)
		st.store(addr, st.val(ins.Val), elemType(ins.Addr.Type()), ins.Pos(), ins)
		return one
	case *ssa.FieldAddr:
		fr.pc++
		x := st.val(ins.X)
		s := elemType(ins.X.Type()).Underlying().(*types.Struct)
		in.deref(st, x, ins)
		st.set(ins, tt.Field(x, ins.Field, s.Field(ins.Field)))
		return one
	case *ssa.Field:
		fr.pc++
		x := st.val(ins.X)
		st.set(ins, in.fieldVal(x, ins.Field, ins.Type()))
		return one
	case *ssa.IndexAddr:
		fr.pc++
		x, i := st.val(ins.X), st.val(ins.Index)
		st.set(ins, in.indexAddr(st, x, i, ins.Type(), ins))
		return one
	case *ssa.Index:
		fr.pc++
		x, i := st.val(ins.X), st.val(ins.Index)
		st.push(&Effect{Kind: EIndex, Pos: ins.Pos(), Addr: x, Val: i, OK: in.inBounds(st, i, tt.Len(x)), Site: ins})
		if x.Op == OArr {
			if n, ok := i.IntConst(); ok && int(n) < len(x.Args) {
				st.set(ins, x.Args[n])
				return one
			}
		}
		st.set(ins, tt.mk(OIndexVal, "", 0, nil, ins.Type(), x, i))
		return one
	case *ssa.Lookup:
		fr.pc++
		x, k := st.val(ins.X), st.val(ins.Index)
		if _, ok := ins.X.Type().Underlying().(*types.Map); ok {
			vt := ins.X.Type().Underlying().(*types.Map).Elem()
			v, okT := st.lookup(x, k, vt)
			st.push(&Effect{Kind: EMapRead, Pos: ins.Pos(), Addr: x, Key: k, Val: v, Fresh: st.owned(x.Root()), Site: ins})
			if ins.CommaOk {
				st.set(ins, tt.mk(OTuple, "", 0, nil, ins.Type(), v, okT))
			} else {
				st.set(ins, v)
			}
			return one
		}
		st.push(&Effect{Kind: EIndex, Pos: ins.Pos(), Addr: x, Val: k, OK: in.inBounds(st, k, tt.Len(x)), Site: ins})
		st.set(ins, tt.mk(OIndexVal, "", 0, nil, ins.Type(), x, k))
		return one
	case *ssa.MapUpdate:
		fr.pc++
		m, k, v := st.val(ins.Map), st.val(ins.Key), st.val(ins.Value)
		st.push(&Effect{Kind: EMapUpdate, Pos: ins.Pos(), Addr: m, Key: k, Val: in.literal(st, v), Fresh: st.owned(m.Root()), Site: ins})
		st.mapSet(m, k, v, true)
		if !st.owned(m.Root()) {
			st.escape(v)
		}
		return one
	case *ssa.MakeMap:
		fr.pc++
		st.set(ins, tt.mk(OMkMap, "", tt.Fresh(), nil, ins.Type()))
		return one
	case *ssa.MakeChan:
		fr.pc++
		sz := st.val(ins.Size)
		st.push(&Effect{Kind: EMake, Pos: ins.Pos(), Val: sz, Site: ins})
		st.set(ins, tt.mk(OMkChan, "", tt.Fresh(), nil, ins.Type(), sz))
		return one
	case *ssa.MakeSlice:
		fr.pc++
		l, c := st.val(ins.Len), st.val(ins.Cap)
		st.push(&Effect{Kind: EMake, Pos: ins.Pos(), Val: l, Key: c, Site: ins})
		st.set(ins, tt.mk(OMkSlice, "", tt.Fresh(), nil, ins.Type(), l, c))
		return one
	case *ssa.MakeClosure:
		fr.pc++
		fn := ins.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range ins.Bindings {
			bs = append(bs, st.val(b))
		}
		st.set(ins, tt.mk(OClosure, "", 0, fn, ins.Type(), bs...))
		return one
	case *ssa.MakeInterface:
		fr.pc++
		x := st.val(ins.X)
		st.set(ins, in.iface(x, ins.X.Type(), ins.Type()))
		return one
	case *ssa.ChangeInterface:
		fr.pc++
		st.set(ins, st.val(ins.X))
		return one
	case *ssa.ChangeType:
		fr.pc++
		x := st.val(ins.X)
		st.set(ins, in.retype(x, ins.Type()))
		return one
	case *ssa.Convert:
		fr.pc++
		st.set(ins, in.convert(st.val(ins.X), ins.X.Type(), ins.Type()))
		return one
	case *ssa.MultiConvert:
		fr.pc++
		st.set(ins, in.convert(st.val(ins.X), ins.X.Type(), ins.Type()))
		return one
	case *ssa.SliceToArrayPointer:
		fr.pc++
		st.set(ins, tt.mk(OConv, "s2a", 0, nil, ins.Type(), st.val(ins.X)))
		return one
	case *ssa.TypeAssert:
		fr.pc++
		return in.typeAssert(st, ins)
	case *ssa.Extract:
		fr.pc++
		x := st.val(ins.Tuple)
		st.set(ins, in.extract(x, ins.Index, ins.Type()))
		return one
	case *ssa.Slice:
		fr.pc++
		return in.sliceOp(st, ins)
	case *ssa.Range:
		fr.pc++
		st.set(ins, tt.mk(OUn, "range", tt.Fresh(), nil, ins.X.Type(), st.val(ins.X)))
		return one
	case *ssa.Next:
		fr.pc++
		it := st.val(ins.Iter)
		seq := tt.Fresh()
		coll := it
		if it.Op == OUn && it.Aux == "range" {
			coll = it.Args[0]
		}
		tup := ins.Type().(*types.Tuple)
		ok := tt.mk(OSym, "rangeok", seq, nil, types.Typ[types.Bool])
		k := tt.mk(ONextKey, "", seq, nil, tup.At(1).Type(), coll)
		v := tt.mk(ONextVal, "", seq, nil, tup.At(2).Type(), coll)
		if !ins.IsString {
			st.push(&Effect{Kind: EMapRead, Pos: it2pos(ins), Addr: coll, Key: k, Val: v, Fresh: st.owned(coll.Root()), Site: ins})
		}
		st.set(ins, tt.mk(OTuple, "", 0, nil, ins.Type(), ok, k, v))
		return one
	case *ssa.Send:
		fr.pc++
		ch, v := st.val(ins.Chan), st.val(ins.X)
		st.push(&Effect{Kind: ESend, Pos: ins.Pos(), Addr: ch, Val: v, Blocking: true, Site: ins})
		st.escape(v)
		return one
	case *ssa.Select:
		fr.pc++
		return in.selectStmt(st, ins)
	}
	in.Incomplete = fmt.Sprintf("unsupported instruction %T", ins)
	return nil
}

func it2pos(n *ssa.Next) token.Pos {
	if n.Pos().IsValid() {
		return n.Pos()
	}
	return n.Iter.Pos()
}

func (in *Interp) deref(st *State, p *Term, ins ssa.Instruction) {
	if !in.Cfg.TrackDeref {
		return
	}
	switch p.Op {
	case OAlloc, OGlobal, OField, OIndex:
		return
	}
	v, known := st.facts.Eval(in.T.cmp(token.EQL, p, in.T.Nil()))
	st.push(&Effect{Kind: EDeref, Pos: ins.Pos(), Addr: p, NonNil: known && !v, OK: !(known && v), Site: ins})
}

func (in *Interp) iface(x *Term, dyn, typ types.Type) *Term {
	if x.IsNil() && isInterface(dyn) {
		return x
	}
	return in.T.mk(OIface, typeKey(dyn), 0, nil, typ, x).withObj(dyn)
}

func (t *Term) withObj(o any) *Term {
	if t.Obj == nil {
		t.Obj = o
	}
	return t
}

// DynType returns the dynamic type of an interface value when known.
func (t *Term) DynType() types.Type {
	if t != nil && t.Op == OIface {
		d, _ := t.Obj.(types.Type)
		return d
	}
	return nil
}

func isInterface(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

// retype changes the static type of a value without changing it.
func (in *Interp) retype(x *Term, t types.Type) *Term {
	switch x.Op {
	case OConst:
		return x
	case OStruct:
		return in.T.mk(OStruct, "", 0, nil, t, x.Args...)
	case OZero:
		return in.zero(t)
	}
	if isIntType(t) {
		return x
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		// the same pointer, and, between the type parameters of two generic
		// functions, the same value
		return x
	}
	return in.T.mk(OConv, "", 0, nil, t, x)
}

func (in *Interp) convert(x *Term, from, to types.Type) *Term {
	if isIntType(from) && isIntType(to) {
		return x // value-preserving for the ranges in play; see DESIGN assumptions
	}
	if x.Op == OConst && x.Val != nil {
		if isStringType(to) && isStringType(from) {
			return x
		}
		if isFloatType(to) && (isFloatType(from) || isIntType(from)) {
			return in.T.Const(constant.ToFloat(x.Val), to)
		}
		if isIntType(to) && isFloatType(from) {
			if iv := constant.ToInt(x.Val); iv.Kind() == constant.Int {
				return in.T.Const(iv, to)
			}
		}
	}
	if isStringType(from) && isStringType(to) {
		return x
	}
	return in.T.mk(OConv, "", 0, nil, to, x)
}

func (in *Interp) extract(x *Term, i int, t types.Type) *Term {
	if x.Op == OTuple && i < len(x.Args) {
		return x.Args[i]
	}
	r := in.T.mk(OExtract, "", i, nil, t, x)
	if r.Typ == nil {
		r.Typ = t
	}
	return r
}

func (in *Interp) inBounds(st *State, i, n *Term) bool {
	return st.facts.Le(in.T.Int(0), i, 0) && st.facts.Le(i, n, -1)
}

func (in *Interp) indexAddr(st *State, x, i *Term, t types.Type, ins ssa.Instruction) *Term {
	tt := in.T
	n := tt.seqLen(x)
	st.push(&Effect{Kind: EIndex, Pos: ins.Pos(), Addr: x, Val: i, OK: in.inBounds(st, i, n), Site: ins})
	// canonical: index through a slice expression
	for x.Op == OSlice || (x.Op == OConv && x.Aux == "") {
		if x.Op == OConv {
			x = x.Args[0]
			continue
		}
		if lo := x.Args[1]; lo != nil {
			i = tt.FromLin(tt.LinOf(i).addScaled(tt.LinOf(lo), 1), types.Typ[types.Int])
		}
		x = x.Args[0]
	}
	r := tt.mk(OIndex, "", 0, nil, t, x, i)
	if r.Typ == nil {
		r.Typ = t
	}
	return r
}

func (in *Interp) sliceOp(st *State, ins *ssa.Slice) []*State {
	tt := in.T
	x := st.val(ins.X)
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return st.val(v)
	}
	lo, hi, mx := opt(ins.Low), opt(ins.High), opt(ins.Max)
	if lo != nil {
		if n, ok := lo.IntConst(); ok && n == 0 {
			lo = nil
		}
	}
	l0 := lo
	if l0 == nil {
		l0 = tt.Int(0)
	}
	n := tt.seqLen(x)
	h0 := hi
	if h0 == nil {
		h0 = n
	}
	isStr := isStringType(ins.X.Type())
	lim := n
	if !isStr && hi != nil {
		lim = tt.Cap(x)
		if lim.Op == OCap && st.facts.Le(h0, n, 0) {
			lim = n
		}
	}
	ok := st.facts.Le(tt.Int(0), l0, 0) && st.facts.Le(l0, h0, 0) && st.facts.Le(h0, lim, 0)
	st.push(&Effect{Kind: ESliceOp, Pos: ins.Pos(), Addr: x, Val: l0, Key: h0, OK: ok, Site: ins})
	if mx == nil {
		// reslicing of a reslice
		if x.Op == OSlice && x.Args[3] == nil && x.Typ != nil {
			b0, blo := x.Args[0], x.Args[1]
			if blo == nil {
				blo = tt.Int(0)
			}
			nlo := tt.FromLin(tt.LinOf(l0).addScaled(tt.LinOf(blo), 1), types.Typ[types.Int])
			nhi := tt.FromLin(tt.LinOf(h0).addScaled(tt.LinOf(blo), 1), types.Typ[types.Int])
			if c, okc := nlo.IntConst(); okc && c == 0 {
				nlo = nil
			}
			st.set(ins, tt.mk(OSlice, "", 0, nil, ins.Type(), b0, nlo, nhi, nil))
			return []*State{st}
		}
		if lo == nil && hi == nil {
			if _, isPtr := ins.X.Type().Underlying().(*types.Pointer); !isPtr {
				st.set(ins, x)
				return []*State{st}
			}
		}
		if lo == nil && hi == n && !isStr {
			if _, isPtr := ins.X.Type().Underlying().(*types.Pointer); !isPtr {
				st.set(ins, x)
				return []*State{st}
			}
		}
	}
	st.set(ins, tt.mk(OSlice, "", 0, nil, ins.Type(), x, lo, hi, mx))
	return []*State{st}
}

func (in *Interp) binop(st *State, ins *ssa.BinOp) []*State {
	x, y := st.val(ins.X), st.val(ins.Y)
	tt := in.T
	// values of fields that hold one of a few known constants
	if ins.Op == token.AND || ins.Op == token.OR || ins.Op == token.EQL || ins.Op == token.NEQ {
		for _, t := range []*Term{x, y} {
			if sts := in.splitConst(st, t, ins); sts != nil {
				return sts
			}
		}
	}
	if ins.Op == token.REM && isIntType(ins.Type()) {
		// 0 <= x < n: x%n = x;  n <= x < 2n: x%n = x-n
		if st.facts.Le(tt.Int(0), x, 0) {
			if st.facts.Le(x, y, -1) {
				st.set(ins, x)
				return []*State{st}
			}
			two := tt.FromLin(linConst(0).addScaled(tt.LinOf(y), 2), types.Typ[types.Int])
			if st.facts.Le(x, two, -1) {
				var out []*State
				a := st.clone()
				if a.assume(tt.cmp(token.LSS, x, y), true) {
					a.set(ins, x)
					out = append(out, a)
				}
				if st.assume(tt.cmp(token.LSS, x, y), false) {
					st.set(ins, tt.FromLin(tt.LinOf(x).addScaled(tt.LinOf(y), -1), ins.Type()))
					out = append(out, st)
				}
				return out
			}
		}
	}
	r := tt.Bin(ins.Op, x, y, ins.Type())
	st.set(ins, r)
	if ins.Op == token.REM && r.Op == OBin {
		if st.facts.Le(tt.Int(1), y, 0) {
			f := st.facts.Clone()
			f.AssumeLe(r, y, -1)
			if st.facts.Le(tt.Int(0), x, 0) {
				f.AssumeLe(tt.Int(0), r, 0)
			}
			st.facts = f
		}
	}
	return []*State{st}
}

// splitConst forks on the possible constants of a field load.
func (in *Interp) splitConst(st *State, t *Term, at ssa.Instruction) []*State {
	if in.Cfg.FieldConsts == nil {
		return nil
	}
	var leaf *Term
	t.Any(func(x *Term) bool {
		if x.Op == OLoad && x.Args[0].FieldVar() != nil {
			if cs := in.Cfg.FieldConsts(x.Args[0].FieldVar()); len(cs) > 0 {
				leaf = x
				return true
			}
		}
		return false
	})
	if leaf == nil {
		return nil
	}
	cs := in.Cfg.FieldConsts(leaf.Args[0].FieldVar())
	// replace the leaf by each constant throughout the environment
	var out []*State
	for i, c := range cs {
		s := st
		if i < len(cs)-1 {
			s = st.clone()
		}
		if !s.assume(in.T.cmp(token.EQL, leaf, c), true) {
			continue
		}
		s.subst(leaf, c)
		s.top().pc-- // re-execute with the constant
		out = append(out, s)
	}
	return out
}

func (st *State) subst(from, to *Term) {
	memo := map[*Term]*Term{}
	for _, fr := range st.frames {
		for k, v := range fr.env {
			fr.env[k] = st.in.T.Subst(v, from, to, memo)
		}
	}
	for k, v := range st.mem {
		st.mem[k] = st.in.T.Subst(v, from, to, memo)
	}
	if from.Op == OLoad {
		st.mem[from.Args[0]] = to
	}
}

// Subst replaces a subterm, re-simplifying.
func (tt *Terms) Subst(t, from, to *Term, memo map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if t == from {
		return to
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = tt.Subst(a, from, to, memo)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		memo[t] = t
		return t
	}
	var r *Term
	switch {
	case t.Op == OBin && t.Aux == "le0":
		r = tt.le0(tt.LinOf(args[0]))
	case t.Op == OBin && t.Aux == "eq0":
		r = tt.eq0(tt.LinOf(args[0]))
	case t.Op == OBin:
		if tok, ok := opTok[t.Aux]; ok {
			r = tt.Bin(tok, args[0], args[1], t.Typ)
		}
	case t.Op == ONot:
		r = tt.Not(args[0])
	case t.Op == OLen:
		r = tt.Len(args[0])
	}
	if r == nil {
		r = tt.mk(t.Op, t.Aux, t.N, t.Obj, t.Typ, args...)
		if t.Op == OField || t.Op == OIface || t.Op == OAlloc {
			r.Obj = t.Obj
		}
	}
	memo[t] = r
	return r
}

var opTok = map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM, "&": token.AND, "|": token.OR, "^": token.XOR, "<<": token.SHL, ">>": token.SHR, "&^": token.AND_NOT, "==": token.EQL, "<": token.LSS, "<=": token.LEQ}

func (in *Interp) unop(st *State, ins *ssa.UnOp) []*State {
	tt := in.T
	x := st.val(ins.X)
	switch ins.Op {
	case token.MUL:
		in.deref(st, x, ins)
		v := st.load(x, ins.Type())
		if in.Cfg.TrackLoads {
			in.loadEffects(st, x, ins.Type(), v, ins)
		}
		st.set(ins, v)
	case token.NOT:
		st.set(ins, tt.Not(x))
	case token.SUB:
		if isIntType(ins.Type()) {
			st.set(ins, tt.FromLin(linConst(0).addScaled(tt.LinOf(x), -1), ins.Type()))
		} else {
			st.set(ins, tt.mk(ONeg, "", 0, nil, ins.Type(), x))
		}
	case token.ARROW:
		n := tt.Fresh()
		var et types.Type = ins.Type()
		if ins.CommaOk {
			et = ins.Type().(*types.Tuple).At(0).Type()
		}
		v := tt.mk(ORecv, "", n, nil, et, x)
		st.push(&Effect{Kind: ERecv, Pos: ins.Pos(), Addr: x, Val: v, Blocking: true, Site: ins})
		st.bumpEpoch()
		if ins.CommaOk {
			st.set(ins, tt.mk(OTuple, "", 0, nil, ins.Type(), v, tt.mk(OSym, "recvok", n, nil, types.Typ[types.Bool])))
		} else {
			st.set(ins, v)
		}
	default:
		st.set(ins, tt.mk(OUn, ins.Op.String(), 0, nil, ins.Type(), x))
	}
	return []*State{st}
}

func (in *Interp) loadEffects(st *State, addr *Term, t types.Type, v *Term, ins ssa.Instruction) {
	if s, ok := in.structOf(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			in.loadEffects(st, in.T.Field(addr, i, s.Field(i)), s.Field(i).Type(), in.fieldVal(v, i, s.Field(i).Type()), ins)
		}
		return
	}
	st.push(&Effect{Kind: ELoad, Pos: ins.Pos(), Addr: addr, Val: v, Fresh: st.owned(addr.Root()), Site: ins})
}

func (in *Interp) typeAssert(st *State, ins *ssa.TypeAssert) []*State {
	tt := in.T
	x := st.val(ins.X)
	set := func(s *State, v, ok *Term) {
		if ins.CommaOk {
			s.set(ins, tt.mk(OTuple, "", 0, nil, ins.Type(), v, ok))
		} else {
			s.set(ins, v)
		}
	}
	at := ins.AssertedType
	if x.IsNil() {
		set(st, in.zero(at), tt.Bool(false))
		return []*State{st}
	}
	if dyn := x.DynType(); dyn != nil {
		if it, ok := at.Underlying().(*types.Interface); ok {
			if types.Implements(dyn, it) {
				set(st, x, tt.Bool(true))
			} else {
				set(st, in.zero(at), tt.Bool(false))
			}
		} else if types.Identical(dyn, at) {
			set(st, x.Args[0], tt.Bool(true))
		} else {
			set(st, in.zero(at), tt.Bool(false))
		}
		return []*State{st}
	}
	var v *Term
	if isInterface(at) {
		v = tt.mk(OAssert, "i", 0, nil, at, x)
	} else {
		v = tt.mk(OAssert, "", 0, nil, at, x)
	}
	ok := tt.mk(OAssertOk, "", 0, nil, at, x)
	if !ins.CommaOk {
		st.push(&Effect{Kind: EAssert, Pos: ins.Pos(), Addr: x, Val: v, Site: ins})
		set(st, v, ok)
		return []*State{st}
	}
	set(st, v, ok)
	return []*State{st}
}

// branch decides or forks a conditional.
func (in *Interp) branch(st *State, cond *Term, ins *ssa.If) []*State {
	fr := st.top()
	tb, fb := fr.block.Succs[0], fr.block.Succs[1]
	if v, known := st.facts.Eval(cond); known {
		in.jump(st, pick(v, tb, fb))
		return []*State{st}
	}
	atom, pos := cond, true
	for atom.Op == ONot {
		atom, pos = atom.Args[0], !pos
	}
	if in.Cfg.FieldConsts != nil {
		if sts := in.splitConst2(st, atom); sts != nil {
			return sts
		}
	}
	if in.Cfg.Decide != nil {
		if v, known := in.Cfg.Decide(st, atom); known {
			st.assume(atom, v)
			in.jump(st, pick(v == pos, tb, fb))
			return []*State{st}
		}
	}
	var out []*State
	other := st.clone()
	if st.assume(atom, true) {
		in.logBranch(st, atom, true, ins)
		in.jump(st, pick(pos, tb, fb))
		out = append(out, st)
	}
	if other.assume(atom, false) {
		in.logBranch(other, atom, false, ins)
		in.jump(other, pick(!pos, tb, fb))
		out = append(out, other)
	}
	return out
}

func (in *Interp) splitConst2(st *State, atom *Term) []*State {
	var leaf *Term
	atom.Any(func(x *Term) bool {
		if x.Op == OLoad && x.Args[0].FieldVar() != nil {
			if cs := in.Cfg.FieldConsts(x.Args[0].FieldVar()); len(cs) > 0 {
				leaf = x
				return true
			}
		}
		return false
	})
	if leaf == nil {
		return nil
	}
	var out []*State
	for _, c := range in.Cfg.FieldConsts(leaf.Args[0].FieldVar()) {
		s := st.clone()
		if !s.assume(in.T.cmp(token.EQL, leaf, c), true) {
			continue
		}
		s.subst(leaf, c)
		out = append(out, s)
	}
	return out
}

func (in *Interp) logBranch(st *State, atom *Term, v bool, ins ssa.Instruction) {
	if !in.Cfg.NoBranches {
		st.push(&Effect{Kind: EBranch, Pos: branchPos(ins), Val: atom, Truth: v, Site: ins})
	}
}

func branchPos(ins ssa.Instruction) token.Pos {
	if i, ok := ins.(*ssa.If); ok {
		if i.Cond.Pos().IsValid() {
			return i.Cond.Pos()
		}
	}
	return ins.Pos()
}

func pick(c bool, a, b *ssa.BasicBlock) *ssa.BasicBlock {
	if c {
		return a
	}
	return b
}

func (in *Interp) selectStmt(st *State, ins *ssa.Select) []*State {
	tt := in.T
	tup := ins.Type().(*types.Tuple)
	var cases []SelCase
	for _, s := range ins.States {
		c := SelCase{Send: s.Dir == types.SendOnly, Chan: st.val(s.Chan)}
		if c.Send {
			c.Val = st.val(s.Send)
		}
		cases = append(cases, c)
	}
	n := len(cases)
	start := 0
	if !ins.Blocking {
		start = -1
	}
	var out []*State
	for i := start; i < n; i++ {
		s := st
		if i < n-1 {
			s = st.clone()
		}
		if i >= 0 && cases[i].Chan.IsNil() {
			continue // a nil channel is never ready
		}
		seq := tt.Fresh()
		pos := ins.Pos()
		if i >= 0 && ins.States[i].Pos.IsValid() {
			pos = ins.States[i].Pos
		}
		sel := &Effect{Kind: ESelect, Pos: pos, Cases: cases, Case: i, Blocking: ins.Blocking, Site: ins}
		s.push(sel)
		args := []*Term{tt.Int(int64(i)), tt.mk(OSym, "recvok", seq, nil, types.Typ[types.Bool])}
		r := 2
		for j, c := range cases {
			if c.Send {
				continue
			}
			var v *Term
			if j == i {
				v = tt.mk(ORecv, "", seq, nil, tup.At(r).Type(), c.Chan)
				sel.Val = v
			} else {
				v = in.zero(tup.At(r).Type())
			}
			args = append(args, v)
			r++
		}
		if i >= 0 && cases[i].Send {
			s.escape(cases[i].Val)
		}
		if ins.Blocking || (i >= 0 && !cases[i].Send) {
			s.bumpEpoch()
		}
		s.set(ins, tt.mk(OTuple, "", 0, nil, ins.Type(), args...))
		out = append(out, s)
	}
	return out
}

func (in *Interp) popFrame(st *State, ret []*Term, pos token.Pos) {
	fr := st.top()
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		st.ret = ret
		st.endPos = pos
		return
	}
	if fr.resVal != nil {
		var r *Term
		switch len(ret) {
		case 0:
			r = in.T.Nil()
		case 1:
			r = ret[0]
		default:
			r = in.T.mk(OTuple, "", 0, nil, fr.resVal.Type(), ret...)
		}
		st.top().env[fr.resVal] = r
	}
}

// unwind continues a panicking (or recovered) frame.
func (in *Interp) unwind(st *State) []*State {
	fr := st.top()
	if len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		return in.invoke(st, d.fnTerm, d.callee, d.args, d.invoke, d.site, nil, true)
	}
	if fr.recovered {
		fr.recovered = false
		fr.panicking = nil
		if fr.fn.Recover != nil {
			fr.from = fr.block
			fr.block = fr.fn.Recover
			fr.pending = true
			return []*State{st}
		}
		var ret []*Term
		for i := 0; i < fr.fn.Signature.Results().Len(); i++ {
			ret = append(ret, in.zero(fr.fn.Signature.Results().At(i).Type()))
		}
		in.popFrame(st, ret, fr.fn.Pos())
		return []*State{st}
	}
	v := fr.panicking
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		st.panicV = v
		st.endPos = fr.fn.Pos()
		return []*State{st}
	}
	st.top().panicking = v
	return []*State{st}
}

// resolve evaluates the callee of a call.
func (in *Interp) resolve(st *State, c *ssa.CallCommon) (fnTerm *Term, callee *Callee, args []*Term, invoke bool) {
	for _, a := range c.Args {
		args = append(args, st.val(a))
	}
	if c.IsInvoke() {
		recv := st.val(c.Value)
		args = append([]*Term{recv}, args...)
		// devirtualise
		if dyn := recv.DynType(); dyn != nil {
			if fn := in.lookupMethod(dyn, c.Method); fn != nil {
				args[0] = recv.Args[0]
				return in.T.mk(OFunc, "", 0, fn, fn.Type()), in.calleeOf(fn), args, false
			}
		}
		return recv, in.methCallee(c.Method), args, true
	}
	fnTerm = st.val(c.Value)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return fnTerm, &Callee{Name: "builtin " + b.Name()}, args, false
	}
	// a method value: the method itself, called on the bound receiver
	if f := fnTerm.Strip(); f.Op == OClosure && len(f.Args) == 1 {
		fn := f.Obj.(*ssa.Function)
		if m, ok := fn.Object().(*types.Func); ok && strings.HasPrefix(fn.Synthetic, "bound method") {
			recv := f.Args[0]
			bound := append([]*Term{recv}, args...)
			sig := m.Type().(*types.Signature)
			if sig.Recv() != nil && types.IsInterface(sig.Recv().Type()) {
				if dyn := recv.DynType(); dyn != nil {
					if g := in.lookupMethod(dyn, m); g != nil {
						bound[0] = recv.Args[0]
						return in.T.mk(OFunc, "", 0, g, g.Type()), in.calleeOf(g), bound, false
					}
				}
				return recv, in.methCallee(m), bound, true
			}
			if g := in.P.Prog.FuncValue(m); g != nil && g.TypeParams() == nil && sig.RecvTypeParams() == nil {
				return in.T.mk(OFunc, "", 0, g, g.Type()), in.calleeOf(g), bound, false
			}
		}
	}
	return fnTerm, in.calleeTerm(fnTerm), args, false
}

func (in *Interp) calleeTerm(f *Term) *Callee {
	s := f.Strip()
	switch s.Op {
	case OFunc, OClosure:
		return in.calleeOf(s.Obj.(*ssa.Function))
	}
	return in.namedCallee("dynamic")
}

func (in *Interp) namedCallee(n string) *Callee {
	if c, ok := in.callees[n]; ok {
		return c
	}
	c := &Callee{Name: n}
	in.callees[n] = c
	return c
}

func (in *Interp) calleeOf(fn *ssa.Function) *Callee {
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	k := "F" + name + fmt.Sprintf("%p", fn)
	if c, ok := in.callees[k]; ok {
		return c
	}
	c := &Callee{Name: name, Fn: fn}
	in.callees[k] = c
	return c
}

func (in *Interp) methCallee(m *types.Func) *Callee {
	k := "M" + m.FullName()
	if c, ok := in.callees[k]; ok {
		return c
	}
	c := &Callee{Name: m.FullName(), Meth: m}
	in.callees[k] = c
	return c
}

func (in *Interp) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	defer func() { recover() }()
	sel := in.P.Prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return in.P.Prog.MethodValue(sel)
}

func (in *Interp) call(st *State, c *ssa.CallCommon, site ssa.Instruction, res ssa.Value, asDefer bool) []*State {
	fnTerm, callee, args, invoke := in.resolve(st, c)
	return in.invoke(st, fnTerm, callee, args, invoke, site, res, asDefer)
}

func (in *Interp) goStmt(st *State, ins *ssa.Go) []*State {
	fnTerm, callee, args, invoke := in.resolve(st, &ins.Call)
	for _, a := range args {
		st.escape(a)
	}
	st.escape(fnTerm)
	e := &Effect{Kind: EGo, Pos: ins.Pos(), Callee: callee, Args: in.literalArgs(st, args), Addr: fnTerm, Invoke: invoke, Site: ins, Async: true}
	st.push(e)
	f := fnTerm.Strip()
	if !in.Cfg.NoSub && (f.Op == OClosure || f.Op == OFunc) && in.inlinable(st, f.Obj.(*ssa.Function)) && in.subDepth < 3 {
		sub := st.clone()
		sub.frames = nil
		sub.log = nil
		sub.locks = nil
		sub.bumpEpoch()
		in.subDepth++
		e.Sub = in.runSub(f, sub, args)
		in.subDepth--
	}
	return []*State{st}
}

func (in *Interp) runSub(f *Term, sub *State, args []*Term) []*Path {
	fn := body(f.Obj.(*ssa.Function))
	var free []*Term
	if f.Op == OClosure {
		free = f.Args
	}
	if !in.enterFn(sub, fn, args, free, nil, nil, false) {
		return nil
	}
	_, _, done := in.explore([]*State{sub}, nil)
	return in.paths(fn, done)
}

func (in *Interp) inlinable(st *State, fn *ssa.Function) bool {
	fn = body(fn)
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	if !in.P.InRepo(fn) {
		if fn.Synthetic != "" && (strings.HasPrefix(fn.Synthetic, "bound method") || strings.HasPrefix(fn.Synthetic, "wrapper") || strings.HasPrefix(fn.Synthetic, "thunk") || strings.HasPrefix(fn.Synthetic, "promotion")) {
			return true
		}
		o := fn
		if fn.Origin() != nil {
			o = fn.Origin()
		}
		for o.Parent() != nil {
			o = o.Parent()
			if o.Origin() != nil {
				o = o.Origin()
			}
		}
		if o.Pkg != nil {
			switch o.Pkg.Pkg.Path() {
			case "slices", "maps":
				n := o.Name()
				return !strings.HasPrefix(n, "Sort") && !strings.HasPrefix(n, "Binary") && !strings.HasPrefix(n, "Compact")
			case "cmp":
				return true
			}
		}
		return false
	}
	if len(st.frames) >= in.Cfg.MaxDepth {
		return false
	}
	for _, fr := range st.frames {
		if fr.fn == fn {
			return false // recursion
		}
	}
	if in.Cfg.Inline != nil && (fn.Synthetic == "" || fn.Origin() != nil) {
		return in.Cfg.Inline(fn)
	}
	return true
}

// literalArgs replaces variadic slices by their literal contents.
func (in *Interp) literalArgs(st *State, args []*Term) []*Term {
	out := make([]*Term, len(args))
	for i, a := range args {
		out[i] = in.literal(st, a)
	}
	return out
}

func (in *Interp) literal(st *State, a *Term) *Term {
	if a != nil && a.Op == OSlice && a.Args[0].Op == OAlloc && a.Args[1] == nil && a.Args[2] == nil {
		if et := elemType(a.Args[0].Typ); et != nil {
			if arr, ok := et.Underlying().(*types.Array); ok && arr.Len() <= 64 {
				elems := make([]*Term, arr.Len())
				for j := range elems {
					ia := in.T.mk(OIndex, "", 0, nil, types.NewPointer(arr.Elem()), a.Args[0], in.T.Int(int64(j)))
					elems[j] = st.load(ia, arr.Elem())
				}
				return in.T.mk(OArr, "", a.Args[0].N, nil, a.Typ, elems...)
			}
		}
	}
	return a
}

// Pure external functions: result depends only on the arguments.
func purePkg(name string) bool {
	for _, p := range []string{"strings.", "strconv.", "fmt.Sprint", "fmt.Errorf", "errors.", "(time.Time).", "(time.Duration).", "(*time.Duration).", "math.", "path/filepath.", "path.", "net/url.QueryEscape", "net/url.PathEscape", "net/url.Parse", "html/template.HTMLEscapeString", "html.EscapeString", "html/template.JSEscapeString", "time.ParseDuration", "(context.Context).Value", "(context.Context).Done", "context.WithValue", "(*net/http.Request).Context", "(net/http.Header).Get", "(net/url.Values).Get", "(net/url.Values).Has", "(net/url.Values).Encode", "(*net/url.URL).Query", "(*net/url.URL).String", "reflect.DeepEqual", "unicode", "runtime.CallersFrames", "(*regexp.Regexp).MatchString", "(error).Error", "regexp.MatchString", "net/http.StatusText", "mime.ParseMediaType", "(github.com/oklog/ulid/v2.ULID).String", "(*github.com/oklog/ulid/v2.ULID).String", "bytes.NewReader", "encoding/hex.", "crypto/sha256.", "(*net/http.Request).WithContext", "os.Getenv", "(*strings.Replacer).Replace", "github.com/oklog/ulid/v2.Timestamp", "time.Unix", "regexp.QuoteMeta"} {
		if strings.HasPrefix(name, p) {
			return true
		}
	}
	return false
}

// readOnly external calls do not modify memory reachable from the arguments.
func readOnly(name string) bool {
	for _, p := range []string{"time.", "fmt.", "(*log.Logger).", "log.", "(context.", "context.", "(*sync/atomic.", "sync/atomic.", "(io.", "(net/http.ResponseWriter)", "encoding/json.Marshal", "os.", "(*time.", "runtime.Callers", "sort.Strings", "(*sync.WaitGroup)", "(*sync.Pool)", "(fmt.", "(*regexp.", "regexp.", "io.", "net/http.", "runtime/trace."} {
		if strings.HasPrefix(name, p) && name != "runtime.Callers" {
			return true
		}
	}
	return false
}

// invoke performs a call: builtin, modelled, inlined, or opaque.
func (in *Interp) invoke(st *State, fnTerm *Term, callee *Callee, args []*Term, invoke bool, site ssa.Instruction, res ssa.Value, asDefer bool) []*State {
	one := []*State{st}
	pos := site.Pos()
	tt := in.T
	var rt types.Type
	if res != nil {
		rt = res.Type()
	} else if d, ok := site.(*ssa.Defer); ok {
		rt = d.Call.Signature().Results()
	}
	setRes := func(s *State, t *Term) {
		if res != nil {
			s.set(res, t)
		}
	}
	name := callee.Name
	if strings.HasPrefix(name, "builtin ") {
		return in.builtin(st, name[8:], args, site, res)
	}
	// nil function value: calling it panics
	if fnTerm.IsNil() && !invoke {
		st.push(&Effect{Kind: EPanic, Pos: pos, Val: tt.Str("call of nil function"), Site: site})
		st.top().panicking = tt.Str("nil func")
		return one
	}
	// synchronisation primitives
	if len(args) > 0 && (strings.HasPrefix(name, "(*sync.Mutex).") || strings.HasPrefix(name, "(*sync.RWMutex).")) {
		addr := args[0]
		m := name[strings.LastIndex(name, ".")+1:]
		switch m {
		case "Lock", "RLock":
			st.push(&Effect{Kind: ELock, Pos: pos, Addr: addr, Truth: m == "RLock", Site: site, Deferred: asDefer})
			st.locks = append(st.locks, LockRef{addr, m == "RLock"})
			st.bumpEpoch()
			if in.Cfg.OnLock != nil {
				in.Cfg.OnLock(st, addr)
			}
			setRes(st, tt.Nil())
			return one
		case "Unlock", "RUnlock":
			_, held := st.held(addr)
			st.push(&Effect{Kind: EUnlock, Pos: pos, Addr: addr, OK: held, Truth: m == "RUnlock", Site: site, Deferred: asDefer})
			for i := len(st.locks) - 1; i >= 0; i-- {
				if st.locks[i].Addr == addr {
					st.locks = append(st.locks[:i], st.locks[i+1:]...)
					break
				}
			}
			setRes(st, tt.Nil())
			return one
		case "TryLock", "TryRLock":
			got := st.clone()
			got.push(&Effect{Kind: ELock, Pos: pos, Addr: addr, Truth: m == "TryRLock", Site: site, OK: true})
			got.locks = append(got.locks, LockRef{addr, m == "TryRLock"})
			got.bumpEpoch()
			if res != nil {
				got.set(res, tt.Bool(true))
			}
			setRes(st, tt.Bool(false))
			return []*State{got, st}
		}
	}
	if name == "(*sync.Once).Do" && len(args) == 2 {
		skip := st.clone()
		skip.bumpEpoch()
		if res != nil {
			skip.set(res, tt.Nil())
		}
		st.push(&Effect{Kind: ECall, Pos: pos, Callee: callee, Args: args, Site: site})
		out := in.invoke(st, args[1], in.calleeTerm(args[1]), nil, false, site, nil, false)
		return append(out, skip)
	}
	if in.Cfg.Intrinsic != nil {
		if r, ok := in.Cfg.Intrinsic(st, callee, args); ok {
			st.push(&Effect{Kind: ECall, Pos: pos, Callee: callee, Args: in.literalArgs(st, args), Result: r, Invoke: invoke, Deferred: asDefer, Site: site, Addr: fnTerm})
			setRes(st, r)
			return one
		}
	}
	// inlined
	if !invoke {
		f := fnTerm.Strip()
		if f.Op == OFunc || f.Op == OClosure {
			fn := f.Obj.(*ssa.Function)
			if in.inlinable(st, fn) {
				b := body(fn)
				var free []*Term
				if f.Op == OClosure {
					free = f.Args
				}
				in.Inlined[b] = true
				st.push(&Effect{Kind: EInline, Pos: pos, Callee: callee, Args: args, Site: site, Deferred: asDefer})
				if in.enterFn(st, b, args, free, site, res, asDefer) {
					return one
				}
			}
		}
	}
	// opaque
	lits := in.literalArgs(st, args)
	pure := purePkg(name) || (in.Cfg.Pure != nil && in.Cfg.Pure(name))
	seq := 0
	if !pure {
		seq = tt.Fresh()
	}
	var r *Term
	targs := lits
	if name == "dynamic" {
		targs = append([]*Term{fnTerm}, lits...)
	}
	r = tt.mk(OCall, "", seq, callee, rt, targs...)
	if r.Typ == nil {
		r.Typ = rt
	}
	if tup, ok := rt.(*types.Tuple); ok && tup.Len() > 1 {
		parts := make([]*Term, tup.Len())
		for i := range parts {
			parts[i] = in.extract(r, i, tup.At(i).Type())
		}
		r = tt.mk(OTuple, "", 0, nil, rt, parts...)
	}
	e := &Effect{Kind: ECall, Pos: pos, Callee: callee, Args: lits, Result: r, Invoke: invoke, Deferred: asDefer, Site: site, Addr: fnTerm}
	st.push(e)
	if name == "os.Exit" || name == "runtime.Goexit" || name == "(*log.Logger).Fatal" || name == "log.Fatal" || name == "log.Fatalf" {
		st.exit = true
		st.frames = nil
		st.endPos = pos
		return one
	}
	if !pure {
		// callbacks
		if !in.Cfg.NoSub && in.subDepth < 3 {
			all := lits
			if invoke || name == "dynamic" {
				all = append(append([]*Term{}, lits...), fnTerm)
			}
			for _, a := range all {
				in.callbacks(st, e, a)
			}
		}
		ro := readOnly(name) || (callee.Meth != nil && in.P.InRepoIface(callee.Meth))
		if !ro && sorter(name) && len(lits) > 0 && storeFree(e.Sub) {
			// only the order of the elements changes
			b := lits[0]
			for b.Op == OSlice || b.Op == OConv || b.Op == OIface {
				b = b.Args[0]
			}
			st.dropPrefix(b, tt.Fresh(), nil)
			ro = true
		}
		if !ro {
			st.havocArgs(lits)
		}
		if name != "(*sync.Pool).Get" && !strings.HasPrefix(name, "fmt.") && !strings.HasPrefix(name, "(*sync/atomic.") && !(strings.HasPrefix(name, "encoding/json.") || strings.HasPrefix(name, "(*encoding/json.")) && !strings.HasPrefix(name, "sort.") && !strings.HasPrefix(name, "runtime.Callers") {
			for _, a := range lits {
				st.escape(a)
			}
		}
	}
	setRes(st, r)
	if in.Cfg.MayPanic != nil && in.Cfg.MayPanic(e) && len(st.frames) > 0 && !asDefer {
		p := st.clone()
		v := tt.FreshSym("panic from "+name, nil)
		p.push(&Effect{Kind: EPanic, Pos: pos, Val: v, Callee: callee, Site: site})
		p.top().panicking = v
		return []*State{st, p}
	}
	return one
}

// InRepoIface: interface methods declared in the repository (Trace, Searcher,
// ...) do not modify their arguments' pointees except *SearchRequest.
func (p *Program) InRepoIface(m *types.Func) bool {
	if m.Pkg() == nil {
		return false
	}
	_, ok := p.Repo[m.Pkg()]
	return ok && m.Name() != "Search"
}

// callbacks explores closures handed to an opaque callee.
func (in *Interp) callbacks(st *State, e *Effect, a *Term) {
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		switch x.Op {
		case OClosure:
			fn := body(x.Obj.(*ssa.Function))
			if in.P.InRepo(fn) && len(fn.Blocks) > 0 && (in.Cfg.Inline == nil || in.Cfg.Inline(fn) || fn.Parent() != nil) {
				for _, fr := range st.frames {
					if fr.fn == fn {
						return
					}
				}
				sub := st.clone()
				sub.frames = nil
				sub.log = nil
				sub.bumpEpoch()
				in.subDepth++
				ps := in.runSub(x, sub, nil)
				in.subDepth--
				e.Sub = append(e.Sub, ps...)
				for _, p := range ps {
					p.Walk(true, func(se *Effect, _ []*LoopInfo, _ bool) {
						switch se.Kind {
						case EStore:
							for m := range st.mem {
								if isPrefix(se.Addr, m) || isPrefix(m, se.Addr) || (hasIndex(m) && m.Root() == se.Addr.Root()) {
									delete(st.mem, m)
								}
							}
							st.havocs = append(st.havocs, havoc{se.Addr, in.T.Fresh()})
						case EMapUpdate, EMapDelete:
							if ms := st.maps[se.Addr]; ms != nil {
								ms.entries = map[*Term]mapEntry{}
								ms.ver = in.T.Fresh()
								ms.fresh = false
							}
						}
					})
				}
			}
		case OIface, OConv, OArr, OStruct, OBound:
			for _, y := range x.Args {
				rec(y)
			}
		}
	}
	rec(a)
}

func (in *Interp) builtin(st *State, name string, args []*Term, site ssa.Instruction, res ssa.Value) []*State {
	tt := in.T
	one := []*State{st}
	pos := site.Pos()
	set := func(t *Term) {
		if res != nil {
			st.set(res, t)
		}
	}
	switch name {
	case "len":
		if in.Cfg.TrackLoads && args[0].Typ != nil {
			if _, ok := args[0].Typ.Underlying().(*types.Map); ok {
				st.push(&Effect{Kind: EMapLen, Pos: pos, Addr: args[0], Fresh: st.owned(args[0].Root()), Site: site})
			}
		}
		set(tt.seqLen(args[0]))
	case "cap":
		set(tt.Cap(args[0]))
	case "append":
		rest := tt.Nil()
		if len(args) > 1 {
			rest = in.literal(st, args[1])
		}
		base := args[0]
		if rest.IsNil() || (rest.Op == OArr && len(rest.Args) == 0) {
			set(base)
			return one
		}
		st.push(&Effect{Kind: EAppend, Pos: pos, Addr: base, Val: rest, Site: site})
		// merge literal tails: append(append(x, a), b)
		r := tt.mk(OAppend, "", 0, nil, nil, base, rest)
		if r.Typ == nil && res != nil {
			r.Typ = res.Type()
		}
		set(r)
	case "copy":
		st.push(&Effect{Kind: ECopy, Pos: pos, Addr: args[0], Val: args[1], Site: site})
		b := args[0]
		for b.Op == OSlice {
			b = b.Args[0]
		}
		st.dropPrefix(b, tt.Fresh(), nil)
		la, lb := tt.seqLen(args[0]), tt.seqLen(args[1])
		out := in.minmax(st, "min", la, lb, types.Typ[types.Int], res)
		return out
	case "delete":
		m, k := args[0], args[1]
		st.push(&Effect{Kind: EMapDelete, Pos: pos, Addr: m, Key: k, Fresh: st.owned(m.Root()), Site: site})
		st.mapSet(m, k, in.zero(mapElem(m.Typ)), false)
		set(tt.Nil())
	case "clear":
		st.push(&Effect{Kind: EMapDelete, Pos: pos, Addr: args[0], Fresh: st.owned(args[0].Root()), Site: site})
		st.havocArgs(args)
	case "close":
		st.push(&Effect{Kind: EClose, Pos: pos, Addr: args[0], Site: site})
	case "panic":
		st.push(&Effect{Kind: EPanic, Pos: pos, Val: args[0], Site: site})
		st.top().panicking = args[0]
	case "recover":
		set(tt.Nil())
		if len(st.frames) >= 2 && st.top().asDefer {
			caller := st.frames[len(st.frames)-2]
			if caller.panicking != nil {
				v := tt.FreshSym("recovered", types.NewInterfaceType(nil, nil))
				st.assume(tt.cmp(token.EQL, v, tt.Nil()), false)
				set(v)
				caller.panicking = nil
				caller.recovered = true
			}
		}
	case "min", "max":
		if len(args) == 2 && (isIntType(args[0].Typ) || isIntType(args[1].Typ)) {
			return in.minmax(st, name, args[0], args[1], rtype(res), res)
		}
		set(tt.mk(OMinMax, name, 0, nil, rtype(res), args...))
	case "print", "println":
		set(tt.Nil())
	case "ssa:wrapnilchk":
		set(args[0])
	default:
		set(tt.FreshSym("builtin_"+name, rtype(res)))
	}
	return one
}

func rtype(v ssa.Value) types.Type {
	if v == nil {
		return nil
	}
	return v.Type()
}

func mapElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if m, ok := t.Underlying().(*types.Map); ok {
		return m.Elem()
	}
	return nil
}

func (in *Interp) minmax(st *State, name string, a, b *Term, t types.Type, res ssa.Value) []*State {
	le := in.T.cmp(token.LEQ, a, b)
	pickT := func(aLe bool) *Term {
		if aLe == (name == "min") {
			return a
		}
		return b
	}
	if v, known := st.facts.Eval(le); known {
		if res != nil {
			st.set(res, pickT(v))
		}
		return []*State{st}
	}
	o := st.clone()
	var out []*State
	if st.assume(le, true) {
		if res != nil {
			st.set(res, pickT(true))
		}
		out = append(out, st)
	}
	if o.assume(le, false) {
		if res != nil {
			o.set(res, pickT(false))
		}
		out = append(out, o)
	}
	return out
}

// globalInit returns the constant initial value of an immutable global.
func (p *Program) globalInit(in *Interp, root, addr *Term) *Term {
	if addr != root || p.globalMutable(root) {
		return nil
	}
	g := root.Obj.(*ssa.Global)
	if p.ginit == nil {
		p.ginit = map[*ssa.Global]*ssa.Store{}
		cnt := map[*ssa.Global]int{}
		for tp := range p.Repo {
			sp := p.Prog.Package(tp)
			fn := sp.Func("init")
			if fn == nil {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok {
						if gg, ok := s.Addr.(*ssa.Global); ok {
							p.ginit[gg] = s
							cnt[gg]++
						}
					}
				}
			}
		}
		for gg, n := range cnt {
			if n != 1 {
				delete(p.ginit, gg)
			}
		}
	}
	if s := p.ginit[g]; s != nil {
		if c, ok := s.Val.(*ssa.Const); ok {
			if c.Value == nil {
				return in.zero(c.Type())
			}
			return in.T.Const(c.Value, c.Type())
		}
	}
	return nil
}

// sorter: library functions that reorder the elements of their first argument
// and do nothing else but call the given comparison.
func sorter(name string) bool {
	switch name, _, _ := strings.Cut(name, "["); name {
	case "sort.Slice", "sort.SliceStable", "sort.Strings", "sort.Ints", "slices.Sort", "slices.SortFunc", "slices.SortStableFunc", "slices.Reverse":
		return true
	}
	return false
}

// storeFree: the callback paths don't write to anything.
func storeFree(ps []*Path) bool {
	ok := true
	for _, p := range ps {
		p.Walk(true, func(e *Effect, _ []*LoopInfo, _ bool) {
			switch e.Kind {
			case EStore, EMapUpdate, EMapDelete:
				if !e.Fresh {
					ok = false
				}
			}
		})
	}
	return ok
}

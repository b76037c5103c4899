package eng

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type EffKind uint8

const (
	EStore EffKind = iota
	ELoad
	ELock
	EUnlock
	ECall // opaque call
	ESend
	ERecv
	ESelect // a select that chose Case (index); -1 = default
	EGo
	EMapUpdate
	EMapDelete
	EMapRead
	ELoop
	EPanic
	EIndex
	ESliceOp
	EMake
	EAppend
	EDeref
	EClose
	EBranch // assumed atom
	EInline // entered an inlined callee
	EReturnFrom
	ECopy
	EAssert
	EDefer
	EMapLen // len of a map (with TrackLoads)
)

var effNames = [...]string{"store", "load", "lock", "unlock", "call", "send", "recv", "select", "go", "mapupdate", "mapdelete", "mapread", "loop", "panic", "index", "slice", "make", "append", "deref", "close", "branch", "inline", "returnfrom", "copy", "assert", "defer", "maplen"}

func (k EffKind) String() string { return effNames[k] }

// LockRef is a held lock.
type LockRef struct {
	Addr *Term
	Read bool
}

// Effect is one event on an abstract path.
type Effect struct {
	Kind     EffKind
	Pos      token.Pos
	Fn       *ssa.Function
	Addr     *Term // store/load/lock address; map; channel; slice
	Val      *Term // stored/sent/received value; branch atom; index; key's value
	Key      *Term
	Callee   *Callee
	Args     []*Term
	Result   *Term
	Invoke   bool
	Deferred bool
	Async    bool // call made by a go statement
	Blocking bool // select without default; send; recv
	Cases    []SelCase
	Case     int
	Truth    bool // EBranch
	OK       bool // EIndex/ESliceOp: proven in bounds
	Fresh    bool // EStore/ELoad: object is fresh (owned) at this point
	NonNil   bool // EDeref: proven non-nil
	Locks    []LockRef
	Facts    *Facts
	Epoch    int
	Loop     *LoopInfo
	Sub      []*Path // callback or goroutine body paths
	Site     ssa.Instruction
	Struct   *Term
}

type SelCase struct {
	Send bool
	Chan *Term
	Val  *Term
}

// LoopInfo summarises a loop reached on a path.
type LoopInfo struct {
	Fn     *ssa.Function
	Header *ssa.BasicBlock
	K      *Term // number of completed iterations
	Iters  []*Iter
	// BoolAcc: widened boolean variable -> initial value, for variables whose
	// iterations either keep them or set them to the opposite constant.
	BoolAcc map[*Term]*BoolAcc
	// Mult: symbol -> X: the symbol is a multiple of X.
	Mult  map[*Term]*Term
	Peel  int
	Vars  []*LoopVar
	Depth int
}

type BoolAcc struct {
	Init  bool
	Setby map[int]bool // iteration indexes that set it
}

// LoopVar describes a variable modified by the loop.
type LoopVar struct {
	Phi   *ssa.Phi
	Addr  *Term
	Init  *Term
	Start *Term // value at the start of the generic iteration
	Kind  string
	Step  int64
}

// Iter is one abstract path through the loop body back to the header.
type Iter struct {
	Effects []*Effect
	Facts   *Facts
	Next    map[*Term]*Term // loop variable start value -> value at the end
}

type logNode struct {
	parent *logNode
	eff    *Effect
	n      int
}

// Path is a completed abstract path.
type Path struct {
	Root    *ssa.Function
	Effects []*Effect
	Facts   *Facts
	Ret     []*Term
	Panic   *Term // non-nil: ends in an uncaught panic
	Exit    bool  // os.Exit or runtime.Goexit
	Locks   []LockRef
	State   *State
	EndPos  token.Pos
}

// Frame is an activation of an (inlined) function.
type Frame struct {
	fn        *ssa.Function
	env       map[ssa.Value]*Term
	block     *ssa.BasicBlock
	from      *ssa.BasicBlock
	pc        int
	pending   bool // about to enter block from `from`
	defers    []deferred
	site      ssa.Instruction // call instruction in the caller
	resVal    ssa.Value       // where to put the result in the caller frame
	asDefer   bool            // running as a deferred call
	advance   bool            // advance caller pc on return
	panicking *Term
	recovered bool
	final     func(st *State, ret []*Term) // not used in clones
}

type deferred struct {
	fnTerm *Term
	callee *Callee
	args   []*Term
	invoke bool
	site   *ssa.Defer
}

type havoc struct {
	prefix *Term
	id     int
}

// State is the abstract state of one path.
type State struct {
	in      *Interp
	frames  []*Frame
	mem     map[*Term]*Term
	maps    map[*Term]*mapState
	havocs  []havoc
	epoch   int
	facts   *Facts
	locks   []LockRef
	escaped map[*Term]bool
	log     *logNode
	ret     []*Term
	panicV  *Term
	exit    bool
	endPos  token.Pos
	order   int
	marker  bool // waiting at a join point
	ready   bool // joined before a loop
}

type mapState struct {
	ver     int
	fresh   bool
	entries map[*Term]mapEntry // by key
}
type mapEntry struct {
	val *Term
	ok  *Term
}

func (st *State) clone() *State {
	n := &State{in: st.in, epoch: st.epoch, facts: st.facts, log: st.log, ret: st.ret, panicV: st.panicV, exit: st.exit, endPos: st.endPos, order: st.order}
	n.frames = make([]*Frame, len(st.frames))
	for i, f := range st.frames {
		c := *f
		c.env = make(map[ssa.Value]*Term, len(f.env)+4)
		for k, v := range f.env {
			c.env[k] = v
		}
		c.defers = append([]deferred(nil), f.defers...)
		n.frames[i] = &c
	}
	n.mem = make(map[*Term]*Term, len(st.mem)+4)
	for k, v := range st.mem {
		n.mem[k] = v
	}
	n.maps = make(map[*Term]*mapState, len(st.maps))
	for k, v := range st.maps {
		e := make(map[*Term]mapEntry, len(v.entries))
		for a, b := range v.entries {
			e[a] = b
		}
		n.maps[k] = &mapState{v.ver, v.fresh, e}
	}
	n.havocs = st.havocs[:len(st.havocs):len(st.havocs)]
	n.locks = append([]LockRef(nil), st.locks...)
	n.escaped = make(map[*Term]bool, len(st.escaped))
	for k := range st.escaped {
		n.escaped[k] = true
	}
	return n
}

func (st *State) top() *Frame { return st.frames[len(st.frames)-1] }

// Fn is the source function currently executing (innermost non-synthetic).
func (st *State) Fn() *ssa.Function {
	if len(st.frames) == 0 {
		return nil
	}
	return st.top().fn
}

func (st *State) push(e *Effect) {
	if e.Fn == nil {
		e.Fn = st.Fn()
	}
	e.Locks = append([]LockRef(nil), st.locks...)
	e.Facts = st.facts
	e.Epoch = st.epoch
	n := 1
	if st.log != nil {
		n = st.log.n + 1
	}
	st.log = &logNode{parent: st.log, eff: e, n: n}
}

// effectsSince returns the effects after mark, oldest first.
func (st *State) effectsSince(mark *logNode) []*Effect {
	var out []*Effect
	for n := st.log; n != nil && n != mark; n = n.parent {
		out = append(out, n.eff)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func (st *State) assume(b *Term, v bool) bool {
	f := st.facts.Clone()
	if !f.Assume(b, v) {
		return false
	}
	st.facts = f
	return true
}

// ---- memory ----

func isPrefix(p, a *Term) bool {
	for x := a; x != nil; {
		if x == p {
			return true
		}
		switch x.Op {
		case OField, OIndex, OSlice:
			x = x.Args[0]
		default:
			return false
		}
	}
	return false
}

// ownRoot: an object this path created and has not published.
func (st *State) owned(root *Term) bool {
	if root == nil {
		return false
	}
	switch root.Op {
	case OAlloc, OMkSlice, OMkMap, OMkChan, OArr, OStruct, OClosure:
		return !st.escaped[root]
	case OCall:
		if c, _ := root.Obj.(*Callee); c != nil && c.Name == "(*sync.Pool).Get" {
			return !st.escaped[root]
		}
	case OAppend:
		return st.owned(root.Args[0].Root()) || root.Args[0].IsNil()
	case OConst:
		return true
	case OSym:
		return root.Aux == "loopalloc"
	}
	return false
}

func (st *State) mutableField(v *types.Var) bool {
	if v == nil || st.in.Cfg.MutableField == nil {
		return true
	}
	return st.in.Cfg.MutableField(v)
}

func (st *State) version(addr *Term) int {
	root := addr.Root()
	id := -1
	for _, h := range st.havocs {
		if (isPrefix(h.prefix, addr) || isPrefix(addr, h.prefix)) && h.id > id {
			id = h.id
		}
	}
	if !st.owned(root) {
		// innermost field immutability
		imm := false
		for x := addr; x != nil && x.Op == OField; x = x.Args[0] {
			if v := x.FieldVar(); v != nil && !st.mutableField(v) {
				imm = true
			}
			break
		}
		if root.Op == OGlobal && !st.in.P.globalMutable(root) {
			imm = true
		}
		if a, ok := root.Obj.(*ssa.Alloc); ok && root.Op == OAlloc && st.in.P.SingleStore(a) {
			imm = true
		}
		if !imm && st.epoch > id {
			id = st.epoch
		}
	}
	return id
}

func (p *Program) globalMutable(root *Term) bool {
	g := root.Obj.(*ssa.Global)
	if p.gmut == nil {
		p.gmut = map[*ssa.Global]bool{}
		for _, fn := range p.Funcs {
			if fn.Name() == "init" && fn.Parent() == nil {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if gg, ok := (*op).(*ssa.Global); ok {
							if u, isLoad := ins.(*ssa.UnOp); isLoad && u.X == gg {
								continue
							}
							p.gmut[gg] = true
						}
					}
				}
			}
		}
	}
	return p.gmut[g]
}

func (in *Interp) structOf(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, false
	}
	if !in.P.InRepoType(t) {
		return nil, false
	}
	return s, true
}

func elemType(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// zero builds the zero value of type t.
func (in *Interp) zero(t types.Type) *Term {
	tt := in.T
	if t == nil {
		return tt.Nil()
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tt.Bool(false)
		case u.Info()&types.IsInteger != 0:
			return tt.Int(0)
		case u.Info()&types.IsString != 0:
			return tt.Str("")
		case u.Info()&types.IsFloat != 0:
			return tt.mk(OZero, "", 0, nil, t)
		}
		return tt.Nil()
	case *types.Struct:
		if s, ok := in.structOf(t); ok {
			args := make([]*Term, s.NumFields())
			for i := range args {
				args[i] = in.zero(s.Field(i).Type())
			}
			return tt.mk(OStruct, "", 0, nil, t, args...)
		}
		return tt.mk(OZero, "", 0, nil, t)
	case *types.Array:
		return tt.mk(OZero, "", 0, nil, t)
	}
	if _, ok := t.(*types.TypeParam); ok {
		return tt.mk(OZero, "", 0, nil, t)
	}
	return tt.Nil()
}

// load reads the value of type t at addr.
func (st *State) load(addr *Term, t types.Type) *Term {
	in := st.in
	tt := in.T
	if v, ok := st.mem[addr]; ok {
		return v
	}
	if s, ok := in.structOf(t); ok {
		args := make([]*Term, s.NumFields())
		for i := range args {
			args[i] = st.load(tt.Field(addr, i, s.Field(i)), s.Field(i).Type())
		}
		return tt.mk(OStruct, "", 0, nil, t, args...)
	}
	// a struct of another package that was filled in field by field
	if t != nil && addr.Root().Op == OAlloc {
		if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() > 0 {
			some := false
			for a := range st.mem {
				if a != addr && isPrefix(addr, a) {
					some = true
					break
				}
			}
			if some {
				args := make([]*Term, s.NumFields())
				for i := range args {
					args[i] = st.load(tt.Field(addr, i, s.Field(i)), s.Field(i).Type())
				}
				return tt.mk(OStruct, "", 0, nil, t, args...)
			}
		}
	}
	root := addr.Root()
	// element of a literal
	if addr.Op == OIndex {
		if base := addr.Args[0]; base.Op == OArr {
			if n, ok := addr.Args[1].IntConst(); ok && n >= 0 && int(n) < len(base.Args) {
				return base.Args[n]
			}
		}
	}
	// sub-value of an aggregate stored whole
	if addr.Op == OField {
		if v, ok := st.mem[addr.Args[0]]; ok {
			return in.fieldVal(v, addr.N, t)
		}
	}
	if addr.Op == OIndex {
		if v, ok := st.mem[addr.Args[0]]; ok {
			if n, k := addr.Args[1].IntConst(); k && v.Op == OArr && n >= 0 && int(n) < len(v.Args) {
				return v.Args[n]
			}
			if v.Op == OZero || v.IsNil() {
				return in.zero(t)
			}
			return tt.mk(OIndexVal, "", 0, nil, t, v, addr.Args[1])
		}
	}
	id := st.version(addr)
	if id < 0 {
		switch root.Op {
		case OAlloc, OMkSlice:
			return in.zero(t)
		}
	}
	if root.Op == OGlobal && id < 0 {
		if v := in.P.globalInit(in, root, addr); v != nil {
			return v
		}
	}
	return tt.mk(OLoad, "", id, nil, t, addr)
}

func (in *Interp) fieldVal(v *Term, i int, t types.Type) *Term {
	if v.Op == OStruct && i < len(v.Args) {
		return v.Args[i]
	}
	if v.Op == OZero || v.IsNil() {
		return in.zero(t)
	}
	return in.T.mk(OFieldVal, "", i, nil, t, v)
}

// store writes val at addr, with effects for each leaf field.
func (st *State) store(addr, val *Term, t types.Type, pos token.Pos, site ssa.Instruction) {
	in := st.in
	if s, ok := in.structOf(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			st.store(in.T.Field(addr, i, s.Field(i)), in.fieldVal(val, i, ft), ft, pos, site)
		}
		return
	}
	root := addr.Root()
	st.push(&Effect{Kind: EStore, Pos: pos, Addr: addr, Val: val, Fresh: st.owned(root), Site: site})
	st.rawStore(addr, val)
	if !st.owned(root) {
		st.escape(val)
	}
}

func (st *State) rawStore(addr, val *Term) {
	// invalidate aliases among indexed elements
	if addr.Op == OIndex || hasIndex(addr) {
		for a := range st.mem {
			if a != addr && hasIndex(a) && a.Root() == addr.Root() && !st.distinct(a, addr) {
				delete(st.mem, a)
			}
		}
		if _, isConst := lastIndex(addr).IntConst(); !isConst {
			st.havocs = append(st.havocs, havoc{baseOfIndex(addr), st.in.T.Fresh()})
		}
	}
	// drop sub-entries and enclosing aggregates
	for a := range st.mem {
		if a != addr && (isPrefix(addr, a) || isPrefix(a, addr)) {
			if v := st.mem[a]; isPrefix(a, addr) && v.Op != OZero && !v.IsNil() {
				st.havocs = append(st.havocs, havoc{a, st.in.T.Fresh()})
			}
			delete(st.mem, a)
		}
	}
	st.mem[addr] = val
}

func hasIndex(a *Term) bool {
	for x := a; x != nil; {
		switch x.Op {
		case OIndex:
			return true
		case OField, OSlice:
			x = x.Args[0]
		default:
			return false
		}
	}
	return false
}
func lastIndex(a *Term) *Term {
	for x := a; x != nil; {
		switch x.Op {
		case OIndex:
			return x.Args[1]
		case OField, OSlice:
			x = x.Args[0]
		default:
			return nil
		}
	}
	return nil
}
func baseOfIndex(a *Term) *Term {
	for x := a; x != nil; {
		switch x.Op {
		case OIndex:
			return x.Args[0]
		case OField, OSlice:
			x = x.Args[0]
		default:
			return a
		}
	}
	return a
}

// distinct reports that two indexed addresses cannot be equal.
func (st *State) distinct(a, b *Term) bool {
	if a.Op == OField && b.Op == OField {
		if a.N != b.N && a.Args[0].Op == b.Args[0].Op {
			// different fields of possibly the same element
			return true
		}
		return st.distinct(a.Args[0], b.Args[0])
	}
	if a.Op == OIndex && b.Op == OIndex && a.Args[0] == b.Args[0] {
		v, ok := st.facts.Eval(st.in.T.cmp(token.EQL, a.Args[1], b.Args[1]))
		return ok && !v
	}
	return false
}

// escape marks the fresh objects reachable from v as published.
func (st *State) escape(v *Term) {
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		switch x.Op {
		case OAlloc, OMkSlice, OMkMap, OMkChan:
			if !st.escaped[x] {
				st.escaped[x] = true
				for a, val := range st.mem {
					if a.Root() == x {
						rec(val)
					}
				}
			}
		case OCall:
			if c, _ := x.Obj.(*Callee); c != nil && c.Name == "(*sync.Pool).Get" {
				st.escaped[x] = true
			}
			return
		case OLoad, OLookup, OLen, OCap, OBin:
			return
		}
		for _, y := range x.Args {
			rec(y)
		}
	}
	rec(v)
}

// havocArgs forgets everything an opaque callee could change.
func (st *State) havocArgs(args []*Term) {
	seen := map[*Term]bool{}
	id := 0
	var rec func(x *Term)
	rec = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		switch x.Op {
		case OConst, OLen, OCap, OBin, OFunc, OGlobal:
			return
		case OMkMap:
			if ms := st.maps[x]; ms != nil {
				ms.entries = map[*Term]mapEntry{}
				ms.ver = st.in.T.Fresh()
				ms.fresh = false
			}
		}
		if x.Typ != nil {
			if a, ok := x.Obj.(*ssa.Alloc); ok && x.Op == OAlloc && st.in.P.SingleStore(a) {
				if v, ok := st.mem[x]; ok {
					rec(v)
				}
				return
			}
			switch x.Typ.Underlying().(type) {
			case *types.Pointer, *types.Slice:
				if x.Op == OSym || x.Op == OAlloc || x.Op == OField || x.Op == OIndex || x.Op == OLoad || x.Op == OMkSlice || x.Op == OAssert || x.Op == OCall || x.Op == OSlice || x.Op == OAppend {
					if id == 0 {
						id = st.in.T.Fresh()
					}
					base := x
					if x.Op == OSlice {
						base = x.Args[0]
					}
					st.dropPrefix(base, id, rec)
				}
			}
		}
		if x.Op == OClosure || x.Op == OIface || x.Op == OConv || x.Op == OStruct || x.Op == OArr || x.Op == OBound || x.Op == OSlice {
			for _, y := range x.Args {
				rec(y)
			}
		}
	}
	for _, a := range args {
		rec(a)
	}
}

func (st *State) dropPrefix(p *Term, id int, visit func(*Term)) {
	for a, v := range st.mem {
		if isPrefix(p, a) {
			imm := false
			if !st.owned(a.Root()) {
				if fv := a.FieldVar(); fv != nil && !st.mutableField(fv) {
					imm = true
				}
			}
			if imm {
				continue
			}
			delete(st.mem, a)
			if visit != nil {
				visit(v)
			}
		}
	}
	st.havocs = append(st.havocs, havoc{p, id})
}

// bumpEpoch models a synchronisation point: shared mutable memory may have
// been changed by other goroutines.
func (st *State) bumpEpoch() {
	id := st.in.T.Fresh()
	for a := range st.mem {
		r := a.Root()
		if st.owned(r) {
			continue
		}
		if fv := a.FieldVar(); fv != nil && !st.mutableField(fv) {
			continue
		}
		if al, ok := r.Obj.(*ssa.Alloc); ok && r.Op == OAlloc && st.in.P.SingleStore(al) {
			continue
		}
		if r.Op == OGlobal && !st.in.P.globalMutable(r) {
			continue
		}
		delete(st.mem, a)
	}
	for m, ms := range st.maps {
		if !st.owned(m.Root()) {
			ms.entries = map[*Term]mapEntry{}
			ms.ver = id
			ms.fresh = false
		}
	}
	st.epoch = id
}

func (st *State) mapOf(m *Term) *mapState {
	ms := st.maps[m]
	if ms == nil {
		ms = &mapState{ver: st.epoch, entries: map[*Term]mapEntry{}}
		if m.Op == OMkMap {
			ms.fresh = true
		}
		st.maps[m] = ms
	}
	return ms
}

func (st *State) lookup(m, k *Term, vt types.Type) (val, ok *Term) {
	tt := st.in.T
	if m.IsNil() {
		return st.in.zero(vt), tt.Bool(false)
	}
	ms := st.mapOf(m)
	if e, found := ms.entries[k]; found {
		return e.val, e.ok
	}
	if ms.fresh {
		maybe := false
		for kk := range ms.entries {
			if v, known := st.facts.Eval(tt.cmp(token.EQL, kk, k)); !known || v {
				maybe = true
			}
		}
		if !maybe {
			return st.in.zero(vt), tt.Bool(false)
		}
	}
	val = tt.mk(OLookup, "", ms.ver, nil, vt, m, k)
	if val.Typ == nil {
		val.Typ = vt
	}
	ok = tt.mk(OLookupOk, "", ms.ver, nil, types.Typ[types.Bool], m, k)
	if okv, known := st.facts.Eval(ok); known && !okv {
		val = st.in.zero(vt)
	}
	return val, ok
}

func (st *State) mapSet(m, k, v *Term, present bool) {
	ms := st.mapOf(m)
	for kk := range ms.entries {
		if kk != k {
			if e, known := st.facts.Eval(st.in.T.cmp(token.EQL, kk, k)); !known || e {
				delete(ms.entries, kk)
			}
		}
	}
	ms.ver = st.in.T.Fresh()
	ms.entries[k] = mapEntry{v, st.in.T.Bool(present)}
}

func (st *State) held(addr *Term) (LockRef, bool) {
	for _, l := range st.locks {
		if l.Addr == addr {
			return l, true
		}
	}
	return LockRef{}, false
}

// ---- reporting ----

func (p *Path) FactStrings() []string { return p.Facts.Strings() }

func (e *Effect) String() string {
	var sb strings.Builder
	sb.WriteString(e.Kind.String())
	switch e.Kind {
	case ECall, EGo, EInline:
		fmt.Fprintf(&sb, " %s(", e.Callee)
		for i, a := range e.Args {
			if i > 0 {
				sb.WriteString(", ")
			}
			sb.WriteString(a.String())
		}
		sb.WriteString(")")
	case EBranch:
		fmt.Fprintf(&sb, " %v = %v", e.Val, e.Truth)
	case ESelect:
		fmt.Fprintf(&sb, " case %d of %d blocking=%v", e.Case, len(e.Cases), e.Blocking)
	default:
		if e.Addr != nil {
			fmt.Fprintf(&sb, " %v", e.Addr)
		}
		if e.Key != nil {
			fmt.Fprintf(&sb, " [%v]", e.Key)
		}
		if e.Val != nil {
			fmt.Fprintf(&sb, " := %v", e.Val)
		}
	}
	return sb.String()
}

// Walk visits every effect of the path, descending into loop iterations and,
// when sub is true, callback and goroutine bodies.
func (p *Path) Walk(sub bool, f func(e *Effect, inLoop []*LoopInfo, async bool)) {
	walkEffs(p.Effects, nil, false, sub, f)
}

func walkEffs(es []*Effect, loops []*LoopInfo, async, sub bool, f func(*Effect, []*LoopInfo, bool)) {
	for _, e := range es {
		f(e, loops, async)
		if e.Kind == ELoop && e.Loop != nil {
			for _, it := range e.Loop.Iters {
				walkEffs(it.Effects, append(loops[:len(loops):len(loops)], e.Loop), async, sub, f)
			}
		}
		if sub {
			for _, s := range e.Sub {
				walkEffs(s.Effects, loops, async || e.Kind == EGo, sub, f)
			}
		}
	}
}

// SortedLocks renders the held locks.
func LockStrings(ls []LockRef) []string {
	var out []string
	for _, l := range ls {
		out = append(out, l.Addr.String())
	}
	sort.Strings(out)
	return out
}

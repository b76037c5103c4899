package eng

import (
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Cmp builds the canonical boolean term for x op y.
func (tt *Terms) Cmp(op token.Token, x, y *Term) *Term { return tt.cmp(op, x, y) }

// Add builds x + k.
func (tt *Terms) Add(x *Term, k int64) *Term {
	l := tt.LinOf(x)
	l.K += k
	return tt.FromLin(l, types.Typ[types.Int])
}

// Sub builds x - y.
func (tt *Terms) Sub(x, y *Term) *Term {
	return tt.FromLin(tt.LinOf(x).addScaled(tt.LinOf(y), -1), types.Typ[types.Int])
}

// LinConst reports the constant value of an integer term.
func (tt *Terms) LinConst(x *Term) (int64, bool) {
	l := tt.LinOf(x)
	return l.K, l.isConst()
}

// neverNil: calls whose result is never nil.
func neverNil(name string) bool {
	switch name {
	case "fmt.Errorf", "errors.New", "context.WithValue", "context.Background", "context.TODO", "time.NewTicker", "time.NewTimer", "(*net/http.Request).Context", "(*net/http.Request).WithContext", "bytes.NewReader", "encoding/json.NewDecoder", "encoding/json.NewEncoder", "regexp.MustCompile", "log.New", "(context.Context).Err.done":
		return true
	}
	return strings.HasSuffix(name, ".NewSearchTrace") || strings.HasSuffix(name, ".NewStreamTrace") || strings.HasSuffix(name, ".NewSearchStats") || strings.HasSuffix(name, ".NewCategoryStats")
}

// StructType returns the struct type behind a named or pointer type.
func StructType(t types.Type) *types.Struct {
	if t == nil {
		return nil
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

// fieldStores indexes every instruction that can store to a struct field.
type fieldStores struct {
	consts  map[*types.Var]map[string]constant.Value
	unknown map[*types.Var]bool
	mutable map[*types.Var]bool
}

func origin(v *types.Var) *types.Var { return v.Origin() }

// fields computes, flow-insensitively over all stores in the repository, which
// fields are assigned only while their object is still private to its
// constructor (immutable afterwards), and which fields only hold constants.
func (p *Program) fields() *fieldStores {
	if p.fst != nil {
		return p.fst
	}
	fs := &fieldStores{consts: map[*types.Var]map[string]constant.Value{}, unknown: map[*types.Var]bool{}, mutable: map[*types.Var]bool{}}
	p.fst = fs
	callers := map[*ssa.Function][]*ssa.CallCommon{}
	valueUse := map[*ssa.Function]bool{}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				var cc *ssa.CallCommon
				if ci, ok := ins.(ssa.CallInstruction); ok {
					cc = ci.Common()
					if sc := cc.StaticCallee(); sc != nil {
						callers[sc] = append(callers[sc], cc)
						if sc.Origin() != nil {
							callers[sc.Origin()] = append(callers[sc.Origin()], cc)
						}
					}
				}
				for _, op := range ins.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok && (cc == nil || &cc.Value != op) {
						valueUse[f] = true
					}
				}
			}
		}
	}
	// fresh: v is an object nobody else can see yet.
	var fresh func(v ssa.Value, depth int, seen map[ssa.Value]bool) bool
	fresh = func(v ssa.Value, depth int, seen map[ssa.Value]bool) bool {
		if depth > 8 || seen[v] {
			return true
		}
		seen[v] = true
		switch v := v.(type) {
		case *ssa.Alloc:
			return true
		case *ssa.TypeAssert:
			return fresh(v.X, depth+1, seen)
		case *ssa.Extract:
			return fresh(v.Tuple, depth+1, seen)
		case *ssa.Phi:
			for _, e := range v.Edges {
				if !fresh(e, depth+1, seen) {
					return false
				}
			}
			return true
		case *ssa.FieldAddr:
			return fresh(v.X, depth+1, seen)
		case *ssa.IndexAddr:
			return fresh(v.X, depth+1, seen)
		case *ssa.ChangeType:
			return fresh(v.X, depth+1, seen)
		case *ssa.UnOp:
			if v.Op == token.MUL {
				if a, ok := v.X.(*ssa.Alloc); ok {
					for _, r := range *a.Referrers() {
						if s, ok := r.(*ssa.Store); ok && s.Addr == a && !fresh(s.Val, depth+1, seen) {
							return false
						}
					}
					return true
				}
			}
		case *ssa.Call:
			if sc := v.Call.StaticCallee(); sc != nil {
				if sc.String() == "(*sync.Pool).Get" {
					return true
				}
				if p.InRepo(sc) && len(sc.Blocks) > 0 {
					for _, b := range sc.Blocks {
						if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
							for _, x := range r.Results {
								if _, isPtr := x.Type().Underlying().(*types.Pointer); isPtr && !fresh(x, depth+1, seen) {
									return false
								}
							}
						}
					}
					return true
				}
			}
		case *ssa.Parameter:
			fn := v.Parent()
			if ast := fn.Object(); ast != nil && ast.Exported() {
				return false
			}
			if valueUse[fn] || len(callers[fn]) == 0 {
				return false
			}
			idx := -1
			for i, q := range fn.Params {
				if q == v {
					idx = i
				}
			}
			for _, c := range callers[fn] {
				if idx >= len(c.Args) || !fresh(c.Args[idx], depth+1, seen) {
					return false
				}
			}
			return true
		}
		return false
	}
	var constSet func(v ssa.Value, depth int) ([]constant.Value, bool)
	constSet = func(v ssa.Value, depth int) ([]constant.Value, bool) {
		if depth > 6 {
			return nil, false
		}
		switch v := v.(type) {
		case *ssa.Const:
			if v.Value == nil {
				return nil, false
			}
			return []constant.Value{v.Value}, true
		case *ssa.Phi:
			var out []constant.Value
			for _, e := range v.Edges {
				cs, ok := constSet(e, depth+1)
				if !ok {
					return nil, false
				}
				out = append(out, cs...)
			}
			return out, true
		case *ssa.Convert:
			return constSet(v.X, depth+1)
		case *ssa.ChangeType:
			return constSet(v.X, depth+1)
		case *ssa.Parameter:
			fn := v.Parent()
			if o := fn.Object(); o != nil && o.Exported() || valueUse[fn] || len(callers[fn]) == 0 {
				return nil, false
			}
			var out []constant.Value
			for i, q := range fn.Params {
				if q != v {
					continue
				}
				for _, c := range callers[fn] {
					if i >= len(c.Args) {
						return nil, false
					}
					cs, ok := constSet(c.Args[i], depth+1)
					if !ok {
						return nil, false
					}
					out = append(out, cs...)
				}
			}
			return out, true
		case *ssa.Call:
			sc := v.Call.StaticCallee()
			if sc == nil || !p.InRepo(sc) || len(body(sc).Blocks) == 0 || sc.Signature.Results().Len() != 1 {
				return nil, false
			}
			fn := body(sc)
			var out []constant.Value
			for _, b := range fn.Blocks {
				r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
				if !ok {
					continue
				}
				x := r.Results[0]
				if prm, ok := x.(*ssa.Parameter); ok {
					idx := -1
					for i, q := range fn.Params {
						if q == prm {
							idx = i
						}
					}
					x = v.Call.Args[idx]
				}
				cs, ok := constSet(x, depth+1)
				if !ok {
					return nil, false
				}
				out = append(out, cs...)
			}
			return out, true
		}
		return nil, false
	}
	note := func(f *types.Var, base, val ssa.Value) {
		if !fresh(base, 0, map[ssa.Value]bool{}) {
			fs.mutable[f] = true
		}
		if val == nil {
			fs.unknown[f] = true
			return
		}
		cs, ok := constSet(val, 0)
		if !ok {
			fs.unknown[f] = true
			return
		}
		if fs.consts[f] == nil {
			fs.consts[f] = map[string]constant.Value{}
		}
		for _, c := range cs {
			fs.consts[f][c.ExactString()] = c
		}
	}
	for _, fn := range p.Funcs {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch ins := ins.(type) {
				case *ssa.Store:
					if fa, ok := ins.Addr.(*ssa.FieldAddr); ok {
						if st := StructType(fa.X.Type()); st != nil {
							note(origin(st.Field(fa.Field)), fa.X, ins.Val)
						}
					}
					// whole-struct stores
					if st := StructType(ins.Val.Type()); st != nil {
						if _, isPtr := ins.Val.Type().Underlying().(*types.Pointer); !isPtr {
							_, conv := ins.Val.(*ssa.ChangeType)
							isFresh := fresh(ins.Addr, 0, map[ssa.Value]bool{})
							for i := 0; i < st.NumFields(); i++ {
								f := origin(st.Field(i))
								// the values come from another struct of this
								// type, whose fields were set by stores seen here
								if f.Exported() || conv {
									fs.unknown[f] = true
								}
								if !isFresh {
									fs.mutable[f] = true
								}
							}
						}
					}
				case *ssa.FieldAddr:
					// address taken for something other than load/store/field/index
					st := StructType(ins.X.Type())
					if st == nil || ins.Referrers() == nil {
						continue
					}
					f := origin(st.Field(ins.Field))
					for _, r := range *ins.Referrers() {
						switch r := r.(type) {
						case *ssa.UnOp, *ssa.DebugRef:
						case *ssa.Store:
							if r.Val == ins {
								fs.mutable[f], fs.unknown[f] = true, true
							}
						case *ssa.FieldAddr:
						case *ssa.IndexAddr, *ssa.Slice:
							// arrays
							if !fresh(ins.X, 0, map[ssa.Value]bool{}) {
								// reading an element or slicing: treat as a
								// possible write
								fs.mutable[f] = true
							}
							fs.unknown[f] = true
						default:
							fs.mutable[f], fs.unknown[f] = true, true
						}
					}
				}
			}
		}
	}
	return fs
}

// FieldMutable reports whether the field can be assigned after its object was
// published. Fields of types outside the repository are mutable, and so are
// exported fields, which user code can assign.
func (p *Program) FieldMutable(v *types.Var) bool {
	v = origin(v)
	if v.Pkg() == nil {
		return true
	}
	if _, ok := p.Repo[v.Pkg()]; !ok {
		return true
	}
	if v.Exported() && !v.Embedded() {
		return true
	}
	return p.fields().mutable[v]
}

// FieldConstVals lists the constants a field can hold, when only constants are
// ever stored to it.
func (p *Program) FieldConstVals(v *types.Var) []constant.Value {
	v = origin(v)
	fs := p.fields()
	if fs.unknown[v] || len(fs.consts[v]) == 0 || len(fs.consts[v]) > 8 || v.Exported() {
		return nil
	}
	var out []constant.Value
	zero := false
	for _, c := range fs.consts[v] {
		out = append(out, c)
		if c.Kind() == constant.Int && constant.Sign(c) == 0 {
			zero = true
		}
	}
	if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		if !zero {
			out = append(out, constant.MakeInt64(0))
		}
		return out
	}
	return nil
}

// Plus is x + y in linear normal form.
func (tt *Terms) Plus(x, y *Term) *Term { return tt.Sub(x, tt.Sub(tt.Int(0), y)) }

// Index is the address of element i of a slice or array.
func (tt *Terms) Index(x, i *Term, elem types.Type) *Term {
	return tt.mk(OIndex, "", 0, nil, types.NewPointer(elem), x, i)
}

// NamedTypes lists the named types declared by the repository's packages.
func (p *Program) NamedTypes() []*types.Named {
	var out []*types.Named
	seen := map[*types.Named]bool{}
	add := func(n *types.Named) {
		if n != nil && !seen[n] {
			seen[n] = true
			out = append(out, n)
		}
	}
	for pk := range p.Repo {
		for _, name := range pk.Scope().Names() {
			if tn, ok := pk.Scope().Lookup(name).(*types.TypeName); ok && !tn.IsAlias() {
				if n, ok := tn.Type().(*types.Named); ok {
					add(n)
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

// FieldVal is field i of a struct value.
func (in *Interp) FieldVal(v *Term, i int, t types.Type) *Term { return in.fieldVal(v, i, t) }

// Load is the value at an address in the initial memory.
func (tt *Terms) Load(addr *Term, t types.Type) *Term { return tt.mk(OLoad, "", 0, nil, t, addr) }

// Find returns the first subterm that satisfies pred, or nil.
func (t *Term) Find(pred func(*Term) bool) (found *Term) {
	t.Any(func(x *Term) bool {
		if found == nil && pred(x) {
			found = x
		}
		return found != nil
	})
	return found
}

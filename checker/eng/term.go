// Package eng is a path-partitioned abstract interpreter over go/ssa: values
// are hash-consed terms (global value numbering), branches partition the
// abstract state, loops are summarised by a fixpoint over widened header
// states, and every abstract path carries a log of the effects it performs.
// Nothing of the analysed program is executed.
package eng

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Op uint8

const (
	OConst    Op = iota
	OSym         // Aux name
	OGlobal      // Obj *ssa.Global: its address
	OAlloc       // N unique id: address of a fresh object
	OField       // args[0] base address, N field index, Obj *types.Var: address
	OIndex       // args[0] slice value or array address, args[1] index: address
	OLoad        // args[0] address, N version
	OBin         // Aux operator
	ONot         // boolean negation
	ONeg         //
	OLen         //
	OCap         //
	OConv        // conversion
	OIface       // MakeInterface
	OAssert      // type assertion value
	OAssertOk    // type assertion success flag
	OCall        // Obj callee descriptor, N sequence number (0 = pure), args
	OExtract     // args[0] tuple, N index
	OTuple       // tuple of values
	OSlice       // args: base, lo, hi, max (nil const if absent)
	OAppend      // args: base, rest slice (possibly OArr)
	OArr         // literal slice contents
	OMkSlice     // args len, cap; N id
	OMkMap       // N id
	OMkChan      // args size; N id
	OClosure     // Obj *ssa.Function, args bindings
	OFunc        // Obj *ssa.Function
	OStruct      // struct value, args fields
	OFieldVal    // field of an opaque struct value, N index
	OIndexVal    // element of an opaque array/string value
	OLookup      // args map, key; N version
	OLookupOk    // args map, key; N version
	ONextKey     // args range state/iteration
	ONextVal     //
	ORecv        // N seq
	OBound       // bound method value: args receiver; Aux method
	OMinMax      // Aux min/max
	OUn          // other unary
	OZero        // zero value of an aggregate type
)

var opNames = map[Op]string{OConst: "const", OSym: "sym", OGlobal: "global", OAlloc: "alloc", OField: "field", OIndex: "index", OLoad: "load", OBin: "bin", ONot: "not", ONeg: "neg", OLen: "len", OCap: "cap", OConv: "conv", OIface: "iface", OAssert: "assert", OAssertOk: "assertok", OCall: "call", OExtract: "extract", OTuple: "tuple", OSlice: "slice", OAppend: "append", OArr: "arr", OMkSlice: "mkslice", OMkMap: "mkmap", OMkChan: "mkchan", OClosure: "closure", OFunc: "func", OStruct: "struct", OFieldVal: "fieldval", OIndexVal: "indexval", OLookup: "lookup", OLookupOk: "lookupok", ONextKey: "nextkey", ONextVal: "nextval", ORecv: "recv", OBound: "bound", OMinMax: "minmax", OUn: "un", OZero: "zero"}

// Term is an interned abstract value.
type Term struct {
	ID   int
	Op   Op
	Aux  string
	N    int
	Args []*Term
	Typ  types.Type
	Val  constant.Value // OConst (nil Val = nil/zero)
	Obj  any
}

// Intern table.
type Terms struct {
	tab    map[string]*Term
	n      int
	nextID int
}

func NewTerms() *Terms { return &Terms{tab: map[string]*Term{}} }

func (tt *Terms) Fresh() int { tt.nextID++; return tt.nextID }

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	return types.TypeString(t, nil)
}

func objKey(o any) string {
	if o == nil {
		return ""
	}
	return fmt.Sprintf("%p", o)
}

func (tt *Terms) mk(op Op, aux string, n int, obj any, typ types.Type, args ...*Term) *Term {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%d|%s|", op, aux, n, objKey(obj))
	switch op {
	case OConv, OAssert, OAssertOk, OIface, OZero, OStruct, OConst:
		sb.WriteString(typeKey(typ))
	}
	for _, a := range args {
		if a == nil {
			sb.WriteString("|_")
			continue
		}
		fmt.Fprintf(&sb, "|%d", a.ID)
	}
	k := sb.String()
	if t, ok := tt.tab[k]; ok {
		return t
	}
	tt.n++
	t := &Term{ID: tt.n, Op: op, Aux: aux, N: n, Obj: obj, Typ: typ, Args: args}
	tt.tab[k] = t
	return t
}

func (tt *Terms) Const(v constant.Value, typ types.Type) *Term {
	aux := "nil"
	if v != nil {
		// integers of any type intern to the same constant
		switch v.Kind() {
		case constant.Int:
			aux = "i" + v.ExactString()
		case constant.Float:
			if iv := constant.ToInt(v); iv.Kind() == constant.Int && isIntType(typ) {
				v = iv
				aux = "i" + iv.ExactString()
			} else {
				aux = "f" + v.ExactString()
			}
		case constant.String:
			aux = "s" + constant.StringVal(v)
		case constant.Bool:
			aux = "b" + v.String()
		default:
			aux = "x" + v.ExactString()
		}
	}
	var kt types.Type
	if v == nil {
		kt = typ
		_ = kt
	}
	k := fmt.Sprintf("%d|%s", OConst, aux)
	if t, ok := tt.tab[k]; ok {
		return t
	}
	tt.n++
	t := &Term{ID: tt.n, Op: OConst, Aux: aux, Typ: typ, Val: v}
	tt.tab[k] = t
	return t
}

func (tt *Terms) Int(n int64) *Term {
	return tt.Const(constant.MakeInt64(n), types.Typ[types.Int])
}
func (tt *Terms) Bool(b bool) *Term {
	return tt.Const(constant.MakeBool(b), types.Typ[types.Bool])
}
func (tt *Terms) Str(s string) *Term {
	return tt.Const(constant.MakeString(s), types.Typ[types.String])
}
func (tt *Terms) Nil() *Term { return tt.Const(nil, types.Typ[types.UntypedNil]) }

func (tt *Terms) Sym(name string, typ types.Type) *Term {
	return tt.mk(OSym, name, 0, nil, typ)
}
func (tt *Terms) FreshSym(name string, typ types.Type) *Term {
	return tt.mk(OSym, name, tt.Fresh(), nil, typ)
}
func (tt *Terms) Field(base *Term, idx int, v *types.Var) *Term {
	var t types.Type
	if v != nil {
		t = types.NewPointer(v.Type())
	}
	r := tt.mk(OField, "", idx, nil, t, base)
	if r.Obj == nil && v != nil {
		r.Obj = v
	}
	return r
}

func (t *Term) IsConst() bool { return t != nil && t.Op == OConst }
func (t *Term) IsNil() bool   { return t != nil && t.Op == OConst && t.Val == nil }
func (t *Term) BoolConst() (val, ok bool) {
	if t != nil && t.Op == OConst && t.Val != nil && t.Val.Kind() == constant.Bool {
		return constant.BoolVal(t.Val), true
	}
	return false, false
}
func (t *Term) IntConst() (int64, bool) {
	if t != nil && t.Op == OConst && t.Val != nil && t.Val.Kind() == constant.Int {
		n, ok := constant.Int64Val(t.Val)
		return n, ok
	}
	return 0, false
}
func (t *Term) StrConst() (string, bool) {
	if t != nil && t.Op == OConst && t.Val != nil && t.Val.Kind() == constant.String {
		return constant.StringVal(t.Val), true
	}
	return "", false
}

// FieldVar returns the struct field addressed by an OField term.
func (t *Term) FieldVar() *types.Var {
	if t != nil && t.Op == OField {
		v, _ := t.Obj.(*types.Var)
		return v
	}
	if t != nil && t.Op == OFieldVal && t.Args[0].Typ != nil {
		if s, ok := t.Args[0].Typ.Underlying().(*types.Struct); ok && t.N < s.NumFields() {
			return s.Field(t.N)
		}
	}
	return nil
}

func isIntType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStringType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBoolType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isFloatType(t types.Type) bool {
	if t == nil {
		return false
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// Callee describes what an OCall term or call effect invokes.
type Callee struct {
	Name string // qualified name: pkg.Func, (pkg.Type).Method, or "dynamic"
	Fn   *ssa.Function
	Meth *types.Func // interface method
}

func (c *Callee) String() string {
	if c == nil {
		return "?"
	}
	return c.Name
}

func (t *Term) CalleeName() string {
	if t != nil && t.Op == OCall {
		if c, ok := t.Obj.(*Callee); ok {
			return c.Name
		}
	}
	return ""
}

// String renders a term for reports.
func (t *Term) String() string { return t.str(0) }

func shortType(t types.Type) string {
	if t == nil {
		return "?"
	}
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (t *Term) str(d int) string {
	if t == nil {
		return "_"
	}
	if d > 7 {
		return "…"
	}
	a := func(i int) string {
		if i < len(t.Args) {
			return t.Args[i].str(d + 1)
		}
		return "?"
	}
	list := func(from int) string {
		var ss []string
		for _, x := range t.Args[from:] {
			ss = append(ss, x.str(d+1))
		}
		return strings.Join(ss, ", ")
	}
	switch t.Op {
	case OConst:
		if t.Val == nil {
			return "nil"
		}
		return t.Val.ExactString()
	case OSym:
		if t.N > 0 {
			return fmt.Sprintf("%s#%d", t.Aux, t.N)
		}
		return t.Aux
	case OGlobal:
		return "&" + t.Obj.(*ssa.Global).Name()
	case OAlloc:
		return fmt.Sprintf("new(%s)#%d", t.Aux, t.N)
	case OField:
		n := fmt.Sprint(t.N)
		if v := t.FieldVar(); v != nil {
			n = v.Name()
		}
		return a(0) + "." + n
	case OIndex:
		return a(0) + "[" + a(1) + "]"
	case OLoad:
		return "*" + a(0)
	case OBin:
		return "(" + a(0) + " " + t.Aux + " " + a(1) + ")"
	case ONot:
		return "!" + a(0)
	case ONeg:
		return "-" + a(0)
	case OLen:
		return "len(" + a(0) + ")"
	case OCap:
		return "cap(" + a(0) + ")"
	case OConv, OIface:
		return a(0)
	case OAssert:
		return a(0) + ".(" + shortType(t.Typ) + ")"
	case OCall:
		return t.CalleeName() + "(" + list(0) + ")"
	case OExtract:
		return a(0) + "." + fmt.Sprint(t.N)
	case OClosure, OFunc:
		if f, ok := t.Obj.(*ssa.Function); ok {
			return f.Name()
		}
	case OLookup:
		return a(0) + "[" + a(1) + "]"
	}
	n := opNames[t.Op]
	if t.Aux != "" {
		n += ":" + t.Aux
	}
	return n + "(" + list(0) + ")"
}

// Contains reports whether sub occurs in t.
func (t *Term) Contains(sub *Term) bool {
	return t.Any(func(x *Term) bool { return x == sub })
}

// Any reports whether any subterm satisfies f.
func (t *Term) Any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == nil || seen[x] {
			return false
		}
		seen[x] = true
		if f(x) {
			return true
		}
		for _, y := range x.Args {
			if rec(y) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// Root strips field, index, and slice operators from an address or slice.
func (t *Term) Root() *Term {
	for t != nil {
		switch t.Op {
		case OField, OIndex, OSlice, OFieldVal, OIndexVal, OAssert, OIface, OConv:
			t = t.Args[0]
			continue
		}
		return t
	}
	return nil
}

// Strip removes conversions and interface wrapping.
func (t *Term) Strip() *Term {
	for t != nil {
		switch t.Op {
		case OIface, OConv:
			t = t.Args[0]
			continue
		}
		return t
	}
	return nil
}

// ---- linear forms ----

// Lin is K + sum of C*T over integer terms, sorted by term ID.
type Lin struct {
	K int64
	V []LinTerm
}

type LinTerm struct {
	T *Term
	C int64
}

func linConst(k int64) Lin { return Lin{K: k} }

func linVar(t *Term, c int64) Lin { return Lin{V: []LinTerm{{t, c}}} }

func (l Lin) clone() Lin { return l }

// with returns l plus c*t.
func (l Lin) with(t *Term, c int64) Lin { return l.addScaled(linVar(t, c), 1) }

func (l Lin) coef(t *Term) int64 {
	for _, v := range l.V {
		if v.T == t {
			return v.C
		}
	}
	return 0
}

func (l Lin) addScaled(o Lin, c int64) Lin {
	r := Lin{K: l.K + c*o.K}
	if c == 0 || len(o.V) == 0 {
		r.V = l.V
		return r
	}
	r.V = make([]LinTerm, 0, len(l.V)+len(o.V))
	i, j := 0, 0
	for i < len(l.V) || j < len(o.V) {
		switch {
		case j >= len(o.V) || (i < len(l.V) && l.V[i].T.ID < o.V[j].T.ID):
			r.V = append(r.V, l.V[i])
			i++
		case i >= len(l.V) || o.V[j].T.ID < l.V[i].T.ID:
			r.V = append(r.V, LinTerm{o.V[j].T, c * o.V[j].C})
			j++
		default:
			if n := l.V[i].C + c*o.V[j].C; n != 0 {
				r.V = append(r.V, LinTerm{l.V[i].T, n})
			}
			i++
			j++
		}
	}
	return r
}

func (l Lin) isConst() bool { return len(l.V) == 0 }

func (l Lin) key() string {
	buf := make([]byte, 0, 16+12*len(l.V))
	buf = strconv.AppendInt(buf, l.K, 36)
	for _, v := range l.V {
		buf = append(buf, '|')
		buf = strconv.AppendInt(buf, v.C, 36)
		buf = append(buf, '*')
		buf = strconv.AppendInt(buf, int64(v.T.ID), 36)
	}
	return string(buf)
}

func (l Lin) String() string {
	var sb strings.Builder
	for _, v := range l.V {
		fmt.Fprintf(&sb, "%+d*%s ", v.C, v.T)
	}
	fmt.Fprintf(&sb, "%+d", l.K)
	return sb.String()
}

// LinOf decomposes an integer term.
func (tt *Terms) LinOf(t *Term) Lin {
	switch t.Op {
	case OConst:
		if n, ok := t.IntConst(); ok {
			return linConst(n)
		}
	case OBin:
		switch t.Aux {
		case "+":
			if isIntType(t.Typ) {
				return tt.LinOf(t.Args[0]).addScaled(tt.LinOf(t.Args[1]), 1)
			}
		case "-":
			if isIntType(t.Typ) {
				return tt.LinOf(t.Args[0]).addScaled(tt.LinOf(t.Args[1]), -1)
			}
		case "*":
			if isIntType(t.Typ) {
				a, b := tt.LinOf(t.Args[0]), tt.LinOf(t.Args[1])
				if a.isConst() {
					return linConst(0).addScaled(b, a.K)
				}
				if b.isConst() {
					return linConst(0).addScaled(a, b.K)
				}
			}
		}
	case ONeg:
		return linConst(0).addScaled(tt.LinOf(t.Args[0]), -1)
	case OConv:
		if isIntType(t.Typ) && isIntType(t.Args[0].Typ) {
			return tt.LinOf(t.Args[0])
		}
	}
	return linVar(t, 1)
}

// FromLin rebuilds a canonical term from a linear form.
func (tt *Terms) FromLin(l Lin, typ types.Type) *Term {
	var acc *Term
	for _, v := range l.V {
		t, c := v.T, v.C
		var x *Term
		switch c {
		case 1:
			x = t
		default:
			x = tt.mk(OBin, "*", 0, nil, typ, tt.Int(c), t)
		}
		if acc == nil {
			acc = x
		} else {
			acc = tt.mk(OBin, "+", 0, nil, typ, acc, x)
		}
	}
	if acc == nil {
		return tt.Int(l.K)
	}
	if l.K != 0 {
		acc = tt.mk(OBin, "+", 0, nil, typ, acc, tt.Int(l.K))
	}
	return acc
}

var _ = token.ADD

// Bin builds a simplified binary term.
func (tt *Terms) Bin(op token.Token, x, y *Term, typ types.Type) *Term {
	if x == nil || y == nil {
		return tt.FreshSym("undef", typ)
	}
	// constant folding
	if x.Op == OConst && y.Op == OConst && x.Val != nil && y.Val != nil {
		if r := foldConst(op, x, y); r != nil {
			return tt.Const(r, typ)
		}
	}
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return tt.cmp(op, x, y)
	}
	if isIntType(typ) {
		switch op {
		case token.ADD:
			return tt.FromLin(tt.LinOf(x).addScaled(tt.LinOf(y), 1), typ)
		case token.SUB:
			return tt.FromLin(tt.LinOf(x).addScaled(tt.LinOf(y), -1), typ)
		case token.MUL:
			a, b := tt.LinOf(x), tt.LinOf(y)
			if a.isConst() {
				return tt.FromLin(linConst(0).addScaled(b, a.K), typ)
			}
			if b.isConst() {
				return tt.FromLin(linConst(0).addScaled(a, b.K), typ)
			}
			if x.ID > y.ID {
				x, y = y, x
			}
		case token.OR:
			if n, ok := y.IntConst(); ok {
				if n == 0 {
					return x
				}
				x, y = y, x
			}
			if n, ok := x.IntConst(); ok {
				if n == 0 {
					return y
				}
				// c | (d | z)
				if y.Op == OBin && y.Aux == "|" {
					if d, ok := y.Args[0].IntConst(); ok {
						return tt.Bin(op, tt.Int(n|d), y.Args[1], typ)
					}
				}
			} else if x.Op == OBin && x.Aux == "|" {
				if d, ok := x.Args[0].IntConst(); ok { // (d|z)|y -> d|(z|y)
					return tt.Bin(op, tt.Int(d), tt.Bin(op, x.Args[1], y, typ), typ)
				}
			} else if y.Op == OBin && y.Aux == "|" {
				if d, ok := y.Args[0].IntConst(); ok {
					return tt.Bin(op, tt.Int(d), tt.Bin(op, x, y.Args[1], typ), typ)
				}
			}
			if !x.IsConst() && x.ID > y.ID {
				x, y = y, x
			}
		case token.AND:
			if n, ok := x.IntConst(); ok {
				_ = n
				x, y = y, x
			}
			if m, ok := y.IntConst(); ok {
				if m == 0 {
					return tt.Int(0)
				}
				if x.Op == OBin && x.Aux == "|" {
					if c, ok := x.Args[0].IntConst(); ok {
						if c&m == m {
							return tt.Int(m)
						}
						if c&m == 0 {
							return tt.Bin(op, x.Args[1], y, typ)
						}
					}
				}
			}
		}
	}
	if isStringType(typ) && op == token.ADD {
		// flatten concatenation to the right: (a+b)+c -> a+(b+c), merging consts
		if s, ok := x.StrConst(); ok && s == "" {
			return y
		}
		if s, ok := y.StrConst(); ok && s == "" {
			return x
		}
		if x.Op == OBin && x.Aux == "+" {
			return tt.Bin(op, x.Args[0], tt.Bin(op, x.Args[1], y, typ), typ)
		}
		if y.Op == OBin && y.Aux == "+" {
			if a, ok := x.StrConst(); ok {
				if b, ok := y.Args[0].StrConst(); ok {
					return tt.Bin(op, tt.Str(a+b), y.Args[1], typ)
				}
			}
		}
	}
	return tt.mk(OBin, op.String(), 0, nil, typ, x, y)
}

func foldConst(op token.Token, x, y *Term) (r constant.Value) {
	defer func() {
		if recover() != nil {
			r = nil
		}
	}()
	a, b := x.Val, y.Val
	switch op {
	case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ:
		return constant.MakeBool(constant.Compare(a, op, b))
	case token.SHL, token.SHR:
		n, _ := constant.Uint64Val(b)
		return constant.Shift(a, op, uint(n))
	case token.QUO:
		if a.Kind() == constant.Int && b.Kind() == constant.Int {
			if constant.Sign(b) == 0 {
				return nil
			}
			return constant.BinaryOp(a, token.QUO_ASSIGN, b)
		}
		return constant.BinaryOp(a, op, b)
	case token.REM:
		if constant.Sign(b) == 0 {
			return nil
		}
		return constant.BinaryOp(a, op, b)
	}
	return constant.BinaryOp(a, op, b)
}

// cmp builds a canonical boolean atom. Integer comparisons become
// "le0"(linear) atoms; string emptiness becomes a length comparison.
func (tt *Terms) cmp(op token.Token, x, y *Term) *Term {
	B := types.Typ[types.Bool]
	switch op {
	case token.NEQ:
		return tt.Not(tt.cmp(token.EQL, x, y))
	case token.GTR:
		return tt.cmp(token.LSS, y, x)
	case token.GEQ:
		return tt.cmp(token.LEQ, y, x)
	}
	if x.Op == OConst && y.Op == OConst {
		if x.Val != nil && y.Val != nil {
			if r := foldConst(op, x, y); r != nil {
				return tt.Const(r, B)
			}
		}
		if op == token.EQL {
			return tt.Bool(x == y)
		}
	}
	if x == y {
		return tt.Bool(op != token.LSS)
	}
	isInt := func(t *Term) bool {
		if _, ok := t.IntConst(); ok {
			return true
		}
		return isIntType(t.Typ) || t.Op == OLen || t.Op == OCap
	}
	if isInt(x) && isInt(y) {
		d := tt.LinOf(x).addScaled(tt.LinOf(y), -1)
		switch op {
		case token.LSS: // x-y+1 <= 0
			d.K++
			return tt.le0(d)
		case token.LEQ:
			return tt.le0(d)
		case token.EQL:
			return tt.eq0(d)
		}
	}
	if op == token.EQL {
		if s, ok := y.StrConst(); ok && s == "" {
			return tt.cmp(token.EQL, tt.Len(x), tt.Int(0))
		}
		if s, ok := x.StrConst(); ok && s == "" {
			return tt.cmp(token.EQL, tt.Len(y), tt.Int(0))
		}
		// bool == const
		if b, ok := y.BoolConst(); ok {
			if b {
				return x
			}
			return tt.Not(x)
		}
		if b, ok := x.BoolConst(); ok {
			if b {
				return y
			}
			return tt.Not(y)
		}
		// nil comparisons
		if x.IsNil() {
			x, y = y, x
		}
		if y.IsNil() {
			switch x.Op {
			case OAlloc, OGlobal, OField, OIndex, OClosure, OFunc, OMkMap, OMkChan, OMkSlice, OIface, OBound, OArr, OStruct:
				return tt.Bool(false)
			case OCall:
				if neverNil(x.CalleeName()) {
					return tt.Bool(false)
				}
			}
			return tt.mk(OBin, "==", 0, nil, B, x, y)
		}
		if (x.Op == OAlloc && y.Op == OAlloc) && x != y {
			return tt.Bool(false)
		}
		if x.Op == OIface && y.Op == OIface {
			if typeKey(x.Args[0].Typ) == typeKey(y.Args[0].Typ) {
				return tt.cmp(op, x.Args[0], y.Args[0])
			}
		}
		// order: constants last, otherwise by ID
		if x.IsConst() || (!y.IsConst() && x.ID > y.ID) {
			x, y = y, x
		}
		return tt.mk(OBin, "==", 0, nil, B, x, y)
	}
	if op == token.LEQ {
		// x <= y  ==  !(y < x) for totally ordered non-float types
		if !isFloatType(x.Typ) {
			return tt.Not(tt.mk(OBin, "<", 0, nil, B, y, x))
		}
		return tt.mk(OBin, "<=", 0, nil, B, x, y)
	}
	return tt.mk(OBin, "<", 0, nil, B, x, y)
}

// le0 builds the atom "l <= 0"; canonical sign: an atom and its negation share
// one positive form when possible: !(l<=0) == (1-l <= 0).
func (tt *Terms) le0(l Lin) *Term {
	if l.isConst() {
		return tt.Bool(l.K <= 0)
	}
	neg := linConst(1).addScaled(l, -1)
	if leadNeg(l) {
		return tt.Not(tt.rawLe(neg))
	}
	return tt.rawLe(l)
}

func (tt *Terms) rawLe(l Lin) *Term {
	return tt.mk(OBin, "le0", 0, nil, types.Typ[types.Bool], tt.FromLin(l, types.Typ[types.Int]))
}

func leadNeg(l Lin) bool { return len(l.V) > 0 && l.V[0].C < 0 }

func (tt *Terms) eq0(l Lin) *Term {
	if l.isConst() {
		return tt.Bool(l.K == 0)
	}
	if leadNeg(l) {
		l = linConst(0).addScaled(l, -1)
	}
	return tt.mk(OBin, "eq0", 0, nil, types.Typ[types.Bool], tt.FromLin(l, types.Typ[types.Int]))
}

func (tt *Terms) Not(x *Term) *Term {
	if b, ok := x.BoolConst(); ok {
		return tt.Bool(!b)
	}
	if x.Op == ONot {
		return x.Args[0]
	}
	return tt.mk(ONot, "", 0, nil, types.Typ[types.Bool], x)
}

// Len builds len(x).
func (tt *Terms) Len(x *Term) *Term {
	switch x.Op {
	case OConst:
		if x.Val == nil {
			return tt.Int(0)
		}
		if s, ok := x.StrConst(); ok {
			return tt.Int(int64(len(s)))
		}
	case OZero:
		return tt.Int(0)
	case OArr:
		return tt.Int(int64(len(x.Args)))
	case OMkSlice:
		return x.Args[0]
	case OConv:
		if !isStringType(x.Typ) || isStringType(x.Args[0].Typ) {
			return tt.Len(x.Args[0])
		}
	case OSlice:
		hi := x.Args[2]
		if hi == nil {
			hi = tt.seqLen(x.Args[0])
		}
		lo := x.Args[1]
		if lo == nil {
			return hi
		}
		return tt.FromLin(tt.LinOf(hi).addScaled(tt.LinOf(lo), -1), types.Typ[types.Int])
	case OAppend:
		return tt.FromLin(tt.LinOf(tt.Len(x.Args[0])).addScaled(tt.LinOf(tt.Len(x.Args[1])), 1), types.Typ[types.Int])
	case OBin:
		if x.Aux == "+" && isStringType(x.Typ) {
			return tt.FromLin(tt.LinOf(tt.Len(x.Args[0])).addScaled(tt.LinOf(tt.Len(x.Args[1])), 1), types.Typ[types.Int])
		}
	}
	return tt.mk(OLen, "", 0, nil, types.Typ[types.Int], x)
}

// seqLen is the length of the thing being sliced (slice, string, or *array).
func (tt *Terms) seqLen(x *Term) *Term {
	if x.Typ != nil {
		if p, ok := x.Typ.Underlying().(*types.Pointer); ok {
			if a, ok := p.Elem().Underlying().(*types.Array); ok {
				return tt.Int(a.Len())
			}
		}
	}
	return tt.Len(x)
}

func (tt *Terms) Cap(x *Term) *Term {
	switch x.Op {
	case OMkSlice:
		return x.Args[1]
	case OMkChan:
		return x.Args[0]
	case OArr:
		return tt.Int(int64(len(x.Args)))
	case OConst:
		if x.Val == nil {
			return tt.Int(0)
		}
	case OConv:
		return tt.Cap(x.Args[0])
	}
	return tt.mk(OCap, "", 0, nil, types.Typ[types.Int], x)
}

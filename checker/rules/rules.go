// Package rules decides the properties of /verif/properties.jsonl over the
// abstract paths computed by package eng.
package rules

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

// Finding is one violated rule instance.
type Finding struct {
	Rule      string `json:"rule"`
	Where     string `json:"where"`
	Construct string `json:"construct"`
	Message   string `json:"message"`
}

func (f Finding) Key() string { return f.Rule + " | " + f.Construct }

// C is the context of one property check.
type C struct {
	P        *eng.Program
	Prop     string
	Thorough bool

	Findings  []Finding
	seenF     map[string]bool
	oks       map[string]map[string]bool
	Undecided []string
	seenU     map[string]bool
	fns       map[*ssa.Function]bool
	npaths    int
	neffects  int
	core      *coreT
	appendK   *eng.Term
	roles     map[*types.Var]string
}

func NewC(p *eng.Program, prop string, thorough bool) *C {
	return &C{P: p, Prop: prop, Thorough: thorough, seenF: map[string]bool{}, oks: map[string]map[string]bool{}, seenU: map[string]bool{}, fns: map[*ssa.Function]bool{}}
}

// Fail records a violation.
func (c *C) Fail(rule string, pos token.Pos, construct, format string, args ...any) {
	f := Finding{Rule: rule, Where: c.P.Pos(pos), Construct: construct, Message: fmt.Sprintf(format, args...)}
	k := f.Key() + "|" + f.Where
	if c.seenF[k] {
		return
	}
	c.seenF[k] = true
	c.Findings = append(c.Findings, f)
}

// OK records a discharged rule instance.
func (c *C) OK(rule, construct string) {
	if c.oks[rule] == nil {
		c.oks[rule] = map[string]bool{}
	}
	c.oks[rule][construct] = true
}

// Undec records an instance the analysis could not decide. It raises no alarm.
func (c *C) Undec(rule, construct, format string, args ...any) {
	s := rule + ": " + construct + ": " + fmt.Sprintf(format, args...)
	if !c.seenU[s] {
		c.seenU[s] = true
		c.Undecided = append(c.Undecided, s)
	}
}

// Check records OK or a violation.
func (c *C) Check(ok bool, rule string, pos token.Pos, construct, format string, args ...any) bool {
	if ok {
		c.OK(rule, construct)
	} else {
		c.Fail(rule, pos, construct, format, args...)
	}
	return ok
}

// borrow judges some rules of another property here, too.
func (c *C) borrow(rules []string, f func(*C)) {
	b := NewC(c.P, c.Prop, c.Thorough)
	f(b)
	for _, x := range b.Findings {
		if contains(rules, x.Rule) {
			k := x.Key() + "|" + x.Where
			if !c.seenF[k] {
				c.seenF[k] = true
				c.Findings = append(c.Findings, x)
			}
		}
	}
	for _, r := range rules {
		for k := range b.oks[r] {
			c.OK(r, k)
		}
	}
	for fn := range b.fns {
		c.fns[fn] = true
	}
	c.npaths += b.npaths
	c.neffects += b.neffects
}

// Counts reports the discharged instances per rule.
func (c *C) Counts() map[string]int {
	out := map[string]int{}
	for r, m := range c.oks {
		out[r] = len(m)
	}
	return out
}

func (c *C) Functions() []string {
	var out []string
	for fn := range c.fns {
		out = append(out, c.P.FnName(fn))
	}
	sort.Strings(out)
	return out
}

func (c *C) Paths() int   { return c.npaths }
func (c *C) Effects() int { return c.neffects }

// Run runs the interpreter and accounts for it.
func (c *C) Run(in *eng.Interp, fn *ssa.Function, st *eng.State, args []*eng.Term) []*eng.Path {
	ps := in.Run(fn, st, args, nil)
	for f := range in.Visited {
		c.fns[f] = true
	}
	c.npaths += len(ps)
	for _, p := range ps {
		c.neffects += len(p.Effects)
	}
	if in.Incomplete != "" {
		c.Undec("budget", c.P.FnName(fn), "%s", in.Incomplete)
	}
	return ps
}

// ---- inlining policies ----

func exportedFn(fn *ssa.Function) bool {
	if fn.Parent() != nil || (fn.Synthetic != "" && fn.Origin() == nil) {
		return false
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if !ast.IsExported(fn.Name()) {
		return false
	}
	if r := fn.Signature.Recv(); r != nil {
		n := namedOf(r.Type())
		return n == nil || n.Obj().Exported()
	}
	return true
}

// api: exported API functions are opaque; helpers, closures, and methods of
// unexported types are analysed in place.
func (c *C) api(fn *ssa.Function) bool { return !exportedFn(fn) }

func isInternal(fn *ssa.Function) bool {
	return strings.Contains(pkgPath(fn), "/internal/")
}

func pkgPath(fn *ssa.Function) string {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	if fn.Pkg == nil {
		return ""
	}
	return fn.Pkg.Pkg.Path()
}

// ---- types ----

func namedOf(t types.Type) *types.Named {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

func isNamed(t types.Type, path, name string) bool {
	if a, ok := t.(*types.Alias); ok {
		t = types.Unalias(a)
	}
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	o := n.Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == path
}

const mod = "github.com/peterbourgon/trc"

func fieldsOf(n *types.Named) []*types.Var {
	s, _ := n.Underlying().(*types.Struct)
	if s == nil {
		return nil
	}
	var out []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		out = append(out, s.Field(i))
	}
	return out
}

func fieldNamed(n *types.Named, name string) *types.Var {
	for _, f := range fieldsOf(n) {
		if f.Name() == name {
			return f
		}
	}
	return nil
}

// ---- names ----

// short strips package paths from a qualified callee name.
func short(name string) string {
	name = strings.ReplaceAll(name, mod+"/internal/", "")
	name = strings.ReplaceAll(name, mod+"/", "")
	name = strings.ReplaceAll(name, mod+".", "trc.")
	return name
}

// traceMethod reports the method name when a call is an invoke of (or static
// call to) a method of the Trace interface on a repository trace type.
func (c *C) traceMethod(e *eng.Effect) (recv *eng.Term, name string) {
	if e.Kind != eng.ECall || e.Callee == nil {
		return nil, ""
	}
	if m := e.Callee.Meth; m != nil {
		if m.Pkg() != nil && m.Pkg().Path() == mod && len(e.Args) > 0 {
			if recvIface(m) == "Trace" {
				return e.Args[0], m.Name()
			}
		}
		return nil, ""
	}
	if fn := e.Callee.Fn; fn != nil && fn.Signature.Recv() != nil && len(e.Args) > 0 {
		if c.isTraceType(fn.Signature.Recv().Type()) && c.traceIface() != nil {
			for i := 0; i < c.traceIface().NumMethods(); i++ {
				if c.traceIface().Method(i).Name() == fn.Name() {
					return e.Args[0], fn.Name()
				}
			}
		}
	}
	return nil, ""
}

// termMethod: like traceMethod, for a call term.
func (c *C) termMethod(t *eng.Term) (recv *eng.Term, name string) {
	if t == nil || t.Op != eng.OCall {
		return nil, ""
	}
	cal, _ := t.Obj.(*eng.Callee)
	return c.traceMethod(&eng.Effect{Kind: eng.ECall, Callee: cal, Args: t.Args})
}

func recvIface(m *types.Func) string {
	sig := m.Type().(*types.Signature)
	if sig.Recv() == nil {
		return ""
	}
	if n := namedOf(sig.Recv().Type()); n != nil {
		return n.Obj().Name()
	}
	return ""
}

func (c *C) traceIface() *types.Interface {
	n := c.P.Named("", "Trace")
	if n == nil {
		return nil
	}
	i, _ := n.Underlying().(*types.Interface)
	return i
}

func (c *C) isTraceType(t types.Type) bool {
	i := c.traceIface()
	if i == nil {
		return false
	}
	return types.Implements(t, i) || types.Implements(types.NewPointer(t), i)
}

func (c *C) traceType() types.Type {
	if n := c.P.Named("", "Trace"); n != nil {
		return n
	}
	return nil
}

// callName is the qualified callee name of an effect, or "".
func callName(e *eng.Effect) string {
	if e.Kind == eng.ECall && e.Callee != nil {
		return e.Callee.Name
	}
	return ""
}

// isCall: a call to a function whose qualified name has this suffix.
func isCall(e *eng.Effect, suffix string) bool {
	n := callName(e)
	return n == suffix || (strings.HasSuffix(n, suffix) && (strings.HasPrefix(suffix, ".") || strings.HasPrefix(suffix, ")")))
}

// anchor fetches an exported API function that must exist.
func (c *C) anchor(rel, name string) *ssa.Function {
	fn := c.P.Func(rel, name)
	if fn == nil {
		c.Fail("anchor", token.NoPos, rel+"."+name, "exported function is missing")
	}
	return fn
}

func (c *C) method(rel, typ, name string) *ssa.Function {
	n := c.P.Named(rel, typ)
	if n == nil {
		c.Fail("anchor", token.NoPos, rel+"."+typ, "exported type is missing")
		return nil
	}
	fn := c.P.Method(n, name)
	if fn == nil {
		c.Fail("anchor", token.NoPos, rel+"."+typ+"."+name, "exported method is missing")
	}
	return fn
}

// Floor: fewer discharged instances than ever seen on a correct tree means the
// rule lost its subject.
func (c *C) Floor(rule string, n int) {
	if len(c.oks[rule]) < n && len(c.Findings) == 0 {
		c.Undec("floor", rule, "only %d of at least %d expected instances were recognised", len(c.oks[rule]), n)
	}
}

var eventMethods = []string{"Tracef", "LazyTracef", "Errorf", "LazyErrorf"}

func isErrKind(m string) bool { return m == "Errorf" || m == "LazyErrorf" }
func isLazy(m string) bool    { return m == "LazyTracef" || m == "LazyErrorf" }

// reaches: fn or something it calls statically (or closes over) contains an
// instruction satisfying pred.
func (c *C) reaches(fn *ssa.Function, pred func(ssa.Instruction) bool) bool {
	return c.reachesThrough(fn, nil, pred)
}

// reachesThrough only follows the functions that satisfy via.
func (c *C) reachesThrough(fn *ssa.Function, via func(*ssa.Function) bool, pred func(ssa.Instruction) bool) bool {
	seen := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function) bool
	visit = func(f *ssa.Function) bool {
		if f == nil || seen[f] || !c.P.InRepo(f) || f != fn && via != nil && !via(f) {
			return false
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, i := range b.Instrs {
				if pred(i) {
					return true
				}
				var ops [12]*ssa.Value
				for _, op := range i.Operands(ops[:0]) {
					if g, ok := (*op).(*ssa.Function); ok && visit(g) {
						return true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			if visit(a) {
				return true
			}
		}
		return false
	}
	return visit(fn)
}

// touching keeps the roots from which a field of one of the given struct types
// is accessed.
func (c *C) touching(roots []*ssa.Function, ns ...*types.Named) []*ssa.Function {
	return c.touchingThrough(nil, roots, ns...)
}

func (c *C) touchingThrough(via func(*ssa.Function) bool, roots []*ssa.Function, ns ...*types.Named) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range roots {
		if c.reachesThrough(fn, via, func(i ssa.Instruction) bool {
			fa, ok := i.(*ssa.FieldAddr)
			if !ok {
				return false
			}
			n := namedOf(fa.X.Type())
			for _, m := range ns {
				if n != nil && m != nil && n.Origin() == m.Origin() {
					return true
				}
			}
			return false
		}) {
			out = append(out, fn)
		}
	}
	return out
}

// globalRoots: the API functions from which a package variable is used.
func (c *C) globalRoots(g *ssa.Global) []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range c.apiRoots() {
		if c.reaches(fn, func(i ssa.Instruction) bool {
			var ops [12]*ssa.Value
			for _, op := range i.Operands(ops[:0]) {
				if *op == ssa.Value(g) {
					return true
				}
			}
			return false
		}) {
			out = append(out, fn)
		}
	}
	return out
}

// isResult: t is result i of the call whose Result term is res.
func isResult(t, res *eng.Term, i int) bool {
	t = t.Strip()
	if res != nil && res.Op == eng.OTuple {
		return i < len(res.Args) && res.Args[i].Strip() == t
	}
	return t == res
}

// ExportedFn: see exportedFn.
func ExportedFn(fn *ssa.Function) bool { return exportedFn(fn) }

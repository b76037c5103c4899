package eng

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the resolved program under analysis.
type Program struct {
	Dir   string
	Pkgs  []*packages.Package
	Prog  *ssa.Program
	Repo  map[*types.Package]*packages.Package
	Funcs []*ssa.Function // every source function of the repository, generic origins included
	Fset  *token.FileSet
	Mod   string

	loops  map[*ssa.Function]map[*ssa.BasicBlock]*Loop
	single map[*ssa.Alloc]bool
	gmut   map[*ssa.Global]bool
	fst    *fieldStores
	ginit  map[*ssa.Global]*ssa.Store
	rpos   map[*ssa.Function]map[*ssa.BasicBlock]int
}

// Load type-checks the repository in dir and builds SSA for it.
func Load(dir string) (*Program, error) {
	cfg := &packages.Config{
		Dir:  dir,
		Mode: packages.LoadAllSyntax | packages.NeedModule | packages.NeedEmbedFiles,
		Env:  append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	p := &Program{Dir: dir, Pkgs: pkgs, Repo: map[*types.Package]*packages.Package{}, loops: map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}, single: map[*ssa.Alloc]bool{}}
	var errs []string
	for _, pk := range pkgs {
		for _, e := range pk.Errors {
			errs = append(errs, e.Error())
		}
		if pk.Module != nil {
			p.Mod = pk.Module.Path
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages in %s", dir)
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p.Prog = prog
	p.Fset = prog.Fset
	_ = spkgs
	for _, pk := range pkgs {
		p.Repo[pk.Types] = pk
	}
	prog.Build()
	all := ssautil.AllFunctions(prog)
	for fn := range all {
		if p.InRepo(fn) && fn.Synthetic == "" && len(fn.Blocks) > 0 {
			p.Funcs = append(p.Funcs, fn)
		}
	}
	// generic origins are not reported by AllFunctions when only instances are
	// reachable: add them from package members.
	seen := map[*ssa.Function]bool{}
	for _, f := range p.Funcs {
		seen[f] = true
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		p.Funcs = append(p.Funcs, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for tp := range p.Repo {
		sp := prog.Package(tp)
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				if m.Synthetic == "" {
					add(m)
				}
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						add(prog.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	sort.Slice(p.Funcs, func(i, j int) bool { return p.Funcs[i].String() < p.Funcs[j].String() })
	return p, nil
}

// InRepo reports whether fn (or its generic origin) is defined in the repository.
func (p *Program) InRepo(fn *ssa.Function) bool {
	if fn == nil {
		return false
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
		if o := fn.Origin(); o != nil {
			fn = o
		}
	}
	if fn.Pkg != nil {
		_, ok := p.Repo[fn.Pkg.Pkg]
		return ok
	}
	if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
		_, ok := p.Repo[obj.Pkg()]
		return ok
	}
	return false
}

func (p *Program) InRepoType(t types.Type) bool {
	for {
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
			continue
		}
		break
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		_, ok := p.Repo[n.Obj().Pkg()]
		return ok
	}
	if _, ok := t.(*types.Struct); ok {
		return true
	}
	return false
}

// Pkg finds a repository package by path relative to the module ("" = root).
func (p *Program) Pkg(rel string) *ssa.Package {
	path := p.Mod
	if rel != "" {
		path += "/" + rel
	}
	for tp := range p.Repo {
		if tp.Path() == path {
			return p.Prog.Package(tp)
		}
	}
	return nil
}

// Func finds a package-level function.
func (p *Program) Func(rel, name string) *ssa.Function {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Named finds a named type.
func (p *Program) Named(rel, name string) *types.Named {
	sp := p.Pkg(rel)
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	n, _ := t.Type().(*types.Named)
	return n
}

// Method finds a method (pointer or value receiver) of a named type, resolving
// promoted methods.
func (p *Program) Method(n *types.Named, name string) *ssa.Function {
	if n == nil {
		return nil
	}
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.Prog.FuncValue(n.Method(i))
		}
	}
	for _, t := range []types.Type{types.NewPointer(n), n} {
		ms := p.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				return p.Prog.MethodValue(ms.At(i))
			}
		}
	}
	return nil
}

// Pos renders a position relative to the repository.
func (p *Program) Pos(pos token.Pos) string {
	if !pos.IsValid() {
		return "-"
	}
	ps := p.Fset.Position(pos)
	return strings.TrimPrefix(ps.Filename, p.Dir+"/") + ":" + fmt.Sprint(ps.Line)
}

func (p *Program) FnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	s := fn.String()
	s = strings.ReplaceAll(s, p.Mod+"/", "")
	s = strings.ReplaceAll(s, p.Mod+".", "trc.")
	return s
}

// Files returns the syntax trees of the repository.
func (p *Program) Files(fn func(pk *packages.Package, f *ast.File)) {
	for _, pk := range p.Pkgs {
		for _, f := range pk.Syntax {
			fn(pk, f)
		}
	}
}

// Loop is a natural loop.
type Loop struct {
	Header *ssa.BasicBlock
	Body   map[*ssa.BasicBlock]bool
}

// Loops finds the natural loops of fn by header.
func (p *Program) Loops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	if l, ok := p.loops[fn]; ok {
		return l
	}
	res := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := res[s]
				if l == nil {
					l = &Loop{Header: s, Body: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = l
				}
				// natural loop of back edge b->s
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if l.Body[x] {
						continue
					}
					l.Body[x] = true
					stack = append(stack, x.Preds...)
				}
			}
		}
	}
	p.loops[fn] = res
	return res
}

// SingleStore reports whether a captured local variable is assigned at most
// once, so that its value cannot change after capture.
func (p *Program) SingleStore(a *ssa.Alloc) bool {
	if v, ok := p.single[a]; ok {
		return v
	}
	n := 0
	ok := true
	var visit func(v ssa.Value, depth int)
	visit = func(v ssa.Value, depth int) {
		if depth > 5 || v.Referrers() == nil {
			ok = false
			return
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == v {
					n++
				} else {
					ok = false
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for i, b := range r.Bindings {
					if b == v {
						visit(fn.FreeVars[i], depth+1)
					}
				}
			default:
				ok = false
			}
		}
	}
	visit(a, 0)
	res := ok && n <= 1
	p.single[a] = res
	return res
}

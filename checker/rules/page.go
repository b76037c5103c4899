package rules

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"text/template/parse"

	"verif/checker/eng"

	"golang.org/x/tools/go/ssa"
)

const htmpl = "html/template"

// C23: the page shows data as data.
func c23(c *C) {
	c.htmlTemplatesOnly()
	pc := &pageCheck{C: c, trees: map[string]*parse.Tree{}, funcs: map[string]*ssa.Function{}, text: map[string]string{}}
	pc.collect()
	pc.roots()
	c.scriptSinks()
	c.trustedConversions(pc)
	c.errorPages()
	c.renderedEvents(pc)
	c.pageFuncs(pc)
	c.Floor("markup", 1)
	c.Floor("page field", 20)
	c.Floor("page function", 10)
	c.Floor("trusted", 3)
	c.Floor("events", 1)
}

// ---- how safe a string is ----

// lvl says what a string can be put into without further escaping.
type lvl struct {
	html, url bool
	esc       string // it has been escaped: "q" for URLs, "h" for HTML
	scheme    bool   // it starts with a constant scheme
	unknown   bool   // it was escaped, and then changed in a way that's not understood
}

var (
	lvlRaw   = lvl{}
	lvlConst = lvl{html: true, url: true}
)

func (a lvl) and(b lvl) lvl {
	r := lvl{html: a.html && b.html, url: a.url && b.url, esc: a.esc, scheme: a.scheme, unknown: a.unknown || b.unknown}
	if r.esc == "" {
		r.esc = b.esc
	}
	return r
}

// trustedType: html/template doesn't escape values of this type.
func trustedType(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == htmpl {
		switch n.Obj().Name() {
		case "HTML", "URL", "JS", "JSStr", "CSS", "HTMLAttr", "Srcset":
			return n.Obj().Name()
		}
	}
	return ""
}

func typeLvl(t types.Type) lvl {
	if t == nil {
		return lvlRaw
	}
	switch trustedType(t) {
	case "HTML":
		return lvl{html: true}
	case "URL":
		return lvl{url: true}
	}
	if isNamed(t, "time", "Duration") {
		return lvlConst
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsNumeric|types.IsBoolean) != 0 {
		if n, ok := t.(*types.Named); !ok || n.NumMethods() == 0 {
			return lvlConst
		}
	}
	return lvlRaw
}

// fits: a string of this level may be declared to be of the trusted type.
func (a lvl) fits(trusted string) bool {
	switch trusted {
	case "HTML":
		return a.html
	case "URL":
		return a.url || a.scheme
	}
	return a == lvlConst
}

var reScheme = regexp.MustCompile(`^([a-z][a-z0-9+.-]*):`)

func constLvl(s string) lvl {
	l := lvlConst
	if m := reScheme.FindStringSubmatch(strings.ToLower(s)); m != nil && m[1] != "javascript" && m[1] != "data" && m[1] != "vbscript" {
		l.scheme = true
	}
	return l
}

// formatLvl: the result of formatting.
func formatLvl(format string, args []lvl, typs []types.Type) lvl {
	out := constLvl(format)
	n := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.ContainsRune("+-# 0123456789.", rune(format[i])) {
			i++
		}
		if i >= len(format) {
			return lvlRaw
		}
		if format[i] == '%' {
			continue
		}
		if format[i] == '[' || format[i] == '*' || n >= len(args) {
			return lvlRaw
		}
		a := args[n]
		if strings.ContainsRune("dxXbo", rune(format[i])) && typs[n] != nil {
			if b, ok := typs[n].Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				a = lvlConst
			}
		}
		sch := out.scheme
		out = out.and(a)
		out.scheme = sch
		n++
	}
	if n < len(args) {
		return lvlRaw // appended as extra arguments
	}
	return out
}

// termLvl evaluates a string computed by Go code.
func (c *C) termLvl(t *eng.Term, env map[*eng.Term]lvl) lvl {
	if l, ok := env[t]; ok {
		return l
	}
	t = t.Strip()
	if l, ok := env[t]; ok {
		return l
	}
	if s, ok := t.StrConst(); ok {
		return constLvl(s)
	}
	if t.Typ != nil {
		if l := typeLvl(t.Typ); l == lvlConst {
			return l
		}
	}
	if _, ok := t.IntConst(); ok {
		return lvlConst
	}
	switch t.Op {
	case eng.OBin:
		if t.Aux == "+" && len(t.Args) == 2 {
			a := c.termLvl(t.Args[0], env)
			return a.and(c.termLvl(t.Args[1], env))
		}
	case eng.OConv, eng.OIface:
		if len(t.Args) == 1 {
			return c.termLvl(t.Args[0], env)
		}
	case eng.OCall:
		switch n := t.CalleeName(); n {
		case "net/url.QueryEscape", "net/url.PathEscape", "html/template.URLQueryEscaper", "(net/url.Values).Encode":
			return lvl{html: n != "(net/url.Values).Encode", url: true, esc: "q"}
		case "html/template.HTMLEscapeString", "html.EscapeString", "html/template.HTMLEscaper":
			l := lvl{html: true, esc: "h"}
			if len(t.Args) == 1 {
				a := c.termLvl(t.Args[0], env)
				l.url = a.url
				if a.esc == "h" {
					l.esc = "hh"
				}
			}
			return l
		case "(*strings.Replacer).Replace":
			if len(t.Args) == 2 {
				if c.harmlessReplacer(t.Args[0]) {
					return c.termLvl(t.Args[1], env)
				}
			}
			return lvlRaw
		case "strings.ReplaceAll", "strings.Replace":
			if len(t.Args) >= 3 {
				a, ok1 := t.Args[1].StrConst()
				b, ok2 := t.Args[2].StrConst()
				if ok1 && ok2 && harmlessPairs([]string{a, b}) {
					return c.termLvl(t.Args[0], env)
				}
			}
			return lvlRaw
		case "strings.TrimSpace", "strings.Clone", "strings.ToValidUTF8":
			return c.termLvl(t.Args[0], env)
		case "fmt.Sprintf":
			if len(t.Args) == 2 {
				if f, ok := t.Args[0].StrConst(); ok {
					var ls []lvl
					var ts []types.Type
					if t.Args[1].Op == eng.OArr {
						for _, a := range t.Args[1].Args {
							ls = append(ls, c.termLvl(a, env))
							ts = append(ts, a.Strip().Typ)
						}
						return formatLvl(f, ls, ts)
					}
					if t.Args[1].IsNil() {
						return formatLvl(f, nil, nil)
					}
				}
			}
			return lvlRaw
		case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint", "strconv.FormatBool", "encoding/hex.EncodeToString", "(time.Duration).String", "(*time.Duration).String":
			return lvlConst
		}
		if t.Typ != nil && trustedType(t.Typ) != "" {
			return typeLvl(t.Typ) // somebody else vouches for it
		}
		for _, a := range t.Args {
			if l := c.termLvl(a, env); l.esc != "" {
				return lvl{unknown: true, esc: l.esc}
			}
		}
	}
	return lvlRaw
}

// harmlessReplacer: what it inserts can't undo or split escaped text.
func (c *C) harmlessReplacer(r *eng.Term) bool {
	g := r.Find(func(x *eng.Term) bool { return x.Op == eng.OGlobal })
	var args []ssa.Value
	if g != nil {
		glob, _ := g.Obj.(*ssa.Global)
		for _, fn := range c.P.Funcs {
			for _, b := range fn.Blocks {
				for _, i := range b.Instrs {
					if s, ok := i.(*ssa.Store); ok && s.Addr == ssa.Value(glob) {
						if call, ok := s.Val.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().String() == "strings.NewReplacer" {
							args = variadic(call.Call.Args[0])
						}
					}
				}
			}
		}
		if glob != nil && args == nil {
			if init := glob.Pkg.Func("init"); init != nil {
				for _, b := range init.Blocks {
					for _, i := range b.Instrs {
						if s, ok := i.(*ssa.Store); ok && s.Addr == ssa.Value(glob) {
							if call, ok := s.Val.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().String() == "strings.NewReplacer" {
								args = variadic(call.Call.Args[0])
							}
						}
					}
				}
			}
		}
	} else if call := r.Strip(); call.CalleeName() == "strings.NewReplacer" && len(call.Args) == 1 && call.Args[0].Op == eng.OArr {
		var ss []string
		for _, a := range call.Args[0].Args {
			s, ok := a.StrConst()
			if !ok {
				return false
			}
			ss = append(ss, s)
		}
		return harmlessPairs(ss)
	}
	if len(args) == 0 {
		return false
	}
	var ss []string
	for _, a := range args {
		s, ok := constString(a)
		if !ok {
			return false
		}
		ss = append(ss, s)
	}
	return harmlessPairs(ss)
}

var reInserted = regexp.MustCompile(`^(\s|<wbr/?>|&shy;|&#8203;|\x{200b}|<br/?>)*$`)

func harmlessPairs(ss []string) bool {
	if len(ss)%2 != 0 {
		return false
	}
	for i := 0; i < len(ss); i += 2 {
		old, new := ss[i], ss[i+1]
		if old == "" || strings.ContainsAny(old, "&#<>abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789\"'") {
			return false
		}
		if strings.Count(new, old) != 1 {
			return false
		}
		pre, post, _ := strings.Cut(new, old)
		// an escape sequence ends with a semicolon, which must not be separated from it
		if !reInserted.MatchString(pre) || !reInserted.MatchString(post) || (strings.Contains(old, ";") && pre != "") {
			return false
		}
	}
	return true
}

// variadic: the elements of an argument list.
func variadic(v ssa.Value) []ssa.Value {
	sl, ok := v.(*ssa.Slice)
	if !ok {
		return nil
	}
	al, ok := sl.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	byIdx := map[int64]ssa.Value{}
	for _, r := range *al.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		k, ok := ia.Index.(*ssa.Const)
		if !ok {
			return nil
		}
		for _, rr := range *ia.Referrers() {
			if s, ok := rr.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
				byIdx[k.Int64()] = s.Val
			}
		}
	}
	out := make([]ssa.Value, len(byIdx))
	for i := range out {
		v, ok := byIdx[int64(i)]
		if !ok {
			return nil
		}
		out[i] = v
	}
	return out
}

// ---- the templates ----

type pageCheck struct {
	*C
	trees    map[string]*parse.Tree
	funcs    map[string]*ssa.Function
	dynFuncs bool
	text     map[string]string // file -> content
	scopes   []map[string]*tval
	ctx      htmlCtx
	depth    int
	shown    map[string]bool
	quiet    bool
	guards   []string
}

type tval struct {
	typ  types.Type
	l    lvl
	str  *string // constant
	num  bool    // untyped number
	null bool
	org  string // the part of the page's data it comes from
	key  bool   // it's a position in something from there
}

func (pc *pageCheck) assets() []string {
	var out []string
	filepath.Walk(filepath.Join(pc.P.Dir, "trcweb"), func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || strings.Contains(path, "testdata") {
			return nil
		}
		switch filepath.Ext(path) {
		case ".html", ".css", ".js", ".tmpl", ".gohtml", ".svg", ".txt":
			out = append(out, path)
		}
		return nil
	})
	sort.Strings(out)
	return out
}

func (pc *pageCheck) collect() {
	// functions
	add := func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				mu, ok := i.(*ssa.MapUpdate)
				if !ok || !(isNamed(mu.Map.Type(), htmpl, "FuncMap") || isNamed(mu.Map.Type(), "text/template", "FuncMap")) {
					continue
				}
				k, ok := constString(mu.Key)
				if !ok {
					pc.dynFuncs = true
					continue
				}
				v := mu.Value
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				switch f := v.(type) {
				case *ssa.Function:
					pc.funcs[k] = f
				case *ssa.MakeClosure:
					pc.funcs[k], _ = f.Fn.(*ssa.Function)
				case *ssa.ChangeType:
					if ff, ok := f.X.(*ssa.Function); ok {
						pc.funcs[k] = ff
						break
					}
					pc.funcs[k] = nil
				default:
					pc.funcs[k] = nil
				}
			}
		}
	}
	for _, fn := range pc.P.Funcs {
		if strings.HasSuffix(pkgPath(fn), "/trcweb") {
			add(fn)
		}
	}
	if sp := pc.P.Pkg("trcweb"); sp != nil && sp.Func("init") != nil {
		add(sp.Func("init"))
	}
	for _, path := range pc.assets() {
		b, err := os.ReadFile(path)
		if err != nil {
			continue
		}
		rel, _ := filepath.Rel(pc.P.Dir, path)
		pc.text[rel] = string(b)
		if !strings.Contains(string(b), "{{") && filepath.Ext(path) != ".html" {
			// plain text
		}
		tr := parse.New(filepath.Base(path))
		tr.Mode = parse.SkipFuncCheck
		set := map[string]*parse.Tree{}
		if _, err := tr.Parse(string(b), "", "", set); err != nil {
			pc.Fail("page", token.NoPos, rel, "the template can't be parsed: %v", err)
			continue
		}
		for n, t := range set {
			t.ParseName = rel
			pc.trees[n] = t
		}
		if pc.trees[filepath.Base(path)] == nil {
			tr.ParseName = rel
			pc.trees[filepath.Base(path)] = tr
		}
	}
}

// origins follows a parameter to what callers pass.
func (c *C) origins(v ssa.Value, depth int) []ssa.Value {
	if depth > 8 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.Parameter:
		var out []ssa.Value
		fn := x.Parent()
		idx := -1
		for i, p := range fn.Params {
			if p == x {
				idx = i
			}
		}
		for _, g := range c.P.Funcs {
			for _, b := range g.Blocks {
				for _, i := range b.Instrs {
					if call, ok := i.(ssa.CallInstruction); ok && call.Common().StaticCallee() == fn && idx >= 0 && idx < len(call.Common().Args) {
						out = append(out, c.origins(call.Common().Args[idx], depth+1)...)
					}
				}
			}
		}
		return out
	case *ssa.ChangeInterface:
		return c.origins(x.X, depth+1)
	case *ssa.Phi:
		var out []ssa.Value
		for _, e := range x.Edges {
			out = append(out, c.origins(e, depth+1)...)
		}
		return out
	case *ssa.UnOp:
		if fv, ok := x.X.(*ssa.FreeVar); ok {
			return c.origins(fv, depth+1)
		}
	case *ssa.FreeVar:
		fn := x.Parent()
		for i, f := range fn.FreeVars {
			if f != x || fn.Parent() == nil {
				continue
			}
			for _, b := range fn.Parent().Blocks {
				for _, ins := range b.Instrs {
					if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) {
						bnd := mc.Bindings[i]
						if al, ok := bnd.(*ssa.Alloc); ok && al.Referrers() != nil {
							var out []ssa.Value
							for _, r := range *al.Referrers() {
								if s, ok := r.(*ssa.Store); ok && s.Addr == ssa.Value(al) {
									out = append(out, c.origins(s.Val, depth+1)...)
								}
							}
							return out
						}
						return c.origins(bnd, depth+1)
					}
				}
			}
		}
	}
	return []ssa.Value{v}
}

// roots finds what the pages are executed with, and checks them.
func (pc *pageCheck) roots() {
	found := false
	for _, fn := range pc.P.Funcs {
		if !strings.HasSuffix(pkgPath(fn), "/trcweb") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil {
					continue
				}
				args := call.Common().Args
				var data ssa.Value
				var names []ssa.Value
				switch call.Common().StaticCallee().String() {
				case "(*html/template.Template).Execute":
					data = args[2]
					names = pc.lookups(args[0])
				case "(*html/template.Template).ExecuteTemplate":
					data = args[3]
					names = pc.origins(args[2], 0)
				default:
					continue
				}
				for _, n := range names {
					name, ok := constString(n)
					if !ok {
						pc.Undec("page", pc.P.FnName(fn), "cannot tell which template is executed")
						continue
					}
					tree := pc.trees[name]
					if tree == nil {
						pc.Fail("page", call.Pos(), name, "there is no such template")
						continue
					}
					for _, d := range pc.origins(data, 0) {
						mi, ok := d.(*ssa.MakeInterface)
						if !ok {
							pc.Undec("page", name, "cannot tell what the page is executed with")
							continue
						}
						found = true
						pc.page(tree, mi.X.Type())
					}
				}
			}
		}
	}
	if !found {
		pc.Undec("page", "pages", "cannot see how pages are rendered")
	}
}

// lookups: the names under which a template was looked up.
func (pc *pageCheck) lookups(v ssa.Value) []ssa.Value {
	if call, ok := v.(*ssa.Call); ok && call.Call.StaticCallee() != nil && call.Call.StaticCallee().String() == "(*html/template.Template).Lookup" {
		return pc.origins(call.Call.Args[1], 0)
	}
	if phi, ok := v.(*ssa.Phi); ok {
		var out []ssa.Value
		for _, e := range phi.Edges {
			out = append(out, pc.lookups(e)...)
		}
		return out
	}
	return []ssa.Value{v}
}

func (pc *pageCheck) page(tree *parse.Tree, data types.Type) {
	pc.shown = map[string]bool{}
	pc.scopes = []map[string]*tval{{"$": {typ: data, l: typeLvl(data), org: "$"}}}
	pc.ctx = htmlCtx{}
	pc.list(tree, tree.Root, &tval{typ: data, l: typeLvl(data), org: "$"})
	// what there is to see of a trace
	for _, f := range []string{"What"} {
		pc.Check(pc.shown["text:"+f], "markup", token.NoPos, tree.ParseName+" shows "+f, "the page doesn't show the %s of events", f)
	}
}

func (pc *pageCheck) at(tree *parse.Tree, n parse.Node) string {
	loc, _ := tree.ErrorContext(n)
	if i := strings.Index(loc, ":"); i >= 0 {
		loc = tree.ParseName + loc[i:]
	}
	return loc
}

func (pc *pageCheck) fail(tree *parse.Tree, n parse.Node, rule, format string, args ...any) {
	if pc.quiet {
		return
	}
	s := n.String()
	if len(s) > 60 {
		s = s[:60] + "..."
	}
	pc.Fail(rule, token.NoPos, tree.ParseName+" "+s, "%s: %s", pc.at(tree, n), fmt.Sprintf(format, args...))
}

func (pc *pageCheck) lookup(name string) *tval {
	for i := len(pc.scopes) - 1; i >= 0; i-- {
		if v := pc.scopes[i][name]; v != nil {
			return v
		}
	}
	return nil
}

func (pc *pageCheck) declare(p *parse.PipeNode, vals ...*tval) {
	if p == nil {
		return
	}
	for i, d := range p.Decl {
		v := &tval{}
		if i < len(vals) && vals[i] != nil {
			cp := *vals[i]
			v = &cp
		}
		name := d.Ident[0]
		if p.IsAssign {
			if old := pc.lookup(name); old != nil {
				if old.typ == nil || v.typ == nil || !types.Identical(old.typ, v.typ) {
					if !(old.str != nil && v.typ != nil && isString(v.typ)) {
						old.typ = nil
					}
				}
				old.l = old.l.and(v.l)
				old.str = nil
				continue
			}
		}
		pc.scopes[len(pc.scopes)-1][name] = v
	}
}

func (pc *pageCheck) push() { pc.scopes = append(pc.scopes, map[string]*tval{}) }
func (pc *pageCheck) pop()  { pc.scopes = pc.scopes[:len(pc.scopes)-1] }

func (pc *pageCheck) list(tree *parse.Tree, l *parse.ListNode, dot *tval) {
	if l == nil {
		return
	}
	for _, n := range l.Nodes {
		pc.node(tree, n, dot)
	}
}

func (pc *pageCheck) node(tree *parse.Tree, n parse.Node, dot *tval) {
	switch x := n.(type) {
	case *parse.TextNode:
		pc.ctx.feed(string(x.Text))
	case *parse.ActionNode:
		v := pc.pipe(tree, x.Pipe, dot)
		if len(x.Pipe.Decl) > 0 {
			pc.declare(x.Pipe, v)
			return
		}
		pc.output(tree, x, v)
	case *parse.IfNode:
		pc.branch(tree, &x.BranchNode, dot, false)
	case *parse.WithNode:
		pc.branch(tree, &x.BranchNode, dot, true)
	case *parse.RangeNode:
		v := pc.pipeNoDecl(tree, x.Pipe, dot)
		k, e := pc.elem(tree, x.Pipe, v)
		ctx := pc.ctx
		// twice, so that what the body assigns is seen by its beginning
		for i := 0; i < 2; i++ {
			pc.ctx = ctx
			pc.push()
			switch len(x.Pipe.Decl) {
			case 1:
				pc.declareNew(x.Pipe, e)
			case 2:
				pc.declareNew(x.Pipe, k, e)
			}
			pc.list(tree, x.List, e)
			pc.pop()
		}
		after := pc.ctx
		pc.ctx = ctx
		pc.push()
		pc.list(tree, x.ElseList, dot)
		pc.pop()
		pc.ctx = after
	case *parse.TemplateNode:
		var v *tval
		if x.Pipe != nil {
			v = pc.pipe(tree, x.Pipe, dot)
		} else {
			v = &tval{null: true}
		}
		t := pc.trees[x.Name]
		if t == nil {
			pc.fail(tree, x, "page template", "there is no template %q", x.Name)
			return
		}
		if pc.depth > 5 {
			return
		}
		pc.depth++
		save := pc.scopes
		pc.scopes = []map[string]*tval{{"$": v}}
		pc.list(t, t.Root, v)
		pc.scopes = save
		pc.depth--
		if !pc.quiet {
			pc.OK("page template", x.Name)
		}
	}
}

func (pc *pageCheck) declareNew(p *parse.PipeNode, vals ...*tval) {
	q := *p
	q.IsAssign = p.IsAssign
	pc.declare(&q, vals...)
}

func (pc *pageCheck) branch(tree *parse.Tree, b *parse.BranchNode, dot *tval, with bool) {
	pc.push()
	v := pc.pipe(tree, b.Pipe, dot)
	pc.declare(b.Pipe, v)
	d := dot
	if with {
		d = v
	}
	ctx := pc.ctx
	pc.guards = append(pc.guards, b.Pipe.String())
	pc.list(tree, b.List, d)
	pc.guards = pc.guards[:len(pc.guards)-1]
	after := pc.ctx
	if b.ElseList != nil {
		pc.ctx = ctx
		pc.list(tree, b.ElseList, dot)
		if len(b.List.Nodes) == 0 {
			after = pc.ctx
		}
	}
	pc.ctx = after
	pc.pop()
}

func (pc *pageCheck) elem(tree *parse.Tree, n parse.Node, v *tval) (k, e *tval) {
	k, e = &tval{}, &tval{}
	if v == nil || v.typ == nil {
		return
	}
	defer func() {
		k.org, e.org, k.key = v.org, v.org, true
	}()
	u := v.typ.Underlying()
	if p, ok := u.(*types.Pointer); ok {
		if _, isArr := p.Elem().Underlying().(*types.Array); isArr {
			u = p.Elem().Underlying()
		} else if _, isSl := p.Elem().Underlying().(*types.Slice); isSl {
			u = p.Elem().Underlying()
		}
	}
	mk := func(t types.Type) *tval { return &tval{typ: t, l: typeLvl(t)} }
	switch x := u.(type) {
	case *types.Slice:
		return mk(types.Typ[types.Int]), mk(x.Elem())
	case *types.Array:
		return mk(types.Typ[types.Int]), mk(x.Elem())
	case *types.Map:
		return mk(x.Key()), mk(x.Elem())
	case *types.Chan:
		return mk(types.Typ[types.Int]), mk(x.Elem())
	case *types.Interface, *types.Signature:
		return
	case *types.Basic:
		if x.Info()&types.IsInteger != 0 {
			return mk(v.typ), mk(v.typ)
		}
	}
	pc.fail(tree, n, "page field", "can't range over %s", types.TypeString(v.typ, nil))
	return
}

func (pc *pageCheck) pipeNoDecl(tree *parse.Tree, p *parse.PipeNode, dot *tval) *tval {
	return pc.pipe(tree, p, dot)
}

func (pc *pageCheck) pipe(tree *parse.Tree, p *parse.PipeNode, dot *tval) *tval {
	var v *tval
	for i, cmd := range p.Cmds {
		if i == 0 {
			v = pc.command(tree, cmd, dot, nil)
		} else {
			v = pc.command(tree, cmd, dot, v)
		}
	}
	if v == nil {
		v = &tval{}
	}
	return v
}

func (pc *pageCheck) command(tree *parse.Tree, cmd *parse.CommandNode, dot, final *tval) *tval {
	args := func() []*tval {
		var out []*tval
		for _, a := range cmd.Args[1:] {
			out = append(out, pc.arg(tree, a, dot))
		}
		if final != nil {
			out = append(out, final)
		}
		return out
	}
	switch x := cmd.Args[0].(type) {
	case *parse.IdentifierNode:
		return pc.call(tree, cmd, x.Ident, args())
	case *parse.FieldNode:
		return pc.fields(tree, x, dot, x.Ident, args(), len(cmd.Args) > 1 || final != nil)
	case *parse.VariableNode:
		v := pc.lookup(x.Ident[0])
		if v == nil {
			v = &tval{}
		}
		if len(x.Ident) == 1 {
			return v
		}
		return pc.fields(tree, x, v, x.Ident[1:], args(), len(cmd.Args) > 1 || final != nil)
	case *parse.ChainNode:
		v := pc.arg(tree, x.Node, dot)
		return pc.fields(tree, x, v, x.Field, args(), len(cmd.Args) > 1 || final != nil)
	}
	return pc.arg(tree, cmd.Args[0], dot)
}

func (pc *pageCheck) arg(tree *parse.Tree, n parse.Node, dot *tval) *tval {
	switch x := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.NilNode:
		return &tval{null: true, l: lvlConst}
	case *parse.BoolNode:
		return &tval{typ: types.Typ[types.Bool], l: lvlConst}
	case *parse.NumberNode:
		return &tval{num: true, l: lvlConst}
	case *parse.StringNode:
		s := x.Text
		return &tval{typ: types.Typ[types.String], l: constLvl(s), str: &s}
	case *parse.FieldNode:
		return pc.fields(tree, x, dot, x.Ident, nil, false)
	case *parse.VariableNode:
		v := pc.lookup(x.Ident[0])
		if v == nil {
			v = &tval{}
		}
		return pc.fields(tree, x, v, x.Ident[1:], nil, false)
	case *parse.PipeNode:
		return pc.pipe(tree, x, dot)
	case *parse.ChainNode:
		return pc.fields(tree, x, pc.arg(tree, x.Node, dot), x.Field, nil, false)
	case *parse.IdentifierNode:
		return pc.call(tree, x, x.Ident, nil)
	case *parse.CommandNode:
		return pc.command(tree, x, dot, nil)
	}
	return &tval{}
}

func (pc *pageCheck) fields(tree *parse.Tree, n parse.Node, v *tval, names []string, args []*tval, hasArgs bool) (res *tval) {
	if v == nil {
		return &tval{}
	}
	org := v.org
	defer func() {
		if len(names) > 0 {
			cp := *res
			if org == "$" {
				org = names[0]
			}
			cp.org, cp.key = org, false
			res = &cp
		}
	}()
	for i, name := range names {
		if v.typ == nil {
			return &tval{}
		}
		t := v.typ
		if m, ok := t.Underlying().(*types.Map); ok {
			if mobj, _, _ := types.LookupFieldOrMethod(t, true, nil, name); mobj == nil {
				v = &tval{typ: m.Elem(), l: typeLvl(m.Elem())}
				continue
			}
		}
		if it, ok := t.Underlying().(*types.Interface); ok && it.NumMethods() == 0 {
			return &tval{}
		}
		obj, _, _ := types.LookupFieldOrMethod(t, true, nil, name)
		last := i == len(names)-1
		switch o := obj.(type) {
		case *types.Var:
			pc.okQuiet("page field", tree.ParseName+" "+name)
			v = &tval{typ: o.Type(), l: typeLvl(o.Type())}
			if trustedType(o.Type()) != "" && !pc.quiet {
				pc.Undec("trusted", tree.ParseName+" "+name, "the field says of itself that it needs no escaping")
			}
			if last && hasArgs {
				if _, isFn := o.Type().Underlying().(*types.Signature); !isFn {
					pc.fail(tree, n, "page field", "%s has arguments but can't be called", name)
				}
			}
		case *types.Func:
			sig := o.Type().(*types.Signature)
			if sig.Results().Len() == 0 || sig.Results().Len() > 2 {
				pc.fail(tree, n, "page field", "%s has %d results", name, sig.Results().Len())
				return &tval{}
			}
			var as []*tval
			if last {
				as = args
			}
			pc.okQuiet("page field", tree.ParseName+" "+name)
			pc.args(tree, n, name, sig, as)
			rt := sig.Results().At(0).Type()
			v = &tval{typ: rt, l: typeLvl(rt)}
			if name == "String" && isNamed(t, "time", "Duration") {
				v.l = lvlConst
			}
		default:
			if !ok2exported(name) {
				pc.fail(tree, n, "page field", "%s isn't exported", name)
			} else {
				pc.fail(tree, n, "page field", "%s has no field or method %s: the page can't be rendered", types.TypeString(t, nil), name)
			}
			return &tval{}
		}
		if !last {
			continue
		}
	}
	return v
}

func ok2exported(n string) bool { return token.IsExported(n) }

func (pc *pageCheck) okQuiet(rule, con string) {
	if !pc.quiet {
		pc.OK(rule, con)
	}
}

// args: the arguments fit the parameters.
func (pc *pageCheck) args(tree *parse.Tree, n parse.Node, name string, sig *types.Signature, args []*tval) {
	np := sig.Params().Len()
	if sig.Variadic() {
		if len(args) < np-1 {
			pc.fail(tree, n, "page function", "%s needs at least %d arguments", name, np-1)
			return
		}
	} else if len(args) != np {
		pc.fail(tree, n, "page function", "%s is given %d arguments, but needs %d", name, len(args), np)
		return
	}
	for i, a := range args {
		var pt types.Type
		if sig.Variadic() && i >= np-1 {
			pt = sig.Params().At(np - 1).Type().(*types.Slice).Elem()
		} else {
			pt = sig.Params().At(i).Type()
		}
		if !fitsParam(a, pt) {
			what := "nil"
			if a.typ != nil {
				what = types.TypeString(a.typ, nil)
			} else if a.num {
				what = "a number"
			}
			pc.fail(tree, n, "page function", "%s is given %s, but needs %s: the page can't be rendered", name, what, types.TypeString(pt, nil))
		}
	}
}

func fitsParam(a *tval, pt types.Type) bool {
	if _, ok := pt.Underlying().(*types.Interface); ok {
		if a.typ == nil {
			return true
		}
		if pt.Underlying().(*types.Interface).NumMethods() == 0 {
			return true
		}
	}
	if a.null {
		switch pt.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Chan, *types.Signature:
			return true
		}
		return false
	}
	if a.num {
		b, ok := pt.Underlying().(*types.Basic)
		_, iface := pt.Underlying().(*types.Interface)
		return iface || ok && b.Info()&types.IsNumeric != 0
	}
	if a.typ == nil {
		return true
	}
	if a.str != nil {
		// string constants fit all string types
		if isString(pt) {
			return true
		}
	}
	if _, ok := a.typ.Underlying().(*types.Interface); ok {
		return true
	}
	if isTimeType(pt) || types.AssignableTo(a.typ, pt) {
		return types.AssignableTo(a.typ, pt) || derefAssignable(a.typ, pt)
	}
	return derefAssignable(a.typ, pt)
}

func isTimeType(t types.Type) bool { return false }

func derefAssignable(a, pt types.Type) bool {
	if p, ok := a.Underlying().(*types.Pointer); ok && types.AssignableTo(p.Elem(), pt) {
		return true
	}
	if p, ok := pt.Underlying().(*types.Pointer); ok && types.AssignableTo(a, p.Elem()) {
		return true // if addressable
	}
	return false
}

// kindOf is the kind that comparisons distinguish.
func kindOf(v *tval) string {
	if v.num {
		return ""
	}
	if v.typ == nil {
		return ""
	}
	b, ok := v.typ.Underlying().(*types.Basic)
	if !ok {
		return ""
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return "bool"
	case b.Info()&types.IsInteger != 0:
		return "int"
	case b.Info()&types.IsFloat != 0:
		return "float"
	case b.Info()&types.IsString != 0:
		return "string"
	}
	return ""
}

// call: a function of the template.
func (pc *pageCheck) call(tree *parse.Tree, n parse.Node, name string, args []*tval) *tval {
	mk := func(t types.Type) *tval { return &tval{typ: t, l: typeLvl(t)} }
	if fn, ok := pc.funcs[name]; ok {
		if fn == nil {
			return &tval{}
		}
		sig := fn.Signature
		pc.args(tree, n, name, sig, args)
		if sig.Results().Len() == 0 {
			pc.fail(tree, n, "page function", "%s has no result", name)
			return &tval{}
		}
		rt := sig.Results().At(0).Type()
		v := mk(rt)
		tt := trustedType(rt)
		if tt != "" || isString(rt) {
			v.l = pc.summary(tree, n, name, fn, args, tt)
		}
		pc.okQuiet("page function", tree.ParseName+" "+name)
		return v
	}
	switch name {
	case "printf":
		if len(args) > 0 && args[0].str != nil {
			var ls []lvl
			var ts []types.Type
			for _, a := range args[1:] {
				ls = append(ls, a.l)
				t := a.typ
				if a.num {
					t = types.Typ[types.Int]
				}
				ts = append(ts, t)
			}
			pc.verbs(tree, n, *args[0].str, args[1:])
			return &tval{typ: types.Typ[types.String], l: formatLvl(*args[0].str, ls, ts)}
		}
		return &tval{typ: types.Typ[types.String]}
	case "print", "println":
		l := lvlConst
		for _, a := range args {
			l = l.and(a.l)
		}
		return &tval{typ: types.Typ[types.String], l: l}
	case "html":
		return &tval{typ: types.Typ[types.String], l: lvl{html: true}}
	case "urlquery":
		return &tval{typ: types.Typ[types.String], l: lvl{html: true, url: true, esc: "q"}}
	case "js":
		return &tval{typ: types.Typ[types.String]}
	case "len":
		return mk(types.Typ[types.Int])
	case "not":
		return mk(types.Typ[types.Bool])
	case "eq", "ne", "lt", "le", "gt", "ge":
		if len(args) < 2 {
			pc.fail(tree, n, "page function", "%s needs two arguments", name)
			return mk(types.Typ[types.Bool])
		}
		a, b := kindOf(args[0]), kindOf(args[1])
		if a != "" && b != "" && a != b || args[0].num && (b == "string" || b == "bool") || args[1].num && (a == "string" || a == "bool") {
			pc.fail(tree, n, "page function", "%s compares values of different kinds: the page can't be rendered", name)
		}
		return mk(types.Typ[types.Bool])
	case "and", "or":
		if len(args) == 0 {
			return &tval{}
		}
		v := *args[0]
		for _, a := range args[1:] {
			v.l = v.l.and(a.l)
			if v.typ == nil || a.typ == nil || !types.Identical(v.typ, a.typ) {
				v.typ = nil
			}
			v.str, v.num, v.null = nil, v.num && a.num, v.null && a.null
		}
		return &v
	case "index":
		v := args[0]
		for i, k := range args[1:] {
			if v.typ != nil {
				if _, isMap := v.typ.Underlying().(*types.Map); !isMap && i == 0 {
					pc.inRange(tree, n, v, k)
				}
			}
			_, e := pc.elem(tree, n, v)
			v = e
		}
		return v
	case "slice":
		return args[0]
	case "call":
		return &tval{}
	}
	if pc.dynFuncs {
		return &tval{}
	}
	pc.fail(tree, n, "page function", "the function %s isn't defined: the page can't be rendered", name)
	return &tval{}
}

// inRange: the position exists.
func (pc *pageCheck) inRange(tree *parse.Tree, n parse.Node, list, k *tval) {
	var of string
	if cmd, ok := n.(*parse.CommandNode); ok && len(cmd.Args) > 1 {
		of = cmd.Args[1].String()
	}
	if of == "" {
		return
	}
	con := tree.ParseName + " index " + of
	for _, g := range pc.guards {
		if strings.Contains(g+" ", of+" ") || strings.Contains(g+")", of+")") {
			pc.okQuiet("page index", con)
			return
		}
	}
	switch {
	case k.num:
		pc.fail(tree, n, "page index", "%s may be empty: the page then can't be rendered", of)
	case k.key && k.org != "" && list.org != "" && k.org != list.org:
		pc.fail(tree, n, "page index", "%s, part of the %s, may have fewer elements than what's iterated over, which is part of the %s: the page then can't be rendered", of, list.org, k.org)
	default:
		pc.okQuiet("page index", con)
	}
}

// verbs: the arguments fit the format.
func (pc *pageCheck) verbs(tree *parse.Tree, n parse.Node, format string, args []*tval) {
	k := 0
	for i := 0; i < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		for i < len(format) && strings.ContainsRune("+-# 0123456789.", rune(format[i])) {
			i++
		}
		if i >= len(format) || format[i] == '[' || format[i] == '*' {
			return
		}
		if format[i] == '%' {
			continue
		}
		if k >= len(args) {
			pc.fail(tree, n, "page function", "the format %q needs more arguments", format)
			return
		}
		if kd := kindOf(args[k]); format[i] == 'd' && kd != "" && kd != "int" {
			pc.fail(tree, n, "page function", "the format %q needs a number", format)
		}
		if format[i] == 's' && args[k].typ != nil && kindOf(args[k]) != "" && kindOf(args[k]) != "string" {
			if m, _, _ := types.LookupFieldOrMethod(args[k].typ, true, nil, "String"); m == nil {
				if m, _, _ := types.LookupFieldOrMethod(args[k].typ, true, nil, "Error"); m == nil {
					pc.fail(tree, n, "page function", "the format %q needs a string", format)
				}
			}
		}
		k++
	}
	if k < len(args) {
		pc.fail(tree, n, "page function", "the format %q has fewer verbs than arguments", format)
	}
}

// summary: the level of what the function returns for these arguments.
func (pc *pageCheck) summary(tree *parse.Tree, n parse.Node, name string, fn *ssa.Function, args []*tval, trusted string) lvl {
	in := eng.NewInterp(pc.P, eng.Config{Inline: pc.api})
	ps := in.ParamSyms(fn)
	env := map[*eng.Term]lvl{}
	for i, p := range ps {
		if i < len(args) {
			env[p] = args[i].l
		}
	}
	var out *lvl
	vouched := false
	for _, p := range pc.Run(in, fn, nil, ps) {
		if p.Panic != nil || p.Exit || len(p.Ret) == 0 {
			continue
		}
		r := p.Ret[0]
		// made by a function that the user provided
		if s := r.Strip(); s.Op == eng.OCall && trusted != "" {
			if cal, _ := s.Obj.(*eng.Callee); cal != nil && cal.Fn == nil && cal.Meth == nil {
				vouched = true
				continue
			}
		}
		l := pc.termLvl(r, env)
		if out == nil {
			out = &l
		} else {
			l = out.and(l)
			out = &l
		}
	}
	if out == nil {
		if vouched {
			pc.okQuiet("trusted", tree.ParseName+" "+name+" (provided)")
			return lvl{html: trusted == "HTML", url: trusted == "URL"}
		}
		return lvlRaw
	}
	if trusted == "" {
		return *out
	}
	if out.unknown {
		if !pc.quiet {
			pc.Undec("trusted", tree.ParseName+" "+name, "cannot tell what happens to the escaped text")
		}
	} else if out.fits(trusted) {
		s := n.String()
		if len(s) > 60 {
			s = s[:60]
		}
		pc.okQuiet("trusted", tree.ParseName+" "+name+" "+s)
	} else {
		what := "text that wasn't escaped"
		if out.esc != "" {
			what = "text that wasn't escaped for it"
		}
		pc.fail(tree, n, "trusted", "%s declares its argument to be safe, but it's made of %s", name, what)
	}
	if out.esc == "hh" {
		pc.fail(tree, n, "trusted", "the text is escaped twice")
	}
	return lvl{html: trusted == "HTML", url: trusted == "URL"}
}

// output: a value is put on the page.
func (pc *pageCheck) output(tree *parse.Tree, n *parse.ActionNode, v *tval) {
	ctx := pc.ctx.kind()
	last := n.Pipe.Cmds[0].Args[0]
	if f, ok := last.(*parse.FieldNode); ok {
		pc.shown[ctx+":"+f.Ident[len(f.Ident)-1]] = true
	}
	if v.typ == nil || trustedType(v.typ) != "" {
		if v.typ != nil {
			if tt := trustedType(v.typ); tt == "HTML" && ctx == "query" || tt == "URL" && ctx == "script" {
				pc.fail(tree, n, "markup", "a %s is used in a %s", tt, ctx)
			}
		}
		pc.okQuiet("markup", tree.ParseName+" "+n.String())
		return
	}
	if isString(v.typ) && !v.l.unknown && v.l.esc != "" && v.str == nil {
		pc.fail(tree, n, "markup", "the text has been escaped already, and will be escaped again")
		return
	}
	pc.okQuiet("markup", tree.ParseName+" "+n.String())
}

// htmlCtx is where in a page we are.
type htmlCtx struct {
	raw   string // inside of script or style
	inTag bool
	tag   string
	attr  string
	quote byte
	val   string
	word  string
}

func (h *htmlCtx) kind() string {
	switch {
	case h.raw != "":
		return h.raw
	case !h.inTag:
		return "text"
	case h.quote != 0:
		switch strings.ToLower(h.attr) {
		case "href", "src", "action", "formaction":
			if strings.Contains(h.val, "?") {
				return "query"
			}
			return "url"
		}
		if strings.HasPrefix(strings.ToLower(h.attr), "on") {
			return "script"
		}
		return "attr"
	}
	return "tag"
}

func (h *htmlCtx) feed(s string) {
	for i := 0; i < len(s); i++ {
		ch := s[i]
		switch {
		case h.raw != "":
			if end := "</" + h.raw; ch == '<' && strings.HasPrefix(strings.ToLower(s[i:]), end) {
				h.raw = ""
				h.inTag, h.tag, h.word = true, "/", ""
			}
		case !h.inTag:
			if ch == '<' {
				if strings.HasPrefix(s[i:], "<!--") {
					if end := strings.Index(s[i:], "-->"); end >= 0 {
						i += end + 2
					}
					continue
				}
				h.inTag, h.tag, h.attr, h.word = true, "", "", ""
			}
		case h.quote != 0:
			if ch == h.quote {
				h.quote, h.attr, h.val, h.word = 0, "", "", ""
			} else {
				h.val += string(ch)
			}
		default:
			switch {
			case ch == '>':
				if h.tag == "" {
					h.tag = h.word
				}
				t := strings.ToLower(h.tag)
				h.inTag, h.word = false, ""
				if t == "script" || t == "style" {
					h.raw = t
				}
			case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
				if h.tag == "" {
					h.tag = h.word
				}
				h.word = ""
			case ch == '=':
				h.attr = h.word
			case (ch == '"' || ch == '\''):
				h.quote, h.val = ch, ""
			default:
				h.word += string(ch)
			}
		}
	}
}

// ---- the rest ----

// htmlTemplatesOnly: pages are rendered by the package that escapes.
func (c *C) htmlTemplatesOnly() {
	for _, fn := range c.P.Funcs {
		if !strings.HasSuffix(pkgPath(fn), "/trcweb") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				call, ok := i.(ssa.CallInstruction)
				if !ok || call.Common().StaticCallee() == nil {
					continue
				}
				switch n := call.Common().StaticCallee().String(); {
				case strings.HasPrefix(n, "(*text/template.Template).Execute"):
					c.Fail("markup", call.Pos(), c.P.FnName(fn), "the page is rendered by text/template, which doesn't escape anything")
				case strings.HasPrefix(n, "(*html/template.Template).Execute"):
					c.OK("markup", c.P.FnName(fn)+" renders with escaping")
				}
			}
		}
	}
}

var (
	reSink   = regexp.MustCompile(`\.(innerHTML|outerHTML|srcdoc)\s*(\+?=)([^=][^;\n]*)`)
	reSinkFn = regexp.MustCompile(`\b(insertAdjacentHTML|document\.writeln?|eval|createContextualFragment|parseFromString|setHTMLUnsafe|new\s+Function)\s*\(([^;\n]*)`)
	reLit    = regexp.MustCompile("^\\s*(\"[^\"]*\"|'[^']*'|`[^`$]*`)\\s*$")
)

// scriptSinks: scripts don't interpret text as markup.
func (c *C) scriptSinks() {
	pc := &pageCheck{C: c}
	for _, path := range pc.assets() {
		switch filepath.Ext(path) {
		case ".html", ".js":
		default:
			continue
		}
		b, err := os.ReadFile(path)
		if err != nil {
			continue
		}
		rel, _ := filepath.Rel(c.P.Dir, path)
		text := stripComments(string(b))
		bad := false
		for _, m := range reSink.FindAllStringSubmatchIndex(text, -1) {
			if reLit.MatchString(text[m[6]:m[7]]) {
				continue
			}
			bad = true
			c.Fail("script", token.NoPos, rel+" "+text[m[2]:m[3]], "line %d: the script interprets text as markup", 1+strings.Count(text[:m[0]], "\n"))
		}
		for _, m := range reSinkFn.FindAllStringSubmatchIndex(text, -1) {
			bad = true
			c.Fail("script", token.NoPos, rel+" "+text[m[2]:m[3]], "line %d: the script interprets text as markup or code", 1+strings.Count(text[:m[0]], "\n"))
		}
		if !bad {
			c.OK("script", rel)
		}
	}
}

var (
	reLineComment = regexp.MustCompile(`(?m)(^|\s)//[^\n]*`)
	reHTMLComment = regexp.MustCompile(`(?s)<!--.*?-->|/\*.*?\*/|\{\{/\*.*?\*/\}\}`)
)

func stripComments(s string) string {
	blank := func(m string) string {
		b := []byte(m)
		for i := range b {
			if b[i] != '\n' {
				b[i] = ' '
			}
		}
		return string(b)
	}
	return reLineComment.ReplaceAllStringFunc(reHTMLComment.ReplaceAllStringFunc(s, blank), blank)
}

// trustedConversions: other places that declare text to be safe.
func (c *C) trustedConversions(pc *pageCheck) {
	isFunc := map[*ssa.Function]bool{}
	for _, f := range pc.funcs {
		if f != nil {
			isFunc[f] = true
		}
	}
	for _, fn := range c.P.Funcs {
		if isFunc[fn] {
			continue
		}
		has := false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				switch x := i.(type) {
				case *ssa.ChangeType:
					has = has || trustedType(x.Type()) != "" && trustedType(x.X.Type()) == "" && !isConst(x.X)
				case *ssa.Convert:
					has = has || trustedType(x.Type()) != "" && !isConst(x.X)
				}
			}
		}
		if !has {
			continue
		}
		name := c.P.FnName(fn)
		// a helper of a template function is seen there
		helper := false
		for f := range isFunc {
			helper = helper || c.calls(f, fn, 0)
		}
		if helper && !exportedFn(fn) {
			continue
		}
		idx := -1
		for i := 0; i < fn.Signature.Results().Len(); i++ {
			if trustedType(fn.Signature.Results().At(i).Type()) != "" {
				idx = i
			}
		}
		if idx < 0 {
			c.Undec("trusted", name, "cannot tell where the text goes that it declares to be safe")
			continue
		}
		tt := trustedType(fn.Signature.Results().At(idx).Type())
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
		for _, p := range c.Run(in, fn, nil, in.ParamSyms(fn)) {
			if p.Panic != nil || len(p.Ret) <= idx {
				continue
			}
			c.Check(c.termLvl(p.Ret[idx], nil).fits(tt), "trusted", fn.Pos(), name, "it declares text to be safe as %s that wasn't escaped", tt)
		}
	}
}

func isConst(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

func (c *C) calls(f, g *ssa.Function, depth int) bool {
	if depth > 4 {
		return false
	}
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			if call, ok := i.(ssa.CallInstruction); ok {
				if s := call.Common().StaticCallee(); s != nil && (s == g || c.P.InRepo(s) && s != f && c.calls(s, g, depth+1)) {
					return true
				}
			}
		}
	}
	return false
}

// errorPages: markup that's written by hand contains escaped text only.
func (c *C) errorPages() {
	for _, fn := range c.P.Funcs {
		if !strings.HasSuffix(pkgPath(fn), "/trcweb") || !takesWriter(fn) || fn.Parent() != nil {
			continue
		}
		html := false
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if call, ok := i.(ssa.CallInstruction); ok {
					for _, a := range call.Common().Args {
						if s, ok := constString(a); ok && strings.HasPrefix(s, "text/html") && call.Common().StaticCallee() != nil && call.Common().StaticCallee().Name() == "Set" {
							html = true
						}
					}
				}
			}
		}
		if !html {
			continue
		}
		name := c.P.FnName(fn)
		in := eng.NewInterp(c.P, eng.Config{Inline: c.api, MaxPaths: 3000})
		for _, p := range c.Run(in, fn, nil, in.ParamSyms(fn)) {
			isHTML := false
			p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				if callName(e) == "(net/http.Header).Set" {
					for _, a := range e.Args {
						if s, ok := a.StrConst(); ok && strings.HasPrefix(s, "text/html") {
							isHTML = true
						}
					}
				}
			})
			if !isHTML {
				continue
			}
			p.Walk(false, func(e *eng.Effect, _ []*eng.LoopInfo, _ bool) {
				var vals []*eng.Term
				switch n := callName(e); {
				case strings.HasSuffix(n, "ResponseWriter).Write") && len(e.Args) == 2:
					vals = []*eng.Term{e.Args[1]}
				case n == "io.WriteString" && len(e.Args) == 2 && isWriter(e.Args[0]):
					vals = []*eng.Term{e.Args[1]}
				case n == "fmt.Fprintf" && len(e.Args) == 3 && isWriter(e.Args[0]):
					if f, ok := e.Args[1].StrConst(); ok && e.Args[2].Op == eng.OArr {
						var ls []lvl
						var ts []types.Type
						for _, a := range e.Args[2].Args {
							ls = append(ls, c.termLvl(a, nil))
							ts = append(ts, a.Strip().Typ)
						}
						c.Check(formatLvl(f, ls, ts).html, "markup", e.Pos, name+" writes", "text is written into markup without having been escaped")
					}
				}
				for _, v := range vals {
					v = v.Strip()
					for v.Op == eng.OConv && len(v.Args) == 1 {
						v = v.Args[0].Strip()
					}
					switch {
					case v.IsNil():
					case v.CalleeName() == "fmt.Sprintf", v.CalleeName() == "fmt.Sprint", v.Op == eng.OBin && v.Aux == "+", v.Op == eng.OConst, strings.HasSuffix(v.CalleeName(), "EscapeString"), strings.HasSuffix(v.CalleeName(), ".Error"):
						c.Check(c.termLvl(v, nil).html, "markup", e.Pos, name+" writes", "text is written into markup without having been escaped")
					default:
						c.OK("markup", name+" writes what was rendered")
					}
				}
			})
		}
	}
}

func isWriter(t *eng.Term) bool {
	t = t.Strip()
	return t.Typ != nil && isNamed(t.Typ, "net/http", "ResponseWriter")
}

// renderedEvents: the page shows every event, in order, as it was.
func (c *C) renderedEvents(pc *pageCheck) {
	names := []string{}
	for n := range pc.funcs {
		names = append(names, n)
	}
	sort.Strings(names)
	evT := c.P.Named("", "Event")
	for _, n := range names {
		fn := pc.funcs[n]
		if fn == nil || fn.Signature.Params().Len() != 1 || fn.Signature.Results().Len() != 1 {
			continue
		}
		if !isNamed(derefType(fn.Signature.Params().At(0).Type()), mod, "StaticTrace") {
			continue
		}
		sl, ok := fn.Signature.Results().At(0).Type().Underlying().(*types.Slice)
		if !ok {
			continue
		}
		st, ok := sl.Elem().Underlying().(*types.Struct)
		if !ok {
			continue
		}
		c.renderedBy(n, fn, st, evT)
	}
}

func (c *C) renderedBy(name string, fn *ssa.Function, st *types.Struct, evT *types.Named) {
	in := eng.NewInterp(c.P, eng.Config{Inline: c.api})
	ps := in.ParamSyms(fn)
	for _, p := range c.Run(in, fn, nil, ps) {
		if p.Panic != nil || len(p.Ret) != 1 {
			continue
		}
		found := false
		for i, e := range p.Effects {
			if e.Loop == nil {
				continue
			}
			// over the events
			over := false
			for _, it := range e.Loop.Iters {
				for _, x := range it.Effects {
					if x.Kind == eng.EIndex && fieldLoad(x.Addr, ps[0], "TraceEvents") {
						over = true
					}
				}
			}
			if !over {
				continue
			}
			found = true
			yes, known := headerExit(p.Effects, i)
			if !known {
				c.Undec("events", name, "cannot tell when the loop ends")
			} else {
				c.Check(yes, "events", e.Pos, name+" shows all", "the loop over the events can end before the last one")
			}
			for _, it := range e.Loop.Iters {
				var apps []*eng.Effect
				for _, x := range it.Effects {
					if x.Kind == eng.EAppend && x.Val != nil && x.Val.Op == eng.OArr && len(x.Val.Args) == 1 && x.Val.Args[0].Op == eng.OStruct && x.Val.Args[0].Typ != nil && types.Identical(x.Val.Args[0].Typ.Underlying(), st) {
						apps = append(apps, x)
					}
				}
				if len(apps) != 1 {
					if len(apps) == 0 {
						// written by index, or skipped?
						stored := false
						for _, x := range it.Effects {
							if x.Kind == eng.EStore && x.Addr != nil && x.Addr.Any(func(y *eng.Term) bool { return y.Op == eng.OMkSlice }) {
								stored = true
							}
						}
						if stored {
							c.Undec("events", name, "cannot see how events are collected")
							continue
						}
					}
					c.Check(false, "events", e.Pos, name+" shows each", "an event is shown %d times", len(apps))
					continue
				}
				c.OK("events", name+" shows each")
				s := apps[0].Val.Args[0]
				var when *eng.Term
				for j := 0; j < st.NumFields() && j < len(s.Args); j++ {
					f := st.Field(j).Name()
					v := s.Args[j].Strip()
					isEv := false
					for _, ef := range fieldsOf(evT) {
						isEv = isEv || ef.Name() == f
					}
					if !isEv {
						continue
					}
					good := v.Op == eng.OLoad && v.Args[0].FieldVar() != nil && v.Args[0].FieldVar().Name() == f && v.Any(func(y *eng.Term) bool { return y == e.Loop.K })
					if f == "When" && good {
						when = v
					}
					c.Check(good, "events", apps[0].Pos, name+" "+f, "the %s shown isn't that of the event", f)
				}
				for j := 0; j < st.NumFields() && j < len(s.Args); j++ {
					v := s.Args[j].Strip()
					switch f := st.Field(j).Name(); f {
					case "Cumulative", "Delta":
						if when == nil || v.CalleeName() != "(time.Time).Sub" {
							c.Undec("events", name+" "+f, "cannot see how it's computed")
							continue
						}
						from := v.Args[1].Strip()
						started := fieldLoad(from, ps[0], "TraceStarted")
						if v.Args[0].Strip() != when {
							c.Fail("events", apps[0].Pos, name+" "+f, "it isn't the time of this event")
							continue
						}
						if f == "Cumulative" {
							c.Check(started, "events", apps[0].Pos, name+" "+f, "it isn't relative to the start of the trace")
							continue
						}
						var lv *eng.LoopVar
						for _, w := range e.Loop.Vars {
							if w.Start == from {
								lv = w
							}
						}
						if lv == nil {
							// taken from the list
							if started && it.Facts != nil && it.Facts.Le(e.Loop.K, in.T.Int(0), 0) {
								c.OK("events", name+" "+f+" first")
								continue
							}
							if x := from; x.Op == eng.OLoad && x.Args[0].FieldVar() != nil && x.Args[0].FieldVar().Name() == "When" && x.Args[0].Args[0].Op == eng.OIndex && fieldLoad(x.Args[0].Args[0].Args[0], ps[0], "TraceEvents") {
								c.Check(it.Facts != nil && it.Facts.EqInt(x.Args[0].Args[0].Args[1], e.Loop.K, -1), "events", apps[0].Pos, name+" "+f, "it isn't relative to the previous event")
								continue
							}
							if started {
								c.Fail("events", apps[0].Pos, name+" "+f, "it isn't relative to the previous event")
							} else {
								c.Undec("events", name+" "+f, "cannot see how it's computed")
							}
							continue
						}
						next := it.Next[lv.Start]
						c.Check(lv.Init != nil && fieldLoad(lv.Init.Strip(), ps[0], "TraceStarted") && next != nil && next.Strip() == when, "events", apps[0].Pos, name+" "+f, "it isn't relative to the previous event")
					}
				}
			}
		}
		// the end
		if found {
			none := false
			p.Facts.EachTerm(func(t *eng.Term) {
				if t.Op == eng.OLen && fieldLoad(t.Args[0], ps[0], "TraceEvents") && p.Facts.Le(t, in.T.Int(0), 0) {
					none = true
				}
			})
			after := false
			for _, e := range p.Effects {
				after = after || e.Loop != nil
				if !after || none || e.Kind != eng.EAppend || e.Val == nil || e.Val.Op != eng.OArr {
					continue
				}
				for _, s := range e.Val.Args {
					if s.Op != eng.OStruct || s.Typ == nil || !types.Identical(s.Typ.Underlying(), st) {
						continue
					}
					for j := 0; j < st.NumFields() && j < len(s.Args); j++ {
						if v := s.Args[j].Strip(); st.Field(j).Name() == "Delta" && v.CalleeName() == "(time.Time).Sub" {
							c.Check(!fieldLoad(v.Args[1].Strip(), ps[0], "TraceStarted"), "events", e.Pos, name+" end", "the end isn't relative to the last event")
						}
					}
				}
			}
		}
		if !found {
			c.Undec("events", name, "cannot see the loop over the events")
		}
	}
}

var _ = constant.MakeInt64

package main

import (
	"fmt"
	"go/ast"
	"os"
	"strings"
	"time"

	"verif/checker/eng"
	"verif/checker/rules"

	"golang.org/x/tools/go/ssa"
)

func unexp(fn *ssa.Function) bool {
	if os.Getenv("RING") != "" && fn.Pkg != nil && strings.Contains(fn.Pkg.Pkg.Path(), "/internal/") {
		return true
	}
	if os.Getenv("RING") != "" && fn.Origin() != nil && strings.Contains(fn.Origin().Pkg.Pkg.Path(), "/internal/") {
		return true
	}
	if os.Getenv("API") != "" {
		return !rules.ExportedFn(fn)
	}
	return fn.Parent() != nil || !ast.IsExported(fn.Name())
}

func keepArg() func(*eng.Effect) bool {
	if os.Getenv("KEEP") == "" {
		return nil
	}
	return func(e *eng.Effect) bool {
		switch e.Kind {
		case eng.ECall, eng.ELock, eng.EUnlock, eng.ESend, eng.ERecv, eng.ESelect, eng.EGo, eng.EClose, eng.EPanic:
			return e.Callee == nil || !strings.Contains(e.Callee.Name, "eztrc") && !strings.Contains(e.Callee.Name, "fmt.") && !strings.Contains(e.Callee.Name, "trc.Trace")
		}
		return false
	}
}

func findFn(p *eng.Program, spec string) *ssa.Function {
	for _, fn := range p.Funcs {
		if p.FnName(fn) == spec {
			return fn
		}
	}
	return nil
}

func dumpEffs(p *eng.Program, es []*eng.Effect, ind string) {
	for _, e := range es {
		fmt.Printf("%s%s  [%s]\n", ind, e.String(), p.Pos(e.Pos))
		if e.Loop != nil {
			for i, it := range e.Loop.Iters {
				fmt.Printf("%s  iter %d:\n", ind, i)
				dumpEffs(p, it.Effects, ind+"    ")
				for k, v := range it.Next {
					fmt.Printf("%s    next %v = %v\n", ind, k, v)
				}
			}
			for k, v := range e.Loop.BoolAcc {
				fmt.Printf("%s  boolacc %v %+v\n", ind, k, *v)
			}
		}
		for i, s := range e.Sub {
			fmt.Printf("%s  sub %d:\n", ind, i)
			dumpPath(p, s, ind+"    ")
		}
	}
}

func dumpPath(p *eng.Program, s *eng.Path, ind string) {
	dumpEffs(p, s.Effects, ind)
	fmt.Printf("%sfacts: %s\n", ind, strings.Join(s.FactStrings(), " & "))
	fmt.Printf("%sret: %v panic=%v exit=%v locks=%v\n", ind, s.Ret, s.Panic, s.Exit, eng.LockStrings(s.Locks))
}

func dump(args []string) {
	p, err := eng.Load(env("VERIF_REPO", "/repo"))
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	switch args[0] {
	case "list":
		for _, fn := range p.Funcs {
			fmt.Println(p.FnName(fn), "|", fn.Synthetic)
		}
		return
	case "all":
		for _, fn := range p.Funcs {
			in := eng.NewInterp(p, eng.Config{Inline: unexp, Keep: keepArg()})
			t0 := time.Now()
			ps := in.Run(fn, nil, nil, nil)
			fmt.Println(p.FnName(fn), len(ps), in.Incomplete, time.Since(t0).Milliseconds())
		}
		return
	}
	in := eng.NewInterp(p, eng.Config{Inline: unexp, Keep: keepArg(), TrackLoads: len(args) > 1})
	fn := findFn(p, args[0])
	for i, path := range in.Run(fn, nil, nil, nil) {
		fmt.Printf("=== path %d\n", i)
		dumpPath(p, path, "  ")
	}
	fmt.Println("incomplete:", in.Incomplete)
}

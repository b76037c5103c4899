package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"

	"verif/checker/eng"
	"verif/checker/rules"
)

func main() {
	if pf := os.Getenv("CPUPROF"); pf != "" {
		f, _ := os.Create(pf)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: chk check <property>... | dump <function>")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "dump":
		dump(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2:]))
	}
}

func env(k, def string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return def
}

func seed() int {
	n, _ := strconv.Atoi(env("VERIF_SEED", "0"))
	return n
}

// known-findings: lines "KNOWN property=<id> key=<rule | construct>"
func known(verif string) map[string]bool {
	out := map[string]bool{}
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: ") {
			out[strings.TrimPrefix(l, "known: ")] = true
		}
	}
	return out
}

func check(props []string) int {
	repo := env("VERIF_REPO", "/repo")
	verif := env("VERIF_DIR", "/verif")
	tier := env("VERIF_TIER", "quick")
	if len(props) == 1 && props[0] == "all" {
		props = nil
		for k := range rules.Registry {
			props = append(props, k)
		}
		sort.Strings(props)
	}
	t0 := time.Now()
	p, err := eng.Load(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		return 2
	}
	load := time.Since(t0)
	kn := known(verif)
	rc := 0
	for _, prop := range props {
		f := rules.Registry[prop]
		if f == nil {
			fmt.Fprintln(os.Stderr, "unknown property", prop)
			return 2
		}
		t1 := time.Now()
		c := rules.NewC(p, prop, tier == "thorough")
		func() {
			defer func() {
				if r := recover(); r != nil {
					if os.Getenv("CHK_TRACE") != "" {
						panic(r)
					}
					c.Undec("checker", prop, fmt.Sprintf("the analysis did not complete: %v", r))
				}
			}()
			f(c)
		}()
		wall := time.Since(t1) + load
		var viol []rules.Finding
		for _, fd := range c.Findings {
			key := "property=" + prop + " " + fd.Key()
			if kn[key] {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s (%s)\n", prop, fd.Construct, fd.Message, fd.Where)
				continue
			}
			viol = append(viol, fd)
		}
		for _, u := range c.Undecided {
			fmt.Printf("UNDECIDED property=%s %s\n", prop, u)
		}
		counts := c.Counts()
		total := 0
		for _, n := range counts {
			total += n
		}
		ev := map[string]any{
			"property": prop, "tier": tier, "seed": seed(), "level": "other",
			"coverage": map[string]any{
				"explanation":           rules.Explain(prop),
				"functions_analysed":    len(c.Functions()),
				"abstract_paths":        c.Paths(),
				"effects_examined":      c.Effects(),
				"obligations_total":     total + len(c.Findings),
				"obligations_by_rule":   counts,
				"obligations_undecided": len(c.Undecided),
				"undecided":             c.Undecided,
				"functions":             c.Functions(),
			},
			"wall_s": wall.Seconds(), "violations": len(viol),
			"assumptions": rules.Assumptions,
		}
		if len(viol) > 0 {
			ev["findings"] = viol
		}
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", "  ")
		if err := os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		if len(viol) > 0 {
			rc = 1
			replay := filepath.Join(verif, "evidence", prop+".violation.txt")
			var sb strings.Builder
			fmt.Fprintf(&sb, "property %s: %d violation(s)\n", prop, len(viol))
			for _, v := range viol {
				fmt.Fprintf(&sb, "%s: rule %s: %s: %s\n", v.Where, v.Rule, v.Construct, v.Message)
			}
			fmt.Fprintf(&sb, "re-run: VERIF_REPO=%s %s check %s\n", repo, os.Args[0], prop)
			os.WriteFile(replay, []byte(sb.String()), 0o644)
			fmt.Print(sb.String())
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
		} else {
			os.Remove(filepath.Join(verif, "evidence", prop+".violation.txt"))
			fmt.Printf("OK property=%s obligations=%d undecided=%d paths=%d wall=%.1fs\n", prop, total, len(c.Undecided), c.Paths(), wall.Seconds())
		}
	}
	return rc
}

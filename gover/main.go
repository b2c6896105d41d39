package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

var (
	verbose  bool
	debugDir string
)

func writeFile(name, s string) {
	os.MkdirAll(filepath.Dir(name), 0o755)
	os.WriteFile(name, []byte(s), 0o644)
}

// closure of contracts a property's proof relies on.
func selectFns(p *Program, prop string, only string) []*Contract {
	var out []*Contract
	for _, c := range p.Contracts {
		if only != "" {
			for _, o := range strings.Split(only, ",") {
				if c.Name == o || strings.HasSuffix(c.Name, "."+o) {
					out = append(out, c)
				}
			}
			continue
		}
		out = append(out, c)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

type Run struct {
	P    *Program
	Reps map[string]*FnReport
}

func verifyAll(p *Program, cs []*Contract, thorough bool) []*FnReport {
	reps := make([]*FnReport, len(cs))
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for i, c := range cs {
		i, c := i, c
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			reps[i] = verifyOne(p, c, thorough, func([]string) {})
		}()
	}
	wg.Wait()
	return reps
}

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gover verify|check ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "verify":
		cmdVerify(os.Args[2:])
	case "check":
		cmdCheck(os.Args[2:])
	default:
		fmt.Println("unknown command")
		os.Exit(2)
	}
}

func cmdVerify(args []string) {
	fs := flag.NewFlagSet("verify", flag.ExitOnError)
	root := fs.String("repo", "/repo", "")
	con := fs.String("contracts", "/verif/contracts", "")
	fn := fs.String("fn", "", "")
	v := fs.Bool("v", false, "")
	dbg := fs.String("debug", "", "")
	inv := fs.Bool("inv", false, "")
	th := fs.Bool("thorough", false, "")
	fs.Parse(args)
	verbose = *v
	debugDir = *dbg
	t0 := time.Now()
	p, err := LoadProgram(*root, *con)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(2)
	}
	for _, d := range p.Dropped {
		fmt.Println("dropped:", d)
	}
	for _, d := range p.Unbound {
		fmt.Println("unbound:", d)
	}
	fmt.Printf("loaded in %v, %d contracts\n", time.Since(t0).Round(time.Millisecond), len(p.Contracts))
	reps := verifyAll(p, selectFns(p, "", *fn), *th)
	bad := 0
	tot, ok := 0, 0
	for _, r := range reps {
		n := 0
		for _, o := range r.Obls {
			if o.Result == "proved" {
				n++
			}
		}
		tot += len(r.Obls)
		ok += n
		s := ""
		if r.Undecided != "" {
			s = "UNDECIDED " + r.Undecided
			bad++
		}
		fmt.Printf("%-60s %3d/%3d  paths %d  %d ms %s\n", r.Name, n, len(r.Obls), r.Paths, r.TimeMs, s)
		if *inv {
			b, _ := json.MarshalIndent(r.Invs, "  ", "  ")
			fmt.Println("  ", string(b))
		}
		for i, o := range r.Obls {
			if r.Undecided != "" {
				break
			}
			if o.Result != "proved" {
				bad++
				fmt.Printf("   FAIL %s %v [%s] %s\n      path: %s\n", o.Name, o.Tags, o.Kind, o.Pos, strings.Join(o.Trace, " / "))
				if *v {
					fmt.Println("      ", strings.ReplaceAll(o.Detail, "\n", "; "))
				}
				if debugDir != "" {
					writeFile(fmt.Sprintf("%s/%s.%d.smt2", debugDir, r.Name, i), "; "+o.Name+"\n"+backends["z3"].Opts+r.Scripts[i]+"(check-sat)\n(get-model)\n")
				}
			}
		}
	}
	fmt.Printf("%d/%d obligations, %d problems, %v, %d queries\n", ok, tot, bad, time.Since(t0).Round(time.Millisecond), stats.Queries)
	if bad > 0 {
		os.Exit(1)
	}
}

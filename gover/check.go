package main

// check: decides one property. Exit 0 when every obligation the property owns
// is discharged, 1 with a VIOLATION line otherwise.

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// tagsOf: the property tags of the clauses of a contract.
func tagsOf(p *Program, g *ssa.Function) map[string]bool {
	out := map[string]bool{}
	for _, b := range g.Blocks {
		for _, in := range b.Instrs {
			c, ok := in.(*ssa.Call)
			if !ok {
				continue
			}
			f := c.Call.StaticCallee()
			if f == nil || !p.prelude(f) || (f.Name() != "ensures_" && f.Name() != "requires_" && f.Name() != "shows_" && f.Name() != "determined_") {
				continue
			}
			if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value != nil {
				s, err := strconv.Unquote(k.Value.ExactString())
				if err != nil {
					continue
				}
				ts, _ := parseName(s)
				for _, t := range ts {
					out[t] = true
				}
			}
		}
	}
	return out
}

var deadline time.Time

func expired() bool { return !deadline.IsZero() && time.Now().After(deadline) }

// verifyClosure verifies the roots and every contract they call.
func verifyClosure(p *Program, roots []*Contract, thorough bool) map[string]*FnReport {
	byName := map[string]*Contract{}
	for _, c := range p.Contracts {
		byName[c.Name] = c
	}
	reps := map[string]*FnReport{}
	seen := map[string]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	var start func(c *Contract)
	start = func(c *Contract) {
		mu.Lock()
		if seen[c.Name] {
			mu.Unlock()
			return
		}
		seen[c.Name] = true
		mu.Unlock()
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			rep := verifyOne(p, c, thorough, func(called []string) {
				for _, n := range called {
					if d := byName[n]; d != nil {
						start(d)
					}
				}
			})
			mu.Lock()
			reps[c.Name] = rep
			mu.Unlock()
		}()
	}
	for _, c := range roots {
		start(c)
	}
	wg.Wait()
	return reps
}

type failure struct {
	Fn     string   `json:"function"`
	Pos    string   `json:"position"`
	Obl    string   `json:"obligation"`
	Kind   string   `json:"kind"`
	Tags   []string `json:"properties"`
	Detail string   `json:"verifier_output"`
}

func has(ss []string, s string) bool {
	for _, t := range ss {
		if t == s {
			return true
		}
	}
	return false
}

// declared tags of contracts, read from the contract sources (also of
// contracts that could not be bound to a function).
func declaredTags(dir string) map[string][]string {
	out := map[string][]string{}
	for _, pk := range []string{"models", "evaluation"} {
		fs, _ := filepath.Glob(filepath.Join(dir, pk, "*.go"))
		for _, f := range fs {
			b, _ := os.ReadFile(f)
			cur := ""
			for _, ln := range strings.Split(string(b), "\n") {
				if strings.HasPrefix(ln, "func ") {
					cur = ""
					if strings.HasPrefix(ln, "func contract_") {
						n := strings.TrimPrefix(ln, "func contract_")
						if i := strings.IndexByte(n, '('); i > 0 {
							cur = pk + "." + strings.ReplaceAll(n[:i], "_", ".")
						}
					}
				}
				for _, kw := range []string{"ensures_(\"", "shows_(\"", "determined_(\""} {
					i := strings.Index(ln, kw)
					if i < 0 || cur == "" {
						continue
					}
					s := ln[i+len(kw):]
					if j := strings.IndexByte(s, '"'); j > 0 {
						ts, _ := parseName(s[:j])
						out[cur] = append(out[cur], ts...)
					}
				}
			}
		}
	}
	return out
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	root := fs.String("repo", "/repo", "")
	vdir := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	fs.Parse(args)
	t0 := time.Now()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	thorough := *tier == "thorough"
	deadline = t0.Add(560 * time.Second)
	if thorough {
		deadline = t0.Add(3 * time.Hour)
	}
	p, err := LoadProgram(*root, filepath.Join(*vdir, "contracts"))
	if err != nil {
		fmt.Println("ERROR: the source does not load:", err)
		os.Exit(2)
	}
	P := *prop
	global := P == "C23" || P == "C24"
	var roots []*Contract
	for _, c := range p.Contracts {
		if tagsOf(p, c.Ghost)[P] || global && strings.HasPrefix(c.Name, "evaluation.") {
			roots = append(roots, c)
		}
	}
	sort.Slice(roots, func(i, j int) bool { return roots[i].Name < roots[j].Name })
	noRoots := len(roots) == 0
	isRoot := map[string]bool{}
	for _, c := range roots {
		isRoot[c.Name] = true
	}
	reps := verifyClosure(p, roots, thorough)

	var own, relied []failure
	owns := func(f string, o *Oblig) bool {
		if global {
			return has(o.Tags, P)
		}
		return has(o.Tags, P) || isRoot[f] && len(o.Tags) == 0
	}
	var names []string
	for n := range reps {
		names = append(names, n)
	}
	sort.Strings(names)
	nOwn, nOwnOK, nRel, nRelOK := 0, 0, 0, 0
	back := map[string]int{}
	var solverMs int64
	assumed := map[string]bool{}
	fnEv := []map[string]interface{}{}
	for _, n := range names {
		r := reps[n]
		for _, a := range r.Assumed {
			assumed[a] = true
		}
		clause := map[string]int{}
		ok := 0
		if r.Undecided != "" {
			f := failure{n, r.Pos, "the function is within reach of the verifier", "reach", nil, r.Undecided}
			if isRoot[n] {
				own = append(own, f)
				nOwn++
			} else {
				relied = append(relied, f)
				nRel++
			}
		} else {
			for _, o := range r.Obls {
				mine := owns(n, o)
				if mine {
					nOwn++
				} else {
					nRel++
				}
				solverMs += o.TimeMs
				if o.Result == "proved" {
					ok++
					back[o.Backend]++
					clause[o.Kind+" "+o.Name]++
					if mine {
						nOwnOK++
					} else {
						nRelOK++
					}
					continue
				}
				f := failure{n, o.Pos, o.Name, o.Kind, o.Tags, o.Detail}
				if mine {
					own = append(own, f)
				} else {
					relied = append(relied, f)
				}
			}
		}
		fnEv = append(fnEv, map[string]interface{}{"function": n, "at": r.Pos, "role": role(isRoot[n]), "obligations": len(r.Obls), "discharged": ok, "paths": r.Paths,
			"clauses": clause, "inlined": r.Inlined, "calls_by_contract": r.Called, "loop_invariants": r.Invs, "generation_ms": r.TimeMs})
	}
	// contracts that no longer bind
	decl := declaredTags(filepath.Join(*vdir, "contracts"))
	bound := map[string]bool{}
	for _, c := range p.Contracts {
		bound[c.Name] = true
	}
	var lost []string
	for n, ts := range decl {
		if bound[n] || strings.HasPrefix(n, "models.T.") || strings.HasPrefix(n, "evaluation.I.") || strings.HasPrefix(n, "models.I.") || strings.HasPrefix(n, "evaluation.T.") {
			continue
		}
		if has(ts, P) {
			lost = append(lost, n)
		}
	}
	sort.Strings(lost)
	for _, n := range lost {
		why := "no function of that name and signature in the current source"
		for _, d := range p.Dropped {
			if strings.Contains(d, "contract_"+strings.ReplaceAll(n[strings.Index(n, ".")+1:], ".", "_")) {
				why = d
			}
		}
		f := failure{n, "", "contract binds to a function", "binding", nil, why}
		if noRoots { // nothing is left that states the property
			own = append(own, f)
			nOwn++
		} else {
			relied = append(relied, f)
		}
	}
	if noRoots && len(lost) == 0 {
		fmt.Println("ERROR: no contract states", P)
		os.Exit(2)
	}

	violations := 0
	line := ""
	if len(own)+len(relied) > 0 {
		for _, f := range own {
			fmt.Printf("FAILED-OBLIGATION property=%s %s: %s (%s) at %s: %s\n", P, f.Fn, f.Obl, f.Kind, f.Pos, strings.ReplaceAll(f.Detail, "\n", "; "))
		}
		for _, f := range relied {
			fmt.Printf("FAILED-DEPENDENCY property=%s %s: %s (%s) %v at %s: %s\n", P, f.Fn, f.Obl, f.Kind, f.Tags, f.Pos, strings.ReplaceAll(f.Detail, "\n", "; "))
		}
		rp := filepath.Join(*vdir, "replays")
		os.MkdirAll(rp, 0o755)
		budget := 120
		if thorough {
			budget = 900
		}
		in, note := replay(*root, *vdir, P, seed, budget)
		doc := map[string]interface{}{"property": P, "failed_obligations": own, "failed_dependencies": relied, "replay": note}
		switch {
		case in != "":
			doc["failing_input"] = json.RawMessage(in)
			line = fmt.Sprintf("VIOLATION property=%s replay=%s", P, filepath.Join(rp, P+".json"))
			violations = 1
		case len(own) > 0:
			line = fmt.Sprintf("VIOLATION property=%s replay=%s no-failing-input-found", P, filepath.Join(rp, P+".json"))
			violations = 1
		default:
			fmt.Printf("NOTE property=%s: its own obligations are discharged; the failed dependencies above belong to other properties' checks and no input was found on which %s fails\n", P, P)
		}
		b, _ := json.MarshalIndent(doc, "", " ")
		os.WriteFile(filepath.Join(rp, P+".json"), append(b, '\n'), 0o644)
	}
	trusted := []string{"gover (this verifier: SSA-based symbolic execution and its axioms, /verif/gover)", "golang.org/x/tools/go/ssa", "z3 4.8.12", "z3 5.3.2", "cvc5 1.1.2", "the Go compiler"}
	as := keys(assumed)
	as = append(as, "int arithmetic is mathematical (no wrap-around); sizes and indices are far below 2^63",
		"floating-point operations are uninterpreted functions with only IEEE-valid axioms: expressions are compared operation by operation",
		"slices are values: appends to slices the function does not own are rejected by an ownership obligation; that two copies of one struct do not both grow the same slice field is assumed",
		"termination is proved for every loop and recursion under contract, given that the object graph of a document or model is finite and acyclic and a token stream is finite; calls of function values and of library functions are assumed to return",
		"pointers stored in interface values of the document (predicates, expressions, model elements) are not typed nils",
		"the document is a finite tree: sub-elements are not shared cyclically")
	ev := map[string]interface{}{
		"property": P, "tier": *tier, "seed": seed, "level": "proof", "wall_s": time.Since(t0).Seconds(), "violations": violations,
		"assumptions": as,
		"coverage": map[string]interface{}{
			"obligations": nOwn + nRel, "discharged": nOwnOK + nRelOK,
			"owned_obligations": nOwn, "owned_discharged": nOwnOK,
			"dependency_obligations": nRel, "dependency_discharged": nRelOK,
			"checker_cmd":              "/verif/.build/gover check -prop " + P + " -tier " + *tier,
			"trusted_base":             trusted,
			"functions_under_contract": fnEv,
			"by_back_end":              back,
			"solver_ms":                solverMs,
			"solver_queries":           stats.Queries,
			"solver_total_s":           float64(stats.SolverNs) / 1e9,
			"unbound_contracts":        p.Unbound,
			"dropped_contracts":        p.Dropped,
			"failed":                   append(own, relied...),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(*vdir, "evidence"), 0o755)
	os.WriteFile(filepath.Join(*vdir, "evidence", P+".json"), append(b, '\n'), 0o644)
	fmt.Printf("property=%s functions=%d obligations=%d/%d (own %d/%d) wall=%.1fs queries=%d\n", P, len(reps), nOwnOK+nRelOK, nOwn+nRel, nOwnOK, nOwn, time.Since(t0).Seconds(), stats.Queries)
	for _, l := range findings(*vdir, P) {
		fmt.Println(l)
	}
	if line != "" {
		fmt.Println(line)
		os.Exit(1)
	}
}

// findings are the listed defects of a property; none of them is a reason for
// a failed obligation (the contracts state what the code does there).
func findings(vdir, prop string) []string {
	b, _ := os.ReadFile(filepath.Join(vdir, "known-findings.txt"))
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if l, ok := cutPrefix(l, "finding: property="+prop+" "); ok {
			out = append(out, "KNOWN-FINDING: property="+prop+" "+l)
		}
	}
	return out
}

func cutPrefix(s, p string) (string, bool) {
	if strings.HasPrefix(s, p) {
		return s[len(p):], true
	}
	return s, false
}

func role(root bool) string {
	if root {
		return "states the property"
	}
	return "used by contract"
}

// replay looks for an input on which the built code breaks the property.
func replay(root, vdir, prop string, seed, budget int) (string, string) {
	src := filepath.Join(vdir, "replay")
	fs, _ := filepath.Glob(filepath.Join(src, "*.go"))
	if len(fs) == 0 {
		return "", "no replay harness"
	}
	tmp, err := os.MkdirTemp("", "gover-replay-")
	if err != nil {
		return "", err.Error()
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	for _, f := range fs {
		rep[filepath.Join(root, "zz_verif_replay", filepath.Base(f))] = f
	}
	ob, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, ob, 0o644)
	bin := filepath.Join(tmp, "replay")
	ctx, cancel := context.WithTimeout(context.Background(), 120*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", "build", "-overlay", of, "-o", bin, "./zz_verif_replay")
	cmd.Dir = root
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", "replay harness does not build: " + string(out)
	}
	ctx2, cancel2 := context.WithTimeout(context.Background(), time.Duration(budget+20)*time.Second)
	defer cancel2()
	run := exec.CommandContext(ctx2, bin, "-prop", prop, "-seed", strconv.Itoa(seed), "-seconds", strconv.Itoa(budget))
	run.Dir = tmp
	var out, er bytes.Buffer
	run.Stdout, run.Stderr = &out, &er
	err = run.Run()
	for _, ln := range strings.Split(out.String(), "\n") {
		if strings.HasPrefix(ln, "FAILING ") {
			return strings.TrimPrefix(ln, "FAILING "), "the real code was run on this input"
		}
	}
	if strings.Contains(er.String(), "fatal error: concurrent map") {
		if b, err := os.ReadFile(filepath.Join(tmp, "concurrent.json")); err == nil {
			return string(b), "the real code was run on this input"
		}
	}
	if strings.Contains(er.String(), "stack overflow") || strings.Contains(er.String(), "out of memory") || err != nil && strings.Contains(err.Error(), "killed") && ctx2.Err() == nil {
		if b, err := os.ReadFile(filepath.Join(tmp, "slow.json")); err == nil {
			return string(b), "the real code was run on this input"
		}
	}
	note := strings.TrimSpace(out.String())
	if len(note) > 400 {
		note = note[:400]
	}
	if err != nil {
		note += " (" + err.Error() + ") " + er.String()
	}
	return "", note
}

func hash(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:6])
}

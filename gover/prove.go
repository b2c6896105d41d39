package main

// Discharging obligations.

import (
	"crypto/sha256"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	"go/types"
)

// extras: facts about the terms of a query that hold in every state.
func (x *Exec) extras(ts []*Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.Args {
			walk(a)
		}
		if t.BV || t.Op == "forall" || t.Op == "exists" {
			return
		}
		switch {
		case t.Sort == "Any" && x.funs["anyname"] != nil && x.nameable(t):
			out = append(out, x.Eq(x.objName(x.App("anyloc", "Loc", t)), x.App("anyname", "Str", t)))
		case t.Op == "loc.sub" && x.subNames[t] != "" && x.funs["anyname"] != nil:
			out = append(out, x.Eq(x.objName(t), x.Str(x.subNames[t])))
		case t.Sort == "Loc" && !x.IsCtorApp(t):
			out = append(out, x.nameFacts(t)...)
			r := x.Root(t)
			out = append(out, x.Le(x.Int(0), r), x.Implies(x.Eq(r, x.Int(0)), x.Eq(t, x.NilLoc())))
			if b, g, ok := x.birthOf(t); ok {
				out = append(out, x.Implies(g, x.Lt(r, b)))
			}
			if strings.HasPrefix(t.Op, "any.") && strings.HasSuffix(t.Op, ".v") && len(t.Args) == 1 {
				c := strings.TrimSuffix(t.Op, ".v")
				if ty := x.anyTyp[c]; ty != nil {
					if _, isPtr := ty.Underlying().(*types.Pointer); isPtr && x.envTerm(t.Args[0]) {
						out = append(out, x.Implies(x.Is(c, t.Args[0]), x.Not(x.Eq(t, x.NilLoc()))))
					}
				}
			}
		case strings.HasPrefix(t.Sort, "Sl_") && !x.IsCtorApp(t):
			seq := x.SlSeq(t)
			out = append(out, x.Implies(x.SlNil(t), x.Eq(seq, x.Empty(seq.Sort))))
			if el := x.seqElem(seq.Sort); (el == "Any" || el == "Loc") && x.usesAnyloc(el) {
				if b, g, ok := x.birthOf(t); ok {
					i := x.Var("i", "Int")
					at := x.At(seq, i)
					l := at
					if el == "Any" {
						l = x.App("anyloc", "Loc", at)
					}
					f := x.Lt(x.Root(l), b)
					if el == "Any" && x.funs["anyname"] != nil {
						f = x.And(f, x.Eq(x.objName(l), x.App("anyname", "Str", at)))
					}
					out = append(out, x.Forall([]*Term{i}, x.Implies(x.And(g, x.Le(x.Int(0), i), x.Lt(i, x.Len(seq))), f), []*Term{l}))
				}
			}
		case strings.HasPrefix(t.Sort, "(Array ") && t.Op == "select" && len(t.Args[0].Args) == 0 && t.Args[1].Sort == "Loc" && x.births[t.Args[0].Op] != nil:
			ks, o := arrSorts(t.Sort)
			_ = ks
			if strings.HasPrefix(o, "Opt_") {
				out = append(out, x.Implies(x.Eq(t.Args[1], x.NilLoc()), x.Eq(t, x.ConstArr(t.Sort, x.None(o)))))
			}
		}
	}
	for _, t := range ts {
		walk(t)
	}
	n := len(out)
	for i := 0; i < n; i++ {
		walk(out[i])
	}
	// sequences built inside quantifiers are not terms the solver sees
	inq := map[*Term]bool{}
	var deep func(t *Term)
	deep = func(t *Term) {
		if inq[t] {
			return
		}
		inq[t] = true
		if !t.BV && strings.HasPrefix(t.Op, "snoc.") {
			s := t.Sort
			ln := x.Len(t.Args[0])
			out = append(out, x.mk("=", "Bool", x.mk("at."+s, t.Args[1].Sort, t, ln), t.Args[1]))
		}
		for _, a := range t.Args {
			deep(a)
		}
	}
	for _, t := range ts {
		deep(t)
	}
	return out
}

// nameable: the interface value comes from the program.
func (x *Exec) nameable(t *Term) bool {
	if x.IsCtorApp(t) {
		return false
	}
	_, _, ok := x.birthOf(t)
	return ok
}

// usesAnyloc: quantified births are needed only where the objects behind
// interfaces or pointers in slices matter.
func (x *Exec) usesAnyloc(el string) bool {
	if el == "Loc" {
		return true
	}
	_, ok := x.funs["anyloc"]
	return ok
}

// birthOf: a watermark below which every location inside the term lies, with
// the condition under which that is known.
func (x *Exec) birthOf(t *Term) (*Term, *Term, bool) {
	g := x.True()
	for {
		if len(t.Args) == 0 {
			b, ok := x.births[t.Op]
			if !ok {
				return nil, nil, false
			}
			return b, g, true
		}
		switch {
		case t.Op == "select":
			if t.Args[1].Sort == "Loc" && !strings.HasPrefix(t.Args[0].Op, "select") {
				arr := t.Args[0]
				if len(arr.Args) != 0 {
					return nil, nil, false
				}
				b, ok := x.births[arr.Op]
				if !ok {
					return nil, nil, false
				}
				return b, x.And(g, x.Lt(x.Root(t.Args[1]), b)), true
			}
			t = t.Args[0]
		case strings.HasPrefix(t.Op, "at."), t.Op == "anyloc":
			t = t.Args[0]
		case x.sel[t.Op][0] != nil:
			t = t.Args[0]
		default:
			return nil, nil, false
		}
	}
}

// envTerm: the value comes from the caller or the heap, not from a result.
func (x *Exec) envTerm(t *Term) bool {
	for len(t.Args) > 0 {
		switch {
		case t.Op == "select" || strings.HasPrefix(t.Op, "at.") || x.sel[t.Op][0] != nil || strings.HasPrefix(t.Op, "store") || t.Op == "ite":
			t = t.Args[0]
			if t.Sort == "Bool" {
				return false
			}
		default:
			return false
		}
	}
	return !strings.HasPrefix(t.Op, "r.")
}

// seqExt adds extensionality instances for the sequence equalities a goal
// (to be refuted) asks for.
func (x *Exec) seqExt(goal *Term) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "=" && !t.BV && strings.HasPrefix(t.Args[0].Sort, "Seq_") {
			a, b := t.Args[0], t.Args[1]
			k := x.Const("ext!"+itoa(t.ID), "Int")
			out = append(out, x.Or(t, x.Not(x.Eq(x.Len(a), x.Len(b))), x.And(x.Le(x.Int(0), k), x.Lt(k, x.Len(a)), x.Not(x.Eq(x.At(a, k), x.At(b, k))))))
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(goal)
	return out
}

func (x *Exec) script(asserts []*Term) string {
	all := append([]*Term{}, asserts...)
	all = append(all, x.extras(asserts)...)
	return x.Script(all, "")
}

func (x *Exec) query(asserts []*Term, ms int) QRes {
	for _, a := range asserts {
		if a.Op == "false" {
			return QUnsat
		}
	}
	s := x.script(asserts)
	return x.runCached(s, ms)
}

var qmu sync.Mutex
var qcacheG = map[[32]byte]qres{}

// qres: an answer and the time that was allowed for it
type qres struct {
	r  QRes
	ms int
}

func (x *Exec) runCached(s string, ms int) QRes {
	h := sha256.Sum256([]byte(s))
	qmu.Lock()
	c, ok := qcacheG[h]
	qmu.Unlock()
	if ok && (c.r != QUnknown || c.ms >= ms) {
		return c.r
	}
	r, out := runSolver(backends["z3"], s, time.Duration(ms)*time.Millisecond)
	if strings.Contains(out, "(error") {
		dumpQuery(s, out)
	}
	qmu.Lock()
	qcacheG[h] = qres{r, ms}
	qmu.Unlock()
	return r
}

var dumpN int

func dumpQuery(s, out string) {
	if debugDir == "" {
		return
	}
	dumpN++
	writeFile(fmt.Sprintf("%s/err%d.smt2", debugDir, dumpN), s+"(check-sat)\n; "+strings.ReplaceAll(out, "\n", "\n; "))
}

// quick proof of one goal under a path condition (used for invariants).
func (x *Exec) proves(pc []*Term, goal *Term, ms int) bool {
	for _, g := range x.splitGoal(goal) {
		if !x.proves1(append(append([]*Term{}, pc...), g.hyp...), g.goal, ms) {
			return false
		}
	}
	return true
}

func (x *Exec) goalAsserts(pc []*Term, goal *Term) []*Term {
	as := append([]*Term{}, pc...)
	as = append(as, x.Not(goal))
	as = append(as, x.witnesses(pc, goal)...)
	as = append(as, x.seqExt(goal)...)
	return as
}

// witnesses: for an existential goal, the negated body at terms that stand in
// the variable's place in the hypotheses (instances of the negated goal).
func (x *Exec) witnesses(pc []*Term, goal *Term) []*Term {
	if goal.Op != "exists" || len(goal.Vars) != 1 {
		return nil
	}
	v := goal.Vars[0]
	type pat struct {
		t *Term
		i int
	}
	var pats []pat
	seen := map[*Term]bool{}
	var scan func(t *Term)
	scan = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if strings.HasPrefix(t.Op, "u.") || strings.HasPrefix(t.Op, "spec.") {
			for i, a := range t.Args {
				if a == v {
					pats = append(pats, pat{t, i})
				}
			}
		}
		for _, a := range t.Args {
			scan(a)
		}
	}
	scan(goal.Args[0])
	if len(pats) == 0 {
		return nil
	}
	var found []*Term
	dup := map[*Term]bool{}
	seen = map[*Term]bool{}
	var look func(t *Term)
	look = func(t *Term) {
		if seen[t] || len(found) >= 4 {
			return
		}
		seen[t] = true
		for _, p := range pats {
			if t.Op != p.t.Op || len(t.Args) != len(p.t.Args) || t.BV {
				continue
			}
			ok := true
			for j, a := range t.Args {
				if j != p.i && !p.t.Args[j].BV && a != p.t.Args[j] {
					ok = false
				}
			}
			if ok && !dup[t.Args[p.i]] {
				dup[t.Args[p.i]] = true
				found = append(found, t.Args[p.i])
			}
		}
		for _, a := range t.Args {
			look(a)
		}
	}
	for i := len(pc) - 1; i >= 0; i-- {
		look(pc[i])
	}
	var out []*Term
	for _, w := range found {
		out = append(out, x.Not(x.Subst(goal.Args[0], map[*Term]*Term{v: w})))
	}
	return out
}

func (x *Exec) proves1(pc []*Term, goal *Term, ms int) bool {
	if goal.Op == "true" {
		return true
	}
	for _, p := range pc {
		if p == goal || p.Op == "false" {
			return true
		}
	}
	s := x.script(x.goalAsserts(pc, goal))
	if x.runCached(s, ms) == QUnsat {
		return true
	}
	return false
}

// proveEach decides several goals under the same path condition.
func (x *Exec) proveEach(pc []*Term, goals []*Term, ms int) []bool {
	out := make([]bool, len(goals))
	type job struct {
		i int
		s string
	}
	var jobs []job
	pend := make([]int, len(goals))
	for i, g := range goals {
		out[i] = true
		for _, sg := range x.splitGoal(g) {
			if sg.goal.Op == "true" {
				continue
			}
			hit := false
			for _, p := range pc {
				if p == sg.goal || p.Op == "false" {
					hit = true
				}
			}
			if hit {
				continue
			}
			jobs = append(jobs, job{i, x.script(x.goalAsserts(append(append([]*Term{}, pc...), sg.hyp...), sg.goal))})
			pend[i]++
		}
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for _, j := range jobs {
		j := j
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			dead := !out[j.i]
			mu.Unlock()
			if dead {
				return
			}
			if x.runCached(j.s, ms) != QUnsat {
				mu.Lock()
				out[j.i] = false
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	return out
}

const (
	effortFirst = iota
	effortMore
	effortThorough
)

// verifyOne verifies a function and discharges its obligations. What a busy
// machine left open is tried again with more time: first for the loop
// invariants, then for the obligations.
func verifyOne(p *Program, c *Contract, thorough bool, called func([]string)) *FnReport {
	rep := verifyFunction(p, c, 1)
	called(rep.Called)
	if rep.Undecided != "" {
		return rep
	}
	if rep.dischargeAll(effortFirst) {
		return rep
	}
	rep2 := verifyFunction(p, c, 4)
	if rep2.Undecided == "" && !reflect.DeepEqual(rep.Invs, rep2.Invs) {
		rep = rep2
		called(rep.Called)
	}
	if thorough {
		rep.dischargeAll(effortThorough)
	} else {
		rep.dischargeAll(effortMore)
	}
	return rep
}

// dischargeAll tries the obligations that are not proved.
func (rep *FnReport) dischargeAll(effort int) bool {
	var wg sync.WaitGroup
	for k, o := range rep.Obls {
		if o.Result == "proved" {
			continue
		}
		k, o := k, o
		wg.Add(1)
		go func() {
			defer wg.Done()
			o.discharge(rep.x, rep.Scripts[k], effort)
		}()
	}
	wg.Wait()
	for _, o := range rep.Obls {
		if o.Result != "proved" {
			return false
		}
	}
	return true
}

// discharge tries all back ends on an obligation.
func (o *Oblig) discharge(x *Exec, script string, effort int) {
	t0 := time.Now()
	defer func() { o.TimeMs = int64(time.Since(t0) / time.Millisecond) }()
	type step struct {
		b  string
		ms int
	}
	plan := []step{{"z3", 2000}, {"z3-new", 3000}, {"cvc5", 5000}}
	switch effort {
	case effortMore:
		plan = append(plan, step{"z3", 15000}, step{"z3-new", 20000}, step{"cvc5", 30000})
	case effortThorough:
		plan = []step{{"z3", 20000}, {"cvc5", 30000}, {"z3-new", 30000}, {"z3", 60000}, {"cvc5", 60000}}
	}
	last := ""
	for _, p := range plan {
		r, out := runSolver(backends[p.b], script, time.Duration(p.ms)*time.Millisecond)
		if strings.Contains(out, "(error") {
			dumpQuery(script, out)
			last += p.b + ": " + firstLine(out) + "\n"
			continue
		}
		if r == QUnsat {
			o.Result = "proved"
			o.Backend = backends[p.b].Name
			return
		}
		last += fmt.Sprintf("%s (%d ms): %s\n", backends[p.b].Name, p.ms, r)
		if r == QSat {
			break
		}
	}
	o.Result = "failed"
	o.Detail = last
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

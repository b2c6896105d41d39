package main

// Verification of one function against its contract.

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

type FnReport struct {
	Name      string
	Pos       string
	Obls      []*Oblig
	Scripts   []string
	Undecided string
	Assumed   []string
	Called    []string
	Inlined   []string
	Invs      map[string][]string
	Paths     int
	LiveRets  int
	TimeMs    int64
	x         *Exec
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func verifyFunction(p *Program, c *Contract, patience int) (rep *FnReport) {
	t0 := time.Now()
	x := NewExec(p, c.Fn, c.Name)
	x.patience = patience
	x.ownTags = tagsOf(p, c.Ghost)
	rep = &FnReport{Name: c.Name, Pos: x.pos(c.Fn.Pos()), x: x}
	defer func() {
		rep.Obls = x.obls
		rep.Assumed = keys(x.assumed)
		rep.Called = keys(x.called)
		rep.Inlined = keys(x.inlined)
		rep.Invs = x.invs
		rep.Paths = x.nPaths
		rep.TimeMs = int64(time.Since(t0) / time.Millisecond)
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				rep.Undecided = u.msg
			} else {
				rep.Undecided = fmt.Sprint("internal error: ", r)
				if verbose {
					fmt.Println(string(debug.Stack())[:1500])
				}
			}
		} else if rep.Undecided == "" {
			rep.Scripts = make([]string, len(rep.Obls))
			for i, o := range rep.Obls {
				rep.Scripts[i] = x.script(x.goalAsserts(o.PC, o.Goal))
			}
		}
		rep.TimeMs = int64(time.Since(t0) / time.Millisecond)
	}()
	fn := c.Fn
	g := c.Ghost
	if len(fn.Blocks) == 0 {
		bail("no body")
	}
	st := &State{heap: map[string]*Term{}, cells: map[int]Val{}, stamps: map[string]int{}, wm: x.wm0()}
	st.assume(x.Ctx, x.Le(x.Int(1), x.wm0()))
	st.heap["#world"] = x.Const("world0", "World")
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, info: x.info(fn)}
	var args []Val
	for i, pr := range fn.Params {
		n := pr.Name()
		if n == "" || n == "_" {
			n = fmt.Sprintf("arg%d", i)
		}
		v := x.freshResult(n, pr.Type(), x.wm0())
		fr.regs[pr] = v
		args = append(args, v)
	}
	// a pointer receiver of a value method etc. may be nil unless required otherwise
	all := append([]Val(nil), args...)
	sig := fn.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		all = append(all, &Opaque{"result in precondition"})
	}
	cl := x.collect(g, all, st)
	st.old = st
	for _, rq := range cl.Requires {
		st.assume(x.Ctx, x.evalBool(rq.F, st))
	}
	for _, as := range cl.Assumes {
		x.assumed["assumed on entry to "+c.Name+": "+as.Name] = true
		st.assume(x.Ctx, x.evalBool(as.F, st))
	}
	for _, p := range cl.Confined {
		x.confine(st, p, fr)
	}
	if x.query(st.pc.list(), 2000) == QUnsat {
		bail("precondition is unsatisfiable")
	}
	x.mods = &ModSet{x.modItems(st, cl)}
	x.cands = cl.Cands
	entry := st.clone()
	entry.old = entry
	st.old = entry
	x.entrySt = entry
	if cl.Decr != nil {
		x.decr = x.term(entry, x.evalClosure(cl.Decr, nil, entry))
	}
	x.inlining = []*ssa.Function{fn}
	fr.ret = func(st2 *State, res []Val) {
		x.nPaths++
		if x.quiet > 0 {
			return
		}
		if len(res) != sig.Results().Len() {
			bail("result count")
		}
		as := append([]Val(nil), args...)
		for i, r := range res {
			x.escape(st2, r)
			if sv, ok := r.(*SliceVal); ok {
				r = x.sliceTerm(st2, sv)
			}
			if al, ok := r.(*AnyLazy); ok {
				if _, isI := sig.Results().At(i).Type().Underlying().(*types.Interface); isI {
					r = x.term(st2, al)
				}
			}
			as = append(as, r)
		}
		st2.old = entry
		cl2 := x.collect(g, as, entry)
		savedB := x.bodyProved
		x.bodyProved = nil
		for _, e := range append(append([]Clause{}, cl2.Ensures...), cl2.Shows...) {
			x.proving, x.curClause, x.curTags = true, e.Name, e.Tags
			x.sealing = true
			goal := x.evalBool(e.F, st2)
			x.proving, x.sealing = false, false
			s3 := st2.clone()
			for _, b := range x.bodyProved {
				s3.assume(x.Ctx, b)
			}
			x.oblige(s3, "ensures", e.Name, e.Tags, fn.Pos(), goal)
		}
		x.bodyProved = savedB
		if rep.LiveRets == 0 {
			if x.query(st2.pc.list(), 1000) != QUnsat {
				rep.LiveRets++
			}
		}
	}
	x.run(fr, fn.Blocks[0], 0, st.clone())
	x.descends(entry)
	x.determined(c, sig, args, entry, cl)
	if rep.LiveRets == 0 {
		bail("no feasible return: contract or model is contradictory")
	}
	return rep
}

// determined checks that the contract alone fixes the given expressions: any
// two outcomes it allows from one state agree on them.
func (x *Exec) determined(c *Contract, sig *types.Signature, args []Val, entry *State, cl *Clauses) {
	if len(cl.Determ) == 0 {
		return
	}
	self := x.called[c.Name]
	defer func() {
		if !self {
			delete(x.called, c.Name)
		}
	}()
	outcome := func(st *State) (*State, *Clauses) {
		var all []Val
		x.quiet++
		x.applyContract(st, c.Name, c.Ghost, sig, append([]Val(nil), args...), c.Fn.Pos(), func(s *State, v Val) {
			st = s
			if tup, ok := v.(TupleVal); ok {
				all = append(append([]Val(nil), args...), tup...)
			} else {
				all = append(append([]Val(nil), args...), v)
			}
		})
		x.quiet--
		return st, x.collect(c.Ghost, all, entry)
	}
	s1, c1 := outcome(entry.clone())
	second := entry.clone()
	second.pc = s1.pc
	s2, c2 := outcome(second)
	s1.old, s2.old = entry, entry
	for i, d := range cl.Determ {
		for j := range d.What {
			x.specDep++
			v1 := x.evalClosure(c1.Determ[i].What[j], nil, s1)
			v2 := x.evalClosure(c2.Determ[i].What[j], nil, s2)
			goal := x.term(s2, x.specSame(s2, v1, v2, d.What[j].Fn.Signature.Results().At(0).Type()))
			x.specDep--
			x.oblige(s2, "ensures", d.Name, d.Tags, c.Fn.Pos(), goal)
		}
	}
}

// bodyFact: see body_ in the prelude.
func (x *Exec) bodyFact(st *State, args []Val) Val {
	name, _ := x.strLit(x.term(st, args[0]))
	fl, ok := args[1].(*AnyLazy)
	if !ok {
		bail("body_ of an interface")
	}
	ft := x.term(st, fl.V)
	as := []*Term{ft}
	for _, v := range varargs(x, st, args[4]) {
		as = append(as, x.rawTerm(st, v))
	}
	atom := x.App("body."+name, "Bool", as...)
	if !x.proving {
		return atom
	}
	c, ok := fl.V.(*Closure)
	if !ok {
		c = x.clos[ft.Op]
	}
	if c == nil {
		return atom
	}
	pre := args[2].(*AnyLazy).V.(*Closure)
	post := args[3].(*AnyLazy).V.(*Closure)
	// an arbitrary later state
	savedDep, savedWM, savedMods, savedProving := x.specDep, x.bodyWM, x.mods, x.proving
	savedInl := x.inlining
	x.specDep = 0
	x.proving = false
	defer func() {
		x.specDep, x.bodyWM, x.mods, x.proving = savedDep, savedWM, savedMods, savedProving
		x.inlining = savedInl
	}()
	x.mods = &ModSet{} // a function literal changes nothing
	savedSealing := x.sealing
	x.sealing = false
	defer func() { x.sealing = savedSealing }()
	wm := x.Fresh("wm", "Int")
	x.bodyWM = wm
	s2 := st.clone()
	s2.heap = map[string]*Term{"#arb": x.Fresh("arb", "World")}
	s2.heap["#world"] = x.Fresh("world", "World")
	s2.assume(x.Ctx, x.Le(st.wm, wm))
	s2.wm = wm
	s2.old = s2
	sig := c.Fn.Signature
	var ps []Val
	for i := 0; i < sig.Params().Len(); i++ {
		ps = append(ps, x.freshResult("row", sig.Params().At(i).Type(), wm))
	}
	x.specDep = 1
	s2.assume(x.Ctx, x.term(s2, x.evalClosure(pre, ps, s2)))
	x.specDep = 0
	entry := s2.clone()
	entry.old = entry
	s2.old = entry
	clause, tags := x.curClause, x.curTags
	k := func(s3 *State, res []Val) {
		for id, v := range entry.cells {
			if !sameVal(s3.cells[id], v) {
				x.oblige(s3, "frame", "function literal keeps no state", []string{"C23"}, c.Fn.Pos(), x.False())
			}
		}
		s3.old = entry
		x.specDep++
		goal := x.term(s3, x.evalClosure(post, append(append([]Val(nil), ps...), res...), s3))
		x.specDep--
		x.oblige(s3, "ensures", clause+" (function literal at "+x.pos(c.Fn.Pos())+")", tags, c.Fn.Pos(), goal)
	}
	if x.P.Contracts[c.Fn] != nil {
		bail("body_ of a function with a contract")
	}
	fr := &Frame{fn: c.Fn, regs: map[ssa.Value]Val{}, info: x.info(c.Fn)}
	for i, p := range c.Fn.Params {
		fr.regs[p] = ps[i]
	}
	for i, v := range c.Fn.FreeVars {
		fr.regs[v] = c.Binds[i]
	}
	x.inlining = append(append([]*ssa.Function(nil), savedInl...), c.Fn)
	fr.ret = k
	x.run(fr, c.Fn.Blocks[0], 0, s2)
	x.bodyProved = append(x.bodyProved, atom)
	return atom
}

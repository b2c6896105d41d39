package main

// Evaluation of ghost (specification) functions to terms.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SpecUF struct {
	fn    *ssa.Function
	name  string
	comps []string // implicit heap arguments
	ready bool
	busy  bool
	scc   int
}

const topFuel = 2

func (x *Exec) evalBool(f *Closure, st *State) *Term {
	v := x.evalClosure(f, nil, st)
	return x.term(st, v)
}

func (x *Exec) evalClosure(f *Closure, args []Val, st *State) Val {
	return x.evalFn(f.Fn, args, f.Binds, st)
}

func (x *Exec) evalFn(fn *ssa.Function, args, binds []Val, st *State) Val {
	if len(fn.Blocks) == 0 {
		bail("spec function %s has no body", fn)
	}
	x.specDep++
	defer func() { x.specDep-- }()
	if x.specDep > 200 {
		bail("spec recursion too deep in %s", fn)
	}
	fr := &Frame{fn: fn, regs: map[ssa.Value]Val{}, info: x.info(fn)}
	for i, p := range fn.Params {
		fr.regs[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		fr.regs[v] = binds[i]
	}
	// local cells and stamps are private to this evaluation, the heap is read only
	s2 := st.clone()
	return x.specRun(fr, fn.Blocks[0], nil, s2)
}

func (x *Exec) specRun(fr *Frame, b, prev *ssa.BasicBlock, st *State) Val {
	if fr.info.loops[b] != nil {
		bail("loop in spec function %s", fr.fn)
	}
	if prev != nil {
		x.phis(fr, prev, b, st)
	}
	for _, in := range b.Instrs {
		switch s := in.(type) {
		case *ssa.Phi:
		case *ssa.If:
			c := x.term(st, x.val(fr, st, s.Cond))
			if c.Op == "true" {
				return x.specRun(fr, b.Succs[0], b, st)
			}
			if c.Op == "false" {
				return x.specRun(fr, b.Succs[1], b, st)
			}
			// known from the path condition of the caller?
			s1, s2 := st.clone(), st.clone()
			v1 := x.specRun(fr.clone(), b.Succs[0], b, s1)
			v2 := x.specRun(fr.clone(), b.Succs[1], b, s2)
			return x.merge(st, c, v1, v2)
		case *ssa.Jump:
			return x.specRun(fr, b.Succs[0], b, st)
		case *ssa.Return:
			if len(s.Results) == 1 {
				return x.snap(st, x.val(fr, st, s.Results[0]))
			}
			var tv TupleVal
			for _, r := range s.Results {
				tv = append(tv, x.snap(st, x.val(fr, st, r)))
			}
			return tv
		case *ssa.Panic:
			bail("panic in spec function %s", fr.fn)
		default:
			x.specInstr(fr, st, in)
		}
	}
	bail("block without end")
	return nil
}

func (x *Exec) snap(st *State, v Val) Val {
	if s, ok := v.(*SliceVal); ok {
		return x.sliceTerm(st, s)
	}
	return v
}

func (x *Exec) merge(st *State, c *Term, a, b Val) Val {
	if ta, ok := a.(TupleVal); ok {
		tb := b.(TupleVal)
		var out TupleVal
		for i := range ta {
			out = append(out, x.merge(st, c, ta[i], tb[i]))
		}
		return out
	}
	if a == b {
		return a
	}
	return x.Ite(c, x.term(st, a), x.term(st, b))
}

func (x *Exec) specInstr(fr *Frame, st *State, in ssa.Instruction) {
	switch s := in.(type) {
	case *ssa.Call:
		fr.regs[s] = x.specCall(fr, st, s)
	case *ssa.TypeAssert:
		fr.regs[s] = x.typeAssert1(fr, st, s)
	case *ssa.Next, *ssa.Range:
		bail("map iteration in spec function")
	default:
		x.simple(fr, st, in)
	}
}

func unlazy(x *Exec, st *State, v Val) Val {
	if al, ok := v.(*AnyLazy); ok {
		return al.V
	}
	return v
}

// rawTerm strips a conversion to interface and turns row maps into contents.
func (x *Exec) rawTerm(st *State, v Val) *Term {
	if al, ok := v.(*AnyLazy); ok {
		if t, ok := al.V.(*Term); ok {
			if _, isMap := al.Typ.Underlying().(*types.Map); isMap && t.Sort == "Loc" {
				return x.mapCont(st, t, al.Typ)
			}
			if strings.HasPrefix(t.Sort, "Sl_") {
				return x.SlSeq(t)
			}
			return t
		}
		if c, ok := al.V.(*SliceVal); ok {
			return x.SlSeq(x.sliceTerm(st, c))
		}
		return x.term(st, al.V)
	}
	return x.term(st, v)
}

func (x *Exec) specCall(fr *Frame, st *State, s *ssa.Call) Val {
	cc := &s.Call
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.val(fr, st, a))
	}
	if cc.IsInvoke() {
		return x.specInvoke(fr, st, s, args)
	}
	switch f := x.val(fr, st, cc.Value).(type) {
	case *BuiltinVal:
		return x.builtin(st, f.B, args, cc, s.Pos())
	case *Closure:
		if x.P.prelude(f.Fn) {
			return x.preludeCall(fr, st, f.Fn, args, s)
		}
		return x.specApply(st, f, args, s)
	case *Term:
		if c := x.clos[f.Op]; c != nil && x.pureFn(c.Fn) {
			return x.specApply(st, c, args, s)
		}
		return x.applyFn(st, f, cc.Value.Type().Underlying().(*types.Signature), args)
	}
	bail("spec call")
	return nil
}

func (x *Exec) pureFn(fn *ssa.Function) bool { return x.P.ghost(fn) }

func (x *Exec) specApply(st *State, f *Closure, args []Val, s *ssa.Call) Val {
	fn := f.Fn
	if h := pureExt[extName(fn)]; h != nil {
		return h(x, st, &extCall{fn: fn, args: args, pos: s.Pos()})
	}
	if x.P.ghost(fn) && fn.Parent() == nil {
		name := fnName(fn)
		if x.P.UFDir[name] || x.recursive(fn) {
			return x.specUF(st, fn, args)
		}
	}
	return x.evalFn(fn, args, f.Binds, st)
}

func (x *Exec) specInvoke(fr *Frame, st *State, s *ssa.Call, args []Val) Val {
	recv := x.val(fr, st, s.Call.Value)
	m := s.Call.Method
	if sig := m.Type().(*types.Signature); sig.Params().Len() == 0 && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type()) {
		return x.App("method."+m.Name(), "Str", x.term(st, recv))
	}
	bail("interface method %s in spec", m.Name())
	return nil
}

// callees of a ghost function that are ghost functions (closures included)
func ghostCallees(p *Program, fn *ssa.Function, out map[*ssa.Function]bool) {
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && !p.prelude(g) {
					if g.Parent() != nil {
						ghostCallees(p, g, out)
					} else if p.ghost(g) {
						out[g] = true
					}
				}
			}
			if mc, ok := in.(*ssa.MakeClosure); ok {
				ghostCallees(p, mc.Fn.(*ssa.Function), out)
			}
		}
	}
}

func (x *Exec) reach(fn *ssa.Function) map[*ssa.Function]bool {
	if x.reachTab == nil {
		x.reachTab = map[*ssa.Function]map[*ssa.Function]bool{}
	}
	if r, ok := x.reachTab[fn]; ok {
		return r
	}
	r := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		cs := map[*ssa.Function]bool{}
		ghostCallees(x.P, f, cs)
		for c := range cs {
			if !r[c] {
				r[c] = true
				if !x.P.InlineDir[fnName(c)] {
					add(c)
				}
			}
		}
	}
	if !x.P.InlineDir[fnName(fn)] {
		add(fn)
	}
	x.reachTab[fn] = r
	return r
}

func (x *Exec) recursive(fn *ssa.Function) bool { return x.reach(fn)[fn] }

func (x *Exec) sameSCC(a, b *ssa.Function) bool {
	return a == b || x.reach(a)[b] && x.reach(b)[a]
}

// normArg: how a spec argument is passed to its uninterpreted function.
func (x *Exec) normArg(st *State, v Val, t types.Type) *Term {
	tm := x.term(st, v)
	if strings.HasPrefix(tm.Sort, "Sl_") {
		return x.SlSeq(tm)
	}
	return tm
}

func (x *Exec) specUF(st *State, fn *ssa.Function, args []Val) Val {
	u := x.specRec[fn]
	if u == nil {
		u = &SpecUF{fn: fn, name: "spec." + sanitize(strings.TrimPrefix(fnName(fn), fn.Pkg.Pkg.Name()+"."))}
		x.specRec[fn] = u
	}
	if !u.ready && !u.busy {
		x.defineUF(u)
	}
	fuel := topFuel
	if x.fuelOf != nil {
		if f, ok := x.fuelOf[u]; ok {
			fuel = f
		}
	}
	if !x.recursive(fn) {
		fuel = 0
	}
	var as []*Term
	for i, a := range args {
		as = append(as, x.normArg(st, a, fn.Params[i].Type()))
	}
	for _, c := range u.comps {
		as = append(as, x.heapGet(st, c, x.compSort[c]))
	}
	return x.ufApp(u, fuel, as)
}

func (x *Exec) ufApp(u *SpecUF, fuel int, as []*Term) Val {
	rt := u.fn.Signature.Results()
	if rt.Len() != 1 {
		bail("recursive spec function %s must have one result", u.name)
	}
	t := rt.At(0).Type()
	srt := x.SortOf(t)
	sl := false
	if strings.HasPrefix(srt, "Sl_") {
		srt = x.SeqSort(t.Underlying().(*types.Slice).Elem())
		sl = true
	}
	var name string
	if x.recursive(u.fn) {
		name = fmt.Sprintf("%s.%d", u.name, fuel)
	} else {
		name = u.name
	}
	if !u.ready {
		// arity still unknown: do not declare
		r := x.mk("tmp."+name, srt, as...)
		if sl {
			return x.MkSl(x.False(), r)
		}
		return r
	}
	r := x.App(name, srt, as...)
	if sl {
		return x.MkSl(x.False(), r)
	}
	return r
}

// defineUF finds the heap components a recursive spec function reads and
// states its definition.
func (x *Exec) defineUF(u *SpecUF) {
	savedSealing := x.sealing
	x.sealing = false
	defer func() { x.sealing = savedSealing }()
	// the whole strongly connected component at once
	var group []*SpecUF
	var fns []*ssa.Function
	fns = append(fns, u.fn)
	for g := range x.reach(u.fn) {
		if g != u.fn && x.sameSCC(u.fn, g) && (x.P.UFDir[fnName(g)] || x.recursive(g)) {
			fns = append(fns, g)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, f := range fns {
		w := x.specRec[f]
		if w == nil {
			w = &SpecUF{fn: f, name: "spec." + sanitize(strings.TrimPrefix(fnName(f), f.Pkg.Pkg.Name()+"."))}
			x.specRec[f] = w
		}
		w.busy = true
		group = append(group, w)
	}
	for {
		changed := false
		for _, w := range group {
			saved := x.reads
			x.reads = map[string]bool{}
			x.ufBody(w, 0)
			got := x.reads
			x.reads = saved
			if x.reads != nil {
				for c := range got {
					x.reads[c] = true
				}
			}
			var cs []string
			for c := range got {
				cs = append(cs, c)
			}
			sort.Strings(cs)
			if strings.Join(cs, "|") != strings.Join(w.comps, "|") {
				w.comps = cs
				changed = true
			}
		}
		if !changed {
			break
		}
	}
	for _, w := range group {
		w.ready = true
		w.busy = false
	}
	savedFuel := x.fuelOf
	for _, w := range group {
		if !x.recursive(w.fn) {
			body, vars := x.ufBody(w, 0)
			lhs := x.ufTerm(w, 0, vars)
			x.AddAxiom("def."+w.name, x.Forall(vars, x.Eq(lhs, body), []*Term{lhs}), []string{w.name})
			continue
		}
		for f := 1; f <= topFuel; f++ {
			x.fuelOf = map[*SpecUF]int{}
			for k, v := range savedFuel {
				x.fuelOf[k] = v
			}
			for _, g := range group {
				x.fuelOf[g] = f - 1
			}
			body, vars := x.ufBody(w, f)
			lhs := x.ufTerm(w, f, vars)
			low := x.ufTerm(w, f-1, vars)
			nm := fmt.Sprintf("%s.%d", w.name, f)
			if len(vars) == 0 {
				x.AddAxiom("def."+nm, x.Eq(lhs, body), []string{nm})
				x.AddAxiom("syn."+nm, x.Eq(lhs, low), []string{nm})
				continue
			}
			x.AddAxiom("def."+nm, x.Forall(vars, x.Eq(lhs, body), []*Term{lhs}), []string{nm})
			x.AddAxiom("syn."+nm, x.Forall(vars, x.Eq(lhs, low), []*Term{lhs}), []string{nm})
		}
	}
	x.fuelOf = savedFuel
}

func (x *Exec) ufTerm(u *SpecUF, fuel int, vars []*Term) *Term {
	v := x.ufApp(u, fuel, vars).(*Term)
	if strings.HasPrefix(v.Sort, "Sl_") {
		return x.SlSeq(v)
	}
	return v
}

// ufBody evaluates the body on bound variables.
func (x *Exec) ufBody(u *SpecUF, fuel int) (*Term, []*Term) {
	st := &State{heap: map[string]*Term{"#spec": x.True()}, cells: map[int]Val{}, stamps: map[string]int{}, wm: x.Int(0)}
	st.old = st
	var args []Val
	var vars []*Term
	for i, p := range u.fn.Params {
		srt := x.SortOf(p.Type())
		if strings.HasPrefix(srt, "Sl_") {
			sq := x.SeqSort(p.Type().Underlying().(*types.Slice).Elem())
			v := x.Var(fmt.Sprintf("%s.p%d", u.name, i), sq)
			vars = append(vars, v)
			args = append(args, x.MkSl(x.False(), v))
			continue
		}
		v := x.Var(fmt.Sprintf("%s.p%d", u.name, i), srt)
		vars = append(vars, v)
		args = append(args, v)
	}
	savedDep := x.specDep
	v := x.evalFn(u.fn, args, nil, st)
	x.specDep = savedDep
	body := x.term(st, v)
	if strings.HasPrefix(body.Sort, "Sl_") {
		body = x.SlSeq(body)
	}
	for _, c := range u.comps {
		vars = append(vars, x.Var("h."+c, x.compSort[c]))
	}
	return body, vars
}

// ---- ghost vocabulary

func isMapGhost(t types.Type) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == "Map_" && n.TypeArgs().Len() == 2
}

func (e *Enc) mapGhostSort(t types.Type) string {
	n := t.(*types.Named)
	return arrSort(e.SortOf(n.TypeArgs().At(0)), e.OptSort(e.SortOf(n.TypeArgs().At(1))))
}

func (x *Exec) preludeCall(fr *Frame, st *State, fn *ssa.Function, args []Val, s *ssa.Call) Val {
	name := fn.Name()
	if o := fn.Origin(); o != nil {
		name = o.Name()
	}
	targ := func(i int) types.Type { return fn.TypeArgs()[i] }
	switch name {
	case "same_":
		return x.specSame(st, args[0], args[1], targ(0))
	case "old_":
		if st.old == nil {
			bail("old_ without an entry state")
		}
		return x.evalClosure(args[0].(*Closure), nil, x.withLocals(st.old, st))
	case "entry_":
		if st.entry == nil {
			bail("entry_ outside a loop candidate")
		}
		e := x.withLocals(st.entry, st)
		e.old = st.old
		return x.evalClosure(args[0].(*Closure), nil, e)
	case "implies_":
		return x.Implies(x.term(st, args[0]), x.term(st, args[1]))
	case "iff_":
		return x.Eq(x.term(st, args[0]), x.term(st, args[1]))
	case "cond_":
		return x.Ite(x.term(st, args[0]), x.term(st, args[1]), x.term(st, args[2]))
	case "seq_":
		return x.comprehension(st, x.term(st, args[0]), args[1].(*Closure), targ(0))
	case "mapOf_":
		return x.mapOf(st, args[0].(*Closure), args[1].(*Closure), targ(0), targ(1))
	case "sealed_":
		n, _ := x.strLit(x.term(st, args[0]))
		var as []*Term
		for _, v := range varargs(x, st, args[2]) {
			as = append(as, x.rawTerm(st, v))
		}
		atom := x.App("u."+n, "Bool", as...)
		if !x.sealing {
			return atom
		}
		x.sealing = false
		c := x.term(st, x.evalClosure(args[1].(*Closure), nil, st))
		x.sealing = true
		return x.Or(atom, c)
	case "forall_", "exists_":
		t := targ(0)
		c := args[0].(*Closure)
		x.qn++
		v := x.Var(fmt.Sprintf("q%d.%s", x.quantID(c.Fn), sanitize(x.SortOf(t))), x.SortOf(t))
		body := x.term(st, x.evalClosure(c, []Val{v}, st))
		if name == "forall_" {
			return x.Forall([]*Term{v}, body)
		}
		return x.Exists([]*Term{v}, body)
	case "fresh_":
		l := x.term(st, unlazy(x, st, args[0]))
		if l.Sort == "Any" {
			l = x.anyLoc(st, l)
		}
		wm := x.wm0()
		if st.old != nil {
			wm = st.old.wm
		}
		return x.And(x.Le(wm, x.Root(l)), x.Lt(x.Root(l), st.wm), x.Not(x.Eq(l, x.NilLoc())))
	case "is_":
		if al, ok := args[0].(*AnyLazy); ok {
			return x.Bool(types.Identical(al.Typ, targ(0)))
		}
		if types.IsInterface(targ(0)) {
			return x.AnyImplements(targ(0), x.term(st, args[0]))
		}
		return x.IsAny(targ(0), x.term(st, args[0]))
	case "as_":
		if al, ok := args[0].(*AnyLazy); ok {
			return al.V
		}
		if types.IsInterface(targ(0)) {
			return x.term(st, args[0])
		}
		return x.AnyVal(targ(0), x.term(st, args[0]))
	case "contents_":
		mt := types.NewMap(targ(0), targ(1))
		m := x.term(st, args[0])
		if m.Sort != "Loc" {
			return m
		}
		return x.mapCont(st, m, mt)
	case "empty_":
		o := x.OptSort(x.SortOf(targ(1)))
		return x.ConstArr(arrSort(x.SortOf(targ(0)), o), x.None(o))
	case "get_":
		o := x.Select(x.term(st, args[0]), x.term(st, args[1]))
		return x.Ite(x.IsSome(o), x.OptVal(o), x.zero(targ(1)))
	case "has_":
		return x.IsSome(x.Select(x.term(st, args[0]), x.term(st, args[1])))
	case "put_":
		m := x.term(st, args[0])
		_, o := arrSorts(m.Sort)
		return x.Store(m, x.term(st, args[1]), x.Some(o, x.term(st, args[2])))
	case "del_":
		m := x.term(st, args[0])
		_, o := arrSorts(m.Sort)
		return x.Store(m, x.term(st, args[1]), x.None(o))
	case "fn_":
		n, _ := x.strLit(x.term(st, args[0]))
		var as []*Term
		for _, v := range varargs(x, st, args[1]) {
			as = append(as, x.rawTerm(st, v))
		}
		srt := x.SortOf(targ(0))
		if strings.HasPrefix(srt, "Sl_") {
			return x.MkSl(x.False(), x.App("u."+n, x.SeqSort(targ(0).Underlying().(*types.Slice).Elem()), as...))
		}
		return x.App("u."+n, srt, as...)
	case "pos_":
		return x.xmlPos(st, x.anyLoc(st, args[0]))
	case "src_":
		return x.xmlSrc(st, x.anyLoc(st, args[0]))
	case "typeName_":
		return x.anyName(st, args[0])
	case "call_":
		f := unlazy(x, st, args[0])
		al, ok := args[0].(*AnyLazy)
		if !ok {
			bail("call_ of an interface")
		}
		sig := al.Typ.Underlying().(*types.Signature)
		var as []Val
		for _, v := range varargs(x, st, args[1]) {
			if l, ok := v.(*AnyLazy); ok {
				as = append(as, l.V)
			} else {
				as = append(as, v)
			}
		}
		return x.applyFn(st, x.term(st, f), sig, as)
	case "body_":
		return x.bodyFact(st, args)
	}
	bail("ghost function %s", name)
	return nil
}

func (x *Exec) quantID(fn *ssa.Function) int {
	if x.quantIDs == nil {
		x.quantIDs = map[*ssa.Function]int{}
	}
	n, ok := x.quantIDs[fn]
	if !ok {
		n = len(x.quantIDs) + 1
		x.quantIDs[fn] = n
	}
	return n
}

// withLocals: the heap of one state with the local cells of another.
func (x *Exec) withLocals(h, l *State) *State {
	n := h.clone()
	for k, v := range l.cells {
		n.cells[k] = v
	}
	return n
}

// specSame is mathematical equality: floats are compared as values (bitwise up
// to NaN payload), slices element by element regardless of nil.
func (x *Exec) specSame(st *State, a, b Val, t types.Type) *Term {
	ta, tb := x.term(st, a), x.term(st, b)
	if strings.HasPrefix(ta.Sort, "Sl_") {
		return x.Eq(x.SlSeq(ta), x.SlSeq(tb))
	}
	return x.Eq(ta, tb)
}

// abstractOver replaces the maximal parts of body that do not depend on v by
// variables.
func (x *Exec) abstractOver(body, v *Term) (skel *Term, params, vars []*Term) {
	dep := map[*Term]bool{}
	seen := map[*Term]bool{}
	bound := map[*Term]bool{v: true}
	var bind func(t *Term)
	bind = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, q := range t.Vars {
			bound[q] = true
		}
		for _, a := range t.Args {
			bind(a)
		}
	}
	bind(body)
	seen = map[*Term]bool{}
	var mark func(t *Term) bool
	mark = func(t *Term) bool {
		if bound[t] {
			return true
		}
		if seen[t] {
			return dep[t]
		}
		seen[t] = true
		d := len(t.Vars) > 0
		for _, a := range t.Args {
			if mark(a) {
				d = true
			}
		}
		dep[t] = d
		return d
	}
	mark(body)
	m := map[*Term]*Term{}
	done := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if done[t] || bound[t] {
			return
		}
		done[t] = true
		if !dep[t] {
			if t.Op == "true" || t.Op == "false" || strings.HasPrefix(t.Op, "#") {
				return
			}
			p := x.Var(fmt.Sprintf("seqp%d.%s", len(params), sanitize(t.Sort)), t.Sort)
			m[t] = p
			params = append(params, t)
			vars = append(vars, p)
			return
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	walk(body)
	return x.Subst(body, m), params, vars
}

// mapOf: the map with the entries f decides.
func (x *Exec) mapOf(st *State, hasF, valF *Closure, kt, vt types.Type) Val {
	ks := x.SortOf(kt)
	o := x.OptSort(x.SortOf(vt))
	v := x.Var("mapk."+sanitize(ks), ks)
	h := x.term(st, x.evalClosure(hasF, []Val{v}, st))
	b := x.term(st, x.evalClosure(valF, []Val{v}, st))
	skel, params, vars := x.abstractOver(x.Ite(h, x.Some(o, b), x.None(o)), v)
	id, ok := x.seqSyms[skel]
	srt := arrSort(ks, o)
	if !ok {
		id = len(x.seqSyms) + 1
		if x.seqSyms == nil {
			x.seqSyms = map[*Term]int{}
		}
		x.seqSyms[skel] = id
		nm := fmt.Sprintf("map.%d", id)
		sel := x.Select(x.App(nm, srt, vars...), v)
		x.AddAxiom(nm+".at", x.Forall(append(append([]*Term{}, vars...), v), x.Eq(sel, skel), []*Term{sel}), []string{nm})
	}
	return x.App(fmt.Sprintf("map.%d", id), srt, params...)
}

// comprehension: the sequence of n values f(0) ... f(n-1).
func (x *Exec) comprehension(st *State, n *Term, f *Closure, elem types.Type) Val {
	v := x.Var("seqi", "Int")
	body := x.term(st, x.evalClosure(f, []Val{v}, st))
	skel, params, vars := x.abstractOver(body, v)
	id, ok := x.seqSyms[skel]
	sq := x.SeqSort(elem)
	if !ok {
		id = len(x.seqSyms) + 1
		if x.seqSyms == nil {
			x.seqSyms = map[*Term]int{}
		}
		x.seqSyms[skel] = id
		nm := fmt.Sprintf("seq.%d", id)
		nv := x.Var("seqn", "Int")
		s := x.App(nm, sq, append(append([]*Term{}, vars...), nv)...)
		x.AddAxiom(nm+".len", x.Forall(append(append([]*Term{}, vars...), nv), x.Eq(x.Len(s), x.Ite(x.Lt(nv, x.Int(0)), x.Int(0), nv)), []*Term{s}), []string{nm})
		at := x.At(s, v)
		x.AddAxiom(nm+".at", x.Forall(append(append([]*Term{}, vars...), nv, v), x.Implies(x.And(x.Le(x.Int(0), v), x.Lt(v, nv)), x.Eq(at, skel)), []*Term{at}), []string{nm})
	}
	return x.MkSl(x.False(), x.App(fmt.Sprintf("seq.%d", id), sq, append(append([]*Term{}, params...), n)...))
}

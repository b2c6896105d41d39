package main

// Calls: contracts, inlining, function values.

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	Name string
	Tags []string
	F    *Closure
}

type Clauses struct {
	Requires []Clause
	Ensures  []Clause
	Shows    []Clause // proved, not used by callers
	Mods     []Val
	ModTypes []types.Type
	ModAll   []Val
	Cands    []*Cand
	Assumes  []Clause
	Confined []Val
	Determ   []DetClause
	Decr     *Closure // gets smaller in recursive calls
}

// DetClause: expressions on which any two runs from the same state agree
type DetClause struct {
	Name string
	Tags []string
	What []*Closure
}

type ModItem struct {
	comp string
	loc  *Term // nil: any
	srt  string
}

type ModSet struct{ items []ModItem }

func (m *ModSet) covers(x *Exec, comp string, l *Term) []*Term {
	var out []*Term
	for _, it := range m.items {
		if it.comp != comp {
			continue
		}
		if it.loc == nil {
			return []*Term{x.True()}
		}
		out = append(out, x.Eq(it.loc, l))
	}
	return out
}

func parseName(n string) ([]string, string) {
	i := strings.LastIndex(n, ".")
	if i < 0 {
		return nil, n
	}
	tags := strings.Split(n[:i], ",")
	for _, t := range tags {
		if len(t) < 2 || t[0] != 'C' {
			return nil, n
		}
	}
	return tags, n[i+1:]
}

// collect runs the ghost function of a contract on the given arguments and
// gathers its clauses.
func (x *Exec) collect(g *ssa.Function, args []Val, at *State) *Clauses {
	cl := &Clauses{}
	st := at.clone() // expressions of the modifies list are read in this state
	fr := &Frame{fn: g, regs: map[ssa.Value]Val{}, info: x.info(g)}
	for i, p := range g.Params {
		fr.regs[p] = args[i]
	}
	x.specDep++
	defer func() { x.specDep-- }()
	if len(g.Blocks) != 1 {
		bail("contract %s is not straight-line", g.Name())
	}
	for _, in := range g.Blocks[0].Instrs {
		switch s := in.(type) {
		case *ssa.Return:
		case *ssa.Call:
			c := s.Call.StaticCallee()
			if c == nil || !x.P.prelude(c) {
				x.specInstr(fr, st, in)
				continue
			}
			name := c.Name()
			if o := c.Origin(); o != nil {
				name = o.Name()
			}
			var as []Val
			for _, a := range s.Call.Args {
				as = append(as, x.val(fr, st, a))
			}
			str := func(i int) string {
				v, ok := x.strLit(as[i].(*Term))
				if !ok {
					bail("clause name")
				}
				return v
			}
			switch name {
			case "requires_":
				tags, n := parseName(str(0))
				cl.Requires = append(cl.Requires, Clause{n, tags, as[1].(*Closure)})
			case "ensures_":
				tags, n := parseName(str(0))
				cl.Ensures = append(cl.Ensures, Clause{n, tags, as[1].(*Closure)})
			case "shows_":
				tags, n := parseName(str(0))
				cl.Shows = append(cl.Shows, Clause{n, tags, as[1].(*Closure)})
			case "decreases_":
				cl.Decr = as[0].(*Closure)
			case "confined_":
				al, ok := as[0].(*AnyLazy)
				if !ok {
					bail("confined_")
				}
				cl.Confined = append(cl.Confined, al.V)
			case "assume_":
				cl.Assumes = append(cl.Assumes, Clause{str(0), nil, as[1].(*Closure)})
			case "determined_":
				tags, n := parseName(str(0))
				d := DetClause{Name: n, Tags: tags}
				for _, v := range varargs(x, st, as[1]) {
					d.What = append(d.What, v.(*AnyLazy).V.(*Closure))
				}
				cl.Determ = append(cl.Determ, d)
			case "modifies_", "modifiesAll_":
				for _, v := range varargs(x, st, as[0]) {
					if name == "modifies_" {
						cl.Mods = append(cl.Mods, v)
					} else {
						cl.ModAll = append(cl.ModAll, v)
					}
				}
			case "candidate_":
				al := as[0].(*AnyLazy)
				cl.Cands = append(cl.Cands, newCand(al.V.(*Closure)))
			default:
				x.specInstr(fr, st, in)
			}
		default:
			x.specInstr(fr, st, in)
		}
	}
	for id, v := range st.cells {
		x.ghost[id] = v
	}
	return cl
}

func varargs(x *Exec, st *State, v Val) []Val {
	switch a := v.(type) {
	case *VarArgs:
		return a.V
	case *Term:
		// nil slice: no arguments
		return nil
	case *SliceVal:
		t := x.SlSeq(x.sliceTerm(st, a))
		var out []Val
		for strings.HasPrefix(t.Op, "snoc.") {
			out = append([]Val{t.Args[1]}, out...)
			t = t.Args[0]
		}
		return out
	}
	bail("varargs")
	return nil
}

// modItems expands the modifies list of a contract in a state.
func (x *Exec) modItems(st *State, cl *Clauses) []ModItem {
	var out []ModItem
	var obj func(l *Term, t types.Type)
	field := func(l *Term, t types.Type, i int) {
		ft := t.Underlying().(*types.Struct).Field(i).Type()
		if isStruct(ft) {
			obj(x.subLoc(l, t, i), ft)
			return
		}
		c, s := x.fieldComp(t, i)
		out = append(out, ModItem{c, l, s})
	}
	obj = func(l *Term, t types.Type) {
		if !isStruct(t) {
			c, s := x.boxComp(t)
			out = append(out, ModItem{c, l, s})
			return
		}
		for i := 0; i < t.Underlying().(*types.Struct).NumFields(); i++ {
			field(l, t, i)
		}
	}
	for _, v := range cl.Mods {
		al, ok := v.(*AnyLazy)
		if !ok {
			// an interface value: whatever it points to is unknown
			bail("modifies of an interface")
		}
		switch p := al.V.(type) {
		case *FieldPtr:
			field(p.Loc, p.Typ, p.Field)
		case *Term:
			switch al.Typ.Underlying().(type) {
			case *types.Map:
				c, s := x.mapComp(al.Typ)
				out = append(out, ModItem{c, p, s})
			case *types.Pointer:
				obj(p, deref(al.Typ))
			default:
				bail("modifies %s", al.Typ)
			}
		default:
			bail("modifies %T", al.V)
		}
	}
	for _, v := range cl.ModAll {
		al := v.(*AnyLazy)
		switch p := al.V.(type) {
		case *FieldPtr:
			c, s := x.fieldComp(p.Typ, p.Field)
			out = append(out, ModItem{c, nil, s})
		case *Term:
			if _, ok := al.Typ.Underlying().(*types.Map); ok {
				c, s := x.mapComp(al.Typ)
				out = append(out, ModItem{c, nil, s})
				continue
			}
			t := deref(al.Typ)
			for i := 0; i < t.Underlying().(*types.Struct).NumFields(); i++ {
				if isStruct(t.Underlying().(*types.Struct).Field(i).Type()) {
					bail("modifiesAll of nested struct")
				}
				c, s := x.fieldComp(t, i)
				out = append(out, ModItem{c, nil, s})
			}
		default:
			bail("modifiesAll %T", al.V)
		}
	}
	return out
}

func (x *Exec) call(fr *Frame, st *State, s *ssa.Call, k func(*State, Val)) {
	cc := &s.Call
	x.ownership(st, s)
	var args []Val
	for _, a := range cc.Args {
		args = append(args, x.val(fr, st, a))
	}
	if cc.IsInvoke() {
		x.invoke(fr, st, s, x.val(fr, st, cc.Value), args, k)
		return
	}
	switch f := x.val(fr, st, cc.Value).(type) {
	case *BuiltinVal:
		k(st, x.builtin(st, f.B, args, cc, s.Pos()))
	case *Closure:
		x.callFn(fr, st, f.Fn, args, f.Binds, s.Pos(), k)
	case *Term:
		x.callTerm(fr, st, f, args, cc, s.Pos(), k)
	default:
		bail("call of %T", f)
	}
}

// applyFn: the uninterpreted result of an opaque, pure function value.
func (x *Exec) applyFn(st *State, f *Term, sig *types.Signature, args []Val) *Term {
	if sig.Results().Len() != 1 {
		bail("opaque function value with %d results", sig.Results().Len())
	}
	as := []*Term{f}
	for i, a := range args {
		t := sig.Params().At(i).Type()
		if _, ok := t.Underlying().(*types.Map); ok {
			if tm := x.term(st, a); tm.Sort == "Loc" {
				as = append(as, x.mapCont(st, tm, t))
			} else {
				as = append(as, tm)
			}
			continue
		}
		as = append(as, x.term(st, a))
	}
	as = append(as, x.heapGet(st, "#world", "World"))
	return x.App("apply."+sanitize(sig.String()), x.SortOf(sig.Results().At(0).Type()), as...)
}

func (x *Exec) callTerm(fr *Frame, st *State, f *Term, args []Val, cc *ssa.CallCommon, pos token.Pos, k func(*State, Val)) {
	if c := x.clos[f.Op]; c != nil {
		x.callFn(fr, st, c.Fn, args, c.Binds, pos, k)
		return
	}
	sig := cc.Value.Type().Underlying().(*types.Signature)
	x.safety(st, pos, "call of nil function", x.Not(x.Eq(f, x.Const("fn.nil", "Fn"))))
	x.assumed["function values of type "+sig.String()+" are pure (their bodies are checked where they are made)"] = true
	r := x.applyFn(st, f, sig, args)
	if n, ok := cc.Value.Type().(*types.Named); ok && n.Obj().Pkg() != nil {
		if g := x.P.FnTypes[n.Obj().Pkg().Name()+"."+n.Obj().Name()]; g != nil {
			for _, c := range x.collect(g, append(append([]Val{f}, args...), r), st).Ensures {
				st.assume(x.Ctx, x.evalBool(c.F, st))
			}
		}
	}
	k(st, r)
}

func (x *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, args, binds []Val, pos token.Pos, k func(*State, Val)) {
	if c := x.P.Contracts[fn]; c != nil {
		x.applyContract(st, c.Name, c.Ghost, fn.Signature, args, pos, k)
		return
	}
	if h := externals[extName(fn)]; h != nil {
		h(x, st, &extCall{fn: fn, args: args, pos: pos, k: k})
		return
	}
	if !x.inRepo(fn) || len(fn.Blocks) == 0 {
		bail("call of %s, which has neither contract nor model", fn)
	}
	for _, f := range x.inlining {
		if f == fn {
			bail("recursive function %s has no contract", fn)
		}
	}
	if len(x.inlining) > 12 {
		bail("inlining too deep")
	}
	x.inlined[fnName(fn)] = true
	nf := &Frame{fn: fn, regs: map[ssa.Value]Val{}, info: x.info(fn), depth: fr.depth + 1, up: fr}
	for i, p := range fn.Params {
		nf.regs[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		nf.regs[v] = binds[i]
	}
	saved := append([]*ssa.Function(nil), x.inlining...)
	x.inlining = append(saved[:len(saved):len(saved)], fn)
	mine := x.inlining
	nf.ret = func(st2 *State, res []Val) {
		x.inlining = saved
		if len(res) == 1 {
			k(st2, res[0])
		} else {
			k(st2, TupleVal(res))
		}
		x.inlining = mine
	}
	x.run(nf, fn.Blocks[0], 0, st)
	x.inlining = saved
}

func (x *Exec) inRepo(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil { // the wrapper of a method value or expression
		return f.Object() != nil && f.Object().Pkg() != nil && strings.HasPrefix(f.Object().Pkg().Path(), modPath)
	}
	return strings.HasPrefix(f.Pkg.Pkg.Path(), modPath)
}

func (x *Exec) freshResult(name string, t types.Type, birth *Term) Val {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		sq := x.freshOf(name, x.SeqSort(u.Elem()), birth)
		nl := x.freshOf(name+".nil", "Bool", birth)
		return x.MkSl(nl, sq)
	}
	return x.freshOf(name, x.SortOf(t), birth)
}

func (x *Exec) applyContract(st *State, name string, g *ssa.Function, sig *types.Signature, args []Val, pos token.Pos, k func(*State, Val)) {
	x.called[name] = true
	short := name[strings.LastIndex(name, ".")+1:]
	n := len(g.Params) - sig.Results().Len()
	if len(args) != n {
		bail("contract %s: %d arguments for %d", name, len(args), n)
	}
	for i := range args {
		x.escape(st, args[i])
		// interface arguments become terms
		if sl, ok := args[i].(*SliceVal); ok {
			args[i] = x.sliceTerm(st, sl)
		}
	}
	all := append([]Val(nil), args...)
	for i := 0; i < sig.Results().Len(); i++ {
		all = append(all, &Opaque{"result in precondition"})
	}
	cl := x.collect(g, all, st)
	savedOld := st.old
	st.old = st
	for _, c := range cl.Requires {
		tags := c.Tags
		if tags == nil {
			tags = []string{"C24"}
		}
		f := x.evalBool(c.F, st)
		x.sealing = true
		g := x.evalBool(c.F, st)
		x.sealing = false
		x.oblige(st, "requires", "precondition "+c.Name+" of "+name, tags, pos, g)
		st.assume(x.Ctx, f)
	}
	if cl.Decr != nil && x.decr != nil && x.quiet == 0 {
		if f := x.P.byContract(g); f != nil && x.P.sameComponent(f, x.target) {
			now := x.term(st, x.evalClosure(cl.Decr, nil, st))
			x.oblige(st, "termination", "the measure gets smaller in a recursive call", x.progressTags(), pos, x.And(x.Le(x.Int(0), now), x.Lt(now, x.decr)))
		}
	}
	pre := st.clone()
	pre.old = pre
	items := x.modItems(st, cl)
	wm := x.Fresh("wm", "Int")
	st.wm = wm
	st.assume(x.Ctx, x.Le(pre.wm, wm))
	for _, it := range items {
		_, vs := arrSorts(it.srt)
		h := x.heapGet(st, it.comp, it.srt)
		if it.loc == nil {
			nh := x.freshOf(it.comp, it.srt, wm)
			x.frame(st, it.comp, x.freshOf("anyloc", "Loc", pre.wm), pos)
			st.heap[it.comp] = nh
			continue
		}
		x.frame(st, it.comp, it.loc, pos)
		v := x.freshHv(it.comp, vs, wm)
		nv := x.Store(h, it.loc, v)
		if strings.HasPrefix(it.comp, "M.") {
			nv = x.Ite(x.Eq(it.loc, x.NilLoc()), h, nv)
		}
		st.heap[it.comp] = nv
		if strings.HasPrefix(vs, "Sl_") {
			st.stamps["st."+it.comp]++
		}
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if isDecoder(sig.Params().At(i).Type()) {
			st.heap[xmlPosComp] = x.freshOf(xmlPosComp, locInt, wm)
			st.heap[xmlSrcComp] = x.freshOf(xmlSrcComp, locInt, wm)
		}
	}
	var res []Val
	for i := 0; i < sig.Results().Len(); i++ {
		res = append(res, x.freshResult("r."+short, sig.Results().At(i).Type(), wm))
	}
	for i := range res {
		all[n+i] = res[i]
	}
	cl = x.collect(g, all, pre)
	st.old = pre
	var fs []*Term
	for _, c := range cl.Ensures {
		fs = append(fs, x.evalBool(c.F, st))
	}
	st.old = savedOld
	// substitute results defined by an equation
	all2 := x.And(fs...)
	sub := map[*Term]*Term{}
	isRes := map[*Term]bool{}
	for _, r := range res {
		t := r.(*Term)
		if len(t.Args) == 0 {
			isRes[t] = true
		}
		for _, a := range t.Args {
			if len(a.Args) == 0 {
				isRes[a] = true
			}
		}
	}
	eqs := []*Term{all2}
	if all2.Op == "and" {
		eqs = all2.Args
	}
	for _, e := range eqs {
		if e.Op == "not" && isRes[e.Args[0]] {
			sub[e.Args[0]] = x.False()
		} else if isRes[e] {
			sub[e] = x.True()
		}
		if e.Op != "=" {
			continue
		}
		for i := 0; i < 2; i++ {
			a, b := e.Args[i], e.Args[1-i]
			if isRes[a] && sub[a] == nil && !mentions(b, isRes) {
				sub[a] = b
				break
			}
		}
	}
	if len(sub) > 0 {
		all2 = x.Subst(all2, sub)
		for i := range res {
			res[i] = x.Subst(res[i].(*Term), sub)
		}
		for c, h := range st.heap {
			_ = c
			_ = h
		}
	}
	st.assume(x.Ctx, all2)
	if len(res) == 1 {
		k(st, res[0])
	} else {
		k(st, TupleVal(res))
	}
}

func mentions(t *Term, set map[*Term]bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if set[t] {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (x *Exec) invoke(fr *Frame, st *State, s *ssa.Call, recv Val, args []Val, k func(*State, Val)) {
	m := s.Call.Method
	it := s.Call.Value.Type()
	// known dynamic type
	var dt types.Type
	var dv Val
	switch r := recv.(type) {
	case *AnyLazy:
		dt, dv = r.Typ, r.V
	case *Term:
		if t, ok := x.anyTyp[r.Op]; ok {
			dt, dv = t, r.Args[0]
		}
	}
	if dt != nil {
		fn := x.P.Prog.LookupMethod(dt, m.Pkg(), m.Name())
		if fn != nil && (x.P.Contracts[fn] != nil || len(fn.Blocks) > 0 && x.inRepo(fn) || externals[extName(fn)] != nil) {
			x.callFn(fr, st, fn, append([]Val{dv}, args...), nil, s.Pos(), k)
			return
		}
	}
	rt := x.term(st, recv)
	x.safety(st, s.Pos(), "method call on nil interface", x.Not(x.Eq(rt, x.NilAny())))
	key := ""
	if n, ok := it.(*types.Named); ok && n.Obj().Pkg() != nil {
		key = n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + m.Name()
	}
	if g := x.P.Invokes[key]; g != nil {
		sig := m.Type().(*types.Signature)
		x.applyContract(st, key, g, sig, append([]Val{rt}, args...), s.Pos(), k)
		return
	}
	if sig := m.Type().(*types.Signature); sig.Params().Len() == 0 && sig.Results().Len() == 1 && isString(sig.Results().At(0).Type()) {
		// Error() / String(): some function of the value
		x.assumed["methods "+m.Name()+"() string of values supplied by the caller do not panic and are pure"] = true
		k(st, x.App("method."+m.Name(), "Str", rt))
		return
	}
	bail("call of interface method %s.%s", it, m.Name())
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func (x *Exec) builtin(st *State, b *ssa.Builtin, args []Val, cc *ssa.CallCommon, pos token.Pos) Val {
	switch b.Name() {
	case "len", "cap":
		t := cc.Args[0].Type()
		switch t.Underlying().(type) {
		case *types.Slice:
			if b.Name() == "cap" {
				bail("cap")
			}
			if va, ok := args[0].(*VarArgs); ok {
				return x.Int(int64(len(va.V)))
			}
			return x.Len(x.SlSeq(x.sliceTerm(st, x.asSlice(st, args[0], t))))
		case *types.Basic:
			return x.StrLen(x.term(st, args[0]))
		case *types.Map:
			c := x.mapCont(st, x.term(st, args[0]), t)
			n := x.App("card."+sanitize(c.Sort), "Int", c)
			st.assume(x.Ctx, x.Le(x.Int(0), n))
			q := x.Var("kc", x.SortOf(t.Underlying().(*types.Map).Key()))
			st.assume(x.Ctx, x.Eq(x.Eq(n, x.Int(0)), x.Forall([]*Term{q}, x.Not(x.IsSome(x.Select(c, q))))))
			return n
		}
		bail("len of %s", t)
	case "append":
		t := cc.Args[0].Type()
		a := x.asSlice(st, args[0], t)
		at := x.sliceTerm(st, a)
		seq := x.SlSeq(at)
		x.escape(st, args[0])
		if isString(cc.Args[1].Type()) {
			bail("append of a string")
		}
		var bs *Term
		if va, ok := args[1].(*VarArgs); ok {
			for _, v := range va.V {
				x.escape(st, v)
				seq = x.Snoc(seq, x.term(st, v))
			}
			return x.MkSl(x.False(), seq)
		}
		bt := x.sliceTerm(st, x.asSlice(st, args[1], cc.Args[1].Type()))
		bs = x.SlSeq(bt)
		nilf := x.And(x.SlNil(at), x.Eq(x.Len(bs), x.Int(0)))
		return x.MkSl(nilf, x.AppSeq(seq, bs))
	case "delete":
		m := x.term(st, args[0])
		mt := cc.Args[0].Type()
		key := x.keyTerm(st, args[1], mt)
		cont := x.mapCont(st, m, mt)
		_, o := arrSorts(cont.Sort)
		x.setMap(st, m, mt, x.Store(cont, key, x.None(o)), pos)
		return TupleVal{}
	case "copy":
		d, ok := args[0].(*SliceVal)
		if !ok || d.Org != nil || d.Term != nil {
			bail("copy into a slice of unknown origin")
		}
		if st.stamps[fmt.Sprintf("frz#%d", d.Cell)] != 0 {
			bail("copy into a slice after it escaped")
		}
		if isString(cc.Args[1].Type()) {
			bail("copy of a string")
		}
		old := x.cell(st, d.Cell).(*Term)
		src := x.SlSeq(x.sliceTerm(st, x.asSlice(st, args[1], cc.Args[1].Type())))
		n, m := x.Len(old), x.Len(src)
		nv := src
		if n != m {
			nv = x.freshOf("copied", old.Sort, st.wm)
			i := x.Var("i", "Int")
			st.assume(x.Ctx, x.Eq(x.Len(nv), n))
			st.assume(x.Ctx, x.Forall([]*Term{i}, x.Implies(x.And(x.Le(x.Int(0), i), x.Lt(i, n)), x.Eq(x.At(nv, i), x.Ite(x.Lt(i, m), x.At(src, i), x.At(old, i)))), []*Term{x.At(nv, i)}))
		}
		st.cells[d.Cell] = nv
		return x.Ite(x.Le(n, m), n, m)
	case "print", "println":
		return TupleVal{}
	case "min", "max":
		a, c := x.term(st, args[0]), x.term(st, args[1])
		if len(args) == 2 && a.Sort == "Int" {
			if b.Name() == "min" {
				return x.Ite(x.Le(a, c), a, c)
			}
			return x.Ite(x.Le(a, c), c, a)
		}
	case "ssa:wrapnilchk":
		return args[0]
	}
	bail("builtin %s", b.Name())
	return nil
}

func extName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

type extCall struct {
	fn   *ssa.Function
	args []Val
	pos  token.Pos
	k    func(*State, Val)
}

var _ = fmt.Sprint

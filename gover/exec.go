package main

// Forward symbolic execution of SSA, one path at a time, in
// continuation-passing style.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Oblig struct {
	Name  string
	Tags  []string
	Kind  string // ensures, requires, safety, frame, lemma
	Fn    string
	Pos   string
	PC    []*Term
	Goal  *Term
	Trace []string
	// filled in by the prover
	Result  string
	Backend string
	Detail  string
	TimeMs  int64
}

type Exec struct {
	*Enc
	al        *aliasing
	ownTags   map[string]bool
	decr      *Term // the measure of the function on entry
	ownedSeen map[ssa.Instruction]bool
	P         *Program
	target    *ssa.Function
	tname     string
	quiet     int
	obls      []*Oblig
	births    map[string]*Term
	compPtr   map[string]string // heap components of pointers to named types: the type
	objNames  map[string]string // the same for constants
	subNames  map[*Term]string  // the type of parts of objects
	patience  int               // factor on the time for deciding loop invariants
	callRes   map[string]bool
	cands     []*Cand
	entrySt   *State
	nextCell  int
	ghost     map[int]Val // cells of contract functions
	clos      map[string]*Closure
	infos     map[*ssa.Function]*FnInfo
	mods      *ModSet
	qcache    map[string]QRes
	specRec   map[*ssa.Function]*SpecUF
	specDep   int
	inlining  []*ssa.Function
	assumed   map[string]bool // trusted externals / assumptions used
	called    map[string]bool // contracts relied on
	inlined   map[string]bool
	steps     int
	deadline  int
	reads     map[string]bool // heap components read while translating a spec function
	loopInfo  map[string]int
	invs      map[string][]string
	nPaths    int
	frameTag  []string
	budget    int
	compSort  map[string]string
	fuelOf    map[*SpecUF]int
	reachTab  map[*ssa.Function]map[*ssa.Function]bool
	quantIDs  map[*ssa.Function]int
	qn        int
	cellType  map[int]types.Type
	seqSyms   map[*Term]int

	havocBase  map[string]*havocInfo
	bodyProved []*Term
	sealing    bool
	proving    bool
	curClause  string
	curTags    []string
	bodyWM     *Term // set while the body of a function literal is checked
	unsatRets  int
}

func NewExec(p *Program, fn *ssa.Function, name string) *Exec {
	x := &Exec{Enc: NewEnc(p), P: p, target: fn, tname: name, births: map[string]*Term{}, ghost: map[int]Val{}, clos: map[string]*Closure{},
		infos: map[*ssa.Function]*FnInfo{}, qcache: map[string]QRes{}, specRec: map[*ssa.Function]*SpecUF{}, assumed: map[string]bool{}, called: map[string]bool{}, inlined: map[string]bool{},
		callRes: map[string]bool{}, loopInfo: map[string]int{}, cellType: map[int]types.Type{}, havocBase: map[string]*havocInfo{}, budget: 200000, invs: map[string][]string{}}
	return x
}

func (x *Exec) info(fn *ssa.Function) *FnInfo {
	fi := x.infos[fn]
	if fi == nil {
		fi = analyse(fn)
		x.infos[fn] = fi
	}
	return fi
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	ps := x.P.Fset.Position(p)
	f := ps.Filename
	if i := strings.LastIndex(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

// fresh constant of a Go type, with its birth.
func (x *Exec) freshOf(prefix, srt string, birth *Term) *Term {
	t := x.Fresh(prefix, srt)
	x.births[t.Op] = birth
	if n := x.compPtr[prefix]; n != "" {
		x.objNames[t.Op] = n
	}
	return t
}

// ---- obligations

func (x *Exec) oblige(st *State, kind, name string, tags []string, pos token.Pos, goal *Term) {
	if x.quiet > 0 {
		return
	}
	gs := x.splitGoal(goal)
	if len(gs) == 0 {
		x.obls = append(x.obls, &Oblig{Name: name, Tags: tags, Kind: kind, Fn: x.tname, Pos: x.pos(pos), Goal: goal, Result: "proved", Backend: "simplifier"})
	}
	for _, g := range gs {
		x.obls = append(x.obls, &Oblig{Name: name, Tags: tags, Kind: kind, Fn: x.tname, Pos: x.pos(pos), PC: append(st.pc.list(), g.hyp...), Goal: g.goal, Trace: append([]string(nil), st.trace...)})
	}
}

type subgoal struct {
	hyp  []*Term
	goal *Term
}

func (x *Exec) splitGoal(g *Term) []subgoal {
	switch g.Op {
	case "true":
		return nil
	case "and":
		var out []subgoal
		for _, a := range g.Args {
			out = append(out, x.splitGoal(a)...)
		}
		return out
	case "=>":
		out := x.splitGoal(g.Args[1])
		for i := range out {
			out[i].hyp = append([]*Term{g.Args[0]}, out[i].hyp...)
		}
		return out
	case "or":
		// one structured disjunct: the others become hypotheses
		pick := -1
		for i, a := range g.Args {
			switch a.Op {
			case "=>", "exists", "and", "forall", "or":
				if pick >= 0 {
					return []subgoal{{nil, g}}
				}
				pick = i
			}
		}
		if pick < 0 {
			break
		}
		var hyp []*Term
		for i, a := range g.Args {
			if i != pick {
				hyp = append(hyp, x.Not(a))
			}
		}
		out := x.splitGoal(g.Args[pick])
		for i := range out {
			out[i].hyp = append(append([]*Term(nil), hyp...), out[i].hyp...)
		}
		return out
	case "ite":
		if g.Sort == "Bool" {
			var out []subgoal
			out = append(out, x.splitGoal(x.Implies(g.Args[0], g.Args[1]))...)
			out = append(out, x.splitGoal(x.Implies(x.Not(g.Args[0]), g.Args[2]))...)
			return out
		}
	case "forall":
		m := map[*Term]*Term{}
		for _, v := range g.Vars {
			c := x.Fresh("sk", v.Sort)
			m[v] = c
		}
		return x.splitGoal(x.Subst(g.Args[0], m))
	case "=":
		a, b := g.Args[0], g.Args[1]
		if d, ok := x.dts[a.Sort]; ok && len(d.Ctors) == 1 && len(d.Ctors[0].Fields) > 0 && (strings.HasPrefix(a.Sort, "S_") || strings.HasPrefix(a.Sort, "Sl_")) && (x.IsCtorApp(a) || x.IsCtorApp(b) || a.Op == "ite" || b.Op == "ite") {
			var out []subgoal
			for _, s := range d.Ctors[0].Fields {
				out = append(out, x.splitGoal(x.Eq(x.Sel(s, a), x.Sel(s, b)))...)
			}
			return out
		}
		if a.Sort == "Bool" {
			return append(x.splitGoal(x.Implies(a, b)), x.splitGoal(x.Implies(b, a))...)
		}
	case "not":
		if in := g.Args[0]; in.Op == "or" {
			var out []subgoal
			for _, a := range in.Args {
				out = append(out, x.splitGoal(x.Not(a))...)
			}
			return out
		} else if in.Op == "exists" {
			return x.splitGoal(x.Forall(in.Vars, x.Not(in.Args[0])))
		}
	}
	return []subgoal{{nil, g}}
}

func (x *Exec) safety(st *State, pos token.Pos, what string, cond *Term) {
	if x.specDep > 0 {
		return
	}
	if cond.Op == "true" {
		return
	}
	for p := st.pc; p != nil; p = p.Parent {
		if p.T == cond {
			return
		}
	}
	x.oblige(st, "safety", "no-panic("+what+")", []string{"C24"}, pos, cond)
	st.assume(x.Ctx, cond)
}

// ---- heap

func (x *Exec) heapGet(st *State, comp, srt string) *Term {
	if x.reads != nil {
		x.reads[comp] = true
	}
	if x.compSort == nil {
		x.compSort = map[string]string{}
	}
	x.compSort[comp] = srt
	if t, ok := st.heap[comp]; ok {
		return t
	}
	if st.heap["#spec"] != nil {
		// translating a recursive spec function: bound variable
		t := x.Var("h."+comp, srt)
		st.heap[comp] = t
		return t
	}
	n := "H0." + comp
	if st.heap["#arb"] != nil {
		n = st.heap["#arb"].Op + "." + comp
	}
	t := x.Const(sanitize(n), srt)
	if n := x.compPtr[comp]; n != "" {
		x.objNames[t.Op] = n
	}
	if _, ok := x.births[t.Op]; !ok {
		x.births[t.Op] = x.wm0()
		if st.heap["#arb"] != nil && x.bodyWM != nil {
			x.births[t.Op] = x.bodyWM
		}
	}
	st.heap[comp] = t
	return t
}

func (x *Exec) wm0() *Term { return x.Const("wm0", "Int") }

func (x *Exec) fieldComp(t types.Type, i int) (string, string) {
	f := t.Underlying().(*types.Struct).Field(i)
	if n := pointeeName(f.Type()); n != "" {
		if x.compPtr == nil {
			x.compPtr, x.objNames = map[string]string{}, map[string]string{}
		}
		x.compPtr["H."+tk(t)+"."+f.Name()] = n
	}
	return "H." + tk(t) + "." + f.Name(), arrSort("Loc", x.SortOf(f.Type()))
}

func (x *Exec) fieldIDOf(t types.Type, i int) *Term {
	k := tk(t) + "." + t.Underlying().(*types.Struct).Field(i).Name()
	n, ok := x.fieldID[k]
	if !ok {
		n = len(x.fieldID) + 1
		x.fieldID[k] = n
	}
	return x.Int(int64(n))
}

func (x *Exec) boxComp(t types.Type) (string, string) {
	return "B." + tk(t), arrSort("Loc", x.SortOf(t))
}

func (x *Exec) mapComp(t types.Type) (string, string) {
	u := t.Underlying().(*types.Map)
	return "M." + tk(u), arrSort("Loc", x.ContSort(t))
}

func (x *Exec) subLoc(l *Term, t types.Type, i int) *Term {
	r := x.Mk("loc.sub", l, x.fieldIDOf(t, i))
	if n, ok := t.Underlying().(*types.Struct).Field(i).Type().(*types.Named); ok {
		if x.subNames == nil {
			x.subNames = map[*Term]string{}
		}
		x.subNames[r] = n.Obj().Name()
	}
	return r
}

func (x *Exec) loadObj(st *State, l *Term, t types.Type) *Term {
	if isStruct(t) && !isMapGhost(t) {
		s := t.Underlying().(*types.Struct)
		n := x.StructSort(t)
		var as []*Term
		for i := 0; i < s.NumFields(); i++ {
			as = append(as, x.loadField(st, l, t, i))
		}
		return x.Mk("mk."+n, as...)
	}
	c, srt := x.boxComp(t)
	return x.Select(x.heapGet(st, c, srt), l)
}

func (x *Exec) loadField(st *State, l *Term, t types.Type, i int) *Term {
	ft := t.Underlying().(*types.Struct).Field(i).Type()
	if isStruct(ft) {
		return x.loadObj(st, x.subLoc(l, t, i), ft)
	}
	c, srt := x.fieldComp(t, i)
	return x.Select(x.heapGet(st, c, srt), l)
}

func (x *Exec) setHeap(st *State, comp, srt string, l, v *Term) {
	h := x.heapGet(st, comp, srt)
	st.heap[comp] = x.Store(h, l, v)
}

// storeObj writes a whole object; check the frame unless fresh is known.
func (x *Exec) storeObj(st *State, l *Term, t types.Type, v *Term, pos token.Pos) {
	if isStruct(t) && !isMapGhost(t) {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			x.storeField(st, l, t, i, x.Field(t, i, v), pos)
		}
		return
	}
	c, srt := x.boxComp(t)
	x.frame(st, c, l, pos)
	x.setHeap(st, c, srt, l, v)
}

func (x *Exec) storeField(st *State, l *Term, t types.Type, i int, v *Term, pos token.Pos) {
	ft := t.Underlying().(*types.Struct).Field(i).Type()
	if isStruct(ft) {
		x.storeObj(st, x.subLoc(l, t, i), ft, v, pos)
		return
	}
	c, srt := x.fieldComp(t, i)
	x.frame(st, c, l, pos)
	x.setHeap(st, c, srt, l, v)
}

// frame: the store must hit an object allocated since entry or something the
// contract lists.
func (x *Exec) frame(st *State, comp string, l *Term, pos token.Pos) {
	if x.specDep > 0 {
		return
	}
	if x.allocated(l) {
		return
	}
	// the world of opaque function values changes
	if !strings.HasPrefix(comp, "M.map~lstring~r"+"evaluation.Value") {
		st.heap["#world"] = x.Fresh("world", "World")
	}
	if x.quiet > 0 {
		return
	}
	if x.bodyWM != nil {
		x.oblige(st, "frame", "frame("+comp+") of a function literal", x.frameTags(), pos, x.Le(x.bodyWM, x.Root(l)))
		return
	}
	alts := []*Term{x.Le(x.wm0(), x.Root(l))}
	if x.mods != nil {
		alts = append(alts, x.mods.covers(x, comp, l)...)
	}
	g := x.Or(alts...)
	x.oblige(st, "frame", "frame("+comp+")", x.frameTags(), pos, g)
}

func (x *Exec) frameTags() []string {
	if len(x.frameTag) > 0 {
		return x.frameTag
	}
	return []string{"C23"}
}

// allocated: syntactically an object allocated during this execution.
func (x *Exec) allocated(l *Term) bool {
	if x.bodyWM != nil {
		return false
	}
	for l.Op == "loc.sub" {
		l = l.Args[0]
	}
	if l.Op == "loc.obj" {
		id := l.Args[0]
		k, b := x.splitK(id)
		if b == nil {
			return false
		}
		return strings.HasPrefix(b.Op, "wm") && k >= 0
	}
	return false
}

func (x *Exec) alloc(st *State) *Term {
	l := x.Mk("loc.obj", st.wm)
	st.wm = x.Add(st.wm, x.Int(1))
	return l
}

func (x *Exec) mapCont(st *State, m *Term, t types.Type) *Term {
	if m.Op == "loc.nil" {
		return x.EmptyCont(t)
	}
	c, srt := x.mapComp(t)
	return x.Select(x.heapGet(st, c, srt), m)
}

func (x *Exec) setMap(st *State, m *Term, t types.Type, cont *Term, pos token.Pos) {
	c, srt := x.mapComp(t)
	x.frame(st, c, m, pos)
	x.setHeap(st, c, srt, m, cont)
}

// ---- zero values

func (x *Exec) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return x.False()
		case u.Info()&types.IsInteger != 0:
			return x.Int(0)
		case u.Info()&types.IsFloat != 0:
			return x.FLit(0, x.SortOf(t))
		case u.Info()&types.IsString != 0:
			return x.Str("")
		case u.Kind() == types.UntypedNil:
			return x.NilAny()
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return x.NilLoc()
	case *types.Signature:
		return x.Const("fn.nil", "Fn")
	case *types.Interface:
		return x.NilAny()
	case *types.Slice:
		return x.MkSl(x.True(), x.Empty(x.SeqSort(u.Elem())))
	case *types.Array:
		return x.Rep(x.SeqSort(u.Elem()), x.Int(u.Len()), x.zero(u.Elem()))
	case *types.Struct:
		n := x.StructSort(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, x.zero(u.Field(i).Type()))
		}
		return x.Mk("mk."+n, as...)
	}
	bail("zero of %s", t)
	return nil
}

// ---- values

func (x *Exec) val(fr *Frame, st *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constant(c)
	case *ssa.Function:
		return &Closure{Fn: c}
	case *ssa.Builtin:
		return &BuiltinVal{c}
	case *ssa.Global:
		return &GlobalPtr{c}
	}
	r, ok := fr.regs[v]
	if !ok {
		bail("register %s of %s undefined", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) constant(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	return x.constVal(c.Value, t)
}

func (x *Exec) constVal(v constant.Value, t types.Type) *Term {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		bail("constant of type %s", t)
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return x.Bool(constant.BoolVal(v))
	case b.Info()&types.IsInteger != 0:
		return x.IntS(constant.ToInt(v).ExactString())
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(v)
		return x.FLit(f, x.SortOf(t))
	case b.Info()&types.IsString != 0:
		return x.Str(constant.StringVal(v))
	}
	bail("constant %s", v)
	return nil
}

// term turns a value into an SMT term.
func (x *Exec) term(st *State, v Val) *Term {
	switch a := v.(type) {
	case *Term:
		return a
	case *SliceVal:
		return x.sliceTerm(st, a)
	case *Closure:
		if a.Term == nil {
			if len(a.Binds) == 0 {
				a.Term = x.Const("fn."+sanitize(a.Fn.String()), "Fn")
			} else {
				a.Term = x.Fresh("clo", "Fn")
			}
			x.clos[a.Term.Op] = a
			nz := x.Const("fn.nil", "Fn")
			x.AddAxiom("clo.nonnil."+a.Term.Op, x.Not(x.Eq(a.Term, nz)), []string{a.Term.Op, "fn.nil"})
		}
		return a.Term
	case *AnyLazy:
		return x.MkAny(a.Typ, x.term(st, a.V))
	case *FieldPtr:
		bail("address of field %s.%d used as a value", typeKey(a.Typ), a.Field)
	case *CellPtr:
		bail("address of a local variable used as a value")
	case *Opaque:
		bail("opaque value: %s", a.Why)
	}
	bail("no term for %T", v)
	return nil
}

func (x *Exec) sliceTerm(st *State, s *SliceVal) *Term {
	if s.Term != nil && s.Org == nil {
		return s.Term
	}
	if s.Org != nil {
		if st.stamps[x.stampKey(s.Typ)] != s.Stamp {
			cur := x.term(st, x.loadRaw(st, s.Org))
			if cur != s.Term {
				return s.Term
			}
		}
		return x.term(st, x.loadRaw(st, s.Org))
	}
	if s.Nil != nil {
		return x.MkSl(s.Nil, x.cell(st, s.Cell).(*Term))
	}
	return x.MkSl(x.False(), x.cell(st, s.Cell).(*Term))
}

// escape: the slice becomes reachable from elsewhere; no more writes through it.
func (x *Exec) escape(st *State, v Val) {
	if s, ok := v.(*SliceVal); ok && s.Org == nil && s.Term == nil {
		st.stamps[fmt.Sprintf("frz#%d", s.Cell)] = 1
	}
}

func (x *Exec) stampKey(t types.Type) string { return "st." + tk(t.Underlying()) }

func (x *Exec) cell(st *State, id int) Val {
	if v, ok := st.cells[id]; ok {
		return v
	}
	if v, ok := x.ghost[id]; ok {
		return v
	}
	bail("unknown cell")
	return nil
}

func (x *Exec) newCell(st *State, v Val) int {
	x.nextCell++
	st.cells[x.nextCell] = v
	return x.nextCell
}

// path access inside a value term
func (x *Exec) getPath(v Val, t types.Type, path []step) (Val, types.Type) {
	for _, s := range path {
		if s.idx != nil {
			et := t.Underlying().(*types.Array).Elem()
			if av, ok := v.([]Val); ok {
				n, isn := intLit(s.idx)
				if !isn || int(n) >= len(av) || n < 0 {
					bail("symbolic index into array")
				}
				v = av[n]
			} else {
				v = x.At(v.(*Term), s.idx)
			}
			t = et
			continue
		}
		vt, ok := v.(*Term)
		if !ok {
			bail("field of non-term")
		}
		v = x.Field(t, s.field, vt)
		t = t.Underlying().(*types.Struct).Field(s.field).Type()
	}
	return v, t
}

func (x *Exec) setPath(st *State, v Val, t types.Type, path []step, nv Val) Val {
	if len(path) == 0 {
		return nv
	}
	s := path[0]
	if s.idx != nil {
		et := t.Underlying().(*types.Array).Elem()
		if av, ok := v.([]Val); ok {
			n, isn := intLit(s.idx)
			if !isn || n < 0 || int(n) >= len(av) {
				bail("symbolic index into array")
			}
			out := append([]Val(nil), av...)
			out[n] = x.setPath(st, av[n], et, path[1:], nv)
			return out
		}
		old := x.At(v.(*Term), s.idx)
		return x.Upd(v.(*Term), s.idx, x.term(st, x.setPath(st, old, et, path[1:], nv)))
	}
	ft := t.Underlying().(*types.Struct).Field(s.field).Type()
	vt := v.(*Term)
	return x.WithField(t, s.field, vt, x.term(st, x.setPath(st, x.Field(t, s.field, vt), ft, path[1:], nv)))
}

// loadRaw loads without safety checks.
func (x *Exec) loadRaw(st *State, p Val) Val {
	switch a := p.(type) {
	case *CellPtr:
		v, _ := x.getPath(x.cell(st, a.ID), a.Typ, a.Path)
		return v
	case *FieldPtr:
		return x.loadField(st, a.Loc, a.Typ, a.Field)
	case *ElemPtr:
		t := a.Sl.Typ.Underlying().(*types.Slice).Elem()
		v, _ := x.getPath(x.At(x.SlSeq(x.sliceTerm(st, a.Sl)), a.Idx), t, a.Path)
		return v
	case *GlobalPtr:
		return x.global(a.G)
	}
	bail("load through %T", p)
	return nil
}

func (x *Exec) load(st *State, p Val, t types.Type, pos token.Pos) Val {
	var v Val
	if l, ok := p.(*Term); ok {
		x.safety(st, pos, "nil pointer", x.Not(x.Eq(l, x.NilLoc())))
		v = x.loadObj(st, l, t)
	} else {
		v = x.loadRaw(st, p)
	}
	if _, ok := t.Underlying().(*types.Slice); ok {
		if tm, ok := v.(*Term); ok {
			switch p.(type) {
			case *CellPtr, *FieldPtr:
				return &SliceVal{Org: p, Stamp: st.stamps[x.stampKey(t)], Term: tm, Typ: t}
			}
		}
	}
	return v
}

func (x *Exec) store(st *State, p Val, t types.Type, v Val, pos token.Pos) {
	switch a := p.(type) {
	case *Term:
		x.safety(st, pos, "nil pointer", x.Not(x.Eq(a, x.NilLoc())))
		x.escape(st, v)
		x.storeObj(st, a, t, x.term(st, v), pos)
	case *CellPtr:
		if _, ok := t.Underlying().(*types.Slice); ok {
			st.stamps[x.stampKey(t)]++
			if len(a.Path) > 0 {
				x.escape(st, v)
			}
		}
		if len(a.Path) > 0 {
			if _, isArr := x.cell(st, a.ID).([]Val); !isArr {
				v = x.term(st, v)
			}
		} else {
			x.escape(st, v)
			switch v.(type) {
			case *SliceVal:
				v = x.term(st, v)
			}
		}
		st.cells[a.ID] = x.setPath(st, x.cell(st, a.ID), a.Typ, a.Path, v)
	case *FieldPtr:
		if _, ok := t.Underlying().(*types.Slice); ok {
			st.stamps[x.stampKey(t)]++
			x.escape(st, v)
		}
		x.storeField(st, a.Loc, a.Typ, a.Field, x.term(st, v), pos)
	case *ElemPtr:
		x.escape(st, v)
		et := a.Sl.Typ.Underlying().(*types.Slice).Elem()
		cur := x.sliceTerm(st, a.Sl)
		seq := x.SlSeq(cur)
		nv := x.term(st, x.setPath(st, x.At(seq, a.Idx), et, a.Path, x.term(st, v)))
		ns := x.Upd(seq, a.Idx, nv)
		if a.Sl.Org != nil {
			if st.stamps[x.stampKey(a.Sl.Typ)] != a.Sl.Stamp {
				if c := x.term(st, x.loadRaw(st, a.Sl.Org)); c != a.Sl.Term {
					bail("write through a slice whose place was reassigned")
				}
			}
			nt := x.MkSl(x.SlNil(cur), ns)
			switch o := a.Sl.Org.(type) {
			case *CellPtr:
				st.cells[o.ID] = x.setPath(st, x.cell(st, o.ID), o.Typ, o.Path, nt)
			case *FieldPtr:
				x.storeField(st, o.Loc, o.Typ, o.Field, nt, pos)
			default:
				bail("write through slice from %T", o)
			}
			return
		}
		if a.Sl.Term != nil {
			bail("write to an element of a slice of unknown origin")
		}
		if st.stamps[fmt.Sprintf("frz#%d", a.Sl.Cell)] != 0 {
			bail("write to a slice after it escaped")
		}
		st.cells[a.Sl.Cell] = ns
	default:
		bail("store through %T", p)
	}
}

// global variables: only those that are never written after initialisation
// and never have their address taken are understood.
func (x *Exec) global(g *ssa.Global) Val {
	t := deref(g.Type())
	var init ssa.Value
	for _, sp := range x.P.SSA {
		for _, m := range sp.Members {
			f, ok := m.(*ssa.Function)
			if !ok {
				continue
			}
			_ = f
		}
	}
	bad := false
	var loads []*ssa.UnOp
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op != g {
						continue
					}
					switch i := in.(type) {
					case *ssa.UnOp:
						loads = append(loads, i)
					case *ssa.Store:
						if f.Name() == "init" && i.Addr == g && init == nil {
							init = i.Val
						} else {
							bad = true
						}
					default:
						bad = true
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			scan(a)
		}
	}
	fs := map[*ssa.Function]bool{}
	for _, f := range x.P.ByName {
		fs[f] = true
	}
	for _, sp := range x.P.SSA {
		if f := sp.Func("init"); f != nil {
			fs[f] = true
		}
	}
	for f := range fs {
		scan(f)
	}
	if bad {
		bail("global variable %s is written", g.Name())
	}
	if init == nil {
		return x.zero(t)
	}
	if c, ok := init.(*ssa.Const); ok {
		return x.constant(c)
	}
	if f, ok := init.(*ssa.Function); ok {
		return &Closure{Fn: f}
	}
	if tv := x.table(init, loads); tv != nil {
		return tv
	}
	n := x.Const("glob."+sanitize(g.String()), x.SortOf(t))
	x.births[n.Op] = x.wm0()
	if types.IsInterface(t) {
		x.AddAxiom("glob."+n.Op, x.Not(x.Eq(n, x.NilAny())), []string{n.Op})
	}
	return n
}

// table: a map built by the initialiser of a package variable from constant
// keys to functions or constants, and only ever looked up.
func (x *Exec) table(init ssa.Value, loads []*ssa.UnOp) *TableVal {
	mm, ok := init.(*ssa.MakeMap)
	if !ok {
		return nil
	}
	tv := &TableVal{Typ: mm.Type()}
	for _, r := range *mm.Referrers() {
		switch i := r.(type) {
		case *ssa.Store, *ssa.DebugRef:
		case *ssa.MapUpdate:
			k, ok := i.Key.(*ssa.Const)
			if !ok || i.Map != mm || i.Block() != mm.Block() {
				return nil
			}
			switch v := i.Value.(type) {
			case *ssa.Function, *ssa.Const:
				tv.Keys = append(tv.Keys, k)
				tv.Vals = append(tv.Vals, v)
			default:
				return nil
			}
		default:
			return nil
		}
	}
	for _, l := range loads {
		for _, r := range *l.Referrers() {
			switch i := r.(type) {
			case *ssa.DebugRef:
			case *ssa.Lookup:
				if i.X != l {
					return nil
				}
			default:
				return nil
			}
		}
	}
	return tv
}

// lookupTable branches over the entries of a constant table.
func (x *Exec) lookupTable(fr *Frame, st *State, s *ssa.Lookup, tv *TableVal, k func(*State, Val)) {
	key := x.term(st, x.val(fr, st, s.Index))
	done := func(st2 *State, v Val, has bool) {
		if !s.CommaOk {
			k(st2, v)
			return
		}
		h := x.False()
		if has {
			h = x.True()
		}
		k(st2, TupleVal{v, h})
	}
	var try func(st2 *State, i int)
	try = func(st2 *State, i int) {
		if i == len(tv.Keys) {
			done(st2, x.zero(tv.Typ.Underlying().(*types.Map).Elem()), false)
			return
		}
		c := x.goEq(key, x.term(st2, x.constant(tv.Keys[i])), tv.Typ.Underlying().(*types.Map).Key())
		x.branch(st2, c, func(st3 *State, yes bool) {
			if yes {
				done(st3, x.val(fr, st3, tv.Vals[i]), true)
				return
			}
			try(st3, i+1)
		})
	}
	try(st, 0)
}

// ---- paths

func (x *Exec) goto_(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	x.steps++
	if expired() {
		bail("time budget exhausted")
	}
	if x.steps > x.budget {
		bail("path budget exhausted")
	}
	// leaving loops?
	for len(fr.loops) > 0 {
		top := fr.loops[len(fr.loops)-1]
		if top.loop.blocks[to] {
			break
		}
		if top.quiet {
			return
		}
		fr.loops = fr.loops[:len(fr.loops)-1]
	}
	if l := fr.info.loops[to]; l != nil {
		if len(fr.loops) > 0 && fr.loops[len(fr.loops)-1].loop == l {
			// back edge
			top := fr.loops[len(fr.loops)-1]
			top.back(fr, from, st)
			return
		}
		if !l.blocks[from] && !x.unrolls(fr, from, l) {
			x.execLoop(fr, from, l, st)
			return
		}
	}
	x.phis(fr, from, to, st)
	x.run(fr, to, 0, st)
}

func (x *Exec) phis(fr *Frame, from, to *ssa.BasicBlock, st *State) {
	pi := -1
	for i, p := range to.Preds {
		if p == from {
			pi = i
		}
	}
	var vals []Val
	var ps []*ssa.Phi
	for _, in := range to.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
		vals = append(vals, x.val(fr, st, p.Edges[pi]))
	}
	for i, p := range ps {
		fr.regs[p] = x.grown(st, p, vals[i])
	}
}

func (x *Exec) run(fr *Frame, b *ssa.BasicBlock, i int, st *State) {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		switch s := in.(type) {
		case *ssa.Phi:
			continue
		case *ssa.If:
			c := x.term(st, x.val(fr, st, s.Cond))
			if n := len(fr.loops); n > 0 && fr.loops[n-1].conds != nil {
				*fr.loops[n-1].conds = append(*fr.loops[n-1].conds, c)
			}
			x.branch(st, c, func(st2 *State, taken bool) {
				fr2 := fr.clone()
				if taken {
					x.goto_(fr2, b, b.Succs[0], st2)
				} else {
					x.goto_(fr2, b, b.Succs[1], st2)
				}
			})
			return
		case *ssa.Jump:
			x.goto_(fr, b, b.Succs[0], st)
			return
		case *ssa.Return:
			var rs []Val
			for _, r := range s.Results {
				rs = append(rs, x.val(fr, st, r))
			}
			for _, l := range fr.loops {
				if l.quiet {
					return
				}
			}
			fr.ret(st, rs)
			return
		case *ssa.Panic:
			x.safety(st, s.Pos(), "explicit panic", x.False())
			return
		case *ssa.Call:
			i0 := i
			x.call(fr, st, s, func(st2 *State, res Val) {
				fr2 := fr.clone()
				fr2.regs[s] = x.grown(st2, s, res)
				x.run(fr2, b, i0+1, st2)
			})
			return
		case *ssa.TypeAssert:
			if s.CommaOk {
				i0 := i
				x.typeAssert(fr, st, s, func(st2 *State, res Val) {
					fr2 := fr.clone()
					fr2.regs[s] = res
					x.run(fr2, b, i0+1, st2)
				})
				return
			}
			x.simple(fr, st, in)
		case *ssa.Lookup:
			if tv, ok := x.val(fr, st, s.X).(*TableVal); ok {
				i0 := i
				x.lookupTable(fr, st, s, tv, func(st2 *State, res Val) {
					fr2 := fr.clone()
					fr2.regs[s] = res
					x.run(fr2, b, i0+1, st2)
				})
				return
			}
			x.simple(fr, st, in)
		case *ssa.Next:
			i0 := i
			x.next(fr, st, s, func(st2 *State, res Val) {
				fr2 := fr.clone()
				fr2.regs[s] = res
				x.run(fr2, b, i0+1, st2)
			})
			return
		default:
			x.simple(fr, st, in)
		}
	}
}

// branch forks on a condition, pruning infeasible sides.
func (x *Exec) branch(st *State, c *Term, k func(st *State, taken bool)) {
	if c.Op == "true" || c.Op == "false" {
		k(st, c.Op == "true")
		return
	}
	nc := x.Not(c)
	for p := st.pc; p != nil; p = p.Parent {
		if p.T == c {
			k(st, true)
			return
		}
		if p.T == nc {
			k(st, false)
			return
		}
	}
	canT := x.feasible(st, c)
	canF := true
	if canT {
		canF = x.feasible(st, nc)
	}
	if canT {
		s := st.clone()
		s.assume(x.Ctx, c)
		k(s, true)
	}
	if canF {
		s := st.clone()
		s.assume(x.Ctx, nc)
		k(s, false)
	}
}

func (x *Exec) feasible(st *State, c *Term) bool {
	// quantified facts are left out: pruning is only an optimisation
	x.groundOnly = true
	defer func() { x.groundOnly = false }()
	return x.query(append(st.pc.list(), c), 400) != QUnsat
}

// ---- instructions without control flow

func (x *Exec) simple(fr *Frame, st *State, in ssa.Instruction) {
	switch s := in.(type) {
	case *ssa.DebugRef, *ssa.RunDefers:
	case *ssa.Alloc:
		fr.regs[s] = x.allocInstr(fr, st, s)
	case *ssa.FieldAddr:
		fr.regs[s] = x.fieldAddr(st, x.val(fr, st, s.X), deref(s.X.Type()), s.Field, s.Pos())
	case *ssa.IndexAddr:
		fr.regs[s] = x.indexAddr(fr, st, s)
	case *ssa.Field:
		fr.regs[s] = x.Field(s.X.Type(), s.Field, x.term(st, x.val(fr, st, s.X)))
	case *ssa.Index:
		b := x.val(fr, st, s.X)
		i := x.term(st, x.val(fr, st, s.Index))
		if _, ok := s.X.Type().Underlying().(*types.Basic); ok {
			bt := x.term(st, b)
			x.safety(st, s.Pos(), "index out of range", x.And(x.Le(x.Int(0), i), x.Lt(i, x.StrLen(bt))))
			fr.regs[s] = x.App("strat", "Int", bt, i)
			return
		}
		if av, ok := b.([]Val); ok {
			n, isn := intLit(i)
			if !isn || int(n) >= len(av) {
				bail("array index")
			}
			fr.regs[s] = av[n]
			return
		}
		fr.regs[s] = x.At(b.(*Term), i)
	case *ssa.UnOp:
		fr.regs[s] = x.unop(fr, st, s)
	case *ssa.BinOp:
		fr.regs[s] = x.binop(st, s.Op, x.val(fr, st, s.X), x.val(fr, st, s.Y), s.X.Type(), s.Pos())
	case *ssa.Store:
		x.ownership(st, s)
		x.store(st, x.val(fr, st, s.Addr), deref(s.Addr.Type()), x.val(fr, st, s.Val), s.Pos())
	case *ssa.ChangeType:
		v := x.val(fr, st, s.X)
		if tm, ok := v.(*Term); ok && isStruct(s.Type()) && x.SortOf(s.Type()) != tm.Sort {
			v = x.convStruct(tm, s.X.Type(), s.Type())
		}
		fr.regs[s] = v
	case *ssa.Convert:
		fr.regs[s] = x.convert(st, x.val(fr, st, s.X), s.X.Type(), s.Type())
	case *ssa.ChangeInterface:
		v := x.val(fr, st, s.X)
		if al, ok := v.(*AnyLazy); ok && x.specDep > 0 {
			v = x.term(st, al) // an interface value, not the value inside
		}
		fr.regs[s] = v
	case *ssa.MakeInterface:
		v := x.val(fr, st, s.X)
		if x.specDep > 0 {
			fr.regs[s] = &AnyLazy{s.X.Type(), v}
			return
		}
		switch v.(type) {
		case *Term:
			func() {
				defer func() {
					if r := recover(); r != nil {
						if _, ok := r.(unsupportedErr); !ok {
							panic(r)
						}
						fr.regs[s] = &AnyLazy{s.X.Type(), v}
					}
				}()
				fr.regs[s] = x.MkAny(s.X.Type(), v.(*Term))
			}()
		default:
			x.escape(st, v)
			fr.regs[s] = &AnyLazy{s.X.Type(), v}
		}
	case *ssa.MakeClosure:
		c := &Closure{Fn: s.Fn.(*ssa.Function)}
		for _, b := range s.Bindings {
			c.Binds = append(c.Binds, x.val(fr, st, b))
		}
		fr.regs[s] = c
	case *ssa.MakeMap:
		l := x.alloc(st)
		c, srt := x.mapComp(s.Type())
		x.setHeap(st, c, srt, l, x.EmptyCont(s.Type()))
		fr.regs[s] = l
	case *ssa.MakeSlice:
		n := x.term(st, x.val(fr, st, s.Len))
		et := s.Type().Underlying().(*types.Slice).Elem()
		x.safety(st, s.Pos(), "negative length", x.Le(x.Int(0), n))
		if s.Cap != s.Len {
			cp := x.term(st, x.val(fr, st, s.Cap))
			x.safety(st, s.Pos(), "length above capacity", x.Le(n, cp))
		}
		id := x.newCell(st, x.Rep(x.SeqSort(et), n, x.zero(et)))
		x.cellType[id] = s.Type()
		fr.regs[s] = &SliceVal{Cell: id, Typ: s.Type(), NonNil: true}
	case *ssa.Slice:
		fr.regs[s] = x.sliceInstr(fr, st, s)
	case *ssa.Lookup:
		fr.regs[s] = x.lookup(fr, st, s)
	case *ssa.MapUpdate:
		m := x.term(st, x.val(fr, st, s.Map))
		x.safety(st, s.Pos(), "assignment to nil map", x.Not(x.Eq(m, x.NilLoc())))
		vv := x.val(fr, st, s.Value)
		x.escape(st, vv)
		k := x.keyTerm(st, x.val(fr, st, s.Key), s.Map.Type())
		cont := x.mapCont(st, m, s.Map.Type())
		_, o := arrSorts(cont.Sort)
		x.setMap(st, m, s.Map.Type(), x.Store(cont, k, x.Some(o, x.term(st, vv))), s.Pos())
	case *ssa.Range:
		if _, ok := s.X.Type().Underlying().(*types.Map); !ok {
			bail("range over %s", s.X.Type())
		}
		m := x.term(st, x.val(fr, st, s.X))
		ks := x.SortOf(s.X.Type().Underlying().(*types.Map).Key())
		ob := x.OptSort("Bool")
		id := x.newCell(st, x.ConstArr(arrSort(ks, ob), x.None(ob)))
		x.cellType[id] = visitedType(s.X.Type().Underlying().(*types.Map).Key())
		fr.regs[s] = &IterVal{Cell: id, Map: m, Typ: s.X.Type(), Start: x.mapCont(st, m, s.X.Type())}
	case *ssa.Extract:
		tv := x.val(fr, st, s.Tuple)
		t, ok := tv.(TupleVal)
		if !ok {
			bail("extract from %T", tv)
		}
		fr.regs[s] = t[s.Index]
	case *ssa.TypeAssert:
		fr.regs[s] = x.typeAssert1(fr, st, s)
	default:
		bail("instruction %T", in)
	}
}

func (x *Exec) keyTerm(st *State, k Val, mt types.Type) *Term {
	t := x.term(st, k)
	if t.Sort == "F64" || t.Sort == "F32" || t.Sort == "Any" {
		bail("map with %s keys", t.Sort)
	}
	return t
}

func (x *Exec) convStruct(v *Term, from, to types.Type) *Term {
	n := x.StructSort(to)
	s := to.Underlying().(*types.Struct)
	var as []*Term
	for i := 0; i < s.NumFields(); i++ {
		as = append(as, x.Field(from, i, v))
	}
	return x.Mk("mk."+n, as...)
}

func (x *Exec) allocInstr(fr *Frame, st *State, s *ssa.Alloc) Val {
	t := deref(s.Type())
	if fr.info.cells[s] || x.specDep > 0 {
		if a, ok := t.Underlying().(*types.Array); ok && a.Len() <= 64 {
			av := make([]Val, a.Len())
			for i := range av {
				av[i] = x.zero(a.Elem())
			}
			id := x.newCell(st, av)
			x.cellType[id] = t
			return &CellPtr{ID: id, Typ: t}
		}
		var z Val
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(unsupportedErr); !ok {
						panic(r)
					}
					z = &Opaque{"zero of " + t.String()}
				}
			}()
			z = x.zero(t)
		}()
		id := x.newCell(st, z)
		x.cellType[id] = t
		return &CellPtr{ID: id, Typ: t}
	}
	l := x.alloc(st)
	x.storeObj(st, l, t, x.zero(t), s.Pos())
	return l
}

func (x *Exec) fieldAddr(st *State, b Val, t types.Type, i int, pos token.Pos) Val {
	switch a := b.(type) {
	case *CellPtr:
		return &CellPtr{a.ID, a.Typ, append(append([]step(nil), a.Path...), step{field: i})}
	case *ElemPtr:
		return &ElemPtr{a.Sl, a.Idx, append(append([]step(nil), a.Path...), step{field: i})}
	case *Term:
		x.safety(st, pos, "nil pointer", x.Not(x.Eq(a, x.NilLoc())))
		ft := t.Underlying().(*types.Struct).Field(i).Type()
		if isStruct(ft) {
			return x.subLoc(a, t, i)
		}
		return &FieldPtr{a, t, i}
	}
	bail("field address of %T", b)
	return nil
}

func (x *Exec) asSlice(st *State, v Val, t types.Type) *SliceVal {
	switch a := v.(type) {
	case *SliceVal:
		return a
	case *Term:
		return &SliceVal{Term: a, Typ: t}
	}
	bail("slice from %T", v)
	return nil
}

func (x *Exec) indexAddr(fr *Frame, st *State, s *ssa.IndexAddr) Val {
	b := x.val(fr, st, s.X)
	i := x.term(st, x.val(fr, st, s.Index))
	if _, ok := s.X.Type().Underlying().(*types.Slice); ok {
		sl := x.asSlice(st, b, s.X.Type())
		n := x.Len(x.SlSeq(x.sliceTerm(st, sl)))
		x.safety(st, s.Pos(), "index out of range", x.And(x.Le(x.Int(0), i), x.Lt(i, n)))
		return &ElemPtr{Sl: sl, Idx: i}
	}
	if c, ok := b.(*CellPtr); ok {
		return &CellPtr{c.ID, c.Typ, append(append([]step(nil), c.Path...), step{idx: i})}
	}
	bail("index of %s", s.X.Type())
	return nil
}

func (x *Exec) unop(fr *Frame, st *State, s *ssa.UnOp) Val {
	v := x.val(fr, st, s.X)
	switch s.Op {
	case token.MUL:
		return x.load(st, v, deref(s.X.Type()), s.Pos())
	case token.NOT:
		return x.Not(x.term(st, v))
	case token.SUB:
		t := x.term(st, v)
		if t.Sort == "Int" {
			if n, ok := intLit(t); ok {
				return x.Int(-n)
			}
			return x.Sub(x.Int(0), t)
		}
		return x.FNeg(t)
	}
	bail("operator %s", s.Op)
	return nil
}

func (x *Exec) binop(st *State, op token.Token, av, bv Val, t types.Type, pos token.Pos) Val {
	// nil comparisons of things without terms
	if op == token.EQL || op == token.NEQ {
		if e := x.equal(st, av, bv, t); e != nil {
			if op == token.NEQ {
				return x.Not(e)
			}
			return e
		}
	}
	a, b := x.term(st, av), x.term(st, bv)
	switch a.Sort {
	case "Int":
		switch op {
		case token.ADD:
			return x.Add(a, b)
		case token.SUB:
			return x.Sub(a, b)
		case token.MUL:
			return x.mulInt(a, b)
		case token.QUO, token.REM:
			x.safety(st, pos, "division by zero", x.Not(x.Eq(b, x.Int(0))))
			n := "godiv"
			if op == token.REM {
				n = "gomod"
			}
			if m, ok := intLit(b); ok && m > 0 {
				if k, ok := intLit(a); ok {
					if op == token.REM {
						return x.Int(k % m)
					}
					return x.Int(k / m)
				}
				d := x.mk("div", "Int", a, b)
				r := x.mk("mod", "Int", a, b)
				if op == token.QUO {
					return x.Ite(x.Le(x.Int(0), a), d, x.App(n, "Int", a, b))
				}
				return x.Ite(x.Le(x.Int(0), a), r, x.App(n, "Int", a, b))
			}
			return x.App(n, "Int", a, b)
		case token.LSS:
			return x.Lt(a, b)
		case token.LEQ:
			return x.Le(a, b)
		case token.GTR:
			return x.Lt(b, a)
		case token.GEQ:
			return x.Le(b, a)
		case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
			if op == token.AND {
				if n, ok := intLit(b); ok && n == 1 {
					return x.Ite(x.Le(x.Int(0), a), x.mk("mod", "Int", a, x.Int(2)), x.App("goand", "Int", a, b))
				}
			}
			return x.App("bit."+sanitize(op.String()), "Int", a, b)
		}
	case "F64", "F32":
		switch op {
		case token.ADD:
			return x.FAdd(a, b)
		case token.SUB:
			return x.FSub(a, b)
		case token.MUL:
			return x.FMul(a, b)
		case token.QUO:
			return x.FDiv(a, b)
		case token.LSS:
			return x.FLt(a, b)
		case token.LEQ:
			return x.FLe(a, b)
		case token.GTR:
			return x.FLt(b, a)
		case token.GEQ:
			return x.FLe(b, a)
		}
	case "Str":
		switch op {
		case token.ADD:
			return x.Concat(a, b)
		case token.LSS:
			return x.App("strlt", "Bool", a, b)
		case token.GTR:
			return x.App("strlt", "Bool", b, a)
		case token.LEQ:
			return x.Not(x.App("strlt", "Bool", b, a))
		case token.GEQ:
			return x.Not(x.App("strlt", "Bool", a, b))
		}
	case "Bool":
		switch op {
		case token.AND, token.LAND:
			return x.And(a, b)
		case token.OR, token.LOR:
			return x.Or(a, b)
		}
	}
	bail("operator %s on %s", op, a.Sort)
	return nil
}

func (x *Exec) mulInt(a, b *Term) *Term {
	m, ok1 := intLit(a)
	n, ok2 := intLit(b)
	if ok1 && ok2 {
		return x.Int(m * n)
	}
	if ok1 && m == 1 {
		return b
	}
	if ok2 && n == 1 {
		return a
	}
	return x.mk("*", "Int", a, b)
}

// equal is Go's ==.
func (x *Exec) equal(st *State, av, bv Val, t types.Type) *Term {
	isNil := func(v Val) bool {
		tm, ok := v.(*Term)
		return ok && (tm.Op == "any.nil" || tm.Op == "loc.nil" || tm.Op == "fn.nil" || (strings.HasPrefix(tm.Op, "mk.Sl_") && tm.Args[0].Op == "true"))
	}
	for i := 0; i < 2; i++ {
		switch av.(type) {
		case *CellPtr, *FieldPtr, *ElemPtr, *GlobalPtr:
			if isNil(bv) {
				return x.False()
			}
			bail("comparison of addresses")
		case *AnyLazy:
			if isNil(bv) {
				return x.False()
			}
		case *Closure:
			if isNil(bv) {
				return x.False()
			}
		}
		av, bv = bv, av
	}
	a, b := x.term(st, av), x.term(st, bv)
	return x.goEq(a, b, t)
}

func (x *Exec) goEq(a, b *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		if strings.HasPrefix(b.Op, "mk.Sl_") && b.Args[0].Op == "true" {
			return x.SlNil(a)
		}
		if strings.HasPrefix(a.Op, "mk.Sl_") && a.Args[0].Op == "true" {
			return x.SlNil(b)
		}
		bail("slice comparison")
	case *types.Struct:
		var es []*Term
		for i := 0; i < u.NumFields(); i++ {
			es = append(es, x.goEq(x.Field(t, i, a), x.Field(t, i, b), u.Field(i).Type()))
		}
		return x.And(es...)
	case *types.Interface:
		if a.Sort == "Any" && b.Sort == "Any" {
			return x.AnyEq(a, b)
		}
	}
	if a.Sort != b.Sort {
		bail("comparison of %s and %s", a.Sort, b.Sort)
	}
	if a.Sort == "F64" || a.Sort == "F32" {
		return x.FEq(a, b)
	}
	return x.Eq(a, b)
}

func intRange(t types.Type) (bits int, signed bool) {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int, types.Int64, types.UntypedInt, types.UntypedRune:
		return 64, true
	case types.Int32:
		return 32, true
	case types.Int16:
		return 16, true
	case types.Int8:
		return 8, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	case types.Uint32:
		return 32, false
	case types.Uint16:
		return 16, false
	case types.Uint8:
		return 8, false
	}
	return 64, true
}

func (x *Exec) convert(st *State, v Val, from, to types.Type) Val {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		tm, ok := v.(*Term)
		if ok {
			// []byte(string) and the like
			f := "conv." + tk(from.Underlying()) + "." + tk(to.Underlying())
			return x.App(f, x.SortOf(to), tm)
		}
		bail("conversion %s to %s", from, to)
	}
	a := x.term(st, v)
	fi, ff, fs := fb.Info()&types.IsInteger != 0, fb.Info()&types.IsFloat != 0, fb.Info()&types.IsString != 0
	ti, tf, ts := tb.Info()&types.IsInteger != 0, tb.Info()&types.IsFloat != 0, tb.Info()&types.IsString != 0
	switch {
	case fi && ti:
		fbits, fsg := intRange(from)
		tbits, tsg := intRange(to)
		if (fsg == tsg && tbits >= fbits) || (!fsg && tsg && tbits > fbits) {
			return a
		}
		if n, ok := intLit(a); ok && n >= 0 && n < 128 {
			return a
		}
		return x.App(fmt.Sprintf("wrap.%d%v.%d%v", fbits, fsg, tbits, tsg), "Int", a)
	case fi && tf:
		bits, sg := intRange(from)
		if !sg && bits == 64 {
			// the same mathematical value
			return x.I2F(a, x.SortOf(to))
		}
		return x.I2F(a, x.SortOf(to))
	case ff && ti:
		if _, sg := intRange(to); !sg {
			return x.App("f2u."+a.Sort, "Int", a)
		}
		if bits, _ := intRange(to); bits != 64 {
			return x.App(fmt.Sprintf("f2i%d.%s", bits, a.Sort), "Int", a)
		}
		return x.F2I(a)
	case ff && tf:
		return x.FConv(a, x.SortOf(to))
	case fs && ts:
		return a
	case fi && ts:
		return x.App("rune2str", "Str", a)
	}
	bail("conversion %s to %s", from, to)
	return nil
}

func (x *Exec) sliceInstr(fr *Frame, st *State, s *ssa.Slice) Val {
	b := x.val(fr, st, s.X)
	bound := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.term(st, x.val(fr, st, v))
	}
	lo, hi := bound(s.Low), bound(s.High)
	if s.Max != nil {
		if _, ok := s.X.Type().Underlying().(*types.Slice); !ok || s.High == nil {
			bail("three-index slice")
		}
		// no more than the length is asked for
		n := x.Len(x.SlSeq(x.sliceTerm(st, x.asSlice(st, b, s.X.Type()))))
		mx := bound(s.Max)
		x.safety(st, s.Pos(), "slice bounds", x.And(x.Le(hi, mx), x.Le(mx, n)))
	}
	switch u := s.X.Type().Underlying().(type) {
	case *types.Pointer: // array
		c, ok := b.(*CellPtr)
		if !ok || len(c.Path) > 0 {
			bail("slice of array pointer")
		}
		av, ok := x.cell(st, c.ID).([]Val)
		if !ok {
			bail("slice of array")
		}
		if lo != nil || (hi != nil) {
			// make([]T, 0, 8) is an array slice with constant bounds
			l, h := 0, len(av)
			if lo != nil {
				n, ok := intLit(lo)
				if !ok {
					bail("slice of array")
				}
				l = int(n)
			}
			if hi != nil {
				n, ok := intLit(hi)
				if !ok {
					bail("slice of array")
				}
				h = int(n)
			}
			av = av[l:h]
		}
		et := u.Elem().Underlying().(*types.Array).Elem()
		if lazyVals(av) {
			return &VarArgs{av}
		}
		seq := x.Empty(x.SeqSort(et))
		for _, v := range av {
			seq = x.Snoc(seq, x.term(st, v))
		}
		id := x.newCell(st, seq)
		x.cellType[id] = s.Type()
		return &SliceVal{Cell: id, Typ: s.Type(), NonNil: true}
	case *types.Slice:
		t := x.sliceTerm(st, x.asSlice(st, b, s.X.Type()))
		x.escape(st, b)
		seq := x.SlSeq(t)
		n := x.Len(seq)
		if lo == nil {
			lo = x.Int(0)
		}
		if hi == nil {
			hi = n
		}
		x.safety(st, s.Pos(), "slice bounds", x.And(x.Le(x.Int(0), lo), x.Le(lo, hi), x.Le(hi, n)))
		return x.MkSl(x.SlNil(t), x.SubSeq(seq, lo, hi))
	case *types.Basic:
		t := x.term(st, b)
		if lo == nil {
			lo = x.Int(0)
		}
		if hi != nil {
			x.safety(st, s.Pos(), "slice bounds", x.And(x.Le(x.Int(0), lo), x.Le(lo, hi), x.Le(hi, x.StrLen(t))))
			return x.App("substr", "Str", t, lo, hi)
		}
		x.safety(st, s.Pos(), "slice bounds", x.And(x.Le(x.Int(0), lo), x.Le(lo, x.StrLen(t))))
		return x.App("strfrom", "Str", t, lo)
	}
	bail("slice of %s", s.X.Type())
	return nil
}

// VarArgs is an argument slice with elements that may have no term.
type VarArgs struct{ V []Val }

func lazyVals(av []Val) bool {
	for _, v := range av {
		if _, ok := v.(*Term); !ok {
			if _, ok := v.(*SliceVal); !ok {
				return true
			}
		}
	}
	return false
}

func (x *Exec) lookup(fr *Frame, st *State, s *ssa.Lookup) Val {
	mt, ok := s.X.Type().Underlying().(*types.Map)
	if !ok {
		// string index
		bt := x.term(st, x.val(fr, st, s.X))
		i := x.term(st, x.val(fr, st, s.Index))
		x.safety(st, s.Pos(), "index out of range", x.And(x.Le(x.Int(0), i), x.Lt(i, x.StrLen(bt))))
		return x.App("strat", "Int", bt, i)
	}
	m := x.term(st, x.val(fr, st, s.X))
	k := x.keyTerm(st, x.val(fr, st, s.Index), s.X.Type())
	o := x.Select(x.mapCont(st, m, s.X.Type()), k)
	has := x.IsSome(o)
	v := x.Ite(has, x.OptVal(o), x.zero(mt.Elem()))
	if s.CommaOk {
		return TupleVal{v, has}
	}
	return v
}

// next advances a map iterator.
func (x *Exec) next(fr *Frame, st *State, s *ssa.Next, k func(*State, Val)) {
	it, ok := x.val(fr, st, s.Iter).(*IterVal)
	if !ok || s.IsString {
		bail("range over string")
	}
	vis := x.cell(st, it.Cell).(*Term)
	cont := x.mapCont(st, it.Map, it.Typ)
	mt := it.Typ.Underlying().(*types.Map)
	ks := x.SortOf(mt.Key())
	// exhausted
	s1 := st.clone()
	q := x.Var("kq"+sanitize(ks), ks)
	s1.assume(x.Ctx, x.Forall([]*Term{q}, x.Implies(x.And(x.IsSome(x.Select(cont, q)), x.IsSome(x.Select(it.Start, q))), x.IsSome(x.Select(vis, q))), []*Term{x.Select(vis, q)}, []*Term{x.mk("select", x.Select(cont, q).Sort, cont, q)}))
	if x.query(s1.pc.list(), 400) != QUnsat {
		k(s1, TupleVal{x.False(), x.zero(mt.Key()), x.zero(mt.Elem())})
	}
	// one more key
	s2 := st.clone()
	key := x.freshOf("mkey", ks, st.wm)
	o := x.Select(cont, key)
	s2.assume(x.Ctx, x.IsSome(o))
	s2.assume(x.Ctx, x.Not(x.IsSome(x.Select(vis, key))))
	if x.query(s2.pc.list(), 400) != QUnsat {
		s2.cells[it.Cell] = x.Store(vis, key, x.Some(x.OptSort("Bool"), x.True()))
		k(s2, TupleVal{x.True(), key, x.OptVal(o)})
	}
}

func (x *Exec) typeAssert(fr *Frame, st *State, s *ssa.TypeAssert, k func(*State, Val)) {
	v := x.val(fr, st, s.X)
	if al, ok := v.(*AnyLazy); ok {
		k(st, x.assertLazy(al, s))
		return
	}
	a := x.term(st, v)
	t := s.AssertedType
	if types.IsInterface(t) {
		c := x.AnyImplements(t, a)
		x.branch(st, c, func(st2 *State, yes bool) {
			if yes {
				k(st2, TupleVal{a, x.True()})
			} else {
				k(st2, TupleVal{x.NilAny(), x.False()})
			}
		})
		return
	}
	c := x.IsAny(t, a)
	x.branch(st, c, func(st2 *State, yes bool) {
		if yes {
			k(st2, TupleVal{x.AnyVal(t, a), x.True()})
		} else {
			k(st2, TupleVal{x.zero(t), x.False()})
		}
	})
}

func (x *Exec) assertLazy(al *AnyLazy, s *ssa.TypeAssert) Val {
	t := s.AssertedType
	if types.IsInterface(t) {
		if types.Implements(al.Typ, t.Underlying().(*types.Interface)) {
			return TupleVal{al, x.True()}
		}
		return TupleVal{x.NilAny(), x.False()}
	}
	if types.Identical(al.Typ, t) {
		return TupleVal{al.V, x.True()}
	}
	return TupleVal{x.zero(t), x.False()}
}

// typeAssert1: panicking form.
func (x *Exec) typeAssert1(fr *Frame, st *State, s *ssa.TypeAssert) Val {
	v := x.val(fr, st, s.X)
	if al, ok := v.(*AnyLazy); ok {
		r := x.assertLazy(al, s).(TupleVal)
		if s.CommaOk {
			return r
		}
		x.safety(st, s.Pos(), "type assertion", r[1].(*Term))
		return r[0]
	}
	a := x.term(st, v)
	t := s.AssertedType
	var c, r *Term
	if types.IsInterface(t) {
		c, r = x.AnyImplements(t, a), a
	} else {
		c, r = x.IsAny(t, a), x.AnyVal(t, a)
	}
	if s.CommaOk { // spec mode
		return TupleVal{r, c}
	}
	x.safety(st, s.Pos(), "type assertion", c)
	return r
}

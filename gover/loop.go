package main

// Loops: what the loop changes is found by running its body; invariants are
// found by keeping those candidates that are inductive.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type LoopCtx struct {
	loop  *Loop
	quiet bool
	back  func(fr *Frame, from *ssa.BasicBlock, st *State)
	conds *[]*Term
}

// havocInfo: a heap component replaced by a constant that agrees with base on
// everything allocated before.
type havocInfo struct {
	base *Term
}

type Cand struct {
	C      *Closure
	Params []string
	Types  []types.Type
	Name   string
}

func newCand(c *Closure) *Cand {
	k := &Cand{C: c, Name: c.Fn.Name()}
	for _, p := range c.Fn.Params {
		k.Params = append(k.Params, p.Name())
		k.Types = append(k.Types, p.Type())
	}
	return k
}

func visitedType(k types.Type) types.Type {
	return types.NewMap(k, types.Typ[types.Bool])
}

func ghostVisited(t types.Type) types.Type {
	if isMapGhost(t) {
		n := t.(*types.Named)
		return types.NewMap(n.TypeArgs().At(0), n.TypeArgs().At(1))
	}
	return nil
}

// one instance of a candidate
type argSrc struct {
	kind int // 0 fixed, 1 phi, 2 cell, 3 K, 4 cell field
	idx  int
	fix  Val
	path []step
}

type Inst struct {
	cand  *Cand
	args  []argSrc
	keeps *Term // the length of a sequence
	tmpl  *Term // automatic candidates: a formula over the first header's constants
	desc  string
}

type header struct {
	st   *State
	fr   *Frame
	phis []Val
	k    *Term
}

type loopExec struct {
	x      *Exec
	l      *Loop
	fr     *Frame
	entry  *State
	init   []Val
	phis   []*ssa.Phi
	fixed  []bool // phi kept at its entry value
	cells  map[int]*modTree
	heaps  map[string]*heapMod
	allocs bool
	world  bool
	first  *header
	seq0   int
	stamps map[string]bool
}

type heapMod struct {
	full  bool
	fresh bool
	locs  []*Term
	srt   string
}

func (x *Exec) execLoop(fr *Frame, from *ssa.BasicBlock, l *Loop, st *State) {
	le := &loopExec{x: x, l: l, fr: fr, entry: st, cells: map[int]*modTree{}, heaps: map[string]*heapMod{}, stamps: map[string]bool{}}
	le.phisAt(from, fr, st)
	le.seq0 = x.nseq
	var conds []*Term
	// what does the loop change?
	for round := 0; ; round++ {
		if round > 12 {
			bail("loop modification analysis does not settle")
		}
		conds = nil
		h := le.mkHeader()
		changed := false
		le.runBody(h, true, &conds, func(fr2 *Frame, b *ssa.BasicBlock, s2 *State) {
			if le.diff(h, fr2, b, s2) {
				changed = true
			}
		})
		if !changed {
			le.first = h
			break
		}
	}
	insts := le.instances(conds)
	// initially true?
	ent := &header{st: le.entry, fr: fr, phis: le.init, k: x.Int(0)}
	insts = le.filter(insts, []*header{ent}, 1500)
	for round := 0; len(insts) > 0; round++ {
		h := le.mkHeader()
		le.assume(h, insts)
		var backs []*header
		le.runBody(h, true, nil, func(fr2 *Frame, b *ssa.BasicBlock, s2 *State) {
			backs = append(backs, &header{st: s2, fr: fr2, phis: le.backPhis(fr2, b, s2), k: x.Add(h.k, x.Int(1))})
		})
		n := len(insts)
		insts = le.filter(insts, backs, 3000)
		if len(insts) == n {
			break
		}
	}
	if x.quiet == 0 || verbose {
		var ds []string
		for _, i := range insts {
			ds = append(ds, i.desc)
		}
		if verbose {
			fmt.Printf("  %s quiet %d: %s\n", x.loopPos(l), x.quiet, strings.Join(ds, "; "))
		}
		x.invs[fmt.Sprintf("%s loop at %s", fnShort(fr.fn), x.loopPos(l))] = ds
	}
	h := le.mkHeader()
	le.assume(h, insts)
	var backs []*header
	le.runBody(h, false, nil, func(fr2 *Frame, b *ssa.BasicBlock, s2 *State) {
		if x.quiet == 0 {
			backs = append(backs, &header{st: s2, fr: fr2, phis: le.backPhis(fr2, b, s2)})
		}
	})
	if x.quiet == 0 {
		le.terminates(h, backs, conds)
	}
}

func fnShort(f *ssa.Function) string { return f.Name() }

func (x *Exec) loopPos(l *Loop) string {
	for b := range l.blocks {
		_ = b
	}
	for _, in := range l.header.Instrs {
		if in.Pos().IsValid() {
			return x.pos(in.Pos())
		}
	}
	for _, s := range l.header.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return x.pos(in.Pos())
			}
		}
	}
	return "?"
}

func (le *loopExec) phisAt(from *ssa.BasicBlock, fr *Frame, st *State) {
	pi := -1
	for i, p := range le.l.header.Preds {
		if p == from {
			pi = i
		}
	}
	for _, in := range le.l.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		le.phis = append(le.phis, p)
		v := le.x.val(fr, st, p.Edges[pi])
		le.x.escape(st, v)
		fixed := false
		switch a := v.(type) {
		case *SliceVal:
			v = le.x.sliceTerm(st, a)
		case *AnyLazy:
			v = le.x.term(st, a)
		case *Term:
		default:
			fixed = true
		}
		le.init = append(le.init, v)
		le.fixed = append(le.fixed, fixed)
	}
}

func (le *loopExec) backPhis(fr *Frame, from *ssa.BasicBlock, st *State) []Val {
	pi := -1
	for i, p := range le.l.header.Preds {
		if p == from {
			pi = i
		}
	}
	var out []Val
	for i, p := range le.phis {
		v := le.x.val(fr, st, p.Edges[pi])
		if !le.fixed[i] {
			le.x.escape(st, v)
			v = le.x.term(st, v)
		} else if v != le.init[i] {
			bail("loop changes a value that has no term")
		}
		out = append(out, v)
	}
	return out
}

func (x *Exec) havocTerm(prefix string, t *Term, birth *Term) *Term {
	if strings.HasPrefix(t.Sort, "Sl_") {
		sq := x.dts[t.Sort].Ctors[0].Sorts[1]
		return x.MkSl(x.freshOf(prefix+".nil", "Bool", birth), x.freshOf(prefix, sq, birth))
	}
	if strings.HasPrefix(t.Sort, "S_") {
		d := x.dts[t.Sort]
		var as []*Term
		for i, s := range d.Ctors[0].Sorts {
			n := d.Ctors[0].Fields[i]
			if j := strings.LastIndex(n, "."); j >= 0 {
				n = n[j+1:]
			}
			as = append(as, x.havocTerm(prefix+"."+n, x.mk("dummy", s), birth))
		}
		return x.Mk(d.Ctors[0].Name, as...)
	}
	return x.freshOf(prefix, t.Sort, birth)
}

// modTree: which parts of a structured value a loop changes.
type modTree struct {
	all  bool
	kids map[int]*modTree
}

func (x *Exec) parts(t *Term) *Datatype {
	if strings.HasPrefix(t.Sort, "S_") || strings.HasPrefix(t.Sort, "Sl_") {
		return x.dts[t.Sort]
	}
	return nil
}

// widen notes in m the parts at which a and b differ; it reports growth.
func (x *Exec) widen(m *modTree, a, b *Term) bool {
	if m.all || a == b {
		return false
	}
	d := x.parts(a)
	if d == nil || a.Sort != b.Sort {
		m.all = true
		return true
	}
	ch := false
	for i, f := range d.Ctors[0].Fields {
		p, q := x.Sel(f, a), x.Sel(f, b)
		if p == q {
			continue
		}
		k := m.kids[i]
		if k == nil {
			k = &modTree{}
			if m.kids == nil {
				m.kids = map[int]*modTree{}
			}
			m.kids[i] = k
		}
		if x.widen(k, p, q) {
			ch = true
		}
	}
	return ch
}

func (x *Exec) havocParts(prefix string, t *Term, m *modTree, birth *Term) *Term {
	if m.all {
		return x.havocTerm(prefix, t, birth)
	}
	if len(m.kids) == 0 {
		return t
	}
	d := x.parts(t)
	var as []*Term
	for i, f := range d.Ctors[0].Fields {
		v := x.Sel(f, t)
		if k := m.kids[i]; k != nil {
			n := f
			if j := strings.LastIndex(n, "."); j >= 0 {
				n = n[j+1:]
			}
			v = x.havocParts(prefix+"."+n, v, k, birth)
		}
		as = append(as, v)
	}
	return x.Mk(d.Ctors[0].Name, as...)
}

func (le *loopExec) mkHeader() *header {
	x := le.x
	h := &header{st: le.entry.clone(), fr: le.fr.clone()}
	st := h.st
	wm := le.entry.wm
	if le.allocs {
		wm = x.Fresh("wm", "Int")
		st.assume(x.Ctx, x.Le(le.entry.wm, wm))
		st.wm = wm
	}
	for i, p := range le.phis {
		v := le.init[i]
		if !le.fixed[i] {
			n := p.Comment
			if n == "" {
				n = p.Name()
			}
			v = x.havocTerm(n, v.(*Term), wm)
		}
		h.phis = append(h.phis, v)
		h.fr.regs[p] = x.grown(st, p, v)
	}
	for id, m := range le.cells {
		old := le.entry.cells[id]
		t, ok := old.(*Term)
		if !ok {
			bail("loop changes a local of unsupported shape")
		}
		st.cells[id] = x.havocParts("cell", t, m, wm)
	}
	for c, m := range le.heaps {
		base := x.heapGet(le.entry, c, m.srt)
		_, vs := arrSorts(m.srt)
		if m.full {
			st.heap[c] = x.freshOf(c, m.srt, wm)
			continue
		}
		n := base
		for _, l := range m.locs {
			n = x.Store(n, l, x.freshHv(c, vs, wm))
		}
		if m.fresh {
			k := x.freshOf(c, m.srt, wm)
			q := x.Var("lq", "Loc")
			st.assume(x.Ctx, x.Forall([]*Term{q}, x.Implies(x.Lt(x.App("root", "Int", q), le.entry.wm), x.Eq(x.mk("select", vs, k, q), x.mk("select", vs, n, q))), []*Term{x.mk("select", vs, k, q)}))
			x.havocBase[k.Op] = &havocInfo{base: n}
			n = k
		}
		st.heap[c] = n
	}
	if le.world {
		st.heap["#world"] = x.Fresh("world", "World")
	}
	for k := range le.stamps {
		st.stamps[k]++
	}
	h.k = x.Fresh("K", "Int")
	st.assume(x.Ctx, x.Le(x.Int(0), h.k))
	if le.first == nil {
		le.first = h
	}
	return h
}

func (le *loopExec) runBody(h *header, quiet bool, conds *[]*Term, back func(*Frame, *ssa.BasicBlock, *State)) {
	x := le.x
	fr := h.fr.clone()
	fr.loops = append(fr.loops, &LoopCtx{loop: le.l, quiet: quiet, back: back, conds: conds})
	if quiet {
		x.quiet++
		defer func() { x.quiet-- }()
	}
	x.run(fr, le.l.header, 0, h.st.clone())
}

// variant: does the term mention a constant made since the loop was entered?
func (le *loopExec) variant(t *Term) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if len(t.Args) == 0 {
			return le.x.seqOf[t.Op] > le.seq0
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// diff compares a back-edge state with the header and widens the set of
// changed things; it reports whether the set grew.
func (le *loopExec) diff(h *header, fr *Frame, from *ssa.BasicBlock, st *State) bool {
	x := le.x
	ch := false
	le.backPhis(fr, from, st)
	for id, v := range h.st.cells {
		if !sameVal(st.cells[id], v) {
			if _, ok := le.entry.cells[id]; !ok {
				continue
			}
			m := le.cells[id]
			if m == nil {
				m = &modTree{}
				le.cells[id] = m
				ch = true
			}
			a, ok1 := v.(*Term)
			b, ok2 := st.cells[id].(*Term)
			if !ok1 || !ok2 {
				bail("loop changes a local of unsupported shape")
			}
			if x.widen(m, a, b) {
				ch = true
			}
		}
	}
	if st.wm != h.st.wm && !le.allocs {
		le.allocs = true
		ch = true
	}
	for k, n := range st.stamps {
		if n != h.st.stamps[k] && !le.stamps[k] && !strings.HasPrefix(k, "frz#") {
			le.stamps[k] = true
			ch = true
		}
	}
	for c, t := range st.heap {
		if strings.HasPrefix(c, "#") {
			if c == "#world" && t != h.st.heap[c] && !le.world {
				if _, ok := h.st.heap[c]; !ok && t.Op == "H0._world" {
					continue
				}
				if hv, ok := h.st.heap[c]; !ok || hv != t {
					if !ok && x.seqOf[t.Op] == 0 {
						continue
					}
					le.world = true
					ch = true
				}
			}
			continue
		}
		ht, ok := h.st.heap[c]
		if !ok {
			ht = x.heapGet(h.st, c, t.Sort)
		}
		if t == ht {
			continue
		}
		m := le.heaps[c]
		if m == nil {
			m = &heapMod{srt: t.Sort}
			le.heaps[c] = m
			ch = true
		}
		if m.full {
			continue
		}
		locs, ok := le.peel(t, ht)
		if !ok {
			m.full = true
			ch = true
			continue
		}
		for _, l := range locs {
			if l == nil || x.allocated(l) && le.variant(l) {
				if !m.fresh {
					m.fresh = true
					ch = true
				}
				continue
			}
			if x.allocated(l) && !le.allocs {
				// allocated in the loop from the entry watermark
				k, b := x.splitK(rootID(l))
				k2, b2 := x.splitK(h.st.wm)
				if b == b2 && k >= k2 {
					if !m.fresh {
						m.fresh = true
						ch = true
					}
					continue
				}
			}
			if le.variant(l) {
				m.full = true
				ch = true
				break
			}
			dup := false
			for _, o := range m.locs {
				if o == l {
					dup = true
				}
			}
			if !dup {
				m.locs = append(m.locs, l)
				ch = true
			}
		}
	}
	return ch
}

func rootID(l *Term) *Term {
	for l.Op == "loc.sub" {
		l = l.Args[0]
	}
	return l.Args[0]
}

func sameVal(a, b Val) bool {
	if x, ok := a.([]Val); ok {
		y, ok := b.([]Val)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	if _, ok := b.([]Val); ok {
		return false
	}
	return a == b
}

// peel lists the locations at which t differs from base; nil stands for
// "objects allocated in an inner loop".
func (le *loopExec) peel(t, base *Term) ([]*Term, bool) {
	var locs []*Term
	// a store may have replaced one of base: any tail of base will do
	tails := map[*Term][]*Term{}
	var above []*Term
	for b := base; ; b = b.Args[0] {
		tails[b] = append([]*Term(nil), above...)
		if b.Op != "store" {
			break
		}
		above = append(above, b.Args[1])
	}
	for t != base {
		if ab, ok := tails[t]; ok {
			return append(locs, ab...), true
		}
		switch {
		case t.Op == "store":
			locs = append(locs, t.Args[1])
			t = t.Args[0]
		case t.Op == "ite":
			a, ok1 := le.peel(t.Args[1], base)
			b, ok2 := le.peel(t.Args[2], base)
			if !ok1 || !ok2 {
				return nil, false
			}
			return append(append(locs, a...), b...), true
		case le.x.havocBase[t.Op] != nil && len(t.Args) == 0:
			locs = append(locs, nil)
			t = le.x.havocBase[t.Op].base
		default:
			return nil, false
		}
	}
	return locs, true
}

// ---- candidates

func (le *loopExec) instances(conds []*Term) []*Inst {
	x := le.x
	var out []*Inst
	h := le.first
	// automatic: counters
	for i := range le.phis {
		if le.fixed[i] {
			continue
		}
		hv, iv := h.phis[i].(*Term), le.init[i].(*Term)
		if hv.Sort != "Int" {
			continue
		}
		nm := le.phis[i].Comment
		out = append(out, &Inst{tmpl: x.Eq(hv, x.Add(iv, h.k)), desc: nm + " = init + K"})
		out = append(out, &Inst{tmpl: x.Eq(x.Add(hv, h.k), iv), desc: nm + " = init - K"})
		out = append(out, &Inst{tmpl: x.Le(iv, hv), desc: nm + " >= init"})
	}
	// automatic: errors that keep their value (every other one leaves the loop)
	for i := range le.phis {
		hv, isT := le.first.phis[i].(*Term)
		iv, isT2 := le.init[i].(*Term)
		if le.fixed[i] || !isT || !isT2 || hv.Sort != iv.Sort || !types.IsInterface(le.phis[i].Type()) {
			continue
		}
		out = append(out, &Inst{tmpl: x.Eq(hv, iv), desc: le.phis[i].Comment + " unchanged"})
	}
	seen := map[*Term]bool{}
	addTmpl := func(t *Term) {
		if !seen[t] && t.Op != "true" && t.Op != "false" && le.onlyPhis(t, h) {
			seen[t] = true
			out = append(out, &Inst{tmpl: t, desc: "bound from loop condition"})
		}
	}
	for _, c := range conds {
		if c.Op == "not" {
			c = c.Args[0]
		}
		switch c.Op {
		case "<":
			addTmpl(x.Le(c.Args[0], c.Args[1]))
		case "<=":
			addTmpl(x.Le(c.Args[0], x.Add(c.Args[1], x.Int(1))))
		case "=":
			if c.Args[0].Sort == "Int" {
				addTmpl(x.Le(c.Args[0], c.Args[1]))
				addTmpl(x.Le(c.Args[1], c.Args[0]))
			}
		}
	}
	// automatic: sequences that keep their length
	var ids []int
	for id := range le.cells {
		ids = append(ids, id)
	}
	sort.Ints(ids)
	for _, id := range ids {
		if iv, ok := le.entry.cells[id].(*Term); ok && strings.HasPrefix(iv.Sort, "Seq_") {
			out = append(out, &Inst{keeps: x.Len(iv), args: []argSrc{{kind: 2, idx: id}}, desc: "length kept"})
		}
	}
	for i := range le.phis {
		if iv, ok := le.init[i].(*Term); ok && !le.fixed[i] && strings.HasPrefix(iv.Sort, "Sl_") {
			out = append(out, &Inst{keeps: x.Len(x.SlSeq(iv)), args: []argSrc{{kind: 1, idx: i}}, desc: "length kept"})
		}
	}
	for _, c := range x.cands {
		out = append(out, le.instantiate(c)...)
	}
	return out
}

// onlyPhis: the only loop-variant constants are the header's integer phis.
func (le *loopExec) onlyPhis(t *Term, h *header) bool {
	ok := map[*Term]bool{h.k: true}
	for _, p := range h.phis {
		if tm, isT := p.(*Term); isT {
			ok[tm] = true
		}
	}
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] || ok[t] {
			return true
		}
		seen[t] = true
		if len(t.Args) == 0 {
			return le.x.seqOf[t.Op] <= le.seq0
		}
		for _, a := range t.Args {
			if !rec(a) {
				return false
			}
		}
		return true
	}
	return rec(t)
}

func typeMatches(a, b types.Type) bool {
	if types.Identical(a, b) {
		return true
	}
	if g := ghostVisited(b); g != nil {
		return types.Identical(a, g)
	}
	return false
}

const maxInst = 120

func (le *loopExec) instantiate(c *Cand) []*Inst {
	x := le.x
	var choices [][]argSrc
	for i, n := range c.Params {
		t := c.Types[i]
		var cs []argSrc
		switch {
		case n == "K":
			cs = append(cs, argSrc{kind: 3})
		case n == "V":
			for id := range le.cells {
				if ct := x.cellType[id]; ct != nil {
					if _, ok := ct.Underlying().(*types.Map); ok && typeMatches(ct, t) {
						cs = append(cs, argSrc{kind: 2, idx: id})
					}
				}
			}
		case strings.HasPrefix(n, "L"):
			seen := map[*Term]bool{}
			add := func(ty types.Type, v Val) {
				if !types.Identical(ty, t) {
					return
				}
				var tm *Term
				switch a := v.(type) {
				case *Term:
					tm = a
				case *SliceVal:
					tm = x.sliceTerm(le.entry, a)
				case *AnyLazy:
					return
				default:
					return
				}
				if _, isSl := ty.Underlying().(*types.Slice); isSl && !strings.HasPrefix(tm.Sort, "Sl_") {
					tm = x.MkSl(x.False(), tm)
				}
				if seen[tm] || strings.HasPrefix(tm.Sort, "Sl_") && strings.HasPrefix(x.SlSeq(tm).Op, "empty.") {
					return
				}
				seen[tm] = true
				cs = append(cs, argSrc{kind: 0, fix: tm})
			}
			for fr := le.fr; fr != nil; fr = fr.up {
				for _, p := range fr.fn.Params {
					if v, ok := fr.regs[p]; ok {
						add(p.Type(), v)
					}
				}
				for _, b := range fr.fn.Blocks {
					for _, in := range b.Instrs {
						sv, ok := in.(ssa.Value)
						if !ok {
							continue
						}
						if v, ok := fr.regs[sv]; ok && (fr != le.fr || !le.l.blocks[b]) {
							if tup, ok := v.(TupleVal); ok {
								tt, ok := sv.Type().(*types.Tuple)
								if ok {
									for j := range tup {
										if j < tt.Len() {
											add(tt.At(j).Type(), tup[j])
										}
									}
								}
								continue
							}
							add(sv.Type(), v)
						}
					}
				}
			}
			// constants that flow around: outer loop phis are registers too
			for id, v := range le.entry.cells {
				if le.cells[id] == nil && x.cellType[id] != nil {
					add(x.cellType[id], v)
				}
			}
		default:
			for j, p := range le.phis {
				if !le.fixed[j] && types.Identical(p.Type(), t) {
					cs = append(cs, argSrc{kind: 1, idx: j})
				}
			}
			for id := range le.cells {
				ct := x.cellType[id]
				if ct == nil {
					continue
				}
				if types.Identical(ct, t) {
					if _, isMap := ct.Underlying().(*types.Map); !isMap || x.SortOf(ct) == le.entry.cells[id].(*Term).Sort {
						cs = append(cs, argSrc{kind: 2, idx: id})
					}
				}
				if st, ok := ct.Underlying().(*types.Struct); ok && !types.Identical(ct, t) {
					for f := 0; f < st.NumFields(); f++ {
						if types.Identical(st.Field(f).Type(), t) {
							cs = append(cs, argSrc{kind: 2, idx: id, path: []step{{field: f}}})
						}
					}
				}
			}
		}
		if len(cs) == 0 {
			return nil
		}
		choices = append(choices, cs)
	}
	var out []*Inst
	var rec func(i int, cur []argSrc)
	rec = func(i int, cur []argSrc) {
		if len(out) >= maxInst {
			return
		}
		if i == len(choices) {
			out = append(out, &Inst{cand: c, args: append([]argSrc(nil), cur...), desc: c.Name})
			if verbose {
				d := c.Name[strings.LastIndex(c.Name, "$"):] + "("
				for j, a := range cur {
					switch a.kind {
					case 0:
						t := a.fix.(*Term)
						if strings.HasPrefix(t.Op, "mk.") {
							t = t.Args[len(t.Args)-1]
						}
						d += c.Params[j] + "=" + t.Op + itoa(t.ID) + " "
					case 1:
						d += c.Params[j] + "=" + le.phis[a.idx].Comment + " "
					case 2:
						d += c.Params[j] + "=cell" + itoa(a.idx) + " "
					}
				}
				out[len(out)-1].desc = d + ")"
			}
			return
		}
		for _, a := range choices[i] {
			rec(i+1, append(cur, a))
		}
	}
	rec(0, nil)
	return out
}

func (le *loopExec) eval(in *Inst, h *header) (t *Term, err error) {
	x := le.x
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				t, err = nil, u
				return
			}
			panic(r)
		}
	}()
	if in.tmpl != nil {
		m := map[*Term]*Term{le.first.k: h.k}
		for i, p := range le.first.phis {
			if tm, ok := p.(*Term); ok {
				if len(tm.Args) == 0 {
					m[tm] = h.phis[i].(*Term)
				} else {
					le.mapParts(tm, h.phis[i].(*Term), m)
				}
			}
		}
		return x.Subst(in.tmpl, m), nil
	}
	if in.keeps != nil {
		var v Val
		if in.args[0].kind == 1 {
			v = h.phis[in.args[0].idx]
		} else {
			v = x.cell(h.st, in.args[0].idx)
		}
		tm, ok := v.(*Term)
		if !ok {
			bail("cell")
		}
		if strings.HasPrefix(tm.Sort, "Sl_") {
			tm = x.SlSeq(tm)
		}
		return x.Eq(x.Len(tm), in.keeps), nil
	}
	var args []Val
	for _, a := range in.args {
		switch a.kind {
		case 0:
			args = append(args, a.fix)
		case 1:
			args = append(args, h.phis[a.idx])
		case 2:
			v := x.cell(h.st, a.idx)
			tm, ok := v.(*Term)
			if !ok {
				bail("cell")
			}
			ct := x.cellType[a.idx]
			if _, isSl := ct.Underlying().(*types.Slice); isSl && !strings.HasPrefix(tm.Sort, "Sl_") {
				tm = x.MkSl(x.False(), tm)
			}
			if len(a.path) > 0 {
				pv, _ := x.getPath(tm, ct, a.path)
				tm = pv.(*Term)
			}
			args = append(args, tm)
		case 3:
			args = append(args, h.k)
		}
	}
	s := h.st.clone()
	s.entry = le.entry
	return x.term(s, x.evalClosure(in.cand.C, args, s)), nil
}

// mapParts pairs the constants inside a havocked struct or slice with the
// corresponding parts of a value.
func (le *loopExec) mapParts(a, b *Term, m map[*Term]*Term) {
	x := le.x
	if len(a.Args) == 0 {
		m[a] = b
		return
	}
	d := x.ctor[a.Op]
	if d == nil {
		return
	}
	for i, f := range d.Ctors[0].Fields {
		le.mapParts(a.Args[i], x.Sel(f, b), m)
	}
}

func (le *loopExec) assume(h *header, insts []*Inst) {
	for _, in := range insts {
		if t, err := le.eval(in, h); err == nil {
			h.st.assume(le.x.Ctx, t)
		}
	}
}

// filter keeps the instances that hold in all given states.
func (le *loopExec) filter(insts []*Inst, hs []*header, ms int) []*Inst {
	x := le.x
	if len(insts) > 0 && verbose {
		t0 := time.Now()
		n := len(insts)
		defer func() {
			fmt.Printf("     filter %d insts over %d states: %v\n", n, len(hs), time.Since(t0).Round(time.Millisecond))
		}()
	}
	for _, h := range hs {
		var ts []*Term
		var keep []*Inst
		for _, in := range insts {
			x.sealing = true
			t, err := le.eval(in, h)
			x.sealing = false
			if err != nil || t.Op == "false" {
				continue
			}
			keep = append(keep, in)
			ts = append(ts, t)
		}
		insts = keep
		if len(insts) == 0 {
			return nil
		}
		pc := h.st.pc.list()
		ok := x.proveEach(pc, ts, ms*x.patience)
		keep = nil
		for i, in := range insts {
			if ok[i] {
				keep = append(keep, in)
			} else if debugDir != "" {
				dumpN++
				for j, g := range x.splitGoal(ts[i]) {
					writeFile(fmt.Sprintf("%s/cand.%d.%s.%d.smt2", debugDir, dumpN, sanitize(in.desc), j), backends["z3"].Opts+x.script(x.goalAsserts(append(append([]*Term{}, pc...), g.hyp...), g.goal))+"(check-sat)\n")
				}
			}
		}
		insts = keep
	}
	return insts
}

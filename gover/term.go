package main

// Termination. Every loop has to make progress: some quantity taken from its
// conditions (or the rest of a token stream) is not negative while the loop
// goes on and gets smaller with every iteration. Every recursive call has to
// be made for a part of what the caller was called for.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- loops

type measure func(h *header) *Term

// progressTags: C24 speaks about evaluation, the contract's properties about
// their functions.
func (x *Exec) progressTags() []string { return x.tagsWith("C24") }

// tagsWith: the properties of the function, and for evaluation one more.
func (x *Exec) tagsWith(also string) []string {
	out := keys(x.ownTags)
	if c := x.P.Contracts[x.target]; c != nil && strings.HasPrefix(c.Name, "evaluation.") && !x.ownTags[also] {
		out = append(out, also)
	}
	return out
}

// consts pairs the constants that stand for what the loop changes at its first
// header with their values at another one.
func (le *loopExec) consts(h *header) map[*Term]*Term {
	m := map[*Term]*Term{}
	for i, p := range le.first.phis {
		if tm, ok := p.(*Term); ok && !le.fixed[i] {
			le.mapParts(tm, h.phis[i].(*Term), m)
		}
	}
	for id := range le.cells {
		a, ok1 := le.first.st.cells[id].(*Term)
		b, ok2 := h.st.cells[id].(*Term)
		if ok1 && ok2 {
			le.mapParts(a, b, m)
		}
	}
	return m
}

func (le *loopExec) measures(conds []*Term) []measure {
	x := le.x
	known := le.consts(le.first)
	closed := func(t *Term) bool {
		seen := map[*Term]bool{}
		var rec func(t *Term) bool
		rec = func(t *Term) bool {
			if seen[t] || known[t] != nil {
				return true
			}
			seen[t] = true
			if len(t.Args) == 0 {
				return x.seqOf[t.Op] <= le.seq0
			}
			for _, a := range t.Args {
				if !rec(a) {
					return false
				}
			}
			return true
		}
		return rec(t)
	}
	var out []measure
	dup := map[*Term]bool{}
	add := func(t *Term) {
		if !dup[t] && closed(t) {
			dup[t] = true
			out = append(out, func(h *header) *Term { return x.Subst(t, le.consts(h)) })
		}
	}
	var visit func(c *Term)
	visit = func(c *Term) {
		switch c.Op {
		case "not", "and", "or":
			for _, a := range c.Args {
				visit(a)
			}
		case "<", "<=", "=":
			if c.Args[0].Sort == "Int" {
				add(x.Sub(c.Args[1], c.Args[0]))
				add(x.Add(x.Sub(c.Args[0], c.Args[1]), x.Int(1)))
				add(x.Add(x.Sub(c.Args[1], c.Args[0]), x.Int(1)))
			}
		}
	}
	for _, c := range conds {
		visit(c)
	}
	if m := le.heaps[xmlPosComp]; m != nil {
		for _, d := range m.locs {
			d := d
			out = append(out, func(h *header) *Term { return x.Sub(x.App("u.xml.size", "Int", d), x.xmlPos(h.st, d)) })
		}
	}
	return out
}

func (le *loopExec) terminates(h *header, backs []*header, conds []*Term) {
	x := le.x
	name := "every iteration makes progress"
	tags := x.progressTags()
	for _, in := range le.l.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			x.oblige(h.st, "termination", name, tags, in.Pos(), x.True())
			return
		}
	}
	pos := le.l.header.Instrs[0].Pos()
	for _, in := range le.l.header.Instrs {
		if in.Pos().IsValid() {
			pos = in.Pos()
			break
		}
	}
	if !pos.IsValid() {
		for _, b := range le.l.header.Succs {
			for _, in := range b.Instrs {
				if !pos.IsValid() && in.Pos().IsValid() {
					pos = in.Pos()
				}
			}
		}
	}
	if len(backs) == 0 {
		return
	}
	var first []*Term
	for _, m := range le.measures(conds) {
		var gs []*Term
		a := m(h)
		for _, b := range backs {
			gs = append(gs, x.And(x.Le(x.Int(0), a), x.Lt(m(b), a)))
		}
		if first == nil {
			first = gs
		}
		good := true
		for i, b := range backs {
			if !x.proveEach(b.st.pc.list(), gs[i:i+1], 2000*x.patience)[0] {
				good = false
				break
			}
		}
		if good {
			first = gs
			break
		}
	}
	for i, b := range backs {
		g := x.False()
		if first != nil {
			g = first[i]
		}
		x.oblige(b.st, "termination", name, tags, pos, g)
	}
}

// ---- recursion

// A component of functions that call one another, with the parameter each
// descends by.
type descent struct {
	p    *Program
	edge map[*ssa.Function][]callEdge
	comp map[*ssa.Function]int
	mem  map[int][]*ssa.Function
	bad  map[*ssa.Function][]badCall
	top  int // the field of the parameter a value was found in
}

type callEdge struct {
	to   *ssa.Function
	call *ssa.Call
	args []ssa.Value
}

type badCall struct {
	pos token.Pos
	why string
}

func (p *Program) recursion() *descent {
	p.once.Do(func() {
		d := &descent{p: p, edge: map[*ssa.Function][]callEdge{}, comp: map[*ssa.Function]int{}, mem: map[int][]*ssa.Function{}, bad: map[*ssa.Function][]badCall{}}
		d.build()
		p.desc = d
	})
	return p.desc
}

func (d *descent) build() {
	p := d.p
	var fns []*ssa.Function
	for _, f := range p.ByName {
		if len(f.Blocks) > 0 && !p.ghost(f) && !p.prelude(f) {
			fns = append(fns, f)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fnName(fns[i]) < fnName(fns[j]) })
	mine := map[*ssa.Function]bool{}
	for _, f := range fns {
		mine[f] = true
	}
	for _, f := range fns {
		var visit func(g *ssa.Function)
		visit = func(g *ssa.Function) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(*ssa.Call)
					if !ok {
						continue
					}
					if t := c.Call.StaticCallee(); t != nil && mine[t] {
						d.edge[f] = append(d.edge[f], callEdge{t, c, c.Call.Args})
					}
					if c.Call.IsInvoke() {
						for _, t := range fns {
							if t.Signature.Recv() != nil && t.Name() == c.Call.Method.Name() && types.Implements(t.Signature.Recv().Type(), c.Call.Value.Type().Underlying().(*types.Interface)) {
								d.edge[f] = append(d.edge[f], callEdge{t, c, append([]ssa.Value{c.Call.Value}, c.Call.Args...)})
							}
						}
					}
				}
			}
			// a function literal runs later, for what was there before it: only
			// calls that are made here count
		}
		visit(f)
	}
	// components
	idx, low := map[*ssa.Function]int{}, map[*ssa.Function]int{}
	var stack []*ssa.Function
	on := map[*ssa.Function]bool{}
	n, nc := 0, 0
	var strong func(f *ssa.Function)
	strong = func(f *ssa.Function) {
		n++
		idx[f], low[f] = n, n
		stack = append(stack, f)
		on[f] = true
		for _, e := range d.edge[f] {
			if idx[e.to] == 0 {
				strong(e.to)
				if low[e.to] < low[f] {
					low[f] = low[e.to]
				}
			} else if on[e.to] && idx[e.to] < low[f] {
				low[f] = idx[e.to]
			}
		}
		if low[f] == idx[f] {
			for {
				g := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				on[g] = false
				d.comp[g] = nc
				d.mem[nc] = append(d.mem[nc], g)
				if g == f {
					break
				}
			}
			nc++
		}
	}
	for _, f := range fns {
		if idx[f] == 0 {
			strong(f)
		}
	}
	for c, fs := range d.mem {
		d.solve(c, fs)
	}
}

// inner: the calls of f within its component
func (d *descent) inner(f *ssa.Function) []callEdge {
	var out []callEdge
	for _, e := range d.edge[f] {
		if d.comp[e.to] == d.comp[f] && !(d.p.measured(f) && d.p.measured(e.to)) {
			out = append(out, e)
		}
	}
	return out
}

func (p *Program) byContract(g *ssa.Function) *ssa.Function {
	for f, c := range p.Contracts {
		if c.Ghost == g {
			return f
		}
	}
	return nil
}

func (p *Program) sameComponent(f, g *ssa.Function) bool {
	d := p.recursion()
	a, ok1 := d.comp[f]
	b, ok2 := d.comp[g]
	return ok1 && ok2 && a == b
}

// measured: the contract says what gets smaller.
func (p *Program) measured(f *ssa.Function) bool {
	c := p.Contracts[f]
	if c == nil {
		return false
	}
	for _, b := range c.Ghost.Blocks {
		for _, in := range b.Instrs {
			if k, ok := in.(*ssa.Call); ok && k.Call.StaticCallee() != nil && k.Call.StaticCallee().Name() == "decreases_" {
				return true
			}
		}
	}
	return false
}

// solve chooses a parameter for every function such that every call in the
// component passes a part (or the same) of the caller's, and no cycle passes
// the same all the way.
func (d *descent) solve(c int, fs []*ssa.Function) {
	rec := false
	for _, f := range fs {
		if len(d.inner(f)) > 0 {
			rec = true
		}
	}
	if !rec {
		return
	}
	sort.Slice(fs, func(i, j int) bool { return fnName(fs[i]) < fnName(fs[j]) })
	choice := map[*ssa.Function]chosen{}
	check := func(final bool) bool {
		ok := true
		same := map[*ssa.Function][]*ssa.Function{}
		for _, f := range fs {
			pf, has := choice[f]
			if !has {
				continue
			}
			for _, e := range d.inner(f) {
				pt, has := choice[e.to]
				if !has {
					continue
				}
				good, strict := d.descend(f, pf, e.args[pt.param], pt.field)
				switch {
				case !good:
					ok = false
					if final {
						d.bad[f] = append(d.bad[f], badCall{e.call.Pos(), fmt.Sprintf("the recursive call of %s is not for a part of %s", fnName(e.to), f.Params[pf.param].Name())})
					}
				case !strict:
					same[f] = append(same[f], e.to)
				}
			}
		}
		// cycles of calls for the same
		state := map[*ssa.Function]int{}
		var walk func(f *ssa.Function) bool
		walk = func(f *ssa.Function) bool {
			state[f] = 1
			for _, g := range same[f] {
				if state[g] == 1 || state[g] == 0 && !walk(g) {
					return false
				}
			}
			state[f] = 2
			return true
		}
		for _, f := range fs {
			if state[f] == 0 && !walk(f) {
				ok = false
				if final {
					d.bad[f] = append(d.bad[f], badCall{f.Pos(), "it calls itself for the same again"})
				}
			}
		}
		return ok
	}
	budget := 20000
	var search func(i int) bool
	search = func(i int) bool {
		budget--
		if budget < 0 {
			return false
		}
		if i == len(fs) {
			return true
		}
		for p, pr := range fs[i].Params {
			n := -1
			if t, ok := pr.Type().Underlying().(*types.Pointer); ok {
				if s, ok := t.Elem().Underlying().(*types.Struct); ok {
					n = s.NumFields() - 1
				}
			}
			for fl := -1; fl <= n; fl++ {
				choice[fs[i]] = chosen{p, fl}
				if check(false) && search(i+1) {
					return true
				}
				delete(choice, fs[i])
			}
		}
		return false
	}
	if search(0) {
		return
	}
	// say what is wrong with the choice that has the fewest bad calls
	best := map[*ssa.Function]chosen{}
	for _, f := range fs {
		n, at := -1, 0
		for p := range f.Params {
			k := 0
			for _, e := range d.inner(f) {
				for q := range e.to.Params {
					if r, _ := d.part(e.args[q], map[ssa.Value]bool{}); r == f.Params[p] && types.Identical(e.to.Params[q].Type(), f.Params[p].Type()) {
						k++
						break
					}
				}
			}
			if k > n {
				n, at = k, p
			}
		}
		best[f] = chosen{at, -1}
	}
	choice = best
	check(true)
	said := false
	for _, f := range fs {
		said = said || len(d.bad[f]) > 0
	}
	if !said {
		d.bad[fs[0]] = append(d.bad[fs[0]], badCall{fs[0].Pos(), "no parameter gets smaller in every recursive call"})
	}
}

// chosen: a parameter, or (field >= 0) a field of the object it points to.
type chosen struct{ param, field int }

// descend: the value (its field, if not negative) is, or is part of, what the
// caller descends by.
func (d *descent) descend(f *ssa.Function, c chosen, v ssa.Value, field int) (good, strict bool) {
	if field >= 0 {
		for {
			if w, ok := v.(*ssa.MakeInterface); ok {
				v = w.X
				continue
			}
			break
		}
		if p, ok := v.(*ssa.Parameter); ok {
			return p == f.Params[c.param] && c.field == field, false
		}
		al, ok := v.(*ssa.Alloc)
		if !ok {
			return false, false
		}
		n, all := 0, true
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				if r.Field != field {
					continue
				}
				for _, q := range *r.Referrers() {
					if st, ok := q.(*ssa.Store); ok && st.Addr == ssa.Value(r) {
						g, s := d.descend(f, c, st.Val, -1)
						if !g {
							return false, false
						}
						n++
						all = all && s
					}
				}
			case *ssa.Store:
				if r.Addr == ssa.Value(al) {
					return false, false
				}
			}
		}
		return n > 0, all
	}
	d.top = -1
	p, s := d.part(v, map[ssa.Value]bool{})
	if p != f.Params[c.param] {
		return false, false
	}
	if c.field >= 0 && d.top != c.field {
		return false, false
	}
	return true, s
}

// part: the parameter that the value is the same as, or (strict) a part of.
func (d *descent) part(v ssa.Value, seen map[ssa.Value]bool) (*ssa.Parameter, bool) {
	if seen[v] {
		return nil, false
	}
	seen[v] = true
	defer delete(seen, v)
	through := func(w ssa.Value, strict bool) (*ssa.Parameter, bool) {
		p, s := d.part(w, seen)
		return p, s || strict
	}
	switch v := v.(type) {
	case *ssa.Parameter:
		return v, false
	case *ssa.Alloc:
		// a local copy: everything stored in it is part of one parameter
		var p *ssa.Parameter
		all, n := true, 0
		for _, r := range *v.Referrers() {
			st, ok := r.(*ssa.Store)
			if !ok || st.Addr != ssa.Value(v) {
				continue
			}
			q, s := d.part(st.Val, seen)
			if q == nil || n > 0 && q != p {
				return nil, false
			}
			p = q
			all = all && s
			n++
		}
		return p, all && n > 0
	case *ssa.FieldAddr:
		if p, ok := v.X.(*ssa.Parameter); ok {
			if d.top >= 0 && d.top != v.Field {
				d.top = 1 << 20 // of several fields
			} else {
				d.top = v.Field
			}
			return p, false
		}
		return through(v.X, false)
	case *ssa.Field:
		return through(v.X, isRef(v.Type()))
	case *ssa.IndexAddr:
		return through(v.X, true)
	case *ssa.Index:
		return through(v.X, true)
	case *ssa.Lookup:
		return through(v.X, true)
	case *ssa.Slice:
		return through(v.X, false)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			_, whole := v.X.(*ssa.Alloc)
			return through(v.X, !whole && isRef(v.Type()))
		}
	case *ssa.TypeAssert:
		return through(v.X, false)
	case *ssa.ChangeInterface:
		return through(v.X, false)
	case *ssa.MakeInterface:
		return through(v.X, false)
	case *ssa.ChangeType:
		return through(v.X, false)
	case *ssa.Extract:
		switch t := v.Tuple.(type) {
		case *ssa.TypeAssert:
			return through(t.X, false)
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok {
				return through(r.X, true)
			}
		case *ssa.Lookup:
			return through(t.X, true)
		}
	case *ssa.Phi:
		var p *ssa.Parameter
		all := true
		for i, e := range v.Edges {
			if e == ssa.Value(v) {
				continue
			}
			q, s := d.part(e, seen)
			if q == nil || i > 0 && p != nil && q != p {
				return nil, false
			}
			p = q
			all = all && s
		}
		return p, all
	}
	return nil, false
}

func isRef(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return true
	}
	return false
}

// descends states the recursion of the function under verification and of what
// was taken into it.
func (x *Exec) descends(st *State) {
	d := x.P.recursion()
	fs := []*ssa.Function{x.target}
	for _, n := range keys(x.inlined) {
		if f := x.P.ByName[n]; f != nil && f != x.target {
			fs = append(fs, f)
		}
	}
	name := "recursive calls are made for a part of what the call is for"
	tags := x.progressTags()
	for _, f := range fs {
		if len(d.bad[f]) == 0 {
			for _, e := range d.inner(f) {
				x.oblige(st, "termination", name, tags, e.call.Pos(), x.True())
			}
		}
		for _, b := range d.bad[f] {
			x.oblige(st, "termination", name+": "+b.why, tags, b.pos, x.False())
		}
	}
}

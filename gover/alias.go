package main

// Slices are treated as values. For append that is right only if the backing
// array behind the base is not seen by another slice that is appended to, or
// that is longer. This is the ownership discipline that makes it so: the base
// of an append is
//   - nil, made here, a literal, a full slice expression, or the result of an
//     append or of a function that returns such a slice, and it is appended to
//     once only; or
//   - a variable, field or map entry that the result goes back to (it owns its
//     slice: what is stored in a field that grows in this way has to be owned).
// A parameter is the caller's: the same is asked of the argument.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type aliasing struct {
	p     *Program
	owned map[ssa.Value]int // 1 under way or owned, 2 not
	grows map[*types.Var]bool
	ret   map[*ssa.Function]int
	parm  map[*ssa.Parameter]int
	ok    map[ssa.Instruction]string
}

func (x *Exec) alias() *aliasing {
	if x.al == nil {
		x.al = &aliasing{p: x.P, owned: map[ssa.Value]int{}, ret: map[*ssa.Function]int{}, parm: map[*ssa.Parameter]int{}, ok: map[ssa.Instruction]string{}}
		x.al.fields(x)
	}
	return x.al
}

// fields finds the fields that grow in place.
func (a *aliasing) fields(x *Exec) {
	a.grows = map[*types.Var]bool{}
	var visit func(f *ssa.Function)
	seen := map[*ssa.Function]bool{}
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok && isAppend(&c.Call) {
					if ld, ok := c.Call.Args[0].(*ssa.UnOp); ok && ld.Op == token.MUL {
						if v := fieldOf(ld.X); v != nil {
							a.grows[v] = true
						}
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			visit(g)
		}
	}
	for _, f := range a.p.ByName {
		visit(f)
	}
}

func isAppend(c *ssa.CallCommon) bool {
	b, ok := c.Value.(*ssa.Builtin)
	return ok && b.Name() == "append"
}

func fieldOf(addr ssa.Value) *types.Var {
	if fa, ok := addr.(*ssa.FieldAddr); ok {
		if st, ok := deref(fa.X.Type()).Underlying().(*types.Struct); ok {
			return st.Field(fa.Field)
		}
	}
	return nil
}

// samePlace: two addresses that are the same path from the same root.
func samePlace(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	switch x := a.(type) {
	case *ssa.FieldAddr:
		y, ok := b.(*ssa.FieldAddr)
		return ok && x.Field == y.Field && samePlace(x.X, y.X)
	case *ssa.IndexAddr:
		y, ok := b.(*ssa.IndexAddr)
		return ok && samePlace(x.X, y.X) && samePlace(x.Index, y.Index)
	case *ssa.UnOp:
		y, ok := b.(*ssa.UnOp)
		return ok && x.Op == token.MUL && y.Op == token.MUL && samePlace(x.X, y.X)
	case *ssa.Const:
		y, ok := b.(*ssa.Const)
		return ok && x.Value != nil && y.Value != nil && x.Value.ExactString() == y.Value.ExactString()
	}
	return false
}

// within: the place is part of the other one.
func within(a, whole ssa.Value) bool {
	for {
		if samePlace(a, whole) {
			return true
		}
		fa, ok := a.(*ssa.FieldAddr)
		if !ok {
			return false
		}
		a = fa.X
	}
}

func rootAlloc(addr ssa.Value) *ssa.Alloc {
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.Alloc:
			return x
		default:
			return nil
		}
	}
}

// fresh: a slice without room, every append makes a new one.
func fresh(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.IsNil()
	case *ssa.ChangeType:
		return fresh(v.X)
	}
	return false
}

func (a *aliasing) isOwned(v ssa.Value) bool {
	if r := a.owned[v]; r != 0 {
		return r == 1
	}
	a.owned[v] = 1
	if !a.owned1(v) {
		for w, r := range a.owned { // what was taken to be owned on the way
			if r == 1 {
				delete(a.owned, w)
			}
		}
		a.owned[v] = 2
		return false
	}
	return true
}

func (a *aliasing) owned1(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Const:
		return v.IsNil()
	case *ssa.MakeSlice, *ssa.Parameter:
		return true
	case *ssa.ChangeType:
		return a.isOwned(v.X)
	case *ssa.Convert:
		return true // of a string
	case *ssa.Slice:
		if al, ok := v.X.(*ssa.Alloc); ok {
			// a literal, or make with constant sizes
			return al != nil
		}
		if v.Max != nil {
			return true
		}
		return v.High == nil && a.isOwned(v.X)
	case *ssa.Phi:
		for _, e := range v.Edges {
			if !a.isOwned(e) {
				return false
			}
		}
		return true
	case *ssa.Call:
		if isAppend(&v.Call) {
			return true
		}
		return a.returnsOwned(v.Call.StaticCallee(), 0)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return a.returnsOwned(c.Call.StaticCallee(), v.Index)
		}
		return false
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return false
		}
		if rootAlloc(v.X) != nil {
			return a.placeOwned(v, v.X)
		}
		return a.goesBack(v, v.X)
	case *ssa.Lookup:
		return a.backToMap(v, v)
	}
	return false
}

// every result of the function is owned
func (a *aliasing) returnsOwned(f *ssa.Function, i int) bool {
	if f == nil {
		return false
	}
	if f.Pkg == nil || len(f.Blocks) == 0 || a.p.SSA[f.Pkg.Pkg.Name()] != f.Pkg {
		return true // the standard library
	}
	if r := a.ret[f]; r != 0 {
		return r == 1
	}
	a.ret[f] = 1
	for _, b := range f.Blocks {
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && i < len(r.Results) {
			_, par := r.Results[i].(*ssa.Parameter)
			if par || !a.isOwned(r.Results[i]) {
				a.ret[f] = 2
				return false
			}
		}
	}
	return true
}

// placeOwned: on every way to the load, what stands in the place of the local
// variable was owned.
func (a *aliasing) placeOwned(at ssa.Instruction, addr ssa.Value) bool {
	root := rootAlloc(addr)
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, i int) bool
	back = func(b *ssa.BasicBlock, i int) bool {
		for ; i >= 0; i-- {
			in := b.Instrs[i]
			if in == ssa.Instruction(root) {
				return true
			}
			if s, ok := in.(*ssa.Store); ok && within(addr, s.Addr) {
				if samePlace(addr, s.Addr) {
					return a.isOwned(s.Val)
				}
				return a.copied(addr, s)
			}
		}
		if len(b.Preds) == 0 {
			return false
		}
		for _, p := range b.Preds {
			if seen[p] {
				continue
			}
			seen[p] = true
			if !back(p, len(p.Instrs)-1) {
				return false
			}
		}
		return true
	}
	b := at.Block()
	for i, in := range b.Instrs {
		if in == at {
			return back(b, i-1)
		}
	}
	return false
}

// copied: the struct that is stored there is a zero value or a literal in which
// the field is owned.
func (a *aliasing) copied(addr ssa.Value, s *ssa.Store) bool {
	switch v := s.Val.(type) {
	case *ssa.Const:
		return true
	case *ssa.UnOp:
		lit, ok := v.X.(*ssa.Alloc)
		fa, ok2 := addr.(*ssa.FieldAddr)
		if !ok || !ok2 || v.Op != token.MUL || !samePlace(fa.X, s.Addr) {
			return false
		}
		for _, r := range *lit.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				if r.Field != fa.Field {
					continue
				}
				for _, q := range *r.Referrers() {
					if st, ok := q.(*ssa.Store); ok && !a.isOwned(st.Val) {
						return false
					}
				}
			case *ssa.Store:
				return false
			}
		}
		return true
	}
	return false
}

// goesBack: what is loaded is only appended to or handed to something that
// appends to it, and the result is stored where it came from.
func (a *aliasing) goesBack(v *ssa.UnOp, addr ssa.Value) bool {
	found := false
	for _, r := range *v.Referrers() {
		c, ok := r.(*ssa.Call)
		if !ok {
			continue
		}
		var res []ssa.Value = []ssa.Value{c}
		if _, ok := c.Type().(*types.Tuple); ok {
			res = nil
			for _, e := range *c.Referrers() {
				if e, ok := e.(*ssa.Extract); ok {
					res = append(res, e)
				}
			}
		}
		for _, y := range res {
			if back(y, func(in ssa.Instruction) bool {
				s, ok := in.(*ssa.Store)
				return ok && samePlace(s.Addr, addr)
			}) {
				found = true
			}
		}
	}
	return found
}

func (a *aliasing) backToMap(v ssa.Value, l *ssa.Lookup) bool {
	for _, r := range *v.Referrers() {
		if c, ok := r.(*ssa.Call); ok && back(c, func(in ssa.Instruction) bool {
			m, ok := in.(*ssa.MapUpdate)
			return ok && samePlace(m.Map, l.X) && samePlace(m.Key, l.Index)
		}) {
			return true
		}
	}
	return false
}

// back: the value, or what is appended to it further, is stored in the place.
func back(v ssa.Value, stored func(ssa.Instruction) bool) bool {
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			if stored(r) {
				return true
			}
			switch r := r.(type) {
			case *ssa.Phi:
				if walk(r) {
					return true
				}
			case *ssa.Call:
				if isAppend(&r.Call) && r.Call.Args[0] == v && walk(r) {
					return true
				}
			}
		}
		return false
	}
	return walk(v)
}

// appends: the function appends to its parameter (or hands it on to one that does).
func (a *aliasing) appends(p *ssa.Parameter) bool {
	if r := a.parm[p]; r != 0 {
		return r == 1
	}
	a.parm[p] = 2
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value) bool
	walk = func(v ssa.Value) bool {
		if seen[v] {
			return false
		}
		seen[v] = true
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.Phi:
				if walk(r) {
					return true
				}
			case *ssa.Call:
				if len(a.bases(r, v)) > 0 {
					return true
				}
			}
		}
		return false
	}
	if walk(p) {
		a.parm[p] = 1
		return true
	}
	return false
}

// bases: the arguments of the call that are appended to (all, or those that are v).
func (a *aliasing) bases(c *ssa.Call, v ssa.Value) []ssa.Value {
	var out []ssa.Value
	if isAppend(&c.Call) {
		out = append(out, c.Call.Args[0])
	} else if f := c.Call.StaticCallee(); f != nil && f.Pkg != nil && a.p.SSA[f.Pkg.Pkg.Name()] == f.Pkg {
		for i, p := range f.Params {
			if _, ok := p.Type().Underlying().(*types.Slice); ok && i < len(c.Call.Args) && a.appends(p) {
				out = append(out, c.Call.Args[i])
			}
		}
	}
	if v == nil {
		return out
	}
	for _, o := range out {
		if o == v {
			return []ssa.Value{o}
		}
	}
	return nil
}

// once: no other append extends the same slice before or after this one.
func (a *aliasing) once(c *ssa.Call, v ssa.Value) bool {
	if fresh(v) {
		return true
	}
	if _, ok := v.(ssa.Instruction); !ok {
		if _, ok := v.(*ssa.Parameter); !ok {
			return true
		}
	}
	var db *ssa.BasicBlock // where the slice is made
	if in, ok := v.(ssa.Instruction); ok {
		db = in.Block()
	}
	for _, r := range *v.Referrers() {
		o, ok := r.(*ssa.Call)
		if !ok || len(a.bases(o, v)) == 0 {
			continue
		}
		if o != c && o.Block() == c.Block() || reaches(o.Block(), c.Block(), db) || reaches(c.Block(), o.Block(), db) {
			return false
		}
	}
	return true
}

// reaches: the second block can run after the first one, without the third in
// between.
func reaches(from, to, not *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{not: true}
	var walk func(x *ssa.BasicBlock) bool
	walk = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if seen[s] {
				continue
			}
			if s == to {
				return true
			}
			seen[s] = true
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(from)
}

// check says what is wrong with an instruction, "" if nothing.
func (a *aliasing) check(in ssa.Instruction) string {
	if r, ok := a.ok[in]; ok {
		return r
	}
	r := ""
	switch in := in.(type) {
	case *ssa.Call:
		for _, v := range a.bases(in, nil) {
			if !a.isOwned(v) {
				r = "append to a slice whose backing array is shared"
			} else if !a.once(in, v) {
				r = "two appends extend one slice"
			}
		}
	case *ssa.Store:
		if f := fieldOf(in.Addr); f != nil && a.grows[f] {
			if _, ok := f.Type().Underlying().(*types.Slice); ok {
				_, par := in.Val.(*ssa.Parameter)
				if par || !a.isOwned(in.Val) {
					r = "a field that grows is given a slice that is shared"
				}
			}
		}
	}
	a.ok[in] = r
	return r
}

// ownership states the discipline for one instruction.
func (x *Exec) ownership(st *State, in ssa.Instruction) {
	if x.quiet > 0 || x.specDep > 0 || x.proving {
		return
	}
	switch i := in.(type) {
	case *ssa.Call:
		if len(x.alias().bases(i, nil)) == 0 {
			return
		}
	case *ssa.Store:
		if f := fieldOf(i.Addr); f == nil || !x.alias().grows[f] {
			return
		}
	default:
		return
	}
	if r := x.alias().check(in); r != "" {
		x.oblige(st, "ownership", r, x.tagsWith("C23"), in.Pos(), x.False())
		return
	}
	if x.ownedSeen == nil {
		x.ownedSeen = map[ssa.Instruction]bool{}
	}
	if !x.ownedSeen[in] {
		x.ownedSeen[in] = true
		x.oblige(st, "ownership", "no other slice sees what is appended", x.tagsWith("C23"), in.Pos(), x.True())
	}
}

package main

// Slices that are built here by append, carried through phis and written to by
// element. Such a slice is given a cell where it is defined, like one from
// make. The cell is only seen through the one SSA value, so this is right only
// if no other value that shares the backing array is used after a write.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// grown gives the value of a phi or append a cell if its elements are written.
func (x *Exec) grown(st *State, v ssa.Value, val Val) Val {
	if !x.P.elementsWritten(v) {
		return val
	}
	var t *Term
	switch a := val.(type) {
	case *Term:
		t = a
	case *SliceVal:
		t = x.sliceTerm(st, a)
	default:
		return val
	}
	id := x.newCell(st, x.SlSeq(t))
	x.cellType[id] = v.Type()
	return &SliceVal{Cell: id, Typ: v.Type(), Nil: x.SlNil(t)}
}

func (p *Program) elementsWritten(v ssa.Value) bool {
	p.writtenMu.Lock()
	defer p.writtenMu.Unlock()
	if r, ok := p.written[v]; ok {
		return r
	}
	if p.written == nil {
		p.written = map[ssa.Value]bool{}
	}
	p.written[v] = false
	switch v := v.(type) {
	case *ssa.Phi:
	case *ssa.Call:
		if !isAppend(&v.Call) {
			return false
		}
	default:
		return false
	}
	if _, ok := v.Type().Underlying().(*types.Slice); !ok || v.Referrers() == nil {
		return false
	}
	ws := elementWrites(v)
	if len(ws) == 0 {
		return false
	}
	web := map[ssa.Value]bool{}
	if !sliceWeb(v, web) {
		return false
	}
	for w := range web {
		if w.Referrers() == nil { // nil
			continue
		}
		def, _ := w.(ssa.Instruction)
		for _, r := range *w.Referrers() {
			if _, ok := r.(*ssa.DebugRef); ok {
				continue
			}
			for _, at := range ws {
				if leaks(r, w) && follows(r, at, nil) {
					return false
				}
				if w == v {
					continue
				}
				if ph, ok := r.(*ssa.Phi); ok {
					for i, e := range ph.Edges {
						if e == w && (ph.Block().Preds[i] == at.Block() || followsBlock(at, ph.Block().Preds[i], def)) {
							return false
						}
					}
				} else if follows(at, r, def) {
					return false
				}
			}
		}
	}
	p.written[v] = true
	return true
}

// elementWrites: the stores to elements, or parts of elements, of the slice.
func elementWrites(v ssa.Value) []ssa.Instruction {
	var out []ssa.Instruction
	var addr func(a ssa.Value)
	addr = func(a ssa.Value) {
		for _, r := range *a.Referrers() {
			switch r := r.(type) {
			case *ssa.FieldAddr:
				addr(r)
			case *ssa.IndexAddr:
				if r.X == a {
					addr(r)
				}
			case *ssa.Store:
				if r.Addr == a {
					out = append(out, r)
				}
			}
		}
	}
	for _, r := range *v.Referrers() {
		if ia, ok := r.(*ssa.IndexAddr); ok && ia.X == v {
			addr(ia)
		}
	}
	return out
}

// sliceWeb collects what may share the backing array; false if that is not
// only made here.
func sliceWeb(v ssa.Value, web map[ssa.Value]bool) bool {
	if web[v] {
		return true
	}
	switch s := v.(type) {
	case *ssa.Const:
		return s.IsNil()
	case *ssa.MakeSlice:
		web[v] = true
	case *ssa.ChangeType:
		web[v] = true
		if !sliceWeb(s.X, web) {
			return false
		}
	case *ssa.Slice:
		web[v] = true
		if al, ok := s.X.(*ssa.Alloc); ok {
			for _, r := range *al.Referrers() {
				switch r.(type) {
				case *ssa.Slice, *ssa.IndexAddr, *ssa.DebugRef:
				default:
					return false
				}
			}
		} else if !sliceWeb(s.X, web) {
			return false
		}
	case *ssa.Phi:
		web[v] = true
		for _, e := range s.Edges {
			if !sliceWeb(e, web) {
				return false
			}
		}
	case *ssa.Call:
		if !isAppend(&s.Call) {
			return false
		}
		web[v] = true
		if !sliceWeb(s.Call.Args[0], web) {
			return false
		}
	default:
		return false
	}
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.Phi, *ssa.ChangeType, *ssa.Slice:
			if !sliceWeb(r.(ssa.Value), web) {
				return false
			}
		case *ssa.Call:
			if isAppend(&r.Call) && r.Call.Args[0] == v && !sliceWeb(r, web) {
				return false
			}
		}
	}
	return true
}

// leaks: the instruction lets somebody else see the slice.
func leaks(r ssa.Instruction, w ssa.Value) bool {
	switch r := r.(type) {
	case *ssa.Phi, *ssa.ChangeType, *ssa.Slice, *ssa.Return, *ssa.BinOp:
		return false
	case *ssa.IndexAddr:
		if r.X != w {
			return false
		}
		for _, q := range *r.Referrers() { // a pointer to an element
			switch q := q.(type) {
			case *ssa.UnOp, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
			case *ssa.Store:
				if q.Val == ssa.Value(r) {
					return true
				}
			default:
				return true
			}
		}
		return false
	case *ssa.Call:
		if b, ok := r.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "append":
				return false
			}
		}
	}
	return true
}

// follows: the second instruction can run after the first, without the
// definition def in between.
func follows(from, to, def ssa.Instruction) bool {
	fb, tb := from.Block(), to.Block()
	if fb == tb {
		fi, ti, di := -1, -1, -1
		for i, in := range fb.Instrs {
			switch in {
			case from:
				fi = i
			case to:
				ti = i
			case def:
				di = i
			}
		}
		if fi < ti && !(fi < di && di < ti) {
			return true
		}
	}
	// from the end of its block on
	if def != nil && def.Block() == fb {
		fi, di := -1, -1
		for i, in := range fb.Instrs {
			if in == from {
				fi = i
			}
			if in == def {
				di = i
			}
		}
		if di > fi {
			return false
		}
	}
	seen := map[*ssa.BasicBlock]bool{}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			if s == tb {
				if def == nil || def.Block() != tb {
					return true
				}
				for _, in := range tb.Instrs { // which comes first?
					if in == to {
						return true
					}
					if in == def {
						break
					}
				}
				continue
			}
			if def != nil && def.Block() == s {
				continue
			}
			if walk(s) {
				return true
			}
		}
		return false
	}
	return walk(fb)
}

func followsBlock(from ssa.Instruction, to *ssa.BasicBlock, def ssa.Instruction) bool {
	return follows(from, to.Instrs[len(to.Instrs)-1], def)
}

// unrolls: a loop that counts to a small number known here is run as it is.
func (x *Exec) unrolls(fr *Frame, from *ssa.BasicBlock, l *Loop) bool {
	h := l.header
	br, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := br.Cond.(*ssa.BinOp)
	if !ok || c.Op != token.LSS || c.Block() != h || !l.blocks[h.Succs[0]] || l.blocks[h.Succs[1]] {
		return false
	}
	k, ok := c.Y.(*ssa.Const)
	if !ok || k.Value == nil {
		return false
	}
	if b, ok := k.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return false
	}
	ph, off := c.X, int64(0)
	inc := func(v ssa.Value) (ssa.Value, int64) {
		if a, ok := v.(*ssa.BinOp); ok && a.Op == token.ADD {
			if n, ok := a.Y.(*ssa.Const); ok && n.Value != nil {
				return a.X, n.Int64()
			}
		}
		return v, 0
	}
	ph, off = inc(c.X)
	p, ok := ph.(*ssa.Phi)
	if !ok || p.Block() != h {
		return false
	}
	init := int64(0)
	for i, e := range p.Edges {
		if l.blocks[h.Preds[i]] {
			if q, d := inc(e); q != ssa.Value(p) || d != 1 {
				return false
			}
			continue
		}
		n, ok := e.(*ssa.Const)
		if !ok || n.Value == nil || h.Preds[i] != from {
			return false
		}
		init = n.Int64()
	}
	return k.Int64()-init-off <= 4
}

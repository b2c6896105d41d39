package main

// Symbolic values and states.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

// CellPtr points into a local variable that never escapes.
type CellPtr struct {
	ID   int
	Typ  types.Type // type of the whole cell
	Path []step
}

type step struct {
	field int   // field index, or
	idx   *Term // array index
}

// FieldPtr points to a field (not of struct type) of a heap object.
type FieldPtr struct {
	Loc   *Term
	Typ   types.Type // struct type
	Field int
}

// ElemPtr points to an element of a slice.
type ElemPtr struct {
	Sl   *SliceVal
	Idx  *Term
	Path []step
}

// SliceVal is a slice that can be written through: either a local backing
// array (Cell) or the slice that was loaded from a place (Org).
type SliceVal struct {
	Cell   int // backing cell holding the sequence term (Org == nil)
	Org    Val // pointer the slice was loaded from
	Stamp  int // count of whole-slice stores to that kind of place when loaded
	Term   *Term
	Typ    types.Type
	NonNil bool
	Nil    *Term // of a slice with a cell: is it nil? (nil: no)
}

// TableVal is a constant table: a map filled once by a package initialiser.
type TableVal struct {
	Typ  types.Type
	Keys []*ssa.Const
	Vals []ssa.Value
}

type Closure struct {
	Fn    *ssa.Function
	Binds []Val
	Term  *Term
}

type BuiltinVal struct{ B *ssa.Builtin }

type TupleVal []Val

// IterVal iterates over a map.
type IterVal struct {
	Cell  int // visited-set cell
	Map   *Term
	Typ   types.Type
	Start *Term // contents when the iteration started
}

// AnyLazy is an interface made of something that has no term.
type AnyLazy struct {
	Typ types.Type
	V   Val
}

// Opaque values may be passed around but not inspected.
type Opaque struct{ Why string }

type GlobalPtr struct{ G *ssa.Global }

type PC struct {
	T      *Term
	Parent *PC
	N      int
}

func (p *PC) list() []*Term {
	var out []*Term
	for q := p; q != nil; q = q.Parent {
		out = append(out, q.T)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type State struct {
	heap   map[string]*Term
	cells  map[int]Val
	pc     *PC
	wm     *Term
	stamps map[string]int
	trace  []string
	// the state old_ refers to / the state entry_ refers to
	old   *State
	entry *State
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[string]*Term, len(s.heap)+2)
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.cells = make(map[int]Val, len(s.cells)+2)
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.stamps = make(map[string]int, len(s.stamps))
	for k, v := range s.stamps {
		n.stamps[k] = v
	}
	n.trace = append([]string(nil), s.trace...)
	return &n
}

func (s *State) assume(c *Ctx, t *Term) {
	if t.Op == "true" {
		return
	}
	if t.Op == "and" {
		for _, a := range t.Args {
			s.assume(c, a)
		}
		return
	}
	n := 1
	if s.pc != nil {
		n = s.pc.N + 1
	}
	s.pc = &PC{t, s.pc, n}
}

type Frame struct {
	fn    *ssa.Function
	regs  map[ssa.Value]Val
	ret   func(st *State, res []Val)
	loops []*LoopCtx
	depth int
	info  *FnInfo
	up    *Frame // the frame this one is inlined into
}

func (f *Frame) clone() *Frame {
	n := *f
	n.regs = make(map[ssa.Value]Val, len(f.regs)+4)
	for k, v := range f.regs {
		n.regs[k] = v
	}
	n.loops = append([]*LoopCtx(nil), f.loops...)
	return &n
}

type unsup struct{ msg string }

func bail(format string, a ...interface{}) {
	panic(unsupported(fmt.Sprintf(format, a...)))
}

// FnInfo caches loops of a function and which allocations stay local.
type FnInfo struct {
	loops map[*ssa.BasicBlock]*Loop // by header
	cells map[*ssa.Alloc]bool
	order map[*ssa.BasicBlock]int
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	id     int
}

func analyse(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{loops: map[*ssa.BasicBlock]*Loop{}, cells: map[*ssa.Alloc]bool{}, order: map[*ssa.BasicBlock]int{}}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				l := fi.loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, id: len(fi.loops)}
					fi.loops[s] = l
				}
				var add func(x *ssa.BasicBlock)
				add = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						add(p)
					}
				}
				add(b)
			}
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if a, ok := in.(*ssa.Alloc); ok {
				fi.cells[a] = localOnly(a, a, 0)
			}
		}
	}
	return fi
}

// localOnly: the address never leaves the function (apart from closures).
func localOnly(a *ssa.Alloc, v ssa.Value, depth int) bool {
	if v.Referrers() == nil || depth > 8 {
		return false
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.Store:
			if x.Val == v {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			if !localOnly(a, x, depth+1) {
				return false
			}
		case *ssa.IndexAddr:
			if x.X == v {
				if _, ok := deref(v.Type()).Underlying().(*types.Array); ok {
					if !localOnly(a, x, depth+1) {
						return false
					}
				}
			}
		case *ssa.Slice:
			if _, ok := deref(v.Type()).Underlying().(*types.Array); !ok {
				return false
			}
			// slicing a fresh array: allowed, the result is a snapshot
		case *ssa.MakeClosure:
			// captured by reference
			fn := x.Fn.(*ssa.Function)
			for i, b := range x.Bindings {
				if b == v && !localOnly(a, fn.FreeVars[i], depth+1) {
					return false
				}
			}
		default:
			return false
		}
	}
	return true
}

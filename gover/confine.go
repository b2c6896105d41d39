package main

// Confinement: a map field whose map nobody else ever holds. Everything in the
// package that touches the field stores a map made there or uses the map in
// place, so no other map-typed value is that map.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type confiner struct {
	p    *Program
	t    types.Type
	f    int
	seen map[ssa.Value]bool // uses
	orig map[ssa.Value]bool // made
	fns  map[*ssa.Function]bool
	why  string
}

func (p *Program) confined(t types.Type, f int) string {
	c := &confiner{p: p, t: t, f: f, seen: map[ssa.Value]bool{}, orig: map[ssa.Value]bool{}, fns: map[*ssa.Function]bool{}}
	st := t.Underlying().(*types.Struct)
	if st.Field(f).Exported() {
		return "the field is exported"
	}
	for _, fn := range p.ByName {
		c.fn(fn)
	}
	for _, sp := range p.SSA {
		if fn := sp.Func("init"); fn != nil {
			c.fn(fn)
		}
	}
	return c.why
}

func (c *confiner) bad(in ssa.Instruction, s string) {
	if c.why == "" {
		c.why = s + " in " + in.Parent().Name()
	}
}

func (c *confiner) fn(f *ssa.Function) {
	if c.fns[f] {
		return
	}
	c.fns[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.FieldAddr:
				if i.Field != c.f || !types.Identical(deref(i.X.Type()), c.t) {
					continue
				}
				for _, r := range *i.Referrers() {
					switch r := r.(type) {
					case *ssa.DebugRef:
					case *ssa.UnOp:
						c.uses(r, false)
					case *ssa.Store:
						if r.Addr != ssa.Value(i) {
							c.bad(r, "the address of the field is stored")
						} else {
							c.made(r.Val, r)
						}
					default:
						c.bad(r, "the address of the field is handed on")
					}
				}
			case *ssa.UnOp:
				if i.Op == token.MUL && types.Identical(i.Type(), c.t) {
					c.bad(i, "the struct is copied")
				}
			case *ssa.ChangeType, *ssa.Convert:
				if types.Identical(deref(i.(ssa.Value).Type()), c.t) {
					c.bad(i, "conversion")
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		c.fn(a)
	}
}

// uses: the map is only used in place.
func (c *confiner) uses(v ssa.Value, ret bool) {
	if c.seen[v] || v.Referrers() == nil {
		return
	}
	c.seen[v] = true
	for _, r := range *v.Referrers() {
		switch r := r.(type) {
		case *ssa.DebugRef, *ssa.Range, *ssa.Lookup, *ssa.BinOp:
		case *ssa.MapUpdate:
			if r.Value == v || r.Key == v {
				c.bad(r, "the map is stored in a map")
			}
		case *ssa.Phi:
			c.uses(r, ret)
		case *ssa.ChangeType:
			c.uses(r, ret)
		case *ssa.Return:
			if !ret {
				c.bad(r, "the map is returned")
			}
		case *ssa.Store:
			fa, ok := r.Addr.(*ssa.FieldAddr)
			if !ok || r.Val != v || fa.Field != c.f || !types.Identical(deref(fa.X.Type()), c.t) {
				c.bad(r, "the map is stored")
			}
		case *ssa.Call:
			if b, ok := r.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "delete", "clear":
					continue
				}
			}
			f := r.Call.StaticCallee()
			if f == nil || len(f.Blocks) == 0 || f.Pkg == nil || c.p.SSA[f.Pkg.Pkg.Name()] != f.Pkg {
				c.bad(r, "the map is handed to a function")
				continue
			}
			for i, a := range r.Call.Args {
				if a == v {
					c.uses(f.Params[i], false)
				}
			}
		default:
			c.bad(r, "the map is handed on")
		}
	}
}

// made: what is stored in the field was made for it.
func (c *confiner) made(v ssa.Value, at ssa.Instruction) {
	if c.orig[v] {
		return
	}
	c.orig[v] = true
	switch s := v.(type) {
	case *ssa.Const:
		return
	case *ssa.MakeMap:
		c.uses(v, false)
	case *ssa.ChangeType:
		c.uses(v, false)
		c.made(s.X, at)
	case *ssa.Phi:
		c.uses(v, false)
		for _, e := range s.Edges {
			c.made(e, at)
		}
	case *ssa.Call:
		c.uses(v, false)
		c.result(s, 0, at)
	case *ssa.Extract:
		if call, ok := s.Tuple.(*ssa.Call); ok {
			c.uses(v, false)
			c.result(call, s.Index, at)
			return
		}
		c.bad(at, "a map from elsewhere is stored")
	default:
		c.bad(at, "a map from elsewhere is stored")
	}
}

func (c *confiner) result(call *ssa.Call, i int, at ssa.Instruction) {
	f := call.Call.StaticCallee()
	if f == nil || len(f.Blocks) == 0 || f.Pkg == nil || c.p.SSA[f.Pkg.Pkg.Name()] != f.Pkg {
		c.bad(at, "a map from a function is stored")
		return
	}
	for _, b := range f.Blocks {
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		switch m := r.Results[i].(type) {
		case *ssa.Const:
		case *ssa.MakeMap:
			c.uses(m, true)
		default:
			c.bad(r, "a map from elsewhere is returned and stored")
		}
	}
}

// confine states the confinement of a field and assumes what follows from it:
// no parameter is that map.
func (x *Exec) confine(st *State, p Val, fr *Frame) {
	fp, ok := p.(*FieldPtr)
	if !ok {
		bail("confined_ of something else than a field")
	}
	f := fp.Typ.Underlying().(*types.Struct).Field(fp.Field)
	why := x.P.confined(fp.Typ, fp.Field)
	x.oblige(st, "ownership", "no one else holds the map in "+f.Name()+map[bool]string{true: "", false: ": "}[why == ""]+why, x.tagsWith("C23"), fr.fn.Pos(), x.Bool(why == ""))
	m := x.term(st, x.loadRaw(st, p))
	for _, pr := range fr.fn.Params {
		if !types.Identical(pr.Type().Underlying(), f.Type().Underlying()) {
			continue
		}
		v := x.term(st, fr.regs[pr])
		st.assume(x.Ctx, x.Or(x.Eq(v, x.NilLoc()), x.Not(x.Eq(v, m))))
	}
}

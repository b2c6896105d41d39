package main

// The model of encoding/xml's token stream. A decoder stands at a position of
// a fixed sequence of tokens; what a token is, whether reading it fails, where
// the element that starts at it ends, and what an element's content makes of a
// Go value are uninterpreted functions of the decoder and the position. Two
// ghost components are part of the state: the position of every decoder, and
// for every object the position of the element last decoded into it.

import (
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

const (
	xmlPosComp = "G.xml.pos"
	xmlSrcComp = "G.xml.src"
)

var locInt = arrSort("Loc", "Int")

func (x *Exec) xmlPos(st *State, d *Term) *Term {
	return x.Select(x.heapGet(st, xmlPosComp, locInt), d)
}
func (x *Exec) xmlSrc(st *State, l *Term) *Term {
	return x.Select(x.heapGet(st, xmlSrcComp, locInt), l)
}
func (x *Exec) xmlSetPos(st *State, d, p *Term) { x.setHeap(st, xmlPosComp, locInt, d, p) }
func (x *Exec) xmlLost(st *State, d *Term)      { x.xmlSetPos(st, d, x.Fresh("lost", "Int")) }

// xmlUF: a function of the decoder and a position
func (x *Exec) xmlUF(name, sort string, d, p *Term) *Term { return x.App("u.xml."+name, sort, d, p) }

func isDecoder(t types.Type) bool {
	return types.TypeString(t, nil) == "*encoding/xml.Decoder"
}

// anyLoc: the object an interface value points to
func (x *Exec) anyLoc(st *State, v Val) *Term {
	if al, ok := v.(*AnyLazy); ok {
		if t, ok := al.V.(*Term); ok && t.Sort == "Loc" {
			return t
		}
	}
	t := x.term(st, v)
	if t.Sort == "Loc" {
		return t
	}
	if ty := x.anyTyp[t.Op]; ty != nil && len(t.Args) == 1 && t.Args[0].Sort == "Loc" {
		return t.Args[0]
	}
	return x.App("anyloc", "Loc", t)
}

// known: an interface value whose dynamic type is known
func (x *Exec) known(v Val) (*AnyLazy, bool) {
	switch a := v.(type) {
	case *AnyLazy:
		return a, true
	case *Term:
		if ty := x.anyTyp[a.Op]; ty != nil && len(a.Args) == 1 {
			return &AnyLazy{Typ: ty, V: a.Args[0]}, true
		}
	}
	return nil, false
}

// anyName: the name of the dynamic type of an interface value (of the type
// pointed to, for pointers to named types)
func (x *Exec) anyName(st *State, v Val) *Term {
	if al, ok := x.known(v); ok {
		if n := pointeeName(al.Typ); n != "" {
			return x.Str(n)
		}
	}
	return x.App("anyname", "Str", x.term(st, v))
}

// freshHv: an unknown value in a heap component.
func (x *Exec) freshHv(comp, srt string, birth *Term) *Term {
	t := x.freshOf("hv", srt, birth)
	if n := x.compPtr[comp]; n != "" {
		x.objNames[t.Op] = n
	}
	return t
}

// objName: the name of the named type of the object at l, for values of the
// program (whose static type, or dynamic type, says what is there).
func (x *Exec) objName(l *Term) *Term { return x.App("objname", "Str", l) }

// nameFacts: what the type of a location says about the object there.
func (x *Exec) nameFacts(t *Term) []*Term {
	if _, ok := x.funs["anyname"]; !ok {
		return nil
	}
	b := t
	if t.Op == "select" && t.Sort == "Loc" {
		b = t.Args[0]
	}
	n := x.objNames[b.Op]
	if n == "" || len(b.Args) != 0 {
		return nil
	}
	return []*Term{x.Implies(x.Not(x.Eq(t, x.NilLoc())), x.Eq(x.objName(t), x.Str(n)))}
}

func pointeeName(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		if n, ok := p.Elem().(*types.Named); ok {
			return n.Obj().Name()
		}
	}
	return ""
}

// anyFacts are the axioms of anyloc and anyname for a constructor of Any.
func (e *Enc) anyFacts(k string, t types.Type) {
	if e.SortOf(t) != "Loc" {
		return
	}
	y := e.Var("y", "Any")
	al := e.App("anyloc", "Loc", y)
	e.AddAxiom("anyloc."+k, e.Forall([]*Term{y}, e.Implies(e.Is(k, y), e.Eq(al, e.Sel(k+".v", y))), []*Term{al}), []string{"anyloc", k})
	if n := pointeeName(t); n != "" {
		an := e.App("anyname", "Str", y)
		e.AddAxiom("anyname."+k, e.Forall([]*Term{y}, e.Implies(e.Is(k, y), e.Eq(an, e.Str(n))), []*Term{an}), []string{"anyname", k})
	}
}

func (x *Exec) xmlToken(st *State, c *extCall) {
	d := x.term(st, c.args[0])
	x.safety(st, c.pos, "nil pointer", x.Not(x.Eq(d, x.NilLoc())))
	p := x.xmlPos(st, d)
	e := x.xmlUF("tokerr", "Any", d, p)
	x.branch(st, x.Eq(e, x.NilAny()), func(st2 *State, ok bool) {
		if !ok {
			x.xmlLost(st2, d)
			c.k(st2, TupleVal{x.NilAny(), e})
			return
		}
		// the stream is finite
		st2.assume(x.Ctx, x.Lt(p, x.App("u.xml.size", "Int", d)))
		x.xmlSetPos(st2, d, x.Add(p, x.Int(1)))
		c.k(st2, TupleVal{x.xmlUF("token", "Any", d, p), x.NilAny()})
	})
}

// atStart: the decoder has just returned a start element.
func (x *Exec) atStart(st *State, c *extCall, d *Term) (*Term, *Term, types.Type) {
	p := x.Sub(x.xmlPos(st, d), x.Int(1))
	t := x.xmlUF("token", "Any", d, p)
	var se types.Type
	if c.fn.Name() == "Skip" {
		se = c.fn.Pkg.Pkg.Scope().Lookup("StartElement").Type()
	} else {
		se = deref(c.fn.Signature.Params().At(1).Type())
	}
	return p, x.And(x.Eq(x.xmlUF("tokerr", "Any", d, p), x.NilAny()), x.IsAny(se, t)), se
}

func (x *Exec) xmlSkip(st *State, c *extCall) {
	d := x.term(st, c.args[0])
	x.safety(st, c.pos, "nil pointer", x.Not(x.Eq(d, x.NilLoc())))
	p, good, _ := x.atStart(st, c, d)
	x.branch(st, good, func(st *State, ok bool) {
		if !ok {
			x.xmlLost(st, d)
			c.k(st, x.freshOf("skiperr", "Any", st.wm))
			return
		}
		e := x.xmlUF("skiperr", "Any", d, p)
		x.branch(st, x.Eq(e, x.NilAny()), func(st *State, ok bool) {
			if !ok {
				x.xmlLost(st, d)
				c.k(st, e)
				return
			}
			st.assume(x.Ctx, x.Lt(p, x.xmlUF("after", "Int", d, p)))
			x.xmlSetPos(st, d, x.xmlUF("after", "Int", d, p))
			c.k(st, x.NilAny())
		})
	})
}

func (x *Exec) xmlDecodeElement(st *State, c *extCall) {
	d := x.term(st, c.args[0])
	x.safety(st, c.pos, "nil pointer", x.Not(x.Eq(d, x.NilLoc())))
	p, good, se := x.atStart(st, c, d)
	if l, ok := c.args[2].(*Term); ok {
		good = x.And(good, x.Not(x.Eq(l, x.NilLoc())), x.Eq(x.loadObj(st, l, se), x.AnyVal(se, x.xmlUF("token", "Any", d, p))))
	} else {
		good = x.And(good, x.Eq(x.term(st, x.loadRaw(st, c.args[2])), x.AnyVal(se, x.xmlUF("token", "Any", d, p))))
	}
	if t, ok := c.args[1].(*Term); ok && x.anyTyp[t.Op] == nil {
		good = x.And(good, x.Not(x.Eq(t, x.NilAny())))
	}
	x.branch(st, good, func(st *State, ok bool) {
		if !ok {
			x.xmlInto(st, c, d, nil)
			x.xmlLost(st, d)
			c.k(st, x.freshOf("decerr", "Any", st.wm))
			return
		}
		e := x.xmlUF("decerr", "Any", d, p)
		x.branch(st, x.Eq(e, x.NilAny()), func(st *State, ok bool) {
			if !ok {
				x.xmlInto(st, c, d, nil)
				x.xmlLost(st, d)
				c.k(st, e)
				return
			}
			x.xmlInto(st, c, d, p)
			st.assume(x.Ctx, x.Lt(p, x.xmlUF("after", "Int", d, p)))
			x.xmlSetPos(st, d, x.xmlUF("after", "Int", d, p))
			c.k(st, x.NilAny())
		})
	})
}

// xmlInto decodes the element at p (nil: part of something) into the target.
func (x *Exec) xmlInto(st *State, c *extCall, d, p *Term) {
	alloc := func() {
		wm := x.Fresh("wm", "Int")
		st.assume(x.Ctx, x.Le(st.wm, wm))
		st.wm = wm
	}
	mark := func(l *Term) {
		q := p
		if q == nil {
			q = x.Fresh("part", "Int")
		}
		x.setHeap(st, xmlSrcComp, locInt, l, q)
	}
	content := func(kind, sort string, old *Term) *Term {
		if p == nil {
			return x.freshOf("part", sort, st.wm)
		}
		return x.App("u.xml.decoded."+kind, sort, old, d, p)
	}
	al, ok := x.known(c.args[1])
	if !ok {
		// an object of a type that is not known here: nothing that was known
		// about the contents is kept
		l := x.anyLoc(st, c.args[1])
		x.frame(st, "the decoded object", l, c.pos)
		for comp, h := range st.heap {
			if !strings.HasPrefix(comp, "H.") && !strings.HasPrefix(comp, "B.") && !strings.HasPrefix(comp, "M.") {
				continue
			}
			ks, vs := arrSorts(h.Sort)
			if ks == "Loc" {
				st.heap[comp] = x.Store(h, l, x.freshHv(comp, vs, st.wm))
			}
		}
		alloc()
		mark(l)
		return
	}
	pt, ok := al.Typ.Underlying().(*types.Pointer)
	if !ok {
		bail("DecodeElement into %s", al.Typ)
	}
	et := pt.Elem()
	switch u := et.Underlying().(type) {
	case *types.Pointer:
		old := x.term(st, x.load(st, al.V, et, c.pos))
		nl := x.alloc(st)
		l := x.Ite(x.Eq(old, x.NilLoc()), nl, old)
		nv := l
		if p == nil { // it may not have come to that
			nv = x.Ite(x.Fresh("part", "Bool"), l, old)
		}
		x.store(st, al.V, et, nv, c.pos)
		if isStruct(u.Elem()) {
			x.storeObj(st, l, u.Elem(), x.freshOf("content", x.SortOf(u.Elem()), st.wm), c.pos)
		} else {
			bail("DecodeElement into %s", al.Typ)
		}
		alloc()
		mark(l)
	case *types.Map:
		m := x.term(st, x.load(st, al.V, et, c.pos))
		x.safety(st, c.pos, "assignment to nil map", x.Not(x.Eq(m, x.NilLoc())))
		old := x.mapCont(st, m, et)
		x.setMap(st, m, et, content(tk(et), old.Sort, old), c.pos)
		alloc()
		mark(m)
	case *types.Struct, *types.Basic:
		old := x.term(st, x.load(st, al.V, et, c.pos))
		x.store(st, al.V, et, content(tk(et), x.SortOf(et), old), c.pos)
		alloc()
		if l, ok := al.V.(*Term); ok {
			mark(l)
		}
	default:
		bail("DecodeElement into %s", al.Typ)
	}
}

// setDefaults models go-defaults: empty fields with a default tag get its value.
func (x *Exec) setDefaults(st *State, c *extCall) {
	al, ok := x.known(c.args[0])
	if !ok {
		bail("SetDefaults of an interface")
	}
	pt, ok := al.Typ.Underlying().(*types.Pointer)
	if !ok || !isStruct(pt.Elem()) {
		bail("SetDefaults of %s", al.Typ)
	}
	l, ok := al.V.(*Term)
	if !ok {
		bail("SetDefaults of a local")
	}
	x.safety(st, c.pos, "nil pointer", x.Not(x.Eq(l, x.NilLoc())))
	var fill func(l *Term, t types.Type)
	fill = func(l *Term, t types.Type) {
		s := t.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if !s.Field(i).Exported() {
				continue
			}
			if isStruct(ft) {
				fill(x.subLoc(l, t, i), ft)
				continue
			}
			tag := reflect.StructTag(s.Tag(i)).Get("default")
			if tag == "" {
				continue
			}
			var v *Term
			b, ok := ft.Underlying().(*types.Basic)
			if !ok {
				bail("default of a %s", ft)
			}
			switch {
			case b.Info()&types.IsString != 0:
				v = x.Str(tag)
			case b.Info()&types.IsBoolean != 0:
				r, _ := strconv.ParseBool(tag)
				v = x.Bool(r)
			case b.Info()&types.IsInteger != 0:
				r, _ := strconv.ParseInt(tag, 10, 64)
				v = x.Int(r)
			case b.Info()&types.IsFloat != 0:
				r, _ := strconv.ParseFloat(tag, 64)
				v = x.FLit(r, x.SortOf(ft))
			default:
				bail("default of a %s", ft)
			}
			cur := x.loadField(st, l, t, i)
			empty := x.Eq(cur, x.zero(ft))
			if b.Info()&types.IsFloat != 0 {
				empty = x.FEq(cur, x.zero(ft))
			}
			x.storeField(st, l, t, i, x.Ite(empty, v, cur), c.pos)
		}
	}
	fill(l, pt.Elem())
	c.k(st, nil)
}

func init() {
	note := func(f extFn) extFn {
		return func(x *Exec, st *State, c *extCall) {
			x.assumed["encoding/xml.Decoder: Token, DecodeElement and Skip walk one fixed, finite token sequence; decoding an element ends behind its end tag, writes only to the given object, and yields an error or a function of the object's former value and the element"] = true
			f(x, st, c)
		}
	}
	externals["(*encoding/xml.Decoder).Token"] = note((*Exec).xmlToken)
	externals["(*encoding/xml.Decoder).Skip"] = note((*Exec).xmlSkip)
	externals["(*encoding/xml.Decoder).DecodeElement"] = note((*Exec).xmlDecodeElement)
	externals["github.com/mcuadros/go-defaults.SetDefaults"] = func(x *Exec, st *State, c *extCall) {
		x.assumed["go-defaults.SetDefaults gives empty fields the value of their default tag and has no other effect"] = true
		x.setDefaults(st, c)
	}
}

package main

// Encoding of Go types and primitive operations into SMT.

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"strconv"
	"strings"
)

type Enc struct {
	*Ctx
	prog    *Program
	inprog  map[string]bool
	floatN  int
	fieldID map[string]int
	anyTyp  map[string]types.Type // ctor -> dynamic type
}

func NewEnc(p *Program) *Enc {
	e := &Enc{Ctx: NewCtx(), prog: p, inprog: map[string]bool{}, fieldID: map[string]int{}, anyTyp: map[string]types.Type{}}
	e.DeclDT(&Datatype{"Loc", []DTCtor{{"loc.nil", nil, nil}, {"loc.obj", []string{"loc.id"}, []string{"Int"}}, {"loc.sub", []string{"loc.par", "loc.fld"}, []string{"Loc", "Int"}}}})
	e.DeclDT(&Datatype{"Any", []DTCtor{{"any.nil", nil, nil}, {"any.other", []string{"any.tag", "any.id"}, []string{"Int", "Int"}}}})
	e.DeclSort("Str")
	e.DeclSort("F64")
	e.DeclSort("F32")
	e.DeclSort("Fn")
	e.DeclSort("World")
	// root of a location
	l := e.Var("l", "Loc")
	i := e.Var("i", "Int")
	root := func(x *Term) *Term { return e.App("root", "Int", x) }
	e.AddAxiom("root.obj", e.Forall([]*Term{i}, e.Eq(root(e.Mk("loc.obj", i)), i), []*Term{e.Mk("loc.obj", i)}), []string{"root"})
	e.AddAxiom("root.sub", e.Forall([]*Term{l, i}, e.Eq(root(e.Mk("loc.sub", l, i)), root(l)), []*Term{e.Mk("loc.sub", l, i)}), []string{"root"})
	e.AddAxiom("root.nil", e.Eq(root(e.Mk("loc.nil")), e.Int(0)), []string{"root"})
	e.floatAxioms()
	e.strAxioms()
	return e
}

func (e *Enc) Root(l *Term) *Term {
	if l.Op == "loc.obj" {
		return l.Args[0]
	}
	if l.Op == "loc.sub" {
		return e.Root(l.Args[0])
	}
	if l.Op == "loc.nil" {
		return e.Int(0)
	}
	return e.App("root", "Int", l)
}

func (e *Enc) NilLoc() *Term { return e.Mk("loc.nil") }
func (e *Enc) NilAny() *Term { return e.Mk("any.nil") }

func typeKey(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if strings.HasPrefix(p.Path(), "github.com/flukeish/pmml/") {
			return p.Name()
		}
		return strings.ReplaceAll(p.Path(), "/", ".")
	})
}

func tk(t types.Type) string { return sanitize(typeKey(t)) }

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

// SortOf maps a Go type to an SMT sort.
func (e *Enc) SortOf(t types.Type) string {
	if isMapGhost(t) {
		return e.mapGhostSort(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Kind() == types.Float32:
			return "F32"
		case u.Info()&types.IsFloat != 0:
			return "F64"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Kind() == types.UntypedNil:
			return "Any"
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return "Loc"
	case *types.Signature:
		return "Fn"
	case *types.Interface:
		return "Any"
	case *types.Slice:
		return e.SliceSort(u.Elem())
	case *types.Array:
		return e.SeqSort(u.Elem())
	case *types.Struct:
		return e.StructSort(t)
	}
	panic(unsupported("type " + t.String()))
}

func (e *Enc) StructSort(t types.Type) string {
	st := t.Underlying().(*types.Struct)
	name := "S_" + tk(t)
	if _, ok := e.dts[name]; ok || e.inprog[name] {
		return name
	}
	e.inprog[name] = true
	k := DTCtor{Name: "mk." + name}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		k.Fields = append(k.Fields, name+"."+f.Name())
		k.Sorts = append(k.Sorts, e.SortOf(f.Type()))
	}
	e.DeclDT(&Datatype{name, []DTCtor{k}})
	delete(e.inprog, name)
	return name
}

func (e *Enc) Field(t types.Type, i int, v *Term) *Term {
	st := t.Underlying().(*types.Struct)
	n := e.StructSort(t)
	return e.Sel(n+"."+st.Field(i).Name(), v)
}

func (e *Enc) WithField(t types.Type, i int, v, x *Term) *Term {
	st := t.Underlying().(*types.Struct)
	n := e.StructSort(t)
	var as []*Term
	for j := 0; j < st.NumFields(); j++ {
		if j == i {
			as = append(as, x)
		} else {
			as = append(as, e.Field(t, j, v))
		}
	}
	return e.Mk("mk."+n, as...)
}

func (e *Enc) SeqSort(elem types.Type) string {
	return e.seqSortOf(e.SortOf(elem))
}

func (e *Enc) seqSortOf(es string) string {
	s := "Seq_" + sanitize(strings.ReplaceAll(strings.Trim(es, "()"), " ", "."))
	if e.sorts[s] {
		return s
	}
	e.DeclSort(s)
	sl := "Sl" + s[3:]
	e.DeclDT(&Datatype{sl, []DTCtor{{"mk." + sl, []string{sl + ".nil", sl + ".seq"}, []string{"Bool", s}}}})
	e.Declare("len."+s, "Int", s)
	e.Declare("at."+s, es, s, "Int")
	e.Declare("empty."+s, s)
	e.Declare("snoc."+s, s, s, es)
	e.Declare("app."+s, s, s, s)
	e.Declare("upd."+s, s, s, "Int", es)
	e.Declare("rep."+s, s, "Int", es)
	e.Declare("sub."+s, s, s, "Int", "Int")
	a := e.Var("a", s)
	b := e.Var("b", s)
	x := e.Var("x"+sanitize(es), es)
	i := e.Var("i", "Int")
	j := e.Var("j", "Int")
	ln := func(t *Term) *Term { return e.mk("len."+s, "Int", t) }
	at := func(t, i *Term) *Term { return e.mk("at."+s, es, t, i) }
	emp := e.mk("empty."+s, s)
	snoc := func(t, x *Term) *Term { return e.mk("snoc."+s, s, t, x) }
	app := func(t, u *Term) *Term { return e.mk("app."+s, s, t, u) }
	upd := e.mk("upd."+s, s, a, i, x)
	rep := e.mk("rep."+s, s, i, x)
	sub := e.mk("sub."+s, s, a, i, j)
	k := e.Var("k", "Int")
	in := func(i, n *Term) *Term { return e.And(e.Le(e.Int(0), i), e.Lt(i, n)) }
	key := []string{"len." + s}
	kat := []string{"at." + s}
	ax := func(n string, vars []*Term, body *Term, keys []string, pats ...[]*Term) {
		e.AddAxiom(n+"."+s, e.Forall(vars, body, pats...), keys)
	}
	ax("len0", []*Term{a}, e.And(e.Le(e.Int(0), ln(a)), e.Implies(e.Eq(ln(a), e.Int(0)), e.Eq(a, emp))), key, []*Term{ln(a)})
	e.AddAxiom("lenempty."+s, e.Eq(ln(emp), e.Int(0)), []string{"empty." + s})
	ax("lensnoc", []*Term{a, x}, e.Eq(ln(snoc(a, x)), e.Add(ln(a), e.Int(1))), []string{"snoc." + s}, []*Term{snoc(a, x)})
	ax("atsnoc1", []*Term{a, x}, e.Eq(at(snoc(a, x), ln(a)), x), []string{"snoc." + s}, []*Term{snoc(a, x)})
	ax("atsnoc2", []*Term{a, x, i}, e.Implies(in(i, ln(a)), e.Eq(at(snoc(a, x), i), at(a, i))), []string{"snoc." + s, "at." + s}, []*Term{at(snoc(a, x), i)}, []*Term{snoc(a, x), at(a, i)})
	ax("lenapp", []*Term{a, b}, e.Eq(ln(app(a, b)), e.mk("+", "Int", ln(a), ln(b))), []string{"app." + s}, []*Term{app(a, b)})
	ax("atapp", []*Term{a, b, i}, e.And(e.Implies(in(i, ln(a)), e.Eq(at(app(a, b), i), at(a, i))),
		e.Implies(e.And(e.Le(ln(a), i), e.Lt(i, e.mk("+", "Int", ln(a), ln(b)))), e.Eq(at(app(a, b), i), at(b, e.mk("-", "Int", i, ln(a)))))), []string{"app." + s, "at." + s}, []*Term{at(app(a, b), i)})
	ax("appsnoc", []*Term{a, b, x}, e.Eq(app(a, snoc(b, x)), snoc(app(a, b), x)), []string{"app." + s, "snoc." + s}, []*Term{app(a, snoc(b, x))})
	ax("appemp1", []*Term{a}, e.Eq(app(a, emp), a), []string{"app." + s}, []*Term{app(a, emp)})
	ax("appemp2", []*Term{a}, e.Eq(app(emp, a), a), []string{"app." + s}, []*Term{app(emp, a)})
	ax("lenupd", []*Term{a, i, x}, e.Eq(ln(upd), ln(a)), []string{"upd." + s}, []*Term{upd})
	ax("atupd", []*Term{a, i, x, j}, e.Eq(at(upd, j), e.mk("ite", es, e.And(e.mk("=", "Bool", i, j), in(i, ln(a))), x, at(a, j))), []string{"upd." + s, "at." + s}, []*Term{at(upd, j)})
	ax("lenrep", []*Term{i, x}, e.Implies(e.Le(e.Int(0), i), e.Eq(ln(rep), i)), []string{"rep." + s}, []*Term{rep})
	ax("atrep", []*Term{i, x, j}, e.Implies(in(j, i), e.Eq(at(rep, j), x)), []string{"rep." + s, "at." + s}, []*Term{at(rep, j)})
	ax("lensub", []*Term{a, i, j}, e.Implies(e.And(e.Le(e.Int(0), i), e.Le(i, j), e.Le(j, ln(a))), e.Eq(ln(sub), e.mk("-", "Int", j, i))), []string{"sub." + s}, []*Term{sub})
	ax("atsub", []*Term{a, i, j, k}, e.Implies(e.And(e.Le(e.Int(0), i), e.Le(j, ln(a)), in(k, e.mk("-", "Int", j, i))), e.Eq(at(sub, k), at(a, e.mk("+", "Int", i, k)))), []string{"sub." + s, "at." + s}, []*Term{at(sub, k)})
	ax("subfull", []*Term{a, j}, e.Implies(e.Eq(j, ln(a)), e.Eq(e.mk("sub."+s, s, a, e.Int(0), j), a)), []string{"sub." + s}, []*Term{e.mk("sub."+s, s, a, e.Int(0), j)})
	_ = kat
	return s
}

func (e *Enc) SliceSort(elem types.Type) string {
	seq := e.SeqSort(elem)
	return "Sl" + seq[3:]
}

func (e *Enc) SlSeq(s *Term) *Term { return e.Sel(s.Sort+".seq", s) }
func (e *Enc) SlNil(s *Term) *Term { return e.Sel(s.Sort+".nil", s) }
func (e *Enc) MkSl(nilf, seq *Term) *Term {
	n := "Sl" + seq.Sort[3:]
	return e.Mk("mk."+n, nilf, seq)
}
func (e *Enc) seqElem(s string) string { return e.funs["at."+s].Ret }

func (e *Enc) Len(seq *Term) *Term {
	s := seq.Sort
	switch seq.Op {
	case "empty." + s:
		return e.Int(0)
	case "snoc." + s:
		return e.Add(e.Len(seq.Args[0]), e.Int(1))
	case "upd." + s:
		return e.Len(seq.Args[0])
	case "rep." + s:
		if n, ok := intLit(seq.Args[0]); ok && n >= 0 {
			return seq.Args[0]
		}
	}
	return e.mk("len."+s, "Int", seq)
}
func (e *Enc) At(seq, i *Term) *Term {
	s := seq.Sort
	if seq.Op == "snoc."+s {
		n := e.Len(seq.Args[0])
		if n == i {
			return seq.Args[1]
		}
		if a, ok := intLit(n); ok {
			if b, ok := intLit(i); ok && b >= 0 && b < a {
				return e.At(seq.Args[0], i)
			}
		}
	}
	return e.mk("at."+s, e.seqElem(s), seq, i)
}
func (e *Enc) Empty(seqSort string) *Term { return e.mk("empty."+seqSort, seqSort) }
func (e *Enc) Snoc(s, x *Term) *Term {
	if e.seqElem(s.Sort) != x.Sort {
		panic(unsupported("snoc sort"))
	}
	return e.mk("snoc."+s.Sort, s.Sort, s, x)
}
func (e *Enc) AppSeq(a, b *Term) *Term {
	s := a.Sort
	if b.Op == "empty."+s {
		return a
	}
	if a.Op == "empty."+s {
		return b
	}
	if b.Op == "snoc."+s {
		return e.Snoc(e.AppSeq(a, b.Args[0]), b.Args[1])
	}
	return e.mk("app."+s, s, a, b)
}
func (e *Enc) Upd(s, i, x *Term) *Term { return e.mk("upd."+s.Sort, s.Sort, s, i, x) }
func (e *Enc) SubSeq(s, i, j *Term) *Term {
	if n, ok := intLit(i); ok && n == 0 && j == e.Len(s) {
		return s
	}
	return e.mk("sub."+s.Sort, s.Sort, s, i, j)
}
func (e *Enc) Rep(seqSort string, n, x *Term) *Term {
	if k, ok := intLit(n); ok && k == 0 {
		return e.Empty(seqSort)
	}
	return e.mk("rep."+seqSort, seqSort, n, x)
}

// ---- options / maps

func (e *Enc) OptSort(v string) string {
	n := "Opt_" + sanitize(strings.ReplaceAll(strings.Trim(v, "()"), " ", "."))
	if _, ok := e.dts[n]; !ok {
		e.DeclDT(&Datatype{n, []DTCtor{{"none." + n, nil, nil}, {"some." + n, []string{n + ".v"}, []string{v}}}})
	}
	return n
}

func (e *Enc) ContSort(m types.Type) string {
	u := m.Underlying().(*types.Map)
	return arrSort(e.SortOf(u.Key()), e.OptSort(e.SortOf(u.Elem())))
}
func (e *Enc) None(opt string) *Term          { return e.Mk("none." + opt) }
func (e *Enc) Some(opt string, v *Term) *Term { return e.Mk("some."+opt, v) }
func (e *Enc) IsSome(o *Term) *Term           { return e.Is("some."+o.Sort, o) }
func (e *Enc) OptVal(o *Term) *Term           { return e.Sel(o.Sort+".v", o) }
func (e *Enc) EmptyCont(m types.Type) *Term {
	s := e.ContSort(m)
	_, o := arrSorts(s)
	return e.ConstArr(s, e.None(o))
}

// ---- Any

func (e *Enc) anyCtor(t types.Type) string {
	k := "any." + tk(t)
	if _, ok := e.ctor[k]; !ok {
		s := e.SortOf(t)
		e.AddCtor("Any", DTCtor{k, []string{k + ".v"}, []string{s}})
		e.anyTyp[k] = t
		e.anyFacts(k, t)
	}
	return k
}

func (e *Enc) MkAny(t types.Type, v *Term) *Term {
	if types.IsInterface(t) {
		return v
	}
	return e.Mk(e.anyCtor(t), v)
}

func (e *Enc) IsAny(t types.Type, v *Term) *Term  { return e.Is(e.anyCtor(t), v) }
func (e *Enc) AnyVal(t types.Type, v *Term) *Term { return e.Sel(e.anyCtor(t)+".v", v) }

// AnyImplements: does the dynamic value implement the interface?
func (e *Enc) AnyImplements(iface types.Type, v *Term) *Term {
	it := iface.Underlying().(*types.Interface)
	if v.Op == "any.nil" {
		return e.False()
	}
	if t, ok := e.anyTyp[v.Op]; ok {
		return e.Bool(types.Implements(t, it))
	}
	if it.NumMethods() == 0 {
		return e.Not(e.Eq(v, e.NilAny()))
	}
	f := "impl." + sanitize(types.TypeString(it, nil))
	e.AddAxiom(f+".nil", e.Not(e.App(f, "Bool", e.NilAny())), []string{f})
	for c, t := range e.anyTyp {
		x := e.Var("x"+sanitize(e.SortOf(t)), e.SortOf(t))
		a := e.Mk(c, x)
		e.AddAxiom(f+"."+c, e.Forall([]*Term{x}, e.Eq(e.App(f, "Bool", a), e.Bool(types.Implements(t, it))), []*Term{a}), []string{f, c})
		y := e.Var("y", "Any")
		fy := e.App(f, "Bool", y)
		e.AddAxiom(f+".is."+c, e.Forall([]*Term{y}, e.Implies(e.Is(c, y), e.Eq(fy, e.Bool(types.Implements(t, it)))), []*Term{fy}), []string{f, c})
	}
	return e.App(f, "Bool", v)
}

// AnyEq is Go's == on interface values.
func (e *Enc) AnyEq(a, b *Term) *Term {
	if a.Op == "any.nil" || b.Op == "any.nil" {
		return e.Eq(a, b)
	}
	f64 := types.Typ[types.Float64]
	f32 := types.Typ[types.Float32]
	return e.Ite(e.And(e.IsAny(f64, a), e.IsAny(f64, b)), e.FEq(e.AnyVal(f64, a), e.AnyVal(f64, b)),
		e.Ite(e.And(e.IsAny(f32, a), e.IsAny(f32, b)), e.FEq(e.AnyVal(f32, a), e.AnyVal(f32, b)), e.Eq(a, b)))
}

// ---- strings

func (e *Enc) Str(s string) *Term {
	if t, ok := e.strLits[s]; ok {
		return t
	}
	n := len(e.strLits) + 1
	lab := sanitize(s)
	if len(lab) > 24 {
		lab = lab[:24]
	}
	t := e.Const(fmt.Sprintf("strlit!%d!%s", n, lab), "Str")
	e.strLits[s] = t
	e.AddAxiom("strid."+t.Op, e.And(e.Eq(e.App("strid", "Int", t), e.Int(int64(n))), e.Eq(e.App("strlen", "Int", t), e.Int(int64(len(s))))), []string{t.Op})
	return t
}

func (e *Enc) strLit(t *Term) (string, bool) {
	if !strings.HasPrefix(t.Op, "strlit!") {
		return "", false
	}
	for s, x := range e.strLits {
		if x == t {
			return s, true
		}
	}
	return "", false
}

func (e *Enc) strAxioms() {
	a := e.Var("sa", "Str")
	l := e.App("strlen", "Int", a)
	e.AddAxiom("strlen0", e.Forall([]*Term{a}, e.And(e.Le(e.Int(0), l), e.Implies(e.Eq(l, e.Int(0)), e.Eq(a, e.Str("")))), []*Term{l}), []string{"strlen"})
	b := e.Var("sb", "Str")
	cc := e.App("strcat", "Str", a, b)
	e.AddAxiom("concatlen", e.Forall([]*Term{a, b}, e.Eq(e.App("strlen", "Int", cc), e.mk("+", "Int", l, e.App("strlen", "Int", b))), []*Term{cc}), []string{"strcat", "strlen"})
	inj := e.App("concat.r", "Str", a, cc)
	e.AddAxiom("concatinj", e.Forall([]*Term{a, b}, e.Eq(inj, b), []*Term{cc}), []string{"strcat"})
	sf := e.App("strfrom", "Str", cc, l)
	e.AddAxiom("concatfrom", e.Forall([]*Term{a, b}, e.Eq(sf, b), []*Term{sf}), []string{"strcat", "strfrom"})
	slt := e.App("slt", "Bool", a, b)
	_ = slt
}

func (e *Enc) Concat(a, b *Term) *Term {
	if s, ok := e.strLit(a); ok {
		if s == "" {
			return b
		}
		if s2, ok := e.strLit(b); ok {
			return e.Str(s + s2)
		}
		if b.Op == "strcat" {
			if s2, ok := e.strLit(b.Args[0]); ok {
				return e.Concat(e.Str(s+s2), b.Args[1])
			}
		}
	}
	if s, ok := e.strLit(b); ok && s == "" {
		return a
	}
	if a.Op == "strcat" {
		return e.Concat(a.Args[0], e.Concat(a.Args[1], b))
	}
	return e.App("strcat", "Str", a, b)
}

func (e *Enc) StrLen(a *Term) *Term {
	if s, ok := e.strLit(a); ok {
		return e.Int(int64(len(s)))
	}
	return e.App("strlen", "Int", a)
}

// ---- floats (IEEE values as an uninterpreted sort with valid axioms)

func (e *Enc) FLit(f float64, srt string) *Term {
	bits := math.Float64bits(f)
	k := srt + strconv.FormatUint(bits, 16)
	if t, ok := e.fltLits[k]; ok {
		return t
	}
	t := e.Const("fltlit!"+k, srt)
	e.fltLits[k] = t
	x := "x" + srt
	e.AddAxiom("flit."+t.Op, e.And(e.Eq(e.App("fid."+srt, "Int", t), e.IntS(strconv.FormatInt(int64(len(e.fltLits)), 10))), e.Not(e.App("isnan."+srt, "Bool", t))), []string{t.Op})
	_ = x
	return t
}

func (e *Enc) flitVal(t *Term) (float64, bool) {
	if !strings.HasPrefix(t.Op, "fltlit!F64") {
		return 0, false
	}
	b, err := strconv.ParseUint(strings.TrimPrefix(t.Op, "fltlit!F64"), 16, 64)
	if err != nil {
		return 0, false
	}
	return math.Float64frombits(b), true
}

func (e *Enc) FAdd(a, b *Term) *Term { return e.App("fadd."+a.Sort, a.Sort, a, b) }
func (e *Enc) FNeg(a *Term) *Term {
	if a.Op == "fneg."+a.Sort {
		return a.Args[0]
	}
	if v, ok := e.flitVal(a); ok {
		return e.FLit(-v, a.Sort)
	}
	return e.App("fneg."+a.Sort, a.Sort, a)
}
func (e *Enc) FSub(a, b *Term) *Term { return e.FAdd(a, e.FNeg(b)) }
func (e *Enc) FMul(a, b *Term) *Term {
	if v, ok := e.flitVal(a); ok && v == 1 {
		return b
	}
	if v, ok := e.flitVal(b); ok && v == 1 {
		return a
	}
	if v, ok := e.flitVal(a); ok && v == -1 {
		return e.FNeg(b)
	}
	if v, ok := e.flitVal(b); ok && v == -1 {
		return e.FNeg(a)
	}
	return e.App("fmul."+a.Sort, a.Sort, a, b)
}
func (e *Enc) FDiv(a, b *Term) *Term {
	if v, ok := e.flitVal(b); ok && v == 1 {
		return a
	}
	if v, ok := e.flitVal(a); ok {
		if w, ok := e.flitVal(b); ok && w != 0 {
			return e.FLit(v/w, a.Sort)
		}
	}
	return e.App("fdiv."+a.Sort, a.Sort, a, b)
}
func (e *Enc) FLt(a, b *Term) *Term { return e.App("flt."+a.Sort, "Bool", a, b) }
func (e *Enc) FLe(a, b *Term) *Term { return e.App("fle."+a.Sort, "Bool", a, b) }
func (e *Enc) FEq(a, b *Term) *Term {
	if v, ok := e.flitVal(a); ok {
		if w, ok := e.flitVal(b); ok {
			return e.Bool(v == w)
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return e.App("feq."+a.Sort, "Bool", a, b)
}
func (e *Enc) I2F(a *Term, srt string) *Term {
	if n, ok := intLit(a); ok && srt == "F64" && n > -(1<<52) && n < 1<<52 {
		return e.FLit(float64(n), srt)
	}
	return e.App("i2f."+srt, srt, a)
}
func (e *Enc) F2I(a *Term) *Term { return e.App("f2i."+a.Sort, "Int", a) }
func (e *Enc) FConv(a *Term, srt string) *Term {
	if a.Sort == srt {
		return a
	}
	return e.App("fconv."+srt, srt, a)
}

func (e *Enc) floatAxioms() {
	for _, s := range []string{"F64", "F32"} {
		a, b := e.Var("fa"+s, s), e.Var("fb"+s, s)
		c := e.Var("fc"+s, s)
		nan := func(x *Term) *Term { return e.App("isnan."+s, "Bool", x) }
		add := e.FAdd(a, b)
		mul := e.FMul(a, b)
		lt, le := e.FLt(a, b), e.FLe(a, b)
		eq := e.mk("feq."+s, "Bool", a, b)
		e.Declare("feq."+s, "Bool", s, s)
		eqr := e.mk("feq."+s, "Bool", b, a)
		ltr := e.FLt(b, a)
		ler := e.FLe(b, a)
		e.AddAxiom("faddc"+s, e.Forall([]*Term{a, b}, e.Eq(add, e.FAdd(b, a)), []*Term{add}), []string{"fadd." + s})
		e.AddAxiom("fmulc"+s, e.Forall([]*Term{a, b}, e.Eq(mul, e.FMul(b, a)), []*Term{mul}), []string{"fmul." + s})
		// comparison structure
		body := e.And(
			e.Implies(lt, e.And(e.Not(ltr), e.Not(eq), e.Not(ler), le, e.Not(nan(a)), e.Not(nan(b)))),
			e.Implies(le, e.And(e.Not(nan(a)), e.Not(nan(b)), e.Or(lt, eq), e.Not(ltr))),
			e.Implies(eq, e.And(le, ler, eqr, e.Not(nan(a)), e.Not(nan(b)))),
			e.Implies(e.And(e.Not(nan(a)), e.Not(nan(b))), e.And(e.Or(lt, eq, ltr), e.Or(le, ltr))))
		e.AddAxiom("flt1"+s, e.Forall([]*Term{a, b}, body, []*Term{lt}), []string{"flt." + s})
		e.AddAxiom("fle1"+s, e.Forall([]*Term{a, b}, body, []*Term{le}), []string{"fle." + s})
		e.AddAxiom("feq1"+s, e.Forall([]*Term{a, b}, body, []*Term{eq}), []string{"feq." + s})
		e.AddAxiom("feqrefl"+s, e.Forall([]*Term{a}, e.Eq(e.mk("feq."+s, "Bool", a, a), e.Not(nan(a))), []*Term{nan(a)}), []string{"feq." + s, "isnan." + s})
		_ = c
	}
}

func constOf(v constant.Value) constant.Value { return v }

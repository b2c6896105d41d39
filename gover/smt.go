package main

// Hash-consed SMT terms, light simplification, SMT-LIB printing.

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	Op   string
	Args []*Term
	Sort string
	ID   int
	BV   bool // contains a bound variable
	// quantifiers
	Vars []*Term
	Pats [][]*Term
}

type FuncDecl struct {
	Name string
	Args []string
	Ret  string
}

type DTCtor struct {
	Name   string
	Fields []string // selector names
	Sorts  []string
}

type Datatype struct {
	Name  string
	Ctors []DTCtor
}

type Axiom struct {
	T *Term
	// emitted when every symbol of one of the key groups is used
	Keys [][]string
	Name string
}

type Ctx struct {
	groundOnly bool
	quantTab   map[*Term]bool
	tab        map[string]*Term
	n          int
	funs       map[string]*FuncDecl
	sorts      map[string]bool // declared uninterpreted sorts
	dts        map[string]*Datatype
	dtOrd      []string
	ctor       map[string]*Datatype
	sel        map[string][2]interface{} // selector -> ctor name, index
	axioms     []*Axiom
	axSeen     map[string]bool
	fresh      map[string]int
	// literals
	strLits map[string]*Term
	fltLits map[string]*Term
	nseq    int
	seqOf   map[string]int // creation time of fresh constants
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[string]*Term{}, funs: map[string]*FuncDecl{}, sorts: map[string]bool{}, dts: map[string]*Datatype{},
		ctor: map[string]*Datatype{}, sel: map[string][2]interface{}{}, axSeen: map[string]bool{}, fresh: map[string]int{},
		seqOf: map[string]int{}, strLits: map[string]*Term{}, fltLits: map[string]*Term{}}
	return c
}

func (c *Ctx) mk(op, srt string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(srt)
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(strconv.Itoa(a.ID))
	}
	k := b.String()
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{Op: op, Args: args, Sort: srt, ID: c.n}
	for _, a := range args {
		if a.BV {
			t.BV = true
		}
	}
	c.tab[k] = t
	return t
}

func (c *Ctx) Var(name, srt string) *Term {
	t := c.mk("?"+name, srt)
	t.BV = true
	return t
}

func (c *Ctx) Declare(name string, ret string, args ...string) {
	if _, ok := c.funs[name]; !ok {
		c.funs[name] = &FuncDecl{name, args, ret}
	}
}

func (c *Ctx) Const(name, srt string) *Term {
	c.Declare(name, srt)
	return c.mk(name, srt)
}

func (c *Ctx) Fresh(prefix, srt string) *Term {
	prefix = sanitize(prefix)
	c.fresh[prefix]++
	c.nseq++
	c.seqOf[fmt.Sprintf("%s!%d", prefix, c.fresh[prefix])] = c.nseq
	return c.Const(fmt.Sprintf("%s!%d", prefix, c.fresh[prefix]), srt)
}

func (c *Ctx) App(name, ret string, args ...*Term) *Term {
	ss := make([]string, len(args))
	for i, a := range args {
		ss[i] = a.Sort
	}
	if d, ok := c.funs[name]; ok {
		if len(d.Args) != len(ss) {
			panic(unsupported("arity mismatch " + name))
		}
		for i := range ss {
			if d.Args[i] != ss[i] {
				panic(unsupported(fmt.Sprintf("sort mismatch in %s arg %d: %s vs %s", name, i, d.Args[i], ss[i])))
			}
		}
	} else {
		c.Declare(name, ret, ss...)
	}
	return c.mk(name, ret, args...)
}

func sanitize(s string) string {
	var b strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_', r == '.', r == '!', r == '-', r == '~':
			b.WriteRune(r)
		case r == '*':
			b.WriteString("~p")
		case r == '[':
			b.WriteString("~l")
		case r == ']':
			b.WriteString("~r")
		default:
			b.WriteByte('_')
		}
	}
	return b.String()
}

// ---- sorts

func (c *Ctx) DeclSort(s string) { c.sorts[s] = true }

func (c *Ctx) DeclDT(d *Datatype) {
	if _, ok := c.dts[d.Name]; ok {
		return
	}
	c.dts[d.Name] = d
	c.dtOrd = append(c.dtOrd, d.Name)
	for i := range d.Ctors {
		c.regCtor(d, &d.Ctors[i])
	}
}

func (c *Ctx) regCtor(d *Datatype, k *DTCtor) {
	c.ctor[k.Name] = d
	for j, s := range k.Fields {
		c.sel[s] = [2]interface{}{k.Name, j}
	}
}

func (c *Ctx) AddCtor(dt string, k DTCtor) {
	d := c.dts[dt]
	for i := range d.Ctors {
		if d.Ctors[i].Name == k.Name {
			return
		}
	}
	d.Ctors = append(d.Ctors, k)
	c.regCtor(d, &k)
}

// Mk builds a constructor application.
func (c *Ctx) Mk(ctor string, args ...*Term) *Term {
	d := c.ctor[ctor]
	if d == nil {
		panic("no ctor " + ctor)
	}
	// eta: mk(sel0 x, sel1 x, ...) = x for single-constructor datatypes
	if len(d.Ctors) == 1 && len(args) > 0 {
		k := d.Ctors[0]
		var x *Term
		ok := true
		for i, a := range args {
			if a.Op != k.Fields[i] || len(a.Args) != 1 {
				ok = false
				break
			}
			if x == nil {
				x = a.Args[0]
			} else if x != a.Args[0] {
				ok = false
				break
			}
		}
		if ok && x != nil && x.Sort == d.Name {
			return x
		}
	}
	for _, k := range d.Ctors {
		if k.Name == ctor {
			if len(k.Sorts) != len(args) {
				panic("ctor arity " + ctor)
			}
			for i := range args {
				if args[i].Sort != k.Sorts[i] {
					panic(unsupported(fmt.Sprintf("ctor %s field %d sort %s vs %s", ctor, i, k.Sorts[i], args[i].Sort)))
				}
			}
		}
	}
	return c.mk(ctor, d.Name, args...)
}

func (c *Ctx) IsCtorApp(t *Term) bool {
	_, ok := c.ctor[t.Op]
	return ok
}

// Sel applies selector.
func (c *Ctx) Sel(sel string, t *Term) *Term {
	info := c.sel[sel]
	cn := info[0].(string)
	i := info[1].(int)
	d := c.ctor[cn]
	if t.Sort != d.Name {
		panic(unsupported("selector " + sel + " on " + t.Sort))
	}
	if t.Op == cn {
		return t.Args[i]
	}
	var srt string
	for _, k := range d.Ctors {
		if k.Name == cn {
			srt = k.Sorts[i]
		}
	}
	if t.Op == "ite" {
		a, b := t.Args[1], t.Args[2]
		if c.pushable(a) && c.pushable(b) {
			return c.Ite(t.Args[0], c.Sel(sel, a), c.Sel(sel, b))
		}
	}
	return c.mk(sel, srt, t)
}

func (c *Ctx) pushable(t *Term) bool {
	if c.IsCtorApp(t) {
		return true
	}
	if t.Op == "ite" {
		return c.pushable(t.Args[1]) || c.pushable(t.Args[2])
	}
	return true
}

// Is tests a constructor.
func (c *Ctx) Is(ctor string, t *Term) *Term {
	d := c.ctor[ctor]
	if t.Sort != d.Name {
		panic(unsupported("tester " + ctor + " on " + t.Sort))
	}
	if c.IsCtorApp(t) {
		return c.Bool(t.Op == ctor)
	}
	if len(d.Ctors) == 1 && d.Name != "Any" {
		return c.True()
	}
	if t.Op == "ite" && (c.IsCtorApp(t.Args[1]) || c.IsCtorApp(t.Args[2])) {
		return c.Ite(t.Args[0], c.Is(ctor, t.Args[1]), c.Is(ctor, t.Args[2]))
	}
	return c.mk("(_ is "+ctor+")", "Bool", t)
}

// ---- logic

func (c *Ctx) True() *Term  { return c.mk("true", "Bool") }
func (c *Ctx) False() *Term { return c.mk("false", "Bool") }
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True()
	}
	return c.False()
}

func (c *Ctx) Not(t *Term) *Term {
	switch t.Op {
	case "true":
		return c.False()
	case "false":
		return c.True()
	case "not":
		return t.Args[0]
	}
	return c.mk("not", "Bool", t)
}

func (c *Ctx) And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		switch t.Op {
		case "true":
			return true
		case "false":
			return false
		case "and":
			for _, a := range t.Args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t] {
			return true
		}
		if seen[c.Not(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return c.False()
		}
	}
	switch len(out) {
	case 0:
		return c.True()
	case 1:
		return out[0]
	}
	return c.mk("and", "Bool", out...)
}

func (c *Ctx) Or(ts ...*Term) *Term {
	ns := make([]*Term, len(ts))
	for i, t := range ts {
		ns[i] = c.Not(t)
	}
	a := c.And(ns...)
	if a.Op == "and" {
		os := make([]*Term, len(a.Args))
		for i, t := range a.Args {
			os[i] = c.Not(t)
		}
		return c.mk("or", "Bool", os...)
	}
	return c.Not(a)
}

func (c *Ctx) Implies(a, b *Term) *Term {
	if a.Op == "true" {
		return b
	}
	if a.Op == "false" || b.Op == "true" || a == b {
		return c.True()
	}
	if b.Op == "false" {
		return c.Not(a)
	}
	return c.mk("=>", "Bool", a, b)
}

func (c *Ctx) isLit(t *Term) bool {
	if strings.HasPrefix(t.Op, "#") || strings.HasPrefix(t.Op, "strlit!") || strings.HasPrefix(t.Op, "fltlit!") || t.Op == "true" || t.Op == "false" {
		return true
	}
	return false
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	if a.Sort != b.Sort {
		panic(unsupported(fmt.Sprintf("= on sorts %s and %s", a.Sort, b.Sort)))
	}
	if c.isLit(a) && c.isLit(b) {
		return c.False()
	}
	if a.Sort == "Int" {
		ka, ta := c.splitK(a)
		kb, tb := c.splitK(b)
		if ta == tb && ta != nil {
			return c.Bool(ka == kb)
		}
		if ta != nil && tb == nil && ka != 0 {
			return c.Eq(ta, c.Int(kb-ka))
		}
		if tb != nil && ta == nil && kb != 0 {
			return c.Eq(tb, c.Int(ka-kb))
		}
	}
	if a.Sort == "Bool" {
		switch {
		case a.Op == "true":
			return b
		case b.Op == "true":
			return a
		case a.Op == "false":
			return c.Not(b)
		case b.Op == "false":
			return c.Not(a)
		}
	}
	if c.IsCtorApp(a) && c.IsCtorApp(b) {
		if a.Op != b.Op {
			return c.False()
		}
		var es []*Term
		for i := range a.Args {
			es = append(es, c.Eq(a.Args[i], b.Args[i]))
		}
		return c.And(es...)
	}
	// ite with literal branches
	if a.Op == "ite" && (c.isVal(a.Args[1]) && c.isVal(a.Args[2])) && c.isVal(b) {
		return c.Ite(a.Args[0], c.Eq(a.Args[1], b), c.Eq(a.Args[2], b))
	}
	if b.Op == "ite" && (c.isVal(b.Args[1]) && c.isVal(b.Args[2])) && c.isVal(a) {
		return c.Ite(b.Args[0], c.Eq(a, b.Args[1]), c.Eq(a, b.Args[2]))
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.mk("=", "Bool", a, b)
}

func (c *Ctx) isVal(t *Term) bool {
	return c.isLit(t) || (c.IsCtorApp(t) && len(t.Args) == 0)
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.Op == "true" {
		return a
	}
	if g.Op == "false" {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort != b.Sort {
		panic(unsupported(fmt.Sprintf("ite sorts %s %s", a.Sort, b.Sort)))
	}
	if a.Sort == "Bool" {
		switch {
		case a.Op == "true":
			return c.Or(g, b)
		case a.Op == "false":
			return c.And(c.Not(g), b)
		case b.Op == "true":
			return c.Or(c.Not(g), a)
		case b.Op == "false":
			return c.And(g, a)
		}
	}
	if g.Op == "not" {
		return c.mk("ite", a.Sort, g.Args[0], b, a)
	}
	return c.mk("ite", a.Sort, g, a, b)
}

// ---- ints

func (c *Ctx) Int(n int64) *Term { return c.mk("#"+strconv.FormatInt(n, 10), "Int") }
func (c *Ctx) IntS(s string) *Term {
	return c.mk("#"+s, "Int")
}

func intLit(t *Term) (int64, bool) {
	if strings.HasPrefix(t.Op, "#") {
		n, err := strconv.ParseInt(t.Op[1:], 10, 64)
		return n, err == nil
	}
	return 0, false
}

// linear normal form: constant + sum of (coefficient * term)
func (c *Ctx) Add(a, b *Term) *Term {
	ka, ta := c.splitK(a)
	kb, tb := c.splitK(b)
	k := ka + kb
	var t *Term
	switch {
	case ta == nil:
		t = tb
	case tb == nil:
		t = ta
	default:
		if ta.ID > tb.ID {
			ta, tb = tb, ta
		}
		t = c.mk("+", "Int", ta, tb)
	}
	if t == nil {
		return c.Int(k)
	}
	if k == 0 {
		return t
	}
	return c.mk("+", "Int", t, c.Int(k))
}

func (c *Ctx) splitK(a *Term) (int64, *Term) {
	if n, ok := intLit(a); ok {
		return n, nil
	}
	if a.Op == "+" && len(a.Args) == 2 {
		if n, ok := intLit(a.Args[1]); ok {
			return n, a.Args[0]
		}
	}
	return 0, a
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Int(0)
	}
	if n, ok := intLit(b); ok {
		return c.Add(a, c.Int(-n))
	}
	ka, ta := c.splitK(a)
	kb, tb := c.splitK(b)
	if ta != nil && ta == tb {
		return c.Int(ka - kb)
	}
	return c.mk("-", "Int", a, b)
}

func (c *Ctx) Le(a, b *Term) *Term {
	if a == b {
		return c.True()
	}
	ka, ta := c.splitK(a)
	kb, tb := c.splitK(b)
	if ta == tb {
		return c.Bool(ka <= kb)
	}
	return c.mk("<=", "Bool", a, b)
}

func (c *Ctx) Lt(a, b *Term) *Term {
	if a == b {
		return c.False()
	}
	ka, ta := c.splitK(a)
	kb, tb := c.splitK(b)
	if ta == tb {
		return c.Bool(ka < kb)
	}
	return c.mk("<", "Bool", a, b)
}

// ---- arrays

func arrSorts(s string) (string, string) {
	// "(Array A B)"
	if !strings.HasPrefix(s, "(Array ") {
		panic("not array sort " + s)
	}
	in := s[7 : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func arrSort(a, b string) string { return "(Array " + a + " " + b + ")" }

// distinctSyn reports syntactically certain distinctness.
func (c *Ctx) distinctSyn(a, b *Term) bool {
	return c.Eq(a, b).Op == "false"
}

func (c *Ctx) Select(m, k *Term) *Term {
	ks, vs := arrSorts(m.Sort)
	if ks != k.Sort {
		panic(unsupported("select key sort " + k.Sort + " on " + m.Sort))
	}
	for m.Op == "store" {
		if m.Args[1] == k {
			return m.Args[2]
		}
		if c.distinctSyn(m.Args[1], k) {
			m = m.Args[0]
			continue
		}
		break
	}
	if m.Op == "constarr" {
		return m.Args[0]
	}
	return c.mk("select", vs, m, k)
}

func (c *Ctx) Store(m, k, v *Term) *Term {
	ks, vs := arrSorts(m.Sort)
	if ks != k.Sort || vs != v.Sort {
		panic(unsupported("store sorts " + m.Sort + " " + k.Sort + " " + v.Sort))
	}
	if m.Op == "store" && m.Args[1] == k {
		m = m.Args[0]
	}
	if v.Op == "select" && v.Args[0] == m && v.Args[1] == k {
		return m
	}
	return c.mk("store", m.Sort, m, k, v)
}

func (c *Ctx) ConstArr(srt string, v *Term) *Term {
	return c.mk("constarr", srt, v)
}

// ---- quantifiers

func (c *Ctx) Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return c.quant("forall", vars, body, pats)
}
func (c *Ctx) Exists(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return c.quant("exists", vars, body, pats)
}

func (c *Ctx) quant(q string, vars []*Term, body *Term, pats [][]*Term) *Term {
	if !body.BV {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	var b strings.Builder
	b.WriteString(q)
	for _, v := range vars {
		b.WriteString(" " + strconv.Itoa(v.ID))
	}
	b.WriteString("|")
	for _, p := range pats {
		b.WriteString("{")
		for _, t := range p {
			b.WriteString(" " + strconv.Itoa(t.ID))
		}
	}
	k := b.String() + "|" + strconv.Itoa(body.ID)
	if t, ok := c.tab[k]; ok {
		return t
	}
	c.n++
	t := &Term{Op: q, Args: []*Term{body}, Sort: "Bool", ID: c.n, Vars: vars, Pats: pats}
	fv := map[*Term]bool{}
	c.freeVars(body, map[*Term]bool{}, fv)
	for _, v := range vars {
		delete(fv, v)
	}
	t.BV = len(fv) > 0
	c.tab[k] = t
	return t
}

func (c *Ctx) freeVars(t *Term, seen map[*Term]bool, out map[*Term]bool) {
	if !t.BV || seen[t] {
		return
	}
	seen[t] = true
	if strings.HasPrefix(t.Op, "?") {
		out[t] = true
		return
	}
	if t.Op == "forall" || t.Op == "exists" {
		in := map[*Term]bool{}
		c.freeVars(t.Args[0], map[*Term]bool{}, in)
		for _, v := range t.Vars {
			delete(in, v)
		}
		for v := range in {
			out[v] = true
		}
		return
	}
	for _, a := range t.Args {
		c.freeVars(a, seen, out)
	}
}

var bvCount int

// Subst replaces terms (usually bound variables) by terms.
func (c *Ctx) Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.Args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.Args))
		ch := false
		for i, a := range t.Args {
			as[i] = rec(a)
			if as[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			if t.Op == "forall" || t.Op == "exists" {
				var ps [][]*Term
				for _, p := range t.Pats {
					var q []*Term
					for _, x := range p {
						q = append(q, rec(x))
					}
					ps = append(ps, q)
				}
				r = c.quant(t.Op, t.Vars, as[0], ps)
			} else {
				r = c.Rebuild(t, as)
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

// Rebuild reconstructs an application with new arguments through the
// simplifying constructors.
func (c *Ctx) Rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "not":
		return c.Not(as[0])
	case "and":
		return c.And(as...)
	case "or":
		return c.Or(as...)
	case "=>":
		return c.Implies(as[0], as[1])
	case "=":
		return c.Eq(as[0], as[1])
	case "ite":
		return c.Ite(as[0], as[1], as[2])
	case "+":
		return c.Add(as[0], as[1])
	case "-":
		if len(as) == 2 {
			return c.Sub(as[0], as[1])
		}
	case "<=":
		return c.Le(as[0], as[1])
	case "<":
		return c.Lt(as[0], as[1])
	case "select":
		return c.Select(as[0], as[1])
	case "store":
		return c.Store(as[0], as[1], as[2])
	}
	if _, ok := c.sel[t.Op]; ok {
		return c.Sel(t.Op, as[0])
	}
	if _, ok := c.ctor[t.Op]; ok {
		return c.Mk(t.Op, as...)
	}
	if strings.HasPrefix(t.Op, "(_ is ") {
		return c.Is(t.Op[6:len(t.Op)-1], as[0])
	}
	return c.mk(t.Op, t.Sort, as...)
}

func (c *Ctx) AddAxiom(name string, t *Term, keys ...[]string) {
	if c.axSeen[name] {
		return
	}
	c.axSeen[name] = true
	c.axioms = append(c.axioms, &Axiom{t, keys, name})
}

// ---- printing

func smtSym(s string) string {
	for _, r := range s {
		if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || strings.ContainsRune("_.!-~", r)) {
			return "|" + strings.ReplaceAll(s, "|", "_") + "|"
		}
	}
	return s
}

type printer struct {
	c    *Ctx
	out  strings.Builder
	refs map[*Term]int
	name map[*Term]string
	syms map[string]bool
	sset map[string]bool
	vis  map[*Term]bool
}

func (p *printer) opStr(t *Term) string {
	switch {
	case strings.HasPrefix(t.Op, "#"):
		s := t.Op[1:]
		if strings.HasPrefix(s, "-") {
			return "(- " + s[1:] + ")"
		}
		return s
	case strings.HasPrefix(t.Op, "?"):
		return smtSym(t.Op[1:])
	case strings.HasPrefix(t.Op, "(_ is "):
		return "(_ is " + smtSym(t.Op[6:len(t.Op)-1]) + ")"
	}
	return smtSym(t.Op)
}

func (p *printer) str(t *Term, b *strings.Builder, top bool) {
	if !top {
		if n, ok := p.name[t]; ok {
			b.WriteString(n)
			return
		}
	}
	if len(t.Args) == 0 {
		b.WriteString(p.opStr(t))
		return
	}
	switch t.Op {
	case "forall", "exists":
		b.WriteString("(" + t.Op + " (")
		for _, v := range t.Vars {
			b.WriteString("(" + smtSym(v.Op[1:]) + " " + v.Sort + ")")
		}
		b.WriteString(") ")
		if len(t.Pats) > 0 {
			b.WriteString("(! ")
		}
		p.str(t.Args[0], b, false)
		if len(t.Pats) > 0 {
			for _, ps := range t.Pats {
				b.WriteString(" :pattern (")
				for i, x := range ps {
					if i > 0 {
						b.WriteByte(' ')
					}
					p.str(x, b, false)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
		return
	case "constarr":
		b.WriteString("((as const " + t.Sort + ") ")
		p.str(t.Args[0], b, false)
		b.WriteString(")")
		return
	}
	b.WriteString("(" + p.opStr(t))
	for _, a := range t.Args {
		b.WriteByte(' ')
		p.str(a, b, false)
	}
	b.WriteString(")")
}

func (p *printer) count(t *Term) {
	p.refs[t]++
	if p.refs[t] > 1 {
		return
	}
	for _, a := range t.Args {
		p.count(a)
	}
	for _, ps := range t.Pats {
		for _, x := range ps {
			p.count(x)
		}
	}
}

func (p *printer) collect(t *Term) {
	if p.vis[t] {
		return
	}
	p.vis[t] = true
	p.sset[t.Sort] = true
	switch {
	case strings.HasPrefix(t.Op, "(_ is "):
		p.syms[t.Op[6:len(t.Op)-1]] = true
	default:
		p.syms[t.Op] = true
	}
	for _, a := range t.Args {
		p.collect(a)
	}
	for _, v := range t.Vars {
		p.collect(v)
	}
	for _, ps := range t.Pats {
		for _, x := range ps {
			p.collect(x)
		}
	}
}

// hoist emits define-funs for shared ground nodes.
func (p *printer) hoist(t *Term, done map[*Term]bool) {
	if done[t] {
		return
	}
	done[t] = true
	for _, a := range t.Args {
		p.hoist(a, done)
	}
	for _, ps := range t.Pats {
		for _, x := range ps {
			p.hoist(x, done)
		}
	}
	if p.refs[t] > 1 && len(t.Args) > 0 && !t.BV {
		var b strings.Builder
		p.str(t, &b, true)
		n := "t" + strconv.Itoa(t.ID)
		p.out.WriteString("(define-fun " + n + " () " + t.Sort + " " + b.String() + ")\n")
		p.name[t] = n
	}
}

func (c *Ctx) hasQuant(t *Term) bool {
	if c.quantTab == nil {
		c.quantTab = map[*Term]bool{}
	}
	if r, ok := c.quantTab[t]; ok {
		return r
	}
	r := t.Op == "forall" || t.Op == "exists"
	for _, a := range t.Args {
		if r {
			break
		}
		r = c.hasQuant(a)
	}
	c.quantTab[t] = r
	return r
}

func sortNames(s string) []string {
	f := strings.FieldsFunc(s, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	return f
}

// Script renders declarations and assertions.
func (c *Ctx) Script(asserts []*Term, opts string) string {
	if c.groundOnly {
		var as []*Term
		for _, a := range asserts {
			if !c.hasQuant(a) {
				as = append(as, a)
			}
		}
		asserts = as
	}
	p := &printer{c: c, refs: map[*Term]int{}, name: map[*Term]string{}, syms: map[string]bool{}, sset: map[string]bool{}, vis: map[*Term]bool{}}
	all := append([]*Term{}, asserts...)
	for _, t := range all {
		p.collect(t)
	}
	used := map[*Axiom]bool{}
	for {
		ch := false
		for _, a := range c.axioms {
			if used[a] || c.groundOnly && c.hasQuant(a.T) {
				continue
			}
			ok := len(a.Keys) == 0
			for _, g := range a.Keys {
				m := true
				for _, s := range g {
					if !p.syms[s] {
						m = false
						break
					}
				}
				if m {
					ok = true
					break
				}
			}
			if ok {
				used[a] = true
				p.collect(a.T)
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	var ax []*Term
	for _, a := range c.axioms {
		if used[a] {
			ax = append(ax, a.T)
		}
	}
	// sorts closure
	need := map[string]bool{}
	var needSort func(s string)
	needSort = func(s string) {
		for _, n := range sortNames(s) {
			if n == "Array" || n == "Int" || n == "Bool" || need[n] {
				continue
			}
			need[n] = true
			if d, ok := c.dts[n]; ok {
				for _, k := range d.Ctors {
					for _, fs := range k.Sorts {
						needSort(fs)
					}
				}
			}
		}
	}
	for s := range p.sset {
		needSort(s)
	}
	var fs []string
	for s := range p.syms {
		if d, ok := c.funs[s]; ok {
			fs = append(fs, s)
			needSort(d.Ret)
			for _, a := range d.Args {
				needSort(a)
			}
		}
	}
	sort.Strings(fs)
	var o strings.Builder
	o.WriteString(opts)
	var us []string
	for n := range need {
		if _, ok := c.dts[n]; !ok {
			us = append(us, n)
		}
	}
	sort.Strings(us)
	for _, n := range us {
		o.WriteString("(declare-sort " + n + " 0)\n")
	}
	var ds []string
	for _, n := range c.dtOrd {
		if need[n] {
			ds = append(ds, n)
		}
	}
	if len(ds) > 0 {
		o.WriteString("(declare-datatypes (")
		for _, n := range ds {
			o.WriteString("(" + n + " 0)")
		}
		o.WriteString(") (\n")
		for _, n := range ds {
			o.WriteString(" (")
			for _, k := range c.dts[n].Ctors {
				o.WriteString("(" + smtSym(k.Name))
				for j, f := range k.Fields {
					o.WriteString(" (" + smtSym(f) + " " + k.Sorts[j] + ")")
				}
				o.WriteString(")")
			}
			o.WriteString(")\n")
		}
		o.WriteString("))\n")
	}
	for _, n := range fs {
		d := c.funs[n]
		o.WriteString("(declare-fun " + smtSym(n) + " (" + strings.Join(d.Args, " ") + ") " + d.Ret + ")\n")
	}
	full := append(ax, asserts...)
	for _, t := range full {
		p.count(t)
	}
	done := map[*Term]bool{}
	for _, t := range full {
		p.hoist(t, done)
		var b strings.Builder
		p.str(t, &b, false)
		p.out.WriteString("(assert " + b.String() + ")\n")
	}
	o.WriteString(p.out.String())
	return o.String()
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return u.msg }
func unsupported(s string) error       { return unsupportedErr{s} }

package main

// Models of the library functions the code calls.

import (
	"go/types"
	"strings"
)

type extFn func(x *Exec, st *State, c *extCall)

var externals map[string]extFn

// pureExt evaluates a library function that has no effect.
var pureExt map[string]func(x *Exec, st *State, c *extCall) Val

func errorType() types.Type { return types.Universe.Lookup("error").Type() }

// freshError is a new error value, different from nil.
func (x *Exec) freshError(st *State) *Term {
	e := x.freshOf("err", "Any", x.Add(st.wm, x.Int(1)))
	st.wm = x.Add(st.wm, x.Int(1))
	st.assume(x.Ctx, x.Not(x.Eq(e, x.NilAny())))
	return e
}

func uf(name string, ret string) func(x *Exec, st *State, c *extCall) Val {
	return func(x *Exec, st *State, c *extCall) Val {
		var as []*Term
		for _, a := range c.args {
			as = append(as, x.term(st, a))
		}
		return x.App(name, ret, as...)
	}
}

func init() {
	pureExt = map[string]func(x *Exec, st *State, c *extCall) Val{
		"math.Exp":          uf("math.Exp", "F64"),
		"math.Atan":         uf("math.Atan", "F64"),
		"math.Log":          uf("math.Log", "F64"),
		"math.Sqrt":         uf("math.Sqrt", "F64"),
		"math.Abs":          uf("math.Abs", "F64"),
		"math.Pow":          uf("math.Pow", "F64"),
		"math.Tanh":         uf("math.Tanh", "F64"),
		"math.Floor":        uf("math.Floor", "F64"),
		"math.Round":        uf("math.Round", "F64"),
		"math.Trunc":        uf("math.Trunc", "F64"),
		"math.Expm1":        uf("math.Expm1", "F64"),
		"math.IsNaN":        uf("isnan.F64", "Bool"),
		"math.Max":          uf("math.Max", "F64"),
		"math.Min":          uf("math.Min", "F64"),
		"math.IsInf":        uf("math.IsInf", "Bool"),
		"strings.HasSuffix": uf("strings.HasSuffix", "Bool"),
		"strings.Contains":  uf("strings.Contains", "Bool"),
		"strings.TrimSpace": uf("strings.TrimSpace", "Str"),
		"strings.ToLower":   uf("strings.ToLower", "Str"),
		"strings.ToUpper":   uf("strings.ToUpper", "Str"),
		"strings.EqualFold": uf("strings.EqualFold", "Bool"),
		"strconv.Itoa":      uf("strconv.Itoa", "Str"),
		"math.NaN": func(x *Exec, st *State, c *extCall) Val {
			n := x.Const("nan.F64", "F64")
			x.AddAxiom("nan.const", x.App("isnan.F64", "Bool", n), []string{"nan.F64"})
			return n
		},
		"strings.HasPrefix": func(x *Exec, st *State, c *extCall) Val {
			s, p := x.term(st, c.args[0]), x.term(st, c.args[1])
			t := x.App("hasprefix", "Bool", s, p)
			a, b := x.Var("hs", "Str"), x.Var("hp", "Str")
			hp := x.App("hasprefix", "Bool", a, b)
			x.AddAxiom("hasprefix", x.Forall([]*Term{a, b}, x.Implies(hp, x.And(x.Le(x.App("strlen", "Int", b), x.App("strlen", "Int", a)), x.Eq(a, x.App("strcat", "Str", b, x.App("strfrom", "Str", a, x.App("strlen", "Int", b)))))), []*Term{hp}), []string{"hasprefix"})
			hc := x.App("hasprefix", "Bool", x.App("strcat", "Str", b, a), b)
			x.AddAxiom("hasprefix2", x.Forall([]*Term{a, b}, hc, []*Term{hc}), []string{"hasprefix", "strcat"})
			return t
		},
		"strings.TrimPrefix": func(x *Exec, st *State, c *extCall) Val {
			s, p := x.term(st, c.args[0]), x.term(st, c.args[1])
			hp := pureExt["strings.HasPrefix"](x, st, c).(*Term)
			return x.Ite(hp, x.App("strfrom", "Str", s, x.StrLen(p)), s)
		},
		"strconv.ParseFloat": func(x *Exec, st *State, c *extCall) Val {
			s, b := x.term(st, c.args[0]), x.term(st, c.args[1])
			return TupleVal{x.App("parsefloat", "F64", s, b), x.App("parsefloat.err", "Any", s, b)}
		},
		"strconv.ParseInt": func(x *Exec, st *State, c *extCall) Val {
			s, b, n := x.term(st, c.args[0]), x.term(st, c.args[1]), x.term(st, c.args[2])
			return TupleVal{x.App("parseint", "Int", s, b, n), x.App("parseint.err", "Any", s, b, n)}
		},
		"strconv.Atoi": func(x *Exec, st *State, c *extCall) Val {
			s := x.term(st, c.args[0])
			return TupleVal{x.App("parseint", "Int", s, x.Int(10), x.Int(64)), x.App("parseint.err", "Any", s, x.Int(10), x.Int(64))}
		},
		"strconv.ParseBool": func(x *Exec, st *State, c *extCall) Val {
			s := x.term(st, c.args[0])
			return TupleVal{x.App("parsebool", "Bool", s), x.App("parsebool.err", "Any", s)}
		},
		"fmt.Sprintf": func(x *Exec, st *State, c *extCall) Val { return x.sprintf(st, c) },
		"fmt.Sprint": func(x *Exec, st *State, c *extCall) Val {
			vs := varargs(x, st, c.args[0])
			if len(vs) == 1 {
				return x.fmtValue(st, vs[0], 'v')
			}
			bail("fmt.Sprint")
			return nil
		},
		"github.com/mattn/go-shellwords.Parse": func(x *Exec, st *State, c *extCall) Val {
			s := x.term(st, c.args[0])
			sq := x.seqSortOf("Str")
			x.SliceSort(types.Typ[types.String])
			e := x.App("u.array.splitErr", "Any", s)
			return TupleVal{x.Ite(x.Eq(e, x.NilAny()), x.MkSl(x.False(), x.App("u.array.tokens", sq, s)), x.zero(types.NewSlice(types.Typ[types.String]))), e}
		},
	}
	externals = map[string]extFn{}
	for n, f := range pureExt {
		f := f
		n := n
		externals[n] = func(x *Exec, st *State, c *extCall) {
			x.assumed["library function "+n+" is a total function of its arguments"] = true
			c.k(st, f(x, st, c))
		}
	}
	newErr := func(x *Exec, st *State, c *extCall) {
		x.assumed["error constructors return new non-nil errors and have no other effect"] = true
		c.k(st, x.freshError(st))
	}
	for _, n := range []string{"fmt.Errorf", "errors.New", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf"} {
		externals[n] = newErr
	}
	wrap := func(x *Exec, st *State, c *extCall) {
		e := x.term(st, c.args[0])
		x.branch(st, x.Eq(e, x.NilAny()), func(st2 *State, isNil bool) {
			if isNil {
				c.k(st2, x.NilAny())
			} else {
				c.k(st2, x.freshError(st2))
			}
		})
	}
	for _, n := range []string{"github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithMessagef"} {
		externals[n] = wrap
	}
}

// sprintf understands %s %v %d on plain values; anything else is opaque.
func (x *Exec) sprintf(st *State, c *extCall) Val {
	f, ok := x.strLit(x.term(st, c.args[0]))
	if !ok {
		bail("Sprintf with a computed format")
	}
	vs := varargs(x, st, c.args[1])
	out := x.Str("")
	i := 0
	for {
		j := strings.IndexByte(f, '%')
		if j < 0 {
			out = x.Concat(out, x.Str(f))
			break
		}
		out = x.Concat(out, x.Str(f[:j]))
		if j+1 >= len(f) {
			bail("format")
		}
		verb := f[j+1]
		f = f[j+2:]
		if verb == '%' {
			out = x.Concat(out, x.Str("%"))
			continue
		}
		if strings.IndexByte("svdqTfxtg", verb) < 0 || i >= len(vs) {
			bail("format verb %%%c", verb)
		}
		out = x.Concat(out, x.fmtValue(st, vs[i], verb))
		i++
	}
	return out
}

func (x *Exec) fmtValue(st *State, v Val, verb byte) *Term {
	var t *Term
	if al, ok := v.(*AnyLazy); ok {
		if (verb == 's' || verb == 'v') && isString(al.Typ) {
			if _, named := al.Typ.(*types.Named); !named || !hasStringer(al.Typ) {
				return x.term(st, al.V)
			}
		}
		t = x.term(st, al)
	} else {
		t = x.term(st, v)
		if (verb == 's' || verb == 'v') && x.anyTyp[t.Op] != nil && isString(x.anyTyp[t.Op]) && !hasStringer(x.anyTyp[t.Op]) {
			return t.Args[0]
		}
	}
	return x.App("format."+string(verb), "Str", t)
}

func hasStringer(t types.Type) bool {
	ms := types.NewMethodSet(t)
	return ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil
}

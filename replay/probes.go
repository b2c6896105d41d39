package main

import (
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"os"
	"reflect"
	"strings"
	"sync"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

func sameRaw(a, b interface{}) bool {
	fa, oka := a.(float64)
	fb, okb := b.(float64)
	if oka && okb {
		if fa == fb || math.IsNaN(fa) && math.IsNaN(fb) {
			return true
		}
		return math.Abs(fa-fb) <= 1e-9*math.Max(1, math.Max(math.Abs(fa), math.Abs(fb)))
	}
	if f, ok := a.(float32); ok && f != f {
		h, ok := b.(float32)
		return ok && h != h
	}
	if f, ok := a.(models.Number); ok && f != f {
		h, ok := b.(models.Number)
		return ok && h != h
	}
	return reflect.DeepEqual(a, b)
}

func sameRow(a, b evaluation.DataRow) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || !sameRaw(v.Raw(), w.Raw()) {
			return false
		}
	}
	return true
}

func outcome(r evaluation.DataRow, err error) string {
	if err != nil {
		return "error " + err.Error()
	}
	return show(r)
}

func sameOutcome(r evaluation.DataRow, e error, r2 evaluation.DataRow, e2 error) bool {
	if (e != nil) != (e2 != nil) {
		return false
	}
	if e != nil {
		return true
	}
	return (r == nil) == (r2 == nil) && sameRow(r, r2)
}

// agree builds the document and compares answers, and the row left behind, with the reference.
func (g *gen) agree(d *document, rows int, mkRow func() evaluation.DataRow, checkRow bool) *finding {
	orig := d.copy()
	g.doc = show(orig.Model)
	if len(orig.TD.DerivedFields) > 0 {
		g.doc = show(orig.TD) + " " + g.doc
	}
	ref, rerr := refBuild(orig)
	g.input = "construction"
	what := "construction"
	if g.chance(0.08) {
		// the same document built before, with its fields typed differently
		what = "construction after one with another dictionary"
		dd := deepCopy(reflect.ValueOf(d.DD)).Interface().(*models.DataDictionary)
		for i, k := range g.Perm(len(dd.DataFields)) {
			dd.DataFields[i].DataType = d.DD.DataFields[k].DataType
		}
		g.doc = what + ": " + g.doc
		func() {
			defer func() { recover() }()
			(&document{DD: dd, TD: d.TD, Model: d.Model}).build()
		}()
	}
	m, err := d.build()
	if (err != nil) != (rerr != nil) {
		want, got := "accepted", "accepted"
		if rerr != nil {
			want = "rejected"
		}
		if err != nil {
			got = "rejected: " + err.Error()
		}
		return &finding{g.doc, what, want, got}
	}
	if err != nil {
		return nil
	}
	for ; rows > 0; rows-- {
		row := mkRow()
		g.input = show(row)
		mine := copyRow(row)
		want, werr := ref.eval(mine)
		got, gerr := m.Evaluate(row)
		if !sameOutcome(want, werr, got, gerr) {
			return &finding{g.doc, g.input, outcome(want, werr), outcome(got, gerr)}
		}
		if checkRow && gerr == nil && !sameRow(mine, row) {
			return &finding{g.doc, g.input, "row afterwards " + show(mine), "row afterwards " + show(row)}
		}
	}
	return nil
}

func treeProbe(o treeOpts, missing float64) probe {
	return func(g *gen) *finding {
		p := o
		if len(p.strategies) == 0 {
			p.regression = g.chance(0.3)
		}
		return g.agree(g.document(g.tree(p)), 12, func() evaluation.DataRow { return g.row(missing) }, false)
	}
}

// predicateProbe observes the three truth values of one predicate: a tree with the
// null-prediction strategy answers its child's class, its own class, or nothing.
func predicateProbe(depth int, mk func(g *gen) models.Predicate) probe {
	return func(g *gen) *finding {
		t := &models.TreeModel{FunctionName: models.MiningFunctionClassification, MissingValueStrategy: models.MissingValueStrategyNullPrediction}
		t.MiningSchema.MiningFields = []models.MiningField{{Name: "y", UsageType: models.FieldUsageTypeTarget}}
		t.Node = models.Node{ID: "1", Score: "no", Predicate: &models.True{}, Nodes: []models.Node{{ID: "2", Score: "yes", Predicate: mk(g)}}}
		if g.chance(0.1) {
			t.LocalTransformations = g.derived(0)
		}
		return g.agree(g.document(t), 12, func() evaluation.DataRow { return g.row(0.3) }, false)
	}
}

func ensembleProbe(o ensOpts, missing float64, checkRow bool) probe {
	return func(g *gen) *finding {
		return g.agree(g.document(g.ensemble(o)), 6, func() evaluation.DataRow { return g.row(missing) }, checkRow)
	}
}

type stringy struct{ s string }

func (s stringy) String() string { return "<" + s.s + ">" }

func (g *gen) anyRaw() interface{} {
	n := int64(g.Intn(4000) - 1000)
	big := g.Int63() - g.Int63()
	if g.chance(0.25) {
		big = g.large()
	}
	if g.chance(0.15) {
		k := 54 + uint(g.Intn(9))
		big = 1<<k + 1<<(k-24) + int64(g.Intn(3)-1)
	}
	switch g.Intn(26) {
	case 20:
		return uint64(big)
	case 21:
		return int(big)
	case 22:
		return g.num()
	case 23:
		return float32(g.num())
	case 24:
		return []interface{}{models.DataType("7"), models.Number(3), models.ProbNumber(0.5), []byte("7"), uintptr(7), complex(1, 2), &stringy{"p"}, errRef, struct{}{}, evaluation.NewValue(int(n))}[g.Intn(10)]
	case 25:
		return g.one("9007199254740993", "9223372036854775807", "9223372036854775808", "-9223372036854775809", "1e400", "+5", "1_000", "Infinity", "0x1p4", "010", "1e18", "12345678901234567890", "-0", ".5", "5.", "1 ", "TRUE", "<nil>")
	case 0:
		return int(n)
	case 1:
		return int8(n)
	case 2:
		return int16(n)
	case 3:
		return int32(big)
	case 4:
		return big
	case 5:
		return uint(g.Int63())
	case 6:
		return uint8(n)
	case 7:
		return uint16(n)
	case 8:
		return uint32(big)
	case 9:
		return uint64(g.Int63())
	case 10:
		return float32(g.NormFloat64() * 100)
	case 11:
		return g.NormFloat64() * 100
	case 12:
		return fmt.Sprint(n)
	case 13:
		return fmt.Sprint(big)
	case 14:
		return fmt.Sprint(g.NormFloat64() * 10)
	case 15:
		return g.one("", "abc", "1e3", "0x10", " 1", "NaN", "-7", "3.99", "true")
	case 16:
		return g.chance(0.5)
	case 17:
		return nil
	case 18:
		return stringy{fmt.Sprint(n)}
	}
	return []int{int(n)}
}

func modelProbe(g *gen) *document {
	o := treeOpts{bad: 0.1, derived: 0.3, predDepth: 2}
	var me models.ModelElement
	switch g.Intn(3) {
	case 0:
		o.regression = g.chance(0.4)
		me = g.tree(o)
	case 1:
		me = g.ensemble(ensOpts{bad: 0.06, derived: 0.3, depth: 1})
	default:
		me = g.regression(g.one("regression", "classification", "clustering"), 0.1, "out")
	}
	return g.document(me)
}

func (g *gen) anyRow() evaluation.DataRow {
	r := g.row(0.25)
	if g.chance(0.3) {
		for k := range r {
			if g.chance(0.3) {
				r[k] = evaluation.NewValue(g.anyRaw())
			}
		}
	}
	return r
}

func init() {
	probes["C04"] = func(g *gen) *finding {
		x := g.anyRaw()
		v := evaluation.NewValue(x)
		g.input = fmt.Sprintf("%T %#v", x, x)
		check := func(what string, want, got interface{}) *finding {
			if f, ok := want.(float64); ok && math.IsNaN(f) {
				if h, ok := got.(float64); ok && math.IsNaN(h) {
					return nil
				}
			}
			if f, ok := want.(float32); ok && f != f {
				if h, ok := got.(float32); ok && h != h {
					return nil
				}
			}
			if !reflect.DeepEqual(want, got) {
				return &finding{Input: g.input, Expected: fmt.Sprintf("%s = %#v", what, want), Got: fmt.Sprintf("%#v", got)}
			}
			return nil
		}
		f32 := func() float32 {
			switch x := x.(type) {
			case float32:
				return x
			case float64:
				return float32(x)
			case string:
				return float32(rFloat(x))
			}
			return float32(rInt(x))
		}
		b, _ := x.(bool)
		for _, f := range []*finding{check("Raw", x, v.Raw()), check("Int64", rInt(x), v.Int64()), check("Float64", rFloat(x), v.Float64()),
			check("Float32", f32(), v.Float32()), check("String", rText(x), v.String()), check("Bool", b, v.Bool())} {
			if f != nil {
				return f
			}
		}
		return nil
	}
	expr := func(mk func(g *gen) models.Expression) probe {
		return func(g *gen) *finding {
			e := mk(g)
			g.doc = show(e)
			for i := 0; i < 8; i++ {
				row := g.row(0.25)
				row["d1"] = g.cell(models.DataTypeDouble)
				g.input = show(row)
				before := copyRow(row)
				want, werr := rExpr(e, row)
				got, gerr := evaluation.HandleExpression(e, row, nil, nil, nil, nil)
				if (werr != nil) != (gerr != nil) || werr == nil && !sameRaw(want, got.Raw()) {
					return &finding{g.doc, g.input, fmt.Sprintf("%#v, error %v", want, werr), fmt.Sprintf("%#v, error %v", got.Raw(), gerr)}
				}
				if !sameRow(before, row) {
					return &finding{g.doc, g.input, "row unchanged", "row afterwards " + show(row)}
				}
			}
			return nil
		}
	}
	probes["C05"] = expr(func(g *gen) models.Expression { return g.expression(3, 0.04) })
	probes["C06"] = expr(func(g *gen) models.Expression { return g.mapValues(0.1) })
	probes["C07"] = func(g *gen) *finding {
		lt := g.derived(0.03)
		g.doc = show(lt)
		orig := deepCopy(reflect.ValueOf(lt)).Interface().(models.LocalTransformations)
		for i := 0; i < 8; i++ {
			row := g.row(0.25)
			g.input = show(row)
			mine := copyRow(row)
			werr := rDerive(&orig, mine)
			got, gerr := evaluation.HandleInput(row, nil, nil, &lt, &models.MiningSchema{})
			if (werr != nil) != (gerr != nil) || werr == nil && !(sameRow(mine, got) && sameRow(mine, row)) {
				return &finding{g.doc, g.input, outcome(mine, werr), outcome(got, gerr)}
			}
		}
		return nil
	}
	probes["C08"] = predicateProbe(0, func(g *gen) models.Predicate { return g.simple(0) })
	probes["C09"] = predicateProbe(3, func(g *gen) models.Predicate {
		c := g.predicate(3, 0)
		for {
			if _, ok := c.(*models.CompoundPredicate); ok {
				return c
			}
			c = g.predicate(3, 0)
		}
	})
	probes["C26"] = predicateProbe(0, func(g *gen) models.Predicate { return g.set(0.05) })
	probes["C10"] = treeProbe(treeOpts{bad: 0.06, predDepth: 3, derived: 0.3}, 0.1)
	probes["C11"] = func(g *gen) *finding {
		t := g.tree(treeOpts{regression: g.chance(0.3), bad: 0.03, predDepth: 1})
		// every shape is reachable through one of the strategies
		for _, s := range missingStrategies {
			c := deepCopy(reflect.ValueOf(t)).Interface().(*models.TreeModel)
			c.MissingValueStrategy = s
			if f := g.agree(g.document(c), 6, func() evaluation.DataRow { return g.row(0.3) }, false); f != nil {
				return f
			}
		}
		return nil
	}
	probes["C12"] = func(g *gen) *finding {
		return treeProbe(treeOpts{strategies: missingStrategies[:3], regression: g.chance(0.2), predDepth: 1}, 0.3)(g)
	}
	probes["C13"] = func(g *gen) *finding {
		return treeProbe(treeOpts{strategies: missingStrategies[3:5], regression: g.chance(0.2), predDepth: 1}, 0.4)(g)
	}
	probes["C14"] = func(g *gen) *finding {
		return treeProbe(treeOpts{strategies: missingStrategies[5:], regression: g.chance(0.2), predDepth: 1}, 0.4)(g)
	}
	probes["C15"] = treeProbe(treeOpts{predDepth: 1, bad: 0.02}, 0.3)
	probes["C16"] = ensembleProbe(ensOpts{methods: []models.MultipleModelMethod{models.MultipleModelMethodSum, models.MultipleModelMethodAverage}, depth: 1, derived: 0.1}, 0.1, false)
	probes["C17"] = ensembleProbe(ensOpts{methods: []models.MultipleModelMethod{models.MultipleModelMethodModelChain, models.MultipleModelMethodSelectFirst, ""}, depth: 1, derived: 0.1}, 0.1, false)
	probes["C18"] = ensembleProbe(ensOpts{depth: 1, derived: 0.1}, 0.4, true)
	probes["C19"] = func(g *gen) *finding {
		return g.agree(g.document(g.regression("regression", 0.1, "out")), 8, func() evaluation.DataRow { return g.row(0.05) }, true)
	}
	probes["C20"] = func(g *gen) *finding {
		return g.agree(g.document(g.regression("classification", 0, "")), 8, func() evaluation.DataRow { return g.row(0.05) }, true)
	}
	probes["C21"] = func(g *gen) *finding {
		for _, m := range []evaluation.Model{&evaluation.TreeModel{}, &evaluation.MiningModel{}} {
			g.input = fmt.Sprintf("evaluation of a zero %T", m)
			if r, err := m.Evaluate(evaluation.DataRow{}); err != error(evaluation.ErrNotValidated) {
				return &finding{"", g.input, "ErrNotValidated", outcome(r, err)}
			}
		}
		if g.chance(0.05) {
			for _, me := range []models.ModelElement{&models.RuleSetModel{}, &models.Scorecard{}, &models.NeuralNetwork{}, &models.ClusteringModel{}, nil} {
				d := &document{DD: g.dictionary(), TD: &models.TransformationDictionary{}, Model: me}
				g.input = fmt.Sprintf("construction of %T", me)
				if _, err := d.build(); err == nil {
					return &finding{"", g.input, "error", "accepted"}
				}
			}
		}
		d := modelProbe(g)
		c := d.copy()
		if m, err := c.build(); err == nil {
			want := "*evaluation." + strings.TrimPrefix(fmt.Sprintf("%T", d.Model), "*models.")
			if got := fmt.Sprintf("%T", m); got != want {
				return &finding{show(d.Model), "construction", want, got}
			}
		}
		return g.agree(d, 4, func() evaluation.DataRow { return g.row(0.2) }, false)
	}
	probes["C22"] = verifyProbe
	probes["C23"] = unchangedProbe
	probes["C24"] = func(g *gen) *finding {
		d := modelProbe(g)
		g.doc = show(d.Model)
		g.input = "construction"
		m, err := func() (m evaluation.Model, err error) {
			defer func() {
				if recover() != nil { // construction itself is not what C24 speaks about
					err = errors.New("panic")
				}
			}()
			return d.build()
		}()
		if err != nil {
			return nil
		}
		for i := 0; i < 12; i++ {
			r := g.anyRow()
			if g.chance(0.1) {
				r = evaluation.DataRow{}
			}
			g.input = show(r)
			m.Evaluate(r)
		}
		return nil
	}
}

func verifyProbe(g *gen) *finding {
	var d *document
	for {
		d = g.document([]models.ModelElement{g.regression(g.one("regression", "classification"), 0, "out"),
			g.tree(treeOpts{regression: g.chance(0.5), predDepth: 1}),
			g.ensemble(ensOpts{depth: 1})}[g.Intn(3)])
		if _, err := refBuild(d); err == nil {
			break
		}
	}
	ref, _ := refBuild(d.copy())
	mv := &models.ModelVerification{}
	ins := map[string]string{} // column -> field
	rename := g.chance(0.3)
	col := func(f string) string {
		if rename {
			return "k_" + f
		}
		return f
	}
	for _, f := range stdFields {
		if g.chance(0.95) {
			ins[col(f.name)] = f.name
			mv.VerificationFields.Fields = append(mv.VerificationFields.Fields, models.VerificationField{Field: models.FieldName(f.name), Column: "data:" + col(f.name)})
		}
	}
	outs := map[string]string{}
	wantErr := false
	if g.chance(0.03) {
		mv.VerificationFields.Fields = append(mv.VerificationFields.Fields, models.VerificationField{Field: "a", Column: "a"})
		wantErr = true
	}
	for i, n := 0, 1+g.Intn(3); i < n; i++ {
		row := models.Row{}
		in := evaluation.DataRow{}
		for _, f := range stdFields {
			if g.chance(0.95) {
				v := g.literal(f.dt)
				row[col(f.name)] = v
				if _, ok := ins[col(f.name)]; ok {
					in[f.name] = evaluation.NewValue(v)
				}
			}
		}
		out, err := ref.eval(copyRow(in))
		if i == 0 {
			for k, v := range out {
				if _, txt := v.Raw().(float64); txt && k != "" && ins[col(k)] == "" && g.chance(0.7) {
					outs["out_"+k] = k
					mv.VerificationFields.Fields = append(mv.VerificationFields.Fields, models.VerificationField{Field: models.FieldName(k), Column: "data:out_" + k, Precision: fp(1e-3)})
				}
			}
			if g.chance(0.1) {
				outs["out_none"] = "none"
				mv.VerificationFields.Fields = append(mv.VerificationFields.Fields, models.VerificationField{Field: "none", Column: "data:out_none", Precision: fp(1e-3)})
			}
		}
		if err != nil {
			wantErr = true
		}
		for c, f := range outs {
			if g.chance(0.1) {
				continue
			}
			v, ok := out[f]
			p := rFloat(v.Raw())
			e := p
			switch g.Intn(12) {
			case 0:
				e = p * (1 + 5e-4)
			case 1:
				e = p * (1 - 5e-4)
			case 2:
				e = p * (1 + 1e-6)
			case 3:
				e = p + 1
			case 4:
				e = -p
			case 5:
				e = 0
			case 6:
				e = p * (1 + 3e-5)
			}
			var cell interface{} = fmt.Sprintf("%.17g", e)
			if g.chance(0.3) {
				cell = e
			}
			row[c] = cell
			if !ok || !(math.Abs(e-p) <= 1e-5*math.Abs(e)) {
				wantErr = true
			}
		}
		mv.InlineTable.Rows = append(mv.InlineTable.Rows, row)
	}
	if g.chance(0.05) {
		mv, wantErr = nil, false
	}
	switch m := d.Model.(type) {
	case *models.TreeModel:
		m.ModelVerification = mv
	case *models.MiningModel:
		m.ModelVerification = mv
	case *models.RegressionModel:
		m.ModelVerification = mv
	}
	g.doc = show(d.Model)
	g.input = "Verify"
	m, err := d.build()
	if err != nil {
		return &finding{g.doc, "construction", "accepted", err.Error()}
	}
	err = m.Verify()
	if (err != nil) != wantErr {
		want := "no error"
		if wantErr {
			want = "an error"
		}
		return &finding{g.doc, "Verify", want, fmt.Sprint(err)}
	}
	return nil
}

func unchangedProbe(g *gen) *finding {
	d := modelProbe(g)
	pristine := d.copy()
	g.doc = show(pristine.Model)
	g.input = "construction"
	m, err := d.build()
	if err != nil {
		return nil
	}
	after := d.copy()
	var rows []evaluation.DataRow
	for i := 0; i < 5; i++ {
		rows = append(rows, g.row(0.25))
	}
	rows = append(rows, copyRow(rows[0]))
	type ans struct {
		r evaluation.DataRow
		e error
	}
	var first []ans
	ask := func(i int) (evaluation.DataRow, error, evaluation.DataRow) {
		in := copyRow(rows[i])
		r, e := m.Evaluate(in)
		return r, e, in
	}
	for i := range rows {
		g.input = show(rows[i])
		r, e, in := ask(i)
		if !reflect.DeepEqual(after.DD, d.DD) || !reflect.DeepEqual(after.TD, d.TD) || show(after.Model) != show(d.Model) {
			return &finding{g.doc, g.input, "document unchanged: " + show(after.Model) + show(after.TD), show(d.Model) + show(d.TD)}
		}
		kept := copyRow(r)
		for k := range in {
			in[k] = evaluation.NewValue("scribble")
		}
		in["scribble"] = evaluation.NewValue(1)
		if !sameRow(kept, r) {
			return &finding{g.doc, g.input, "a result of its own", "the result shares the input row"}
		}
		first = append(first, ans{kept, e})
		if r != nil {
			for k := range r {
				r[k] = evaluation.NewValue("scribble")
			}
			r["scribble"] = evaluation.NewValue(1)
		}
	}
	for _, i := range g.Perm(len(rows)) {
		g.input = show(rows[i])
		r, e, _ := ask(i)
		if !sameOutcome(first[i].r, first[i].e, r, e) {
			return &finding{g.doc, g.input, "as before: " + outcome(first[i].r, first[i].e), outcome(r, e)}
		}
	}
	if g.worker == 0 && g.chance(0.2) {
		// a concurrent map write ends the process: leave a note for the caller
		b, _ := json.Marshal(&finding{g.doc, "concurrent evaluation of rows " + show(rows), "a result for each", "the Go runtime stops: concurrent map access"})
		os.WriteFile("concurrent.json", b, 0o644)
		var wg sync.WaitGroup
		bad := make(chan *finding, 64)
		for w := 0; w < 4; w++ {
			wg.Add(1)
			go func(w int) {
				defer wg.Done()
				defer func() {
					if e := recover(); e != nil {
						select {
						case bad <- &finding{g.doc, "concurrent evaluation", "a result", fmt.Sprint(e)}:
						default:
						}
					}
				}()
				for k := 0; k < 20; k++ {
					i := (k + w) % len(rows)
					r, e, _ := ask(i)
					if !sameOutcome(first[i].r, first[i].e, r, e) {
						select {
						case bad <- &finding{g.doc, show(rows[i]) + " (while other rows are evaluated)", outcome(first[i].r, first[i].e), outcome(r, e)}:
						default:
						}
					}
				}
			}(w)
		}
		wg.Wait()
		select {
		case f := <-bad:
			return f
		default:
		}
	}
	// a second model of the same document answers alike
	m2, err := pristine.build()
	if err != nil {
		return &finding{g.doc, "construction again", "accepted", err.Error()}
	}
	for i := range rows {
		g.input = show(rows[i])
		r, e := m2.Evaluate(copyRow(rows[i]))
		if !sameOutcome(first[i].r, first[i].e, r, e) {
			return &finding{g.doc, g.input, outcome(first[i].r, first[i].e), "another model of the same document: " + outcome(r, e)}
		}
	}
	return nil
}

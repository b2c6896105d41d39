package main

import (
	"fmt"
	"math"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

type gen struct {
	*rand.Rand
	doc, input string
	worker     int64
}

func (g *gen) one(ss ...string) string { return ss[g.Intn(len(ss))] }
func (g *gen) chance(p float64) bool   { return g.Float64() < p }
func (g *gen) num() float64 {
	if g.chance(0.04) {
		return []float64{1e-9, 1e17, 1e308, -1e308, math.Inf(1), math.Inf(-1), math.NaN(), math.Copysign(0, -1), 720, -800, 0.1, 1.0 / 3}[g.Intn(12)]
	}
	return []float64{0, 1, 2, 3, 0.5, -1, -2.5, 10, 100}[g.Intn(9)]
}

// count is a number of records
func (g *gen) count(n int) models.Number {
	switch g.Intn(12) {
	case 0:
		return 0
	case 1:
		return models.Number(float64(g.Intn(9)) + 0.25)
	case 2:
		if g.chance(0.3) {
			return -models.Number(g.Intn(5))
		}
	}
	return models.Number(g.Intn(n))
}

// largeInts lie where doubles no longer tell neighbours apart
var largeInts = []int64{1 << 53, 1<<53 + 1, 1<<53 - 1, 1<<53 + 3, math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, 1<<60 + 1<<36 + 1, 1<<32 + 1, 1 << 31, 1<<31 - 1, -1 << 31, 1<<24 + 1, 255, 256, -129}

func (g *gen) large() int64 { return largeInts[g.Intn(len(largeInts))] }

// ---- printing and copying of documents

func show(x interface{}) string {
	var b strings.Builder
	shown(&b, reflect.ValueOf(x))
	return b.String()
}

func shown(b *strings.Builder, v reflect.Value) {
	switch v.Kind() {
	case reflect.Invalid:
		b.WriteString("nil")
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString("&")
		shown(b, v.Elem())
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		shown(b, v.Elem())
	case reflect.Struct:
		if v.Type() == reflect.TypeOf(evaluation.Value{}) {
			if v.CanInterface() {
				fmt.Fprintf(b, "%#v", v.Interface().(evaluation.Value).Raw())
				return
			}
		}
		b.WriteString(strings.TrimPrefix(v.Type().String(), "models."))
		b.WriteString("{")
		first := true
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath != "" || v.Field(i).IsZero() {
				continue
			}
			if !first {
				b.WriteString(" ")
			}
			first = false
			b.WriteString(v.Type().Field(i).Name + ":")
			shown(b, v.Field(i))
		}
		b.WriteString("}")
	case reflect.Slice:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			if i > 0 {
				b.WriteString(" ")
			}
			shown(b, v.Index(i))
		}
		b.WriteString("]")
	case reflect.Map:
		var ks []string
		m := map[string]reflect.Value{}
		for _, k := range v.MapKeys() {
			s := fmt.Sprintf("%v", k.Interface())
			ks = append(ks, s)
			m[s] = v.MapIndex(k)
		}
		if v.IsNil() {
			b.WriteString("nil-map")
			return
		}
		sort.Strings(ks)
		b.WriteString("map{")
		for i, k := range ks {
			if i > 0 {
				b.WriteString(" ")
			}
			b.WriteString(k + "=")
			shown(b, m[k])
		}
		b.WriteString("}")
	default:
		if v.CanInterface() {
			fmt.Fprintf(b, "%#v", v.Interface())
		} else {
			fmt.Fprintf(b, "%v", v)
		}
	}
}

func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type().Elem())
		n.Elem().Set(deepCopy(v.Elem()))
		return n
	case reflect.Interface:
		if v.IsNil() {
			return v
		}
		n := reflect.New(v.Type()).Elem()
		n.Set(deepCopy(v.Elem()))
		return n
	case reflect.Struct:
		n := reflect.New(v.Type()).Elem()
		n.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).PkgPath == "" {
				n.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return n
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			n.Index(i).Set(deepCopy(v.Index(i)))
		}
		return n
	case reflect.Map:
		if v.IsNil() {
			return v
		}
		n := reflect.MakeMap(v.Type())
		for _, k := range v.MapKeys() {
			n.SetMapIndex(k, deepCopy(v.MapIndex(k)))
		}
		return n
	}
	return v
}

// ---- documents

type document struct {
	DD    *models.DataDictionary
	TD    *models.TransformationDictionary
	Model models.ModelElement
}

func (d *document) copy() *document {
	return deepCopy(reflect.ValueOf(d)).Interface().(*document)
}

func (d *document) build() (evaluation.Model, error) {
	return evaluation.NewModel(d.DD, d.TD, d.Model)
}

var classes = []string{"yes", "no", "maybe"}

type fieldInfo struct {
	name string
	dt   models.DataType
}

var stdFields = []fieldInfo{
	{"a", models.DataTypeDouble}, {"b", models.DataTypeFloat}, {"c", models.DataTypeInteger},
	{"d", models.DataTypeString}, {"e", models.DataTypeBoolean}, {"g", models.DataTypeDouble},
}

func (g *gen) dictionary() *models.DataDictionary {
	dd := &models.DataDictionary{}
	for _, f := range stdFields {
		dd.DataFields = append(dd.DataFields, models.DataField{Name: models.FieldName(f.name), DataType: f.dt})
	}
	t := models.DataField{Name: "y", DataType: models.DataTypeString}
	for _, c := range classes {
		t.Values = append(t.Values, models.Value{Value: c})
	}
	if g.chance(0.05) {
		t.Values = append(t.Values, models.Value{Value: g.one("yes", "other", "")})
	}
	if g.chance(0.03) {
		t.Values = nil
	}
	dd.DataFields = append(dd.DataFields, t)
	if g.chance(0.03) {
		dd.DataFields = append(dd.DataFields, t)
	}
	if g.chance(0.1) {
		dd.DataFields = append(dd.DataFields, models.DataField{Name: "when", DataType: "date"})
	}
	return dd
}

// value for a row cell
func (g *gen) cell(dt models.DataType) evaluation.Value {
	if g.chance(0.15) {
		return evaluation.NewValue(nil)
	}
	if g.chance(0.12) {
		dt = stdFields[g.Intn(len(stdFields))].dt
	}
	n := []float64{0, 1, 2, 3, 10}[g.Intn(5)]
	if g.chance(0.03) {
		return evaluation.NewValue(g.anyRaw())
	}
	switch dt {
	case models.DataTypeDouble, models.DataTypeFloat:
		switch g.Intn(6) {
		case 0:
			return evaluation.NewValue(float32(g.num()))
		case 1:
			return evaluation.NewValue(int(n))
		case 2:
			return evaluation.NewValue(fmt.Sprint(g.num()))
		}
		return evaluation.NewValue(g.num())
	case models.DataTypeInteger:
		if g.chance(0.12) {
			n := g.large()
			switch g.Intn(5) {
			case 0:
				return evaluation.NewValue(int(n))
			case 1:
				return evaluation.NewValue(uint64(n))
			case 2:
				return evaluation.NewValue(fmt.Sprint(n))
			case 3:
				return evaluation.NewValue(float64(n))
			}
			return evaluation.NewValue(n)
		}
		switch g.Intn(9) {
		case 0:
			return evaluation.NewValue(int64(n))
		case 1:
			return evaluation.NewValue(int32(n))
		case 2:
			return evaluation.NewValue(int16(n))
		case 3:
			return evaluation.NewValue(int8(n))
		case 4:
			return evaluation.NewValue(uint(n))
		case 5:
			return evaluation.NewValue(uint8(n))
		case 6:
			return evaluation.NewValue(fmt.Sprint(n))
		case 7:
			return evaluation.NewValue(n)
		}
		return evaluation.NewValue(int(n))
	case models.DataTypeBoolean:
		return evaluation.NewValue(g.chance(0.5))
	}
	return evaluation.NewValue(g.text())
}

func (g *gen) text() string {
	if g.chance(0.15) {
		return g.one(" red", "red ", "Red", "<nil>", "true", "0", "1.0", "01", "NaN", "\u00e9", "red\n")
	}
	return g.one("red", "green", "", "1", "yes")
}

func (g *gen) row(missing float64, names ...fieldInfo) evaluation.DataRow {
	r := evaluation.DataRow{}
	if len(names) == 0 {
		names = stdFields
	}
	for _, f := range names {
		if !g.chance(missing) {
			r[f.name] = g.cell(f.dt)
		}
	}
	return r
}

func copyRow(r evaluation.DataRow) evaluation.DataRow {
	if r == nil {
		return nil
	}
	o := evaluation.DataRow{}
	for k, v := range r {
		o[k] = v
	}
	return o
}

// ---- predicates

var simpleOps = []models.SimplePredicateOperator{
	models.SimplePredicateOperatorEqual, models.SimplePredicateOperatorNotEqual, models.SimplePredicateOperatorGreaterOrEqual,
	models.SimplePredicateOperatorGreaterThan, models.SimplePredicateOperatorLessOrEqual, models.SimplePredicateOperatorLessThan,
	models.SimplePredicateOperatorIsMissing, models.SimplePredicateOperatorIsNotMissing,
}

func (g *gen) literal(dt models.DataType) string {
	switch dt {
	case models.DataTypeDouble, models.DataTypeFloat:
		if g.chance(0.1) {
			return g.one("1e1", ".5", "0x1p-1", "1.", "+1", "0003", "-0", "Inf", "nan", "1E2", "0.30000000000000004")
		}
		return fmt.Sprint(g.num())
	case models.DataTypeInteger:
		if g.chance(0.12) {
			return fmt.Sprint(g.large())
		}
		if g.chance(0.08) {
			return g.one("010", "+3", "-0", "0003", "002")
		}
		return g.one("0", "1", "2", "3", "-1", "10")
	case models.DataTypeBoolean:
		if g.chance(0.2) {
			return g.one("1", "0", "t", "f", "T", "F", "TRUE", "FALSE", "True", "False")
		}
		return g.one("true", "false")
	}
	return g.text()
}

func (g *gen) simple(bad float64) models.Predicate {
	f := stdFields[g.Intn(len(stdFields))]
	p := &models.SimplePredicate{Field: models.FieldName(f.name), Operator: simpleOps[g.Intn(len(simpleOps))]}
	p.Value = g.literal(f.dt)
	if g.chance(bad) {
		switch g.Intn(3) {
		case 0:
			p.Field = "nowhere"
		case 1:
			p.Value = g.one("x", "1.5", "", "T", " 1", "1 ", "0x10", "1_0", "9223372036854775808", "1e400", "yes", "True ", "1e1", "tRUE", "0b1", "0o7", "--1", "1,5")
		case 2:
			p.Field = "when"
		}
	}
	return p
}

func (g *gen) predicate(depth int, bad float64) models.Predicate {
	switch k := g.Intn(12); {
	case k < 5 || depth <= 0 && k < 9:
		return g.simple(bad)
	case k < 9:
		c := &models.CompoundPredicate{BooleanOperator: []models.CompoundPredicateOperator{models.CompoundPredicateOperatorAnd,
			models.CompoundPredicateOperatorOr, models.CompoundPredicateOperatorXor, models.CompoundPredicateOperatorSurrogate}[g.Intn(4)]}
		for n := g.Intn(5); n > 0; n-- {
			c.Predicates = append(c.Predicates, g.predicate(depth-1, bad))
		}
		return c
	case k < 11:
		return &models.True{}
	}
	if g.chance(0.5) {
		return g.set(bad)
	}
	return &models.False{}
}

func (g *gen) set(bad float64) models.Predicate {
	f := stdFields[g.Intn(len(stdFields))]
	p := &models.SimpleSetPredicate{Field: models.FieldName(f.name), BooleanOperator: models.SimpleSetPredicateOperatorIsIn}
	if g.chance(0.5) {
		p.BooleanOperator = models.SimpleSetPredicateOperatorIsNotIn
	}
	p.Array.Type = models.ArrayTypeType(g.one("int", "real", "string", "string"))
	var ws []string
	for n := g.Intn(5); n > 0; n-- {
		w := g.literal(f.dt)
		switch {
		case strings.ContainsAny(w, " \n<") || g.chance(0.2) && w != "":
			w = `"` + w + `"`
		case w == "":
			continue // the splitter loses empty words
		}
		ws = append(ws, w)
	}
	p.Array.RawValue = strings.Join(ws, g.one(" ", "\n", "  ", "\t"))
	if g.chance(0.1) {
		p.Array.RawValue = g.one(" ", "\n", "\r\n") + p.Array.RawValue + g.one(" ", "")
	}
	if g.chance(bad) {
		switch g.Intn(4) {
		case 0:
			p.Field = "nowhere"
		case 1:
			p.Array.RawValue += " x 1.5"
		case 2:
			p.Field = "when"
		case 3:
			p.Array.RawValue += ` "`
		}
	}
	return p
}

// ---- expressions

func sp(s string) *string   { return &s }
func fp(f float64) *float64 { return &f }
func pp(f float64) *models.ProbNumber {
	p := models.ProbNumber(f)
	return &p
}

func (g *gen) exprField() string {
	return g.one("a", "b", "c", "d", "e", "g", "a", "b", "c", "nowhere", "d1", "d2")
}

func (g *gen) expression(depth int, bad float64) models.Expression {
	k := g.Intn(12)
	if depth <= 0 && k >= 6 {
		k = g.Intn(6)
	}
	switch {
	case k < 4:
		return &models.FieldRef{Field: models.FieldName(g.exprField())}
	case k < 6:
		c := &models.Constant{DataType: models.DataTypeDouble, Value: g.literal(models.DataTypeDouble)}
		if g.chance(bad) {
			c.Value = g.one("x", "", " 1", "1 ", "1e400", "1_0", "1,5")
		}
		if g.chance(bad) {
			c.DataType = []models.DataType{models.DataTypeString, models.DataTypeInteger, models.DataTypeFloat, ""}[g.Intn(4)]
		}
		return c
	case k < 7:
		return g.mapValues(bad)
	}
	a := &models.Apply{Function: g.one("sum", "+", "-", "*", "/", "isMissing", "isNotMissing", "if", "if")}
	n := map[string]int{"+": 2, "-": 2, "*": 2, "/": 2, "isMissing": 1, "isNotMissing": 1, "if": 3}[a.Function]
	if a.Function == "sum" {
		n = g.Intn(4)
	}
	if g.chance(bad) {
		n = g.Intn(5)
	}
	if g.chance(bad) {
		a.Function = g.one("max", "", "threshold", "Sum", "sum ", "%", "ismissing")
	}
	for i := 0; i < n; i++ {
		if a.Function == "if" && i == 0 && g.chance(0.7) {
			a.Expressions = append(a.Expressions, &models.Apply{Function: g.one("isMissing", "isNotMissing"), Expressions: []models.Expression{g.expression(depth-1, bad)}})
			continue
		}
		a.Expressions = append(a.Expressions, g.expression(depth-1, bad))
	}
	if g.chance(bad) {
		return &models.NormDiscrete{}
	}
	return a
}

func (g *gen) mapValues(bad float64) models.Expression {
	m := &models.MapValues{DataType: models.DataTypeString}
	for n := g.Intn(3); n >= 0; n-- {
		m.FieldColumnPairs = append(m.FieldColumnPairs, models.FieldColumnPair{Column: "data:input", Field: g.exprField()})
	}
	if g.chance(0.2) {
		m.FieldColumnPairs = append(m.FieldColumnPairs, models.FieldColumnPair{Column: g.one("data:other", "input", "data:Input", ""), Field: g.exprField()})
	}
	if g.chance(0.15) {
		m.FieldColumnPairs = m.FieldColumnPairs[:0]
	}
	for n := g.Intn(3); n > 0; n-- {
		t := models.InlineTable{}
		for k := g.Intn(4); k > 0; k-- {
			r := models.Row{"input": g.one("red", "green", "1", "2", "true", "0.5", "", "<nil>"), "output": g.one("p", "q", "7", "", "r ")}
			switch g.Intn(20) {
			case 0:
				delete(r, "output")
			case 1:
				delete(r, "input")
			case 2:
				r["output"] = g.num()
			case 3:
				r["input"] = g.one(" red", "RED", "1.0", "01", "green ")
			case 4:
				r["other"] = "red"
			}
			t.Rows = append(t.Rows, r)
		}
		m.InlineTables = append(m.InlineTables, t)
	}
	if g.chance(0.5) {
		m.DataType = []models.DataType{models.DataTypeDouble, models.DataTypeString, models.DataTypeInteger, models.DataTypeBoolean}[g.Intn(4)]
		m.DefaultValue = sp(map[models.DataType]string{models.DataTypeDouble: "4.5", models.DataTypeString: "dflt", models.DataTypeInteger: "9", models.DataTypeBoolean: "true"}[m.DataType])
		if g.chance(0.2) {
			m.DefaultValue = sp(g.literal(m.DataType))
		}
		if g.chance(bad) {
			m.DefaultValue = sp(g.one("?", "", "1.5", " 1", "yes"))
		}
		if g.chance(bad) {
			m.DataType = g.dataType("", "date", "float")
		}
	}
	return m
}

func (g *gen) dataType(ts ...models.DataType) models.DataType { return ts[g.Intn(len(ts))] }

func (g *gen) derived(bad float64) models.LocalTransformations {
	lt := models.LocalTransformations{}
	for n := g.Intn(4); n > 0; n-- {
		df := models.DerivedField{Name: g.one("d1", "d2", "d3", "a", "d"), DataType: models.DataTypeDouble, OpType: models.OpTypeContinuous, Expression: g.expression(2, bad)}
		if g.chance(0.4) {
			df.OpType = []models.OpType{models.OpTypeCategorical, models.OpTypeOrdinal, "", "Continuous"}[g.Intn(4)]
		}
		if df.Name == "d" {
			df.DataType = models.DataTypeString
		}
		if g.chance(0.12) {
			df.Name = g.one("a", "b", "c", "d", "e", "g", "d1")
			df.DataType = []models.DataType{models.DataTypeDouble, models.DataTypeString, models.DataTypeInteger, models.DataTypeBoolean}[g.Intn(4)]
		}
		lt.DerivedFields = append(lt.DerivedFields, df)
	}
	return lt
}

// ---- trees

var missingStrategies = []models.MissingValueStrategy{"", models.MissingValueStrategyNone, models.MissingValueStrategyNullPrediction,
	models.MissingValueStrategyLastPrediction, models.MissingValueStrategyDefaultChild, models.MissingValueStrategyWeightedConfidence, models.MissingValueStrategyAggregateNodes}

type treeOpts struct {
	strategies []models.MissingValueStrategy
	regression bool
	bad        float64
	derived    float64
	predDepth  int
}

func (g *gen) node(depth int, id *int, o treeOpts) models.Node {
	*id++
	n := models.Node{ID: fmt.Sprint(*id), RecordCount: g.count(20), Score: classes[g.Intn(3)]}
	if g.chance(0.06) {
		n.ID = g.one("", "1", "2", "3")
	}
	if g.chance(0.05) {
		n.Score = g.one("", "other", "yes ", "Yes")
	}
	if o.regression {
		n.Score = fmt.Sprint(g.num())
		if g.chance(o.bad) {
			n.Score = g.one("x", "", " 1", "1e400", "1_0")
		} else if g.chance(0.1) {
			n.Score = g.literal(models.DataTypeDouble)
		}
	}
	switch k := g.Intn(10); {
	case k < 2:
		n.Predicate = &models.True{}
	case k < 3 && o.bad > 0:
		n.Predicate = []models.Predicate{nil, g.set(0.1), &models.True{}, &models.True{}}[g.Intn(4)]
	default:
		n.Predicate = g.predicate(o.predDepth, o.bad)
	}
	if !o.regression || g.chance(0.3) {
		order := g.Perm(3)[:g.Intn(4)]
		if g.chance(0.08) {
			order = append(order, g.Perm(3)[:2]...)
		}
		for _, c := range order {
			d := models.ScoreDistribution{Value: classes[c], RecordCount: models.Number(g.Intn(9) + 1)}
			if g.chance(0.15) {
				d.RecordCount = g.count(9)
			}
			if g.chance(0.03) {
				d.Value = g.one("", "other", "yes ", "Yes")
			}
			if o.regression {
				d.Value = fmt.Sprint(g.num())
			}
			if g.chance(0.4) {
				d.Confidence = pp([]float64{g.Float64(), g.Float64(), g.Float64(), 0, 1, -0.5, 2}[g.Intn(7)])
			}
			if g.chance(0.4) {
				d.Probability = pp(float64(g.Intn(5)) / 4)
			}
			if g.chance(0.03) {
				d.Probability = pp([]float64{-0.5, 2, -0.25, math.NaN(), 1e-12}[g.Intn(5)])
			}
			n.ScoreDistributions = append(n.ScoreDistributions, d)
		}
	}
	if depth > 0 {
		for k := g.Intn(4); k > 0; k-- {
			n.Nodes = append(n.Nodes, g.node(depth-1, id, o))
		}
	}
	if len(n.Nodes) > 0 && g.chance(0.8) {
		n.DefaultChild = n.Nodes[g.Intn(len(n.Nodes))].ID
	} else if g.chance(0.2) {
		n.DefaultChild = "zz"
	}
	for i, named := 0, false; i < len(n.Nodes); i++ { // which of two children of that name is meant is nobody's business
		if n.Nodes[i].ID == n.DefaultChild {
			if named {
				n.Nodes[i].ID += fmt.Sprint("'", i)
			}
			named = true
		}
	}
	return n
}

func (g *gen) tree(o treeOpts) *models.TreeModel {
	t := &models.TreeModel{FunctionName: models.MiningFunctionClassification}
	if o.regression {
		t.FunctionName = models.MiningFunctionRegression
	}
	if len(o.strategies) == 0 {
		o.strategies = missingStrategies
	}
	t.MissingValueStrategy = o.strategies[g.Intn(len(o.strategies))]
	if g.chance(0.4) {
		t.NoTrueChildStrategy = []models.NoTrueChildStrategy{models.NoTrueChildStrategyReturnNullPrediction, models.NoTrueChildStrategyReturnLastPrediction}[g.Intn(2)]
	}
	if g.chance(0.7) {
		t.MissingValuePenalty = models.ProbNumber(float64(g.Intn(5)) / 4)
		if g.chance(0.05) {
			t.MissingValuePenalty = models.ProbNumber(g.num())
		}
	}
	for _, f := range stdFields {
		t.MiningSchema.MiningFields = append(t.MiningSchema.MiningFields, models.MiningField{Name: models.FieldName(f.name)})
	}
	if !o.regression && g.chance(0.85) {
		t.MiningSchema.MiningFields = append(t.MiningSchema.MiningFields, models.MiningField{Name: "y", UsageType: models.FieldUsageTypeTarget})
	}
	if g.chance(o.derived) {
		t.LocalTransformations = g.derived(o.bad)
	}
	id := 0
	t.Node = g.node(1+g.Intn(3), &id, o)
	if g.chance(0.7) {
		t.Node.Predicate = &models.True{}
	}
	if g.chance(o.bad / 2) {
		t.FunctionName = models.MiningFunctionClustering
	}
	return t
}

// ---- regressions

func (g *gen) predictors(n int) []models.NumericPredictor {
	var ps []models.NumericPredictor
	for ; n > 0; n-- {
		ps = append(ps, models.NumericPredictor{Name: g.one("a", "b", "c", "g"), Coefficient: g.num()})
		if g.chance(0.03) {
			ps[len(ps)-1].Name = g.one("d", "e", "nowhere", "")
		}
	}
	return ps
}

var links = []models.RegressionNormalizationMethod{"", models.RegressionNormalizationMethodNone, models.RegressionNormalizationMethodLogit, models.RegressionNormalizationMethodSoftmax,
	models.RegressionNormalizationMethodExp, models.RegressionNormalizationMethodCloglog, models.RegressionNormalizationMethodCauchit, models.RegressionNormalizationMethodSimplemax}

func (g *gen) regression(fn string, bad float64, outName string) *models.RegressionModel {
	r := &models.RegressionModel{FunctionName: models.MiningFunction(fn)}
	r.RegressionNormalizationMethod = links[g.Intn(len(links))]
	if g.chance(0.06) {
		r.RegressionNormalizationMethod = "loglog"
	}
	if fn == "regression" {
		if r.RegressionNormalizationMethod == models.RegressionNormalizationMethodSimplemax && g.chance(0.8) {
			r.RegressionNormalizationMethod = models.RegressionNormalizationMethodExp
		}
		nt, no := 1, 1
		if g.chance(bad) {
			nt = g.Intn(3)
		}
		if g.chance(bad) {
			no = g.Intn(3)
		}
		for ; nt > 0; nt-- {
			r.RegressionTables = append(r.RegressionTables, models.RegressionTable{Intercept: g.num(), NumericPredictor: g.predictors(g.Intn(4))})
		}
		for i := 0; i < no; i++ {
			r.Output.Fields = append(r.Output.Fields, models.OutputField{Name: models.FieldName(outName + strings.Repeat("'", i))})
		}
		return r
	}
	outs := g.Intn(5)
	if outs < 2 {
		outs = 2
	}
	for i := 0; i < outs; i++ {
		c := []string{"yes", "no", "maybe", "other"}[i]
		if g.chance(0.1) {
			c = g.one("none", "yes", "no", "")
		}
		name := "p_" + c
		for _, f := range r.Output.Fields {
			if f.Value == c && g.chance(0.6) {
				name = fmt.Sprint("p", i, "_", c)
			}
		}
		r.Output.Fields = append(r.Output.Fields, models.OutputField{Name: models.FieldName(name), Value: c, Feature: models.ResultFeatureProbability})
	}
	if len(r.Output.Fields) != 2 && g.chance(0.7) {
		r.RegressionNormalizationMethod = []models.RegressionNormalizationMethod{models.RegressionNormalizationMethodSoftmax, models.RegressionNormalizationMethodSimplemax}[g.Intn(2)]
	}
	for i := 0; i < 1+g.Intn(4); i++ {
		t := models.RegressionTable{Intercept: g.num(), TargetCategory: []string{"yes", "no", "maybe", "other"}[i]}
		if g.chance(0.75) {
			t.NumericPredictor = g.predictors(1 + g.Intn(3))
		}
		if g.chance(0.08) {
			t.TargetCategory = g.one("yes", "no", "none", "")
		}
		r.RegressionTables = append(r.RegressionTables, t)
	}
	return r
}

// ---- ensembles

// usages of a mining field other than as a target
var usages = []models.FieldUsageType{models.FieldUsageTypeActive, models.FieldUsageTypeSupplementary, models.FieldUsageTypePredicted,
	models.FieldUsageTypeGroup, models.FieldUsageTypeOrder, models.FieldUsageTypeAnalysisWeight, models.FieldUsageTypeFrequencyWeight}

type ensOpts struct {
	methods []models.MultipleModelMethod
	bad     float64
	derived float64
	depth   int
}

func (g *gen) ensemble(o ensOpts) *models.MiningModel {
	m := &models.MiningModel{FunctionName: models.MiningFunctionRegression}
	classification := g.chance(0.5)
	if classification {
		m.FunctionName = models.MiningFunctionClassification
	}
	ms := o.methods
	if len(ms) == 0 {
		ms = []models.MultipleModelMethod{"", models.MultipleModelMethodSum, models.MultipleModelMethodAverage, models.MultipleModelMethodModelChain, models.MultipleModelMethodSelectFirst}
	}
	m.Segmentation.MultipleModelMethod = ms[g.Intn(len(ms))]
	if g.chance(o.bad) {
		m.Segmentation.MultipleModelMethod = models.MultipleModelMethodMax
	}
	for _, f := range stdFields {
		mf := models.MiningField{Name: models.FieldName(f.name)}
		if g.chance(0.4) {
			mf.MissingValueReplacement = sp(g.literal(f.dt))
		}
		if g.chance(0.2) {
			mf.UsageType = usages[g.Intn(len(usages))]
		}
		m.MiningSchema.MiningFields = append(m.MiningSchema.MiningFields, mf)
		if g.chance(0.04) {
			mf.MissingValueReplacement = sp(g.literal(f.dt))
			m.MiningSchema.MiningFields = append(m.MiningSchema.MiningFields, mf)
		}
	}
	if g.chance(0.15) {
		m.MiningSchema.MiningFields = append(m.MiningSchema.MiningFields, models.MiningField{Name: models.FieldName(g.one("score", "extra", "y")), UsageType: models.FieldUsageTypeTarget, MissingValueReplacement: sp(g.one("7", "", "no"))})
	}
	if g.chance(o.derived) {
		m.LocalTransformations = g.derived(o.bad)
	}
	outs := []string{"probability(yes)", "probability(no)", "p_yes", "p_no", "score", "r1", "r2"}
	for _, k := range g.Perm(len(outs))[:g.Intn(4)] {
		f := models.OutputField{Name: models.FieldName(outs[k])}
		if g.chance(0.5) {
			f.Feature = models.ResultFeatureProbability
		}
		if g.chance(o.bad / 4) {
			f.Feature = "predictedValue"
		}
		m.Output.Fields = append(m.Output.Fields, f)
	}
	for _, k := range g.Perm(len(outs))[:g.Intn(3)] {
		t := models.Target{Field: models.FieldName(outs[k])}
		if g.chance(0.1) && len(m.Targets.Targets) > 0 {
			t.Field = m.Targets.Targets[0].Field
		}
		if g.chance(0.6) {
			t.RescaleConstant = fp(g.num())
		}
		if g.chance(0.6) {
			t.RescaleFactor = fp(g.num())
		}
		m.Targets.Targets = append(m.Targets.Targets, t)
	}
	for n := g.Intn(5); n > 0; n-- {
		seg := models.Segment{}
		var me models.ModelElement
		switch k := g.Intn(8); {
		case k < 3:
			me = g.tree(treeOpts{regression: !classification, bad: o.bad / 3, derived: o.derived, predDepth: 1})
		case k < 6:
			fn := "regression"
			if classification && g.chance(0.7) {
				fn = "classification"
			}
			me = g.regression(fn, o.bad/2, g.one("score", "r1", "r2", "a"))
		case k < 7 && o.depth > 0:
			me = g.ensemble(ensOpts{bad: o.bad, derived: o.derived, depth: o.depth - 1})
		default:
			me = g.regression("regression", 0, g.one("score", "r1", "a"))
		}
		if g.chance(o.bad / 3) {
			me = &models.RuleSetModel{}
		}
		seg.Models = []models.ModelElement{me}
		if g.chance(o.bad / 3) {
			if g.chance(0.5) {
				seg.Models = nil
			} else {
				seg.Models = append(seg.Models, &models.RegressionModel{})
			}
		}
		m.Segmentation.Segments = append(m.Segmentation.Segments, seg)
	}
	return m
}

func (g *gen) document(m models.ModelElement) *document {
	d := &document{DD: g.dictionary(), TD: &models.TransformationDictionary{}, Model: m}
	if g.chance(0.1) {
		d.TD.DerivedFields = append(make([]models.DerivedField, 0, 4), models.DerivedField{Name: g.one("a", "d1"), DataType: models.DataTypeDouble})
	}
	return d
}

package main

import (
	"errors"
	"fmt"
	"math"
	"strconv"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// A reference evaluator, written from the properties' texts. It reads
// documents only, never the evaluator's state.

var errRef = errors.New("error")

// ---- readings of values

func rInt(x interface{}) int64 {
	switch v := x.(type) {
	case int:
		return int64(v)
	case int8:
		return int64(v)
	case int16:
		return int64(v)
	case int32:
		return int64(v)
	case int64:
		return v
	case uint:
		return int64(v)
	case uint8:
		return int64(v)
	case uint16:
		return int64(v)
	case uint32:
		return int64(v)
	case uint64:
		return int64(v)
	case float32:
		return int64(v)
	case float64:
		return int64(v)
	case string:
		if i, err := strconv.ParseInt(v, 10, 64); err == nil {
			return i
		}
		return int64(rFloat(v))
	}
	return 0
}

func rFloat(x interface{}) float64 {
	switch v := x.(type) {
	case float32:
		return float64(v)
	case float64:
		return v
	case string:
		f, err := strconv.ParseFloat(v, 64)
		if err != nil {
			return 0
		}
		return f
	}
	return float64(rInt(x))
}

func rText(x interface{}) string {
	switch v := x.(type) {
	case string:
		return v
	case interface{ String() string }:
		return v.String()
	}
	return fmt.Sprintf("%v", x)
}

func literalOf(dt models.DataType, s string) (interface{}, error) {
	switch dt {
	case models.DataTypeDouble, models.DataTypeFloat:
		return strconv.ParseFloat(s, 64)
	case models.DataTypeInteger:
		return strconv.ParseInt(s, 10, 64)
	case models.DataTypeBoolean:
		return strconv.ParseBool(s)
	case models.DataTypeString:
		return s, nil
	}
	return nil, errRef
}

// ---- predicates

// rWords splits the text of an array the generators make: words between
// blanks, double quotes around words with blanks, a backslash before a quote.
func rWords(s string) ([]string, bool) {
	var out []string
	word, in, quoted := "", false, false
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '\\' && i+1 < len(s):
			i++
			word, in = word+s[i:i+1], true
		case c == '"':
			in, quoted = true, !quoted
		case !quoted && (c == ' ' || c == '\t' || c == '\n' || c == '\r'):
			if in {
				out = append(out, word)
			}
			word, in = "", false
		default:
			word, in = word+s[i:i+1], true
		}
	}
	if in {
		out = append(out, word)
	}
	return out, !quoted
}

type tri int

const (
	unknown tri = iota
	yes
	no
)

func b3(b bool) tri {
	if b {
		return yes
	}
	return no
}

type types map[models.FieldName]models.DataType

func rPred(p models.Predicate, row evaluation.DataRow, ts types) tri {
	switch p := p.(type) {
	case *models.True:
		return yes
	case *models.False:
		return no
	case *models.SimpleSetPredicate:
		x := row[string(p.Field)].Raw()
		if x == nil {
			return unknown
		}
		words, ok := rWords(p.Array.RawValue)
		if !ok {
			panic("unreadable array in an accepted model: " + p.Array.RawValue)
		}
		in := false
		for _, w := range words {
			lit, err := literalOf(ts[p.Field], w)
			if err != nil {
				panic("untypable literal in an accepted model: " + w)
			}
			switch l := lit.(type) {
			case float64:
				in = in || rFloat(x) == l
			case int64:
				in = in || rInt(x) == l
			default:
				in = in || x == lit
			}
		}
		switch p.BooleanOperator {
		case models.SimpleSetPredicateOperatorIsIn:
			return b3(in)
		case models.SimpleSetPredicateOperatorIsNotIn:
			return b3(!in)
		}
		return no
	case *models.SimplePredicate:
		dt := ts[p.Field]
		x := row[string(p.Field)].Raw()
		switch p.Operator {
		case models.SimplePredicateOperatorIsMissing:
			return b3(x == nil)
		case models.SimplePredicateOperatorIsNotMissing:
			return b3(x != nil)
		}
		if x == nil {
			return unknown
		}
		lit, err := literalOf(dt, p.Value)
		if err != nil {
			panic("untypable literal in an accepted model: " + p.Value)
		}
		var eq, less, ordered bool
		switch l := lit.(type) {
		case float64:
			v := rFloat(x)
			eq, less, ordered = v == l, v < l, v == v && l == l
		case int64:
			v := rInt(x)
			eq, less, ordered = v == l, v < l, true
		default:
			eq = x == lit
		}
		switch p.Operator {
		case models.SimplePredicateOperatorEqual:
			return b3(eq)
		case models.SimplePredicateOperatorNotEqual:
			return b3(!eq)
		case models.SimplePredicateOperatorLessThan:
			return b3(ordered && less)
		case models.SimplePredicateOperatorLessOrEqual:
			return b3(ordered && (less || eq))
		case models.SimplePredicateOperatorGreaterThan:
			return b3(ordered && !less && !eq)
		case models.SimplePredicateOperatorGreaterOrEqual:
			return b3(ordered && !less)
		}
		return no
	case *models.CompoundPredicate:
		var n [3]int
		first := unknown
		for _, c := range p.Predicates {
			v := rPred(c, row, ts)
			n[v]++
			if first == unknown {
				first = v
			}
		}
		switch p.BooleanOperator {
		case models.CompoundPredicateOperatorAnd:
			switch {
			case n[no] > 0:
				return no
			case n[unknown] > 0:
				return unknown
			}
			return yes
		case models.CompoundPredicateOperatorOr:
			switch {
			case n[yes] > 0:
				return yes
			case n[unknown] > 0:
				return unknown
			}
			return no
		case models.CompoundPredicateOperatorXor:
			if n[unknown] > 0 {
				return unknown
			}
			return b3(n[yes]%2 == 1)
		case models.CompoundPredicateOperatorSurrogate:
			return first
		}
		return no
	}
	panic(fmt.Sprintf("predicate %T in an accepted model", p))
}

func badPred(p models.Predicate, ts types, top bool) bool {
	switch p := p.(type) {
	case *models.SimplePredicate:
		dt, ok := ts[p.Field]
		if !ok {
			return true
		}
		if p.Operator == models.SimplePredicateOperatorIsMissing || p.Operator == models.SimplePredicateOperatorIsNotMissing {
			return false
		}
		_, err := literalOf(dt, p.Value)
		return err != nil
	case *models.CompoundPredicate:
		for _, c := range p.Predicates {
			if badPred(c, ts, false) {
				return true
			}
		}
		return false
	case *models.SimpleSetPredicate:
		dt, ok := ts[p.Field]
		if !ok {
			return true
		}
		words, ok := rWords(p.Array.RawValue)
		for _, w := range words {
			if _, err := literalOf(dt, w); err != nil {
				return true
			}
		}
		return !ok
	case *models.True, *models.False:
		return false
	}
	return top
}

// ---- expressions

func rExpr(e models.Expression, row evaluation.DataRow) (interface{}, error) {
	switch e := e.(type) {
	case *models.FieldRef:
		return row[string(e.Field)].Raw(), nil
	case *models.Constant:
		if e.DataType != models.DataTypeDouble {
			return nil, errRef
		}
		f, err := strconv.ParseFloat(e.Value, 64)
		if err != nil {
			return nil, errRef
		}
		return f, nil
	case *models.MapValues:
		var in interface{}
		bound := false
		for _, p := range e.FieldColumnPairs {
			if v, ok := row[p.Field]; ok && p.Column == "data:input" {
				in, bound = v.Raw(), true
			}
		}
		var out interface{}
		found := false
		for _, t := range e.InlineTables {
			for _, r := range t.Rows {
				if r["input"] == rText(in) {
					out, found = r["output"], true
				}
			}
		}
		switch {
		case found:
			return out, nil
		case e.DefaultValue != nil:
			v, err := literalOf(e.DataType, *e.DefaultValue)
			if err != nil {
				return nil, errRef
			}
			return v, nil
		case bound:
			return in, nil
		}
		return nil, errRef
	case *models.Apply:
		arity, known := map[string]int{"sum": len(e.Expressions), "+": 2, "-": 2, "*": 2, "/": 2, "isMissing": 1, "isNotMissing": 1, "if": 3}[e.Function]
		if !known || arity != len(e.Expressions) {
			return nil, errRef
		}
		if e.Function == "if" {
			c, err := rExpr(e.Expressions[0], row)
			if err != nil {
				return nil, errRef
			}
			if b, ok := c.(bool); ok && b {
				return rExpr(e.Expressions[1], row)
			}
			return rExpr(e.Expressions[2], row)
		}
		var vs []interface{}
		for _, a := range e.Expressions {
			v, err := rExpr(a, row)
			if err != nil {
				return nil, errRef
			}
			vs = append(vs, v)
		}
		switch e.Function {
		case "isMissing":
			return vs[0] == nil, nil
		case "isNotMissing":
			return vs[0] != nil, nil
		case "sum":
			s := 0.0
			for _, v := range vs {
				s += rFloat(v)
			}
			return s, nil
		case "+":
			return rFloat(vs[0]) + rFloat(vs[1]), nil
		case "-":
			return rFloat(vs[0]) - rFloat(vs[1]), nil
		case "*":
			return rFloat(vs[0]) * rFloat(vs[1]), nil
		}
		return rFloat(vs[0]) / rFloat(vs[1]), nil
	}
	return nil, errRef
}

// rDerive adds the derived fields to the row.
func rDerive(lt *models.LocalTransformations, row evaluation.DataRow) error {
	for _, df := range lt.DerivedFields {
		v, err := rExpr(df.Expression, row)
		if err != nil {
			return err
		}
		if df.OpType == models.OpTypeContinuous && v != nil {
			v = rFloat(v)
		}
		row[df.Name] = evaluation.NewValue(v)
	}
	return nil
}

// ---- trees

type cls struct {
	value               string
	conf, prob, records float64
}

type rTree struct {
	t  *models.TreeModel
	dd *models.DataDictionary
	ts types
}

func (r *rTree) target() string {
	y := ""
	for _, f := range r.t.MiningSchema.MiningFields {
		if f.UsageType == models.FieldUsageTypeTarget {
			y = string(f.Name)
		}
	}
	return y
}

// own is the distribution a node predicts itself.
func (r *rTree) own(n *models.Node) []cls {
	if len(n.Nodes) > 0 && r.t.NoTrueChildStrategy == models.NoTrueChildStrategyReturnNullPrediction {
		return nil
	}
	if len(n.ScoreDistributions) > 0 {
		return declared(n)
	}
	y := r.target()
	if y == "" {
		return []cls{{n.Score, 0, 0, float64(n.RecordCount)}}
	}
	var out []cls
	for _, f := range r.dd.DataFields {
		if string(f.Name) != y {
			continue
		}
		for _, v := range f.Values {
			c := cls{value: v.Value}
			if v.Value == n.Score {
				c = cls{v.Value, 1, 1, float64(n.RecordCount)}
			}
			out = append(out, c)
		}
	}
	return out
}

func declared(n *models.Node) []cls {
	var out []cls
	total := 0.0
	for _, s := range n.ScoreDistributions {
		total += float64(s.RecordCount)
	}
	for _, s := range n.ScoreDistributions {
		share := float64(s.RecordCount) / total
		c := cls{s.Value, share, share, float64(s.RecordCount)}
		if s.Confidence != nil {
			c.conf = float64(*s.Confidence)
		}
		if s.Probability != nil {
			c.prob = float64(*s.Probability)
		}
		out = append(out, c)
	}
	return out
}

func (r *rTree) node(n *models.Node, row evaluation.DataRow) ([]cls, tri) {
	v := rPred(n.Predicate, row, r.ts)
	s := r.t.MissingValueStrategy
	switch s {
	case models.MissingValueStrategyNullPrediction:
		if v != yes {
			return nil, v
		}
		for i := range n.Nodes {
			d, cv := r.node(&n.Nodes[i], row)
			if cv == yes {
				return d, yes
			}
			if cv == unknown {
				return nil, unknown
			}
		}
		return r.own(n), yes
	case models.MissingValueStrategyLastPrediction, models.MissingValueStrategyDefaultChild,
		models.MissingValueStrategyWeightedConfidence, models.MissingValueStrategyAggregateNodes:
	default:
		if v != yes {
			return nil, no
		}
		for i := range n.Nodes {
			if d, cv := r.node(&n.Nodes[i], row); cv == yes {
				return d, yes
			}
		}
		return r.own(n), yes
	}
	if v == no {
		switch s {
		case models.MissingValueStrategyWeightedConfidence:
			return declared(n), no
		case models.MissingValueStrategyAggregateNodes:
			return r.own(n), no
		}
		return nil, no
	}
	var ds [][]cls
	var vs []tri
	open := false
	var taken []cls
	for i := range n.Nodes {
		d, cv := r.node(&n.Nodes[i], row)
		ds, vs = append(ds, d), append(vs, cv)
		open = open || cv == unknown
		if cv == yes {
			taken = d
		}
	}
	if !open && len(taken) > 0 {
		if s == models.MissingValueStrategyLastPrediction || s == models.MissingValueStrategyDefaultChild {
			return taken, yes
		}
		return taken, v
	}
	if !open || s == models.MissingValueStrategyLastPrediction {
		return r.own(n), v
	}
	var order []string
	acc := map[string]*cls{}
	class := func(name string) *cls {
		if acc[name] == nil {
			acc[name] = &cls{value: name}
			order = append(order, name)
		}
		return acc[name]
	}
	switch s {
	case models.MissingValueStrategyDefaultChild:
		for i := range n.Nodes {
			if n.Nodes[i].ID == n.DefaultChild {
				var out []cls
				for _, c := range ds[i] {
					c.conf *= float64(r.t.MissingValuePenalty)
					c.prob *= float64(r.t.MissingValuePenalty)
					out = append(out, c)
				}
				return out, yes
			}
		}
		return nil, unknown
	case models.MissingValueStrategyWeightedConfidence:
		total := 0.0
		for i := range n.Nodes {
			if vs[i] != no {
				total += float64(n.Nodes[i].RecordCount)
			}
		}
		for i := range n.Nodes {
			if vs[i] == no {
				continue
			}
			w := float64(n.Nodes[i].RecordCount) / total
			for _, c := range ds[i] {
				a := class(c.value)
				a.records += c.records
				a.conf += c.conf * w
				a.prob += c.prob * w
			}
		}
	case models.MissingValueStrategyAggregateNodes:
		pool := 0.0
		for i := range n.Nodes {
			for _, c := range ds[i] {
				class(c.value).records += c.records
				pool += c.records
			}
		}
		for _, a := range acc {
			a.conf, a.prob = a.records/pool, a.records/pool
		}
	}
	var out []cls
	for _, k := range order {
		out = append(out, *acc[k])
	}
	return out, yes
}

// ---- models: build and evaluate

type refModel interface {
	eval(row evaluation.DataRow) (evaluation.DataRow, error)
}

func fieldTypes(d *document, lt *models.LocalTransformations, outer []models.DerivedField) types {
	ts := types{}
	for _, f := range d.DD.DataFields {
		ts[f.Name] = f.DataType
	}
	for _, l := range [][]models.DerivedField{d.TD.DerivedFields, outer, lt.DerivedFields} {
		for _, f := range l {
			ts[models.FieldName(f.Name)] = f.DataType
		}
	}
	return ts
}

func refBuild(d *document) (refModel, error) { return refBuildIn(d, d.Model, nil) }

func refBuildIn(d *document, me models.ModelElement, outer []models.DerivedField) (refModel, error) {
	switch m := me.(type) {
	case *models.TreeModel:
		if m.FunctionName != models.MiningFunctionClassification && m.FunctionName != models.MiningFunctionRegression {
			return nil, errRef
		}
		r := &rTree{m, d.DD, fieldTypes(d, &m.LocalTransformations, outer)}
		if badNode(&m.Node, r.ts) {
			return nil, errRef
		}
		return r, nil
	case *models.RegressionModel:
		return (*rReg)(m), nil
	case *models.MiningModel:
		switch m.Segmentation.MultipleModelMethod {
		case "", models.MultipleModelMethodSum, models.MultipleModelMethodAverage, models.MultipleModelMethodModelChain, models.MultipleModelMethodSelectFirst:
		default:
			return nil, errRef
		}
		for _, f := range m.Output.Fields {
			if f.Feature != "" && f.Feature != models.ResultFeatureProbability {
				return nil, errRef
			}
		}
		r := &rMining{m: m}
		out := append(append([]models.DerivedField(nil), outer...), m.LocalTransformations.DerivedFields...)
		for _, s := range m.Segmentation.Segments {
			if len(s.Models) != 1 {
				return nil, errRef
			}
			sub, err := refBuildIn(d, s.Models[0], out)
			if err != nil {
				return nil, err
			}
			r.segs = append(r.segs, sub)
		}
		return r, nil
	}
	return nil, errRef
}

func badNode(n *models.Node, ts types) bool {
	if badPred(n.Predicate, ts, true) {
		return true
	}
	for i := range n.Nodes {
		if badNode(&n.Nodes[i], ts) {
			return true
		}
	}
	return false
}

type rMining struct {
	m    *models.MiningModel
	segs []refModel
}

type rReg models.RegressionModel

func (r *rTree) eval(row evaluation.DataRow) (evaluation.DataRow, error) {
	if err := rDerive(&r.t.LocalTransformations, row); err != nil {
		return nil, err
	}
	ds, v := r.node(&r.t.Node, row)
	if v != yes || len(ds) == 0 {
		return nil, nil
	}
	out := evaluation.DataRow{}
	if r.t.FunctionName == models.MiningFunctionRegression {
		f, err := strconv.ParseFloat(ds[0].value, 64)
		if err != nil {
			return nil, errRef
		}
		out["score"] = evaluation.NewValue(f)
		return out, nil
	}
	win, best := "", 0.0
	for _, c := range ds {
		if c.prob > best {
			win, best = c.value, c.prob
		}
	}
	out[r.target()] = evaluation.NewValue(win)
	for _, c := range ds {
		out["probability("+c.value+")"] = evaluation.NewValue(c.prob)
	}
	return out, nil
}

func (r *rMining) eval(row evaluation.DataRow) (evaluation.DataRow, error) {
	repl := map[string]string{}
	for _, f := range r.m.MiningSchema.MiningFields {
		if f.MissingValueReplacement != nil {
			repl[string(f.Name)] = *f.MissingValueReplacement
		}
	}
	for f, v := range repl {
		if row[f].Raw() == nil {
			row[f] = evaluation.NewValue(v)
		}
	}
	if err := rDerive(&r.m.LocalTransformations, row); err != nil {
		return nil, err
	}
	method := r.m.Segmentation.MultipleModelMethod
	switch method {
	case models.MultipleModelMethodSelectFirst:
		if len(r.segs) == 0 {
			return nil, errRef
		}
		return r.segs[0].eval(row)
	case models.MultipleModelMethodModelChain:
		last := evaluation.DataRow{}
		for _, s := range r.segs {
			for k, v := range last {
				row[k] = v
			}
			o, err := s.eval(row)
			if err != nil {
				return nil, err
			}
			last = o
		}
		return last, nil
	}
	sums := map[string]float64{}
	for _, f := range r.m.Output.Fields {
		sums[string(f.Name)] = 0
	}
	for _, t := range r.m.Targets.Targets {
		sums[string(t.Field)] = 0
	}
	for _, s := range r.segs {
		o, err := s.eval(row)
		if err != nil {
			return nil, err
		}
		for k := range sums {
			from := "score"
			if r.m.FunctionName == models.MiningFunctionClassification {
				from = k
			}
			if v, ok := o[from]; ok {
				sums[k] += rFloat(v.Raw())
			}
		}
	}
	for _, t := range r.m.Targets.Targets {
		if t.RescaleFactor != nil {
			sums[string(t.Field)] *= *t.RescaleFactor
		}
		if t.RescaleConstant != nil {
			sums[string(t.Field)] += *t.RescaleConstant
		}
	}
	out := evaluation.DataRow{}
	for k, v := range sums {
		if method == models.MultipleModelMethodAverage {
			v /= float64(len(r.segs))
		}
		out[k] = evaluation.NewValue(v)
	}
	return out, nil
}

func link(m models.RegressionNormalizationMethod, x float64) (float64, error) {
	switch m {
	case "", models.RegressionNormalizationMethodNone:
		return x, nil
	case models.RegressionNormalizationMethodLogit, models.RegressionNormalizationMethodSoftmax:
		return 1 / (1 + math.Exp(-x)), nil
	case models.RegressionNormalizationMethodExp:
		return math.Exp(x), nil
	case models.RegressionNormalizationMethodCloglog:
		return 1 - math.Exp(-math.Exp(x)), nil
	case models.RegressionNormalizationMethodCauchit:
		return 0.5 + (1/math.Pi)*math.Atan(x), nil
	}
	return 0, errRef
}

func linear(t *models.RegressionTable, row evaluation.DataRow) (float64, error) {
	y := t.Intercept
	for _, p := range t.NumericPredictor {
		v, ok := row[p.Name]
		if !ok {
			return 0, errRef
		}
		y += p.Coefficient * rFloat(v.Raw())
	}
	return y, nil
}

func (r *rReg) eval(row evaluation.DataRow) (evaluation.DataRow, error) {
	out := evaluation.DataRow{}
	switch {
	case r.FunctionName == models.MiningFunctionRegression:
		if len(r.RegressionTables) != 1 || len(r.Output.Fields) != 1 {
			return nil, errRef
		}
		y, err := linear(&r.RegressionTables[0], row)
		if err != nil {
			return nil, err
		}
		y, err = link(r.RegressionNormalizationMethod, y)
		if err != nil {
			return nil, err
		}
		out[string(r.Output.Fields[0].Name)] = evaluation.NewValue(y)
		return out, nil
	case r.FunctionName != models.MiningFunctionClassification:
		return nil, errRef
	case len(r.Output.Fields) == 2:
		rest := 1.0
		for i := range r.RegressionTables {
			t := &r.RegressionTables[i]
			p := rest
			if len(t.NumericPredictor) > 0 {
				y, err := linear(t, row)
				if err != nil {
					return nil, err
				}
				if p, err = link(r.RegressionNormalizationMethod, y); err != nil {
					return nil, err
				}
			}
			rest -= p
			for _, f := range r.Output.Fields {
				if f.Value == t.TargetCategory {
					out[string(f.Name)] = evaluation.NewValue(p)
				}
			}
		}
		return out, nil
	}
	var ys []float64
	for i := range r.RegressionTables {
		y, err := linear(&r.RegressionTables[i], row)
		if err != nil {
			return nil, err
		}
		ys = append(ys, y)
	}
	names := map[string]string{}
	for _, f := range r.Output.Fields {
		names[f.Value] = string(f.Name)
	}
	for i := range r.RegressionTables {
		name, ok := names[r.RegressionTables[i].TargetCategory]
		if !ok {
			continue
		}
		part, whole := 0.0, 0.0
		switch r.RegressionNormalizationMethod {
		case models.RegressionNormalizationMethodSoftmax:
			for _, y := range ys {
				whole += math.Exp(y)
			}
			part = math.Exp(ys[i])
		case models.RegressionNormalizationMethodSimplemax:
			for _, y := range ys {
				whole += y
			}
			part = ys[i]
		default:
			return nil, errRef
		}
		out[name] = evaluation.NewValue(part / whole)
	}
	return out, nil
}

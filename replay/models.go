package main

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"github.com/flukeish/pmml/models"
	"github.com/mattn/go-shellwords"
)

var families = []struct {
	name string
	get  func(string) (interface{}, bool)
	of   map[string]interface{}
}{
	{"GetContinuousDistributionType", func(n string) (interface{}, bool) { x, ok := models.GetContinuousDistributionType(n); return x, ok }, map[string]interface{}{
		"AnyDistribution":      models.AnyDistribution{},
		"GaussianDistribution": models.GaussianDistribution{},
		"PoissonDistribution":  models.PoissonDistribution{},
		"UniformDistribution":  models.UniformDistribution{},
	}},
	{"GetExpression", func(n string) (interface{}, bool) { x, ok := models.GetExpression(n); return x, ok }, map[string]interface{}{
		"Aggregate":      models.Aggregate{},
		"Apply":          models.Apply{},
		"Constant":       models.Constant{},
		"Discretize":     models.Discretize{},
		"FieldRef":       models.FieldRef{},
		"Lag":            models.Lag{},
		"MapValues":      models.MapValues{},
		"NormContinuous": models.NormContinuous{},
		"NormDiscrete":   models.NormDiscrete{},
		"TextIndex":      models.TextIndex{},
	}},
	{"GetEmbeddedModel", func(n string) (interface{}, bool) { x, ok := models.GetEmbeddedModel(n); return x, ok }, map[string]interface{}{
		"DecisionTree": models.DecisionTree{},
		"Regression":   models.Regression{},
	}},
	{"GetModelElement", func(n string) (interface{}, bool) { x, ok := models.GetModelElement(n); return x, ok }, map[string]interface{}{
		"AssociationModel":          models.AssociationModel{},
		"BaselineModel":             models.BaselineModel{},
		"BayesianNetworkModel":      models.BayesianNetworkModel{},
		"ClusteringModel":           models.ClusteringModel{},
		"GaussianProcessModel":      models.GaussianProcessModel{},
		"GeneralRegressionModel":    models.GeneralRegressionModel{},
		"MiningModel":               models.MiningModel{},
		"NaiveBayesModel":           models.NaiveBayesModel{},
		"NearestNeighborModel":      models.NearestNeighborModel{},
		"NeuralNetwork":             models.NeuralNetwork{},
		"RegressionModel":           models.RegressionModel{},
		"RuleSetModel":              models.RuleSetModel{},
		"Scorecard":                 models.Scorecard{},
		"SequenceModel":             models.SequenceModel{},
		"SupportVectorMachineModel": models.SupportVectorMachineModel{},
		"TextModel":                 models.TextModel{},
		"TimeSeriesModel":           models.TimeSeriesModel{},
		"TreeModel":                 models.TreeModel{},
	}},
	{"GetPredicate", func(n string) (interface{}, bool) { x, ok := models.GetPredicate(n); return x, ok }, map[string]interface{}{
		"CompoundPredicate":  models.CompoundPredicate{},
		"False":              models.False{},
		"SimplePredicate":    models.SimplePredicate{},
		"SimpleSetPredicate": models.SimpleSetPredicate{},
		"True":               models.True{},
	}},
	{"GetTable", func(n string) (interface{}, bool) { x, ok := models.GetTable(n); return x, ok }, map[string]interface{}{
		"InlineTable":  models.InlineTable{},
		"TableLocator": models.TableLocator{},
	}},
}

func init() {
	probes["C01"] = func(g *gen) *finding {
		var all []string
		for _, f := range families {
			for n := range f.of {
				all = append(all, n)
			}
		}
		n := all[g.Intn(len(all))]
		switch g.Intn(10) {
		case 0:
			n = strings.ToLower(n)
		case 1:
			n = n[:g.Intn(len(n))]
		case 2:
			n += g.one("s", " ", "Model", "\x00")
		case 3:
			n = strings.ToLower(n[:1]) + n[1:]
		case 4:
			n = g.one(strings.ToUpper(n), " "+n, n+"\n", "pmml:"+n, strings.TrimSuffix(n, "Model"))
		}
		for _, f := range families {
			g.input = f.name + "(" + strconv.Quote(n) + ")"
			got, ok := f.get(n)
			want, known := f.of[n]
			if !known {
				if ok || got != nil {
					return &finding{Input: g.input, Expected: "nil, false", Got: fmt.Sprintf("%#v, %v", got, ok)}
				}
				continue
			}
			wt := reflect.TypeOf(want)
			if !ok || reflect.TypeOf(got) != reflect.PtrTo(wt) || reflect.ValueOf(got).IsNil() || !reflect.DeepEqual(reflect.ValueOf(got).Elem().Interface(), want) {
				return &finding{Input: g.input, Expected: "a new empty *" + wt.String() + ", true", Got: fmt.Sprintf("%T %s, %v", got, show(got), ok)}
			}
			if again, _ := f.get(n); wt.Size() > 0 && got == again {
				return &finding{Input: g.input + " twice", Expected: "two objects", Got: "the same object"}
			}
		}
		return nil
	}
	probes["C03"] = func(g *gen) *finding {
		var ws []string
		for n := g.Intn(6); n > 0; n-- {
			ws = append(ws, g.one("1", "-2", "0", "+3", "007", "3.5", "1e3", "-0.25", "x", `"a b"`, `\"q`, "9223372036854775807", "9223372036854775808", "1e999", "NaN", "é", "'", `"`, "0x10", "1_0", "yes"))
		}
		a := models.ArrayType{Type: models.ArrayTypeType(g.one("int", "real", "string", "int", "real", "string", "", "INT")), RawValue: strings.Join(ws, g.one(" ", "\n", "  ", "\t"))}
		toks, terr := shellwords.Parse(a.RawValue)
		g.doc = fmt.Sprintf("type %q text %q", a.Type, a.RawValue)
		for i := 0; i < 5; i++ {
			var got, want interface{}
			var err error
			fail := terr != nil
			switch g.Intn(3) {
			case 0:
				g.input += "Strings() "
				got, err = a.Strings()
				fail = fail || a.Type != "string"
				want = toks
			case 1:
				g.input += "Int64s() "
				got, err = a.Int64s()
				w := []int64{}
				for _, t := range toks {
					v, e := strconv.ParseInt(t, 10, 64)
					fail = fail || e != nil
					w = append(w, v)
				}
				fail = fail || a.Type != "int"
				want = w
			default:
				g.input += "Float64s() "
				got, err = a.Float64s()
				w := []float64{}
				for _, t := range toks {
					v, e := strconv.ParseFloat(t, 64)
					fail = fail || e != nil
					w = append(w, v)
				}
				fail = fail || a.Type != "real"
				want = w
			}
			if fail {
				if err == nil || !reflect.ValueOf(got).IsNil() {
					return &finding{g.doc, g.input, "an error and no values", fmt.Sprintf("%#v, error %v", got, err)}
				}
			} else if err != nil || fmt.Sprint(got) != fmt.Sprint(want) || reflect.ValueOf(got).IsNil() {
				return &finding{g.doc, g.input, fmt.Sprintf("%#v", want), fmt.Sprintf("%#v, error %v", got, err)}
			}
		}
		return nil
	}
}

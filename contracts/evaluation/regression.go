package evaluation

import (
	"math"

	"github.com/flukeish/pmml/models"
)

// ---- regression models (C19, C20)

// intercept plus the first k terms of a table
//
//gover:uf
func linear_(t models.RegressionTable, k int, row Map_[string, Value]) float64 {
	if k <= 0 {
		return t.Intercept
	}
	return linear_(t, k-1, row) + t.NumericPredictor[k-1].Coefficient*floatOf_(get_(row, t.NumericPredictor[k-1].Name).val)
}

func predictor_(t models.RegressionTable, row Map_[string, Value]) float64 {
	return linear_(t, len(t.NumericPredictor), row)
}

// one of the first k predictors has no field in the row
func lacksTerm_(t models.RegressionTable, k int, row Map_[string, Value]) bool {
	return exists_(func(i int) bool { return 0 <= i && i < k && !has_(row, t.NumericPredictor[i].Name) })
}

// one of the first k tables lacks a field
func lacksTerms_(ts []models.RegressionTable, k int, row Map_[string, Value]) bool {
	return exists_(func(j int) bool {
		return 0 <= j && j < k && lacksTerm_(ts[j], len(ts[j].NumericPredictor), row)
	})
}

func knownLink_(m models.RegressionNormalizationMethod) bool {
	return m == "" || m == "none" || m == "softmax" || m == "logit" || m == "exp" || m == "cloglog" || m == "cauchit"
}

func link_(m models.RegressionNormalizationMethod, x float64) float64 {
	if m == "softmax" || m == "logit" {
		return 1.0 / (1.0 + math.Exp(-x))
	}
	if m == "exp" {
		return math.Exp(x)
	}
	if m == "cloglog" {
		return 1.0 - math.Exp(-math.Exp(x))
	}
	if m == "cauchit" {
		return 0.5 + (1/math.Pi)*math.Atan(x)
	}
	return x
}

func contract_RegressionModel_normalize(m *RegressionModel, term float64, r float64, err error) {
	requires_("model", func() bool { return m != nil && m.model != nil })
	ensures_("C19,C20.link", func() bool {
		return implies_(knownLink_(m.model.RegressionNormalizationMethod), err == nil && same_(r, link_(m.model.RegressionNormalizationMethod, term)))
	})
	ensures_("C19,C20.unsupported link", func() bool {
		return implies_(!knownLink_(m.model.RegressionNormalizationMethod), err != nil)
	})
}

func regressionOK_(d models.RegressionModel, row Map_[string, Value]) bool {
	return len(d.RegressionTables) == 1 && len(d.Output.Fields) == 1 &&
		!lacksTerm_(d.RegressionTables[0], len(d.RegressionTables[0].NumericPredictor), row) &&
		knownLink_(d.RegressionNormalizationMethod)
}

func regressionOut_(d models.RegressionModel, row Map_[string, Value]) Map_[string, Value] {
	return put_(empty_[string, Value](), string(d.Output.Fields[0].Name), Value{val: link_(d.RegressionNormalizationMethod, predictor_(d.RegressionTables[0], row))})
}

func contract_RegressionModel_EvaluateRegression(m *RegressionModel, input DataRow, r DataRow, err error) {
	requires_("model", func() bool { return m != nil && m.model != nil })
	candidate_(func(K int) bool { return !lacksTerm_(m.model.RegressionTables[0], K, contents_(input)) })
	candidate_(func(K int, y float64) bool { return same_(y, linear_(m.model.RegressionTables[0], K, contents_(input))) })
	ensures_("C19.error", func() bool { return (err == nil) == regressionOK_(*m.model, contents_(input)) })
	ensures_("C19.score", func() bool {
		return implies_(err == nil, same_(contents_(r), regressionOut_(*m.model, contents_(input))))
	})
	ensures_("C23.own row", func() bool { return implies_(err == nil, r != nil && fresh_(r)) })
}

// two outputs: tables in order, the probability left over goes to a table
// without predictors

//gover:uf
func left_(d models.RegressionModel, k int, row Map_[string, Value]) float64 {
	if k <= 0 {
		return 1.0
	}
	return left_(d, k-1, row) - categoryShare_(d, k-1, row)
}

func categoryShare_(d models.RegressionModel, j int, row Map_[string, Value]) float64 {
	if len(d.RegressionTables[j].NumericPredictor) > 0 {
		return link_(d.RegressionNormalizationMethod, predictor_(d.RegressionTables[j], row))
	}
	return left_(d, j, row)
}

// v under the name of each of the first k output fields of the category
//
//gover:uf
func report_(acc Map_[string, Value], fs []models.OutputField, k int, category string, v float64) Map_[string, Value] {
	if k <= 0 {
		return acc
	}
	if category == fs[k-1].Value {
		return put_(report_(acc, fs, k-1, category, v), string(fs[k-1].Name), Value{val: v})
	}
	return report_(acc, fs, k-1, category, v)
}

//gover:uf
func binaryOut_(d models.RegressionModel, k int, row Map_[string, Value]) Map_[string, Value] {
	if k <= 0 {
		return empty_[string, Value]()
	}
	return report_(binaryOut_(d, k-1, row), d.Output.Fields, len(d.Output.Fields), d.RegressionTables[k-1].TargetCategory, categoryShare_(d, k-1, row))
}

// one of the first k tables cannot be evaluated
func badTable_(d models.RegressionModel, k int, row Map_[string, Value]) bool {
	return exists_(func(j int) bool {
		return 0 <= j && j < k && (lacksTerm_(d.RegressionTables[j], len(d.RegressionTables[j].NumericPredictor), row) ||
			len(d.RegressionTables[j].NumericPredictor) > 0 && !knownLink_(d.RegressionNormalizationMethod))
	})
}

func contract_RegressionModel_EvaluateBinaryClassification(m *RegressionModel, input DataRow, r DataRow, err error) {
	requires_("model", func() bool { return m != nil && m.model != nil })
	candidate_(func(K int) bool { return !badTable_(*m.model, K, contents_(input)) })
	candidate_(func(K int, left float64) bool { return same_(left, left_(*m.model, K, contents_(input))) })
	candidate_(func(K int, Lout DataRow) bool {
		return same_(contents_(Lout), binaryOut_(*m.model, K, contents_(input)))
	})
	candidate_(func(K, Li int) bool {
		return implies_(0 <= Li && Li < len(m.model.RegressionTables), !lacksTerm_(m.model.RegressionTables[Li], K, contents_(input)))
	})
	candidate_(func(K, Li int, y float64) bool {
		return implies_(0 <= Li && Li < len(m.model.RegressionTables), same_(y, linear_(m.model.RegressionTables[Li], K, contents_(input))))
	})
	candidate_(func(K, Li int, Lout DataRow) bool {
		return implies_(0 <= Li && Li < len(m.model.RegressionTables),
			same_(contents_(Lout), report_(binaryOut_(*m.model, Li, contents_(input)), m.model.Output.Fields, K, m.model.RegressionTables[Li].TargetCategory, categoryShare_(*m.model, Li, contents_(input)))))
	})
	ensures_("C20.error", func() bool {
		return (err == nil) == !badTable_(*m.model, len(m.model.RegressionTables), contents_(input))
	})
	ensures_("C20.categories", func() bool {
		return implies_(err == nil, same_(contents_(r), binaryOut_(*m.model, len(m.model.RegressionTables), contents_(input))))
	})
	ensures_("C23.own row", func() bool { return implies_(err == nil, r != nil && fresh_(r)) })
}

// more outputs: shares among all tables

//gover:uf
func outputNames_(fs []models.OutputField, k int) Map_[string, string] {
	if k <= 0 {
		return empty_[string, string]()
	}
	return put_(outputNames_(fs, k-1), fs[k-1].Value, string(fs[k-1].Name))
}

//gover:uf
func sumExp_(ts []models.RegressionTable, k int, row Map_[string, Value]) float64 {
	if k <= 0 {
		return 0
	}
	return sumExp_(ts, k-1, row) + math.Exp(predictor_(ts[k-1], row))
}

//gover:uf
func sumLin_(ts []models.RegressionTable, k int, row Map_[string, Value]) float64 {
	if k <= 0 {
		return 0
	}
	return sumLin_(ts, k-1, row) + predictor_(ts[k-1], row)
}

func tableShare_(d models.RegressionModel, j int, row Map_[string, Value]) float64 {
	if d.RegressionNormalizationMethod == "softmax" {
		return math.Exp(predictor_(d.RegressionTables[j], row)) / sumExp_(d.RegressionTables, len(d.RegressionTables), row)
	}
	return predictor_(d.RegressionTables[j], row) / sumLin_(d.RegressionTables, len(d.RegressionTables), row)
}

func hasOutput_(d models.RegressionModel, category string) bool {
	return has_(outputNames_(d.Output.Fields, len(d.Output.Fields)), category)
}

//gover:uf
func multiOut_(d models.RegressionModel, k int, row Map_[string, Value]) Map_[string, Value] {
	if k <= 0 {
		return empty_[string, Value]()
	}
	if hasOutput_(d, d.RegressionTables[k-1].TargetCategory) {
		return put_(multiOut_(d, k-1, row), get_(outputNames_(d.Output.Fields, len(d.Output.Fields)), d.RegressionTables[k-1].TargetCategory), Value{val: tableShare_(d, k-1, row)})
	}
	return multiOut_(d, k-1, row)
}

func shareLink_(m models.RegressionNormalizationMethod) bool {
	return m == "softmax" || m == "simplemax"
}

func multiOK_(d models.RegressionModel, row Map_[string, Value]) bool {
	return !lacksTerms_(d.RegressionTables, len(d.RegressionTables), row) &&
		(shareLink_(d.RegressionNormalizationMethod) || noneHasOutput_(d, len(d.RegressionTables)))
}

func noneHasOutput_(d models.RegressionModel, k int) bool {
	return !exists_(func(j int) bool { return 0 <= j && j < k && hasOutput_(d, d.RegressionTables[j].TargetCategory) })
}

func contract_RegressionModel_EvaluateMulticlassClassification(m *RegressionModel, input DataRow, r DataRow, err error) {
	requires_("model", func() bool { return m != nil && m.model != nil })
	candidate_(func(K int, Lnames map[string]string) bool { return same_(contents_(Lnames), outputNames_(m.model.Output.Fields, K)) })
	candidate_(func(K int) bool { return !lacksTerms_(m.model.RegressionTables, K, contents_(input)) })
	candidate_(func(K int, ys []float64) bool {
		return len(ys) == len(m.model.RegressionTables) && forall_(func(j int) bool {
			return implies_(0 <= j && j < K, same_(ys[j], predictor_(m.model.RegressionTables[j], contents_(input))))
		})
	})
	candidate_(func(K int, ys []float64) bool {
		return len(ys) == K && forall_(func(j int) bool {
			return implies_(0 <= j && j < K, same_(ys[j], predictor_(m.model.RegressionTables[j], contents_(input))))
		})
	})
	candidate_(func(K, Li int) bool {
		return implies_(0 <= Li && Li < len(m.model.RegressionTables), !lacksTerm_(m.model.RegressionTables[Li], K, contents_(input)))
	})
	candidate_(func(K, Li int, ys []float64) bool {
		return implies_(0 <= Li && Li < len(m.model.RegressionTables), len(ys) == len(m.model.RegressionTables) &&
			same_(ys[Li], linear_(m.model.RegressionTables[Li], K, contents_(input))) && forall_(func(j int) bool {
			return implies_(0 <= j && j < Li, same_(ys[j], predictor_(m.model.RegressionTables[j], contents_(input))))
		}))
	})
	candidate_(func(K, Li int, y float64) bool {
		return implies_(0 <= Li && Li < len(m.model.RegressionTables), same_(y, linear_(m.model.RegressionTables[Li], K, contents_(input))))
	})
	candidate_(func(K int, s float64) bool { return same_(s, sumExp_(m.model.RegressionTables, K, contents_(input))) })
	candidate_(func(K int, s float64) bool { return same_(s, sumLin_(m.model.RegressionTables, K, contents_(input))) })
	candidate_(func(K int, Lout DataRow) bool {
		return same_(contents_(Lout), multiOut_(*m.model, K, contents_(input)))
	})
	candidate_(func(K int) bool {
		return shareLink_(m.model.RegressionNormalizationMethod) || noneHasOutput_(*m.model, K)
	})
	ensures_("C20.error", func() bool { return (err == nil) == multiOK_(*m.model, contents_(input)) })
	ensures_("C20.shares", func() bool {
		return implies_(err == nil, same_(contents_(r), multiOut_(*m.model, len(m.model.RegressionTables), contents_(input))))
	})
	ensures_("C23.own row", func() bool { return implies_(err == nil, r != nil && fresh_(r)) })
}

func contract_RegressionModel_Evaluate(m *RegressionModel, input DataRow, r DataRow, err error) {
	requires_("model", func() bool { return m != nil && m.model != nil })
	ensures_("C19.regression", func() bool {
		return implies_(m.model.FunctionName == "regression", (err == nil) == regressionOK_(*m.model, contents_(input)) &&
			implies_(err == nil, same_(contents_(r), regressionOut_(*m.model, contents_(input)))))
	})
	ensures_("C20.two outputs", func() bool {
		return implies_(m.model.FunctionName == "classification" && len(m.model.Output.Fields) == 2,
			(err == nil) == !badTable_(*m.model, len(m.model.RegressionTables), contents_(input)) &&
				implies_(err == nil, same_(contents_(r), binaryOut_(*m.model, len(m.model.RegressionTables), contents_(input)))))
	})
	ensures_("C20.more outputs", func() bool {
		return implies_(m.model.FunctionName == "classification" && len(m.model.Output.Fields) != 2,
			(err == nil) == multiOK_(*m.model, contents_(input)) &&
				implies_(err == nil, same_(contents_(r), multiOut_(*m.model, len(m.model.RegressionTables), contents_(input)))))
	})
	ensures_("C21.other functions", func() bool {
		return implies_(m.model.FunctionName != "classification" && m.model.FunctionName != "regression", err != nil)
	})
	ensures_("C23.own row", func() bool { return implies_(err == nil, r != nil && fresh_(r)) })
	determined_("C23.equal rows, equal answers", func() bool { return err == nil }, func() Map_[string, Value] {
		return cond_(err == nil, contents_(r), empty_[string, Value]())
	})
}

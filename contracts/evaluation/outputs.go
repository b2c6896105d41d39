package evaluation

import (
	"strconv"

	"github.com/flukeish/pmml/models"
)

// ---- tree models as a whole (C12-C15, C21)

// the first of the first k classes with the highest positive probability
func best_(scores []scoreDist, k int) scoreDist {
	if k <= 0 {
		return scoreDist{}
	}
	if scores[k-1].probability > best_(scores, k-1).probability {
		return scores[k-1]
	}
	return best_(scores, k-1)
}

func contract_pickBest(scores []scoreDist, r scoreDist) {
	candidate_(func(K int, b scoreDist) bool { return same_(b, best_(scores, K)) })
	// the position of the best so far, and its probability
	candidate_(func(K, at int) bool {
		return -1 <= at && at < K && same_(best_(scores, K), cond_(at < 0, scoreDist{}, scores[at]))
	})
	candidate_(func(K int, p float64) bool { return same_(p, best_(scores, K).probability) })
	ensures_("C15.first best", func() bool { return same_(r, best_(scores, len(scores))) })
}

// what the tree says about a row, by missing value strategy
func treeRes_(n node, row Map_[string, Value]) predicateResult {
	s := n.m.model.MissingValueStrategy
	if s == "nullPrediction" {
		return resNull_(n, row)
	}
	if s == "aggregateNodes" {
		return resAgg_(n, row)
	}
	if s == "weightedConfidence" {
		return resWC_(n, row)
	}
	if s == "defaultChild" {
		return resDef_(n, row)
	}
	if s == "lastPrediction" {
		return resLast_(n, row)
	}
	return resNone_(n, row)
}

func treeDist_(n node, row Map_[string, Value]) []scoreDist {
	s := n.m.model.MissingValueStrategy
	if s == "nullPrediction" {
		return distNull_(n, row)
	}
	if s == "aggregateNodes" {
		return distAgg_(n, row)
	}
	if s == "weightedConfidence" {
		return distWC_(n, row)
	}
	if s == "defaultChild" {
		return distDef_(n, row)
	}
	if s == "lastPrediction" {
		return distLast_(n, row)
	}
	return distNone_(n, row)
}

func contract_node_evaluate(n node, input DataRow, r []scoreDist, res predicateResult) {
	requires_("usable", func() bool { return usable_(n) })
	ensures_("C12,C13,C14,C15.strategy", func() bool { return res == treeRes_(n, contents_(input)) })
	ensures_("C12,C13,C14,C15.strategy's prediction", func() bool { return same_(r, treeDist_(n, contents_(input))) })
}

// out with the probabilities of the first k classes
func probs_(out Map_[string, Value], scores []scoreDist, k int) Map_[string, Value] {
	if k <= 0 {
		return out
	}
	return put_(probs_(out, scores, k-1), "probability("+scores[k-1].value+")", Value{val: scores[k-1].probability})
}

func classOut_(target models.FieldName, scores []scoreDist, k int) Map_[string, Value] {
	return probs_(put_(empty_[string, Value](), string(target), Value{val: best_(scores, len(scores)).value}), scores, k)
}

func number_(s string) float64 {
	x, _ := strconv.ParseFloat(s, 64)
	return x
}

func notNumber_(s string) bool {
	_, err := strconv.ParseFloat(s, 64)
	return err != nil
}

// the model as construction leaves it
func treeReady_(m *TreeModel) bool {
	return m != nil && m.model != nil && m.dd != nil && implies_(m.validated, treeFunction_(m.model.FunctionName)) &&
		implies_(m.validated && m.compiled, usable_(m.root) && m.root.m == m)
}

// the row with the derived fields of the model
func prepared_(lt models.LocalTransformations, row Map_[string, Value]) Map_[string, Value] {
	return derive_(lt.DerivedFields, len(lt.DerivedFields), row)
}

func unprepared_(lt models.LocalTransformations, row Map_[string, Value]) bool {
	return deriveBad_(lt.DerivedFields, len(lt.DerivedFields), row)
}

func predicts_(n node, row Map_[string, Value]) bool {
	return treeRes_(n, row) == tt_ && len(treeDist_(n, row)) > 0
}

func treeErr_(m *TreeModel, row Map_[string, Value]) bool {
	return unprepared_(m.model.LocalTransformations, row) ||
		predicts_(m.root, prepared_(m.model.LocalTransformations, row)) && m.model.FunctionName == "regression" &&
			notNumber_(treeDist_(m.root, prepared_(m.model.LocalTransformations, row))[0].value)
}

func treeOut_(m *TreeModel, row Map_[string, Value]) Map_[string, Value] {
	if m.model.FunctionName == "classification" {
		return classOut_(m.targetField, treeDist_(m.root, row), len(treeDist_(m.root, row)))
	}
	return put_(empty_[string, Value](), "score", Value{val: number_(treeDist_(m.root, row)[0].value)})
}

func contract_TreeModel_Evaluate(m *TreeModel, input DataRow, r DataRow, err error) {
	requires_("constructed", func() bool { return treeReady_(m) })
	requires_("row", func() bool { return input != nil })
	modifies_(input)
	candidate_(func(K int, Lout DataRow) bool {
		return same_(contents_(Lout), classOut_(m.targetField, treeDist_(m.root, contents_(input)), K))
	})
	ensures_("C21.not validated", func() bool {
		return implies_(!m.validated, r == nil && same_(err, error(Error("evaluation: not validated"))))
	})
	ensures_("C21.not compiled", func() bool {
		return implies_(m.validated && !m.compiled, r == nil && same_(err, error(Error("evaluation: not compiled"))))
	})
	ensures_("C15.error", func() bool {
		return implies_(m.validated && m.compiled, (err != nil) == treeErr_(m, old_(func() Map_[string, Value] { return contents_(input) })))
	})
	ensures_("C07.prepared row", func() bool {
		return implies_(err == nil, same_(contents_(input), prepared_(m.model.LocalTransformations, old_(func() Map_[string, Value] { return contents_(input) }))))
	})
	ensures_("C12,C13,C14,C15.no prediction", func() bool {
		return implies_(err == nil, (r == nil) == !predicts_(m.root, contents_(input)))
	})
	ensures_("C12,C13,C14,C15.prediction", func() bool {
		return implies_(err == nil && r != nil && (m.model.FunctionName == "classification" || m.model.FunctionName == "regression"),
			same_(contents_(r), treeOut_(m, contents_(input))))
	})
	ensures_("C23.own row", func() bool { return r == nil || fresh_(r) })
	determined_("C23.equal rows, equal answers", func() bool { return err == nil }, func() bool { return err == nil && r == nil },
		func() Map_[string, Value] {
			return cond_(err == nil && r != nil, contents_(r), empty_[string, Value]())
		},
		func() Map_[string, Value] {
			return cond_(err == nil, contents_(input), empty_[string, Value]())
		})
}

// ---- construction (C21)

func withDefaults_(f models.MiningField) models.MiningField {
	f.UsageType = cond_(f.UsageType == "", models.FieldUsageType("active"), f.UsageType)
	f.Outliers = cond_(f.Outliers == "", models.OutlierTreatmentMethod("asIs"), f.Outliers)
	f.InvalidValueTreatment = cond_(f.InvalidValueTreatment == "", models.InvalidValueTreatmentMethod("returnInvalid"), f.InvalidValueTreatment)
	return f
}

func treeFunction_(f models.MiningFunction) bool { return f == "classification" || f == "regression" }

func contract_TreeModel_Validate(m *TreeModel, err error) {
	requires_("model", func() bool { return m != nil && m.model != nil })
	modifies_(&m.validated, &m.model.MiningSchema.MiningFields)
	candidate_(func(K int) bool {
		return forall_(func(i int) bool {
			return len(m.model.MiningSchema.MiningFields) == len(old_(func() []models.MiningField { return m.model.MiningSchema.MiningFields })) &&
				same_(m.model.MiningSchema.MiningFields[i], cond_(0 <= i && i < K, withDefaults_(old_(func() []models.MiningField { return m.model.MiningSchema.MiningFields })[i]),
					old_(func() []models.MiningField { return m.model.MiningSchema.MiningFields })[i]))
		})
	})
	ensures_("C21.function", func() bool { return (err == nil) == treeFunction_(m.model.FunctionName) })
	ensures_("C21.validated", func() bool {
		return m.validated == (err == nil || old_(func() bool { return m.validated }))
	})
	ensures_("C21,C23.only defaults are filled in", func() bool {
		return implies_(err == nil, same_(m.model.MiningSchema.MiningFields, seq_(len(old_(func() []models.MiningField { return m.model.MiningSchema.MiningFields })), func(i int) models.MiningField {
			return withDefaults_(old_(func() []models.MiningField { return m.model.MiningSchema.MiningFields })[i])
		})))
	})
	ensures_("C21,C23.rejected: untouched", func() bool {
		return implies_(err != nil, same_(m.model.MiningSchema.MiningFields, old_(func() []models.MiningField { return m.model.MiningSchema.MiningFields })))
	})
}

// the last field of the first k that is a target
func target_(fs []models.MiningField, k int, otherwise models.FieldName) models.FieldName {
	if k <= 0 {
		return otherwise
	}
	if fs[k-1].UsageType == "target" {
		return fs[k-1].Name
	}
	return target_(fs, k-1, otherwise)
}

// types of the first k data fields
func dataTypes_(fs []models.DataField, k int) Map_[models.FieldName, models.DataType] {
	if k <= 0 {
		return empty_[models.FieldName, models.DataType]()
	}
	return put_(dataTypes_(fs, k-1), fs[k-1].Name, fs[k-1].DataType)
}

func derivedTypes_(types Map_[models.FieldName, models.DataType], ds []models.DerivedField, k int) Map_[models.FieldName, models.DataType] {
	if k <= 0 {
		return types
	}
	return put_(derivedTypes_(types, ds, k-1), models.FieldName(ds[k-1].Name), ds[k-1].DataType)
}

// every field a model can refer to: data dictionary, transformation
// dictionary, local transformations
func types_(dd *models.DataDictionary, ds []models.DerivedField) Map_[models.FieldName, models.DataType] {
	return derivedTypes_(dataTypes_(dd.DataFields, len(dd.DataFields)), ds, len(ds))
}

func treeModels_(m *TreeModel) bool {
	return m != nil && m.model != nil && m.dd != nil && m.td != nil
}

func treeTarget_(m *TreeModel, otherwise models.FieldName) models.FieldName {
	return target_(m.model.MiningSchema.MiningFields, len(m.model.MiningSchema.MiningFields), otherwise)
}

func contract_TreeModel_Compile(m *TreeModel, err error) {
	requires_("model", func() bool { return treeModels_(m) })
	modifies_(&m.targetField, &m.fieldTypes, &m.td, &m.root, &m.compiled)
	modifiesAll_(&(*models.SimplePredicate)(nil).RawPredicateValue, &(*models.SimpleSetPredicate)(nil).RawArrayValues)
	candidate_(func(K int) bool {
		return same_(m.targetField, target_(m.model.MiningSchema.MiningFields, K, old_(func() models.FieldName { return m.targetField })))
	})
	candidate_(func(K int, t models.FieldName) bool {
		return same_(t, target_(m.model.MiningSchema.MiningFields, K, old_(func() models.FieldName { return m.targetField })))
	})
	candidate_(func(K int, Lft map[models.FieldName]models.DataType) bool {
		return same_(contents_(Lft), dataTypes_(m.dd.DataFields, K))
	})
	candidate_(func(K int, Lft map[models.FieldName]models.DataType) bool {
		return same_(contents_(Lft), derivedTypes_(dataTypes_(m.dd.DataFields, len(m.dd.DataFields)), m.td.DerivedFields, K))
	})
	candidate_(func(K int) bool {
		return same_(contents_(m.fieldTypes), dataTypes_(m.dd.DataFields, K))
	})
	candidate_(func(K int) bool {
		return same_(contents_(m.fieldTypes), derivedTypes_(dataTypes_(m.dd.DataFields, len(m.dd.DataFields)), m.td.DerivedFields, K))
	})
	ensures_("C10,C11.field types", func() bool {
		return m.fieldTypes != nil && same_(contents_(m.fieldTypes), types_(m.dd, m.td.DerivedFields))
	})
	ensures_("C10,C11.derived fields in scope", func() bool {
		return m.td != nil && same_(m.td.DerivedFields, append(old_(func() []models.DerivedField { return m.td.DerivedFields }), m.model.LocalTransformations.DerivedFields...))
	})
	ensures_("C23.own transformation dictionary", func() bool { return fresh_(m.td) })
	ensures_("C15.target", func() bool {
		return m.targetField == treeTarget_(m, old_(func() models.FieldName { return m.targetField }))
	})
	ensures_("C10,C11,C21.rejected iff bad", func() bool {
		return (err != nil) == badNode_(m.model.Node, contents_(m.fieldTypes))
	})
	ensures_("C11.mirrors the document", func() bool { return implies_(err == nil, mirror_(m.root, m.model.Node, m)) })
	ensures_("C10.literals typed", func() bool {
		return implies_(err == nil, forall_(func(q *models.SimplePredicate) bool {
			return implies_(inNode_(m.model.Node, q), compiled_(q, contents_(m.fieldTypes)))
		}))
	})
	ensures_("C10,C26.sets typed", func() bool {
		return implies_(err == nil, forall_(func(q *models.SimpleSetPredicate) bool {
			return implies_(inNodeS_(m.model.Node, q), compiledS_(q, contents_(m.fieldTypes)))
		}))
	})
	ensures_("C24.ready", func() bool { return implies_(err == nil, usable_(m.root) && m.root.m == m) })
	ensures_("C21.compiled", func() bool {
		return m.compiled == (err == nil || old_(func() bool { return m.compiled }))
	})
}

func treeOK_(model *models.TreeModel, dd *models.DataDictionary, td *models.TransformationDictionary) bool {
	return treeFunction_(model.FunctionName) && !badNode_(model.Node, types_(dd, append(td.DerivedFields, model.LocalTransformations.DerivedFields...)))
}

func contract_NewTreeModel(dd *models.DataDictionary, td *models.TransformationDictionary, model *models.TreeModel, m *TreeModel, err error) {
	requires_("document", func() bool { return dd != nil && td != nil && model != nil })
	modifies_(&model.MiningSchema.MiningFields)
	modifiesAll_(&(*models.SimplePredicate)(nil).RawPredicateValue, &(*models.SimpleSetPredicate)(nil).RawArrayValues)
	ensures_("C10,C11,C21.accepted iff supported", func() bool {
		return (err == nil) == treeOK_(model, dd, td)
	})
	ensures_("C21.rejected", func() bool { return implies_(err != nil, m == nil) })
	ensures_("C10,C11.field types", func() bool {
		return implies_(err == nil, m.fieldTypes != nil && same_(contents_(m.fieldTypes), types_(dd, append(td.DerivedFields, model.LocalTransformations.DerivedFields...))))
	})
	ensures_("C21.of this document", func() bool {
		return implies_(err == nil, fresh_(m) && m.validated && m.compiled && m.model == model && m.dd == dd)
	})
	ensures_("C15.target", func() bool { return implies_(err == nil, m.targetField == treeTarget_(m, "")) })
	ensures_("C11.mirrors the document", func() bool { return implies_(err == nil, mirror_(m.root, model.Node, m)) })
	ensures_("C10.literals typed", func() bool {
		return implies_(err == nil, forall_(func(q *models.SimplePredicate) bool {
			return implies_(inNode_(model.Node, q), compiled_(q, contents_(m.fieldTypes)))
		}))
	})
	ensures_("C10,C26.sets typed", func() bool {
		return implies_(err == nil, forall_(func(q *models.SimpleSetPredicate) bool {
			return implies_(inNodeS_(model.Node, q), compiledS_(q, contents_(m.fieldTypes)))
		}))
	})
	ensures_("C24.ready", func() bool { return implies_(err == nil, treeReady_(m)) })
}

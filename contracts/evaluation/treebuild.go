package evaluation

import "github.com/flukeish/pmml/models"

// ---- building the tree (C10, C11)

// sum of the record counts of the first n score distributions
func records_(sds []models.ScoreDistribution, n int) float64 {
	if n <= 0 {
		return 0
	}
	return records_(sds, n-1) + float64(sds[n-1].RecordCount)
}

func classScore_(sd models.ScoreDistribution, total float64) scoreDist {
	share := float64(sd.RecordCount) / total
	return scoreDist{
		value:       sd.Value,
		recordCount: float64(sd.RecordCount),
		confidence:  cond_(sd.Confidence != nil, float64(*sd.Confidence), share),
		probability: cond_(sd.Probability != nil, float64(*sd.Probability), share),
	}
}

func classScores_(out []scoreDist, sds []models.ScoreDistribution, n int) bool {
	return len(out) == n && forall_(func(i int) bool {
		return implies_(0 <= i && i < n, same_(out[i], classScore_(sds[i], records_(sds, len(sds)))))
	})
}

func nodeScore_(d models.Node) scoreDist {
	return scoreDist{value: d.Score, recordCount: float64(d.RecordCount)}
}

// the test decides by the document's predicate, as long as the model keeps its
// table of field types
func decides_(f test, pi models.Predicate, m *TreeModel) bool {
	ft := m.fieldTypes
	return body_("predicate", f,
		func(row DataRow) bool {
			return m != nil && same_(m.fieldTypes, ft) && wfPred_(pi, contents_(m.fieldTypes))
		},
		func(row DataRow, r predicateResult) bool {
			return r == predRes_(pi, contents_(row), contents_(m.fieldTypes)) && 0 <= r && r <= 2
		}, pi, m, ft)
}

//gover:uf
func mirror_(n node, d models.Node, m *TreeModel) bool {
	return n.id == d.ID && n.defaultChild == d.DefaultChild && n.m == m &&
		same_(n.score, nodeScore_(d)) &&
		classScores_(n.scoreDist, d.ScoreDistributions, len(d.ScoreDistributions)) &&
		decides_(n.test, d.Predicate, m) &&
		n.test != nil &&
		mirrors_(n.children, d.Nodes, len(d.Nodes), m)
}

//gover:uf
func mirrors_(ns []node, ds []models.Node, k int, m *TreeModel) bool {
	return len(ns) == k && forall_(func(i int) bool {
		return implies_(0 <= i && i < k, mirror_(ns[i], ds[i], m))
	})
}

func supported_(pi models.Predicate) bool {
	return is_[*models.True](pi) || is_[*models.False](pi) || is_[*models.SimplePredicate](pi) || is_[*models.CompoundPredicate](pi) || is_[*models.SimpleSetPredicate](pi)
}

func badPred_(pi models.Predicate, ft Map_[models.FieldName, models.DataType]) bool {
	return !supported_(pi) || exists_(func(q *models.SimplePredicate) bool { return inPred_(pi, q) && badLit_(q, ft) }) ||
		exists_(func(q *models.SimpleSetPredicate) bool { return inPredS_(pi, q) && badSet_(q, ft) })
}

// the node, or one below it, has a predicate the model cannot be built with
func badNode_(d models.Node, ft Map_[models.FieldName, models.DataType]) bool {
	return badPred_(d.Predicate, ft) || exists_(func(i int) bool { return 0 <= i && i < len(d.Nodes) && badNode_(d.Nodes[i], ft) })
}

// q is one of the comparisons of the node or those below it
func inNode_(d models.Node, q *models.SimplePredicate) bool {
	return inPred_(d.Predicate, q) || exists_(func(i int) bool { return 0 <= i && i < len(d.Nodes) && inNode_(d.Nodes[i], q) })
}

// q is one of the set predicates of the node or those below it
func inNodeS_(d models.Node, q *models.SimpleSetPredicate) bool {
	return inPredS_(d.Predicate, q) || exists_(func(i int) bool { return 0 <= i && i < len(d.Nodes) && inNodeS_(d.Nodes[i], q) })
}

func contract_newNode(m *TreeModel, modelNode models.Node, n node, err error) {
	requires_("model", func() bool { return m != nil })
	modifiesAll_(&(*models.SimplePredicate)(nil).RawPredicateValue)
	modifiesAll_(&(*models.SimpleSetPredicate)(nil).RawArrayValues)
	candidate_(func(K int, s float64) bool { return same_(s, records_(modelNode.ScoreDistributions, K)) })
	candidate_(func(K int, sds []scoreDist) bool { return classScores_(sds, modelNode.ScoreDistributions, K) })
	candidate_(func(K int, ns []node) bool { return mirrors_(ns, modelNode.Nodes, K, m) })
	// the same, written into slices made in full length
	candidate_(func(sds []scoreDist) bool { return len(sds) == len(modelNode.ScoreDistributions) })
	candidate_(func(K int, sds []scoreDist) bool {
		return forall_(func(i int) bool {
			return implies_(0 <= i && i < K, same_(sds[i], classScore_(modelNode.ScoreDistributions[i], records_(modelNode.ScoreDistributions, len(modelNode.ScoreDistributions)))))
		})
	})
	candidate_(func(ns []node) bool { return len(ns) == len(modelNode.Nodes) })
	candidate_(func(K int, ns []node) bool {
		return forall_(func(i int) bool { return implies_(0 <= i && i < K, mirror_(ns[i], modelNode.Nodes[i], m)) })
	})
	candidate_(func(K int, ns []node) bool {
		return forall_(func(i int) bool { return implies_(0 <= i && i < K, built_(ns[i], m)) })
	})
	candidate_(func(K int) bool {
		return forall_(func(i int) bool {
			return implies_(0 <= i && i < K, !badNode_(modelNode.Nodes[i], contents_(m.fieldTypes)))
		})
	})
	candidate_(func(K int) bool {
		return forall_(func(q *models.SimplePredicate) bool {
			return forall_(func(i int) bool {
				return implies_(0 <= i && i < K && inNode_(modelNode.Nodes[i], q), compiled_(q, contents_(m.fieldTypes)))
			})
		})
	})
	candidate_(func() bool {
		return forall_(func(q *models.SimplePredicate) bool {
			return same_(q.RawPredicateValue, old_(func() any { return q.RawPredicateValue })) ||
				inNode_(modelNode, q) && same_(q.RawPredicateValue, lit_(get_(contents_(m.fieldTypes), q.Field), q.Value))
		})
	})
	candidate_(func(K int) bool {
		return forall_(func(q *models.SimpleSetPredicate) bool {
			return forall_(func(i int) bool {
				return implies_(0 <= i && i < K && inNodeS_(modelNode.Nodes[i], q), compiledS_(q, contents_(m.fieldTypes)))
			})
		})
	})
	candidate_(func() bool {
		return forall_(func(q *models.SimpleSetPredicate) bool {
			return same_(q.RawArrayValues, old_(func() []any { return q.RawArrayValues })) ||
				inNodeS_(modelNode, q) && compiledS_(q, contents_(m.fieldTypes))
		})
	})
	ensures_("C11,C26.own predicate", func() bool { return implies_(err == nil, decides_(n.test, modelNode.Predicate, m)) })
	ensures_("C11.mirrors the document", func() bool { return implies_(err == nil, mirror_(n, modelNode, m)) })
	ensures_("C24.every node can decide", func() bool { return implies_(err == nil, built_(n, m)) })
	ensures_("C10,C11.rejected iff bad", func() bool {
		return (err != nil) == badNode_(modelNode, contents_(m.fieldTypes))
	})
	ensures_("C10,C24.literals typed", func() bool {
		return implies_(err == nil, forall_(func(q *models.SimplePredicate) bool {
			return implies_(inNode_(modelNode, q), compiled_(q, contents_(m.fieldTypes)))
		}))
	})
	ensures_("C10,C23.only literals of this tree change", func() bool {
		return forall_(func(q *models.SimplePredicate) bool {
			return same_(q.RawPredicateValue, old_(func() any { return q.RawPredicateValue })) ||
				inNode_(modelNode, q) && same_(q.RawPredicateValue, lit_(get_(contents_(m.fieldTypes), q.Field), q.Value))
		})
	})
	ensures_("C10,C26.sets typed", func() bool {
		return implies_(err == nil, forall_(func(q *models.SimpleSetPredicate) bool {
			return implies_(inNodeS_(modelNode, q), compiledS_(q, contents_(m.fieldTypes)))
		}))
	})
	ensures_("C23,C26.only sets of this tree change", func() bool {
		return forall_(func(q *models.SimpleSetPredicate) bool {
			return same_(q.RawArrayValues, old_(func() []any { return q.RawArrayValues })) ||
				inNodeS_(modelNode, q) && compiledS_(q, contents_(m.fieldTypes))
		})
	})
}

package evaluation

import "github.com/flukeish/pmml/models"

// ---- tree traversal (C12, C13, C14, C15)

// the result of a predicate is one of the three truth values
func contract_T_test(tst test, row DataRow, r predicateResult) {
	ensures_("C12.one of three", func() bool { return 0 <= r && r <= 2 })
}

// the part of the tree below n was built for model m
//
//gover:uf
func built_(n node, m *TreeModel) bool {
	return n.m == m && n.test != nil && forall_(func(i int) bool {
		return implies_(0 <= i && i < len(n.children), built_(n.children[i], m))
	})
}

// a node of a constructed model
func usable_(n node) bool {
	return n.m != nil && n.m.model != nil && n.m.dd != nil && built_(n, n.m)
}

// the declared values of one field, certain of score
func certain_(acc []scoreDist, vals []models.Value, k int, score scoreDist) []scoreDist {
	if k <= 0 {
		return acc
	}
	if vals[k-1].Value == score.value {
		return append(certain_(acc, vals, k-1, score), scoreDist{vals[k-1].Value, 1.0, 1.0, score.recordCount})
	}
	return append(certain_(acc, vals, k-1, score), scoreDist{vals[k-1].Value, 0.0, 0.0, 0})
}

func certainly_(fs []models.DataField, k int, target models.FieldName, score scoreDist) []scoreDist {
	if k <= 0 {
		return nil
	}
	if fs[k-1].Name == target {
		return certain_(certainly_(fs, k-1, target, score), fs[k-1].Values, len(fs[k-1].Values), score)
	}
	return certainly_(fs, k-1, target, score)
}

// what a node predicts when the descent ends there
//
//gover:uf
func outDist_(n node) []scoreDist {
	if len(n.children) > 0 && n.m.model.NoTrueChildStrategy == "returnNullPrediction" {
		return nil
	}
	if len(n.scoreDist) > 0 {
		return n.scoreDist
	}
	if n.m.targetField != "" {
		return certainly_(n.m.dd.DataFields, len(n.m.dd.DataFields), n.m.targetField, n.score)
	}
	return append([]scoreDist(nil), n.score)
}

func contract_node_outputScoreDist(n node, r []scoreDist) {
	requires_("usable", func() bool { return n.m != nil && n.m.model != nil && n.m.dd != nil })
	candidate_(func(K int, sd []scoreDist) bool {
		return same_(sd, certainly_(n.m.dd.DataFields, K, n.m.targetField, n.score))
	})
	candidate_(func(K, Li int, sd []scoreDist) bool {
		return implies_(0 <= Li && Li < len(n.m.dd.DataFields), same_(sd, certain_(certainly_(n.m.dd.DataFields, Li, n.m.targetField, n.score), n.m.dd.DataFields[Li].Values, K, n.score)))
	})
	ensures_("C12,C13,C14,C15.node prediction", func() bool { return same_(r, outDist_(n)) })
}

func contract_node_leaf(n node, r bool) {
	ensures_("C12,C15.leaf", func() bool { return r == (len(n.children) == 0) })
}

// ---- none

//gover:uf
func resNone_(n node, row Map_[string, Value]) predicateResult {
	return cond_(call_[predicateResult](n.test, row) == tt_, tt_, ff_)
}

func distNone_(n node, row Map_[string, Value]) []scoreDist {
	if call_[predicateResult](n.test, row) != tt_ {
		return nil
	}
	return firstNone_(n, 0, row)
}

// the prediction of the first true child from i on, else the node's own
func firstNone_(n node, i int, row Map_[string, Value]) []scoreDist {
	if i >= len(n.children) {
		return outDist_(n)
	}
	if resNone_(n.children[i], row) == tt_ {
		return distNone_(n.children[i], row)
	}
	return firstNone_(n, i+1, row)
}

func contract_node_evaluateMissingValueStrategyNone(n node, input DataRow, r []scoreDist, res predicateResult) {
	requires_("usable", func() bool { return usable_(n) })
	candidate_(func(K int) bool {
		return same_(firstNone_(n, 0, contents_(input)), firstNone_(n, K, contents_(input)))
	})
	ensures_("C12.true or false", func() bool { return res == resNone_(n, contents_(input)) })
	ensures_("C12.first true child", func() bool { return same_(r, distNone_(n, contents_(input))) })
}

// ---- nullPrediction

// the first child, from i on, that is not false decides
func nullFrom_(n node, i int, row Map_[string, Value]) predicateResult {
	if i >= len(n.children) {
		return tt_
	}
	if resNull_(n.children[i], row) != ff_ {
		return resNull_(n.children[i], row)
	}
	return nullFrom_(n, i+1, row)
}

func resNull_(n node, row Map_[string, Value]) predicateResult {
	return cond_(call_[predicateResult](n.test, row) == tt_, nullFrom_(n, 0, row), call_[predicateResult](n.test, row))
}

func distNull_(n node, row Map_[string, Value]) []scoreDist {
	if call_[predicateResult](n.test, row) != tt_ {
		return nil
	}
	return firstNull_(n, 0, row)
}

func firstNull_(n node, i int, row Map_[string, Value]) []scoreDist {
	if i >= len(n.children) {
		return outDist_(n)
	}
	if resNull_(n.children[i], row) == uu_ {
		return nil
	}
	if resNull_(n.children[i], row) == tt_ {
		return distNull_(n.children[i], row)
	}
	return firstNull_(n, i+1, row)
}

func contract_node_evaluateMissingValueStrategyNullPrediction(n node, input DataRow, r []scoreDist, res predicateResult) {
	requires_("usable", func() bool { return usable_(n) })
	candidate_(func(K int) bool {
		return same_(firstNull_(n, 0, contents_(input)), firstNull_(n, K, contents_(input)))
	})
	candidate_(func(K int) bool {
		return nullFrom_(n, 0, contents_(input)) == nullFrom_(n, K, contents_(input))
	})
	ensures_("C12.one of three", func() bool { return 0 <= res && res <= 2 })
	ensures_("C12.unknown gives no prediction", func() bool { return res == resNull_(n, contents_(input)) })
	ensures_("C12.first true child", func() bool { return same_(r, distNull_(n, contents_(input))) })
}

// ---- lastPrediction

func someLast_(cs []node, k int, r predicateResult, row Map_[string, Value]) bool {
	return exists_(func(i int) bool { return 0 <= i && i < k && resLast_(cs[i], row) == r })
}

// the prediction of the last true child among the first k
func trueLast_(cs []node, k int, row Map_[string, Value]) []scoreDist {
	if k <= 0 {
		return nil
	}
	if resLast_(cs[k-1], row) == tt_ {
		return distLast_(cs[k-1], row)
	}
	return trueLast_(cs, k-1, row)
}

func resLast_(n node, row Map_[string, Value]) predicateResult {
	r := call_[predicateResult](n.test, row)
	if r == ff_ {
		return ff_
	}
	if !someLast_(n.children, len(n.children), uu_, row) && len(trueLast_(n.children, len(n.children), row)) != 0 {
		return tt_
	}
	return r
}

func distLast_(n node, row Map_[string, Value]) []scoreDist {
	if call_[predicateResult](n.test, row) == ff_ {
		return nil
	}
	if !someLast_(n.children, len(n.children), uu_, row) && len(trueLast_(n.children, len(n.children), row)) != 0 {
		return trueLast_(n.children, len(n.children), row)
	}
	return outDist_(n)
}

func contract_node_evaluateMissingValueStrategyLastPrediction(n node, input DataRow, r []scoreDist, res predicateResult) {
	requires_("usable", func() bool { return usable_(n) })
	candidate_(func(K int, b bool) bool { return b == someLast_(n.children, K, uu_, contents_(input)) })
	candidate_(func(K int, sd []scoreDist) bool { return same_(sd, trueLast_(n.children, K, contents_(input))) })
	ensures_("C13.one of three", func() bool { return 0 <= res && res <= 2 })
	ensures_("C13.truth of the node", func() bool { return res == resLast_(n, contents_(input)) })
	ensures_("C13.prediction", func() bool { return same_(r, distLast_(n, contents_(input))) })
}

// ---- defaultChild

func hasId_(cs []node, k int, id string) bool {
	return exists_(func(i int) bool { return 0 <= i && i < k && cs[i].id == id })
}

// the prediction of the (last) child with that id
func named_(cs []node, k int, id string, row Map_[string, Value]) []scoreDist {
	if k <= 0 {
		return nil
	}
	if cs[k-1].id == id {
		return distDef_(cs[k-1], row)
	}
	return named_(cs, k-1, id, row)
}

func penalized_(sds []scoreDist, p float64) []scoreDist {
	return seq_(len(sds), func(i int) scoreDist {
		return scoreDist{sds[i].value, sds[i].confidence * p, sds[i].probability * p, sds[i].recordCount}
	})
}

func someDef_(cs []node, k int, r predicateResult, row Map_[string, Value]) bool {
	return exists_(func(i int) bool { return 0 <= i && i < k && resDef_(cs[i], row) == r })
}

// the prediction of the last true child among the first k
func trueDef_(cs []node, k int, row Map_[string, Value]) []scoreDist {
	if k <= 0 {
		return nil
	}
	if resDef_(cs[k-1], row) == tt_ {
		return distDef_(cs[k-1], row)
	}
	return trueDef_(cs, k-1, row)
}

func resDef_(n node, row Map_[string, Value]) predicateResult {
	r := call_[predicateResult](n.test, row)
	if r == ff_ {
		return ff_
	}
	if someDef_(n.children, len(n.children), uu_, row) {
		return cond_(hasId_(n.children, len(n.children), n.defaultChild), tt_, uu_)
	}
	if len(trueDef_(n.children, len(n.children), row)) != 0 {
		return tt_
	}
	return r
}

func distDef_(n node, row Map_[string, Value]) []scoreDist {
	if call_[predicateResult](n.test, row) == ff_ {
		return nil
	}
	if someDef_(n.children, len(n.children), uu_, row) {
		if !hasId_(n.children, len(n.children), n.defaultChild) {
			return nil
		}
		return penalized_(named_(n.children, len(n.children), n.defaultChild, row), float64(n.m.model.MissingValuePenalty))
	}
	if len(trueDef_(n.children, len(n.children), row)) != 0 {
		return trueDef_(n.children, len(n.children), row)
	}
	return outDist_(n)
}

func contract_node_evaluateMissingValueStrategyDefaultChild(n node, input DataRow, r []scoreDist, res predicateResult) {
	requires_("usable", func() bool { return usable_(n) })
	candidate_(func(K int, b bool) bool { return b == someDef_(n.children, K, uu_, contents_(input)) })
	candidate_(func(K int, sd []scoreDist) bool { return same_(sd, trueDef_(n.children, K, contents_(input))) })
	candidate_(func(K int, Lm map[string][]scoreDist) bool {
		return forall_(func(id string) bool {
			return has_(contents_(Lm), id) == hasId_(n.children, K, id) && implies_(has_(contents_(Lm), id), same_(get_(contents_(Lm), id), named_(n.children, K, id, contents_(input))))
		})
	})
	candidate_(func(K int, sd, Ls []scoreDist) bool {
		return len(sd) == len(Ls) && forall_(func(i int) bool {
			return implies_(0 <= i && i < K, same_(sd[i], penalized_(Ls, float64(n.m.model.MissingValuePenalty))[i]))
		})
	})
	candidate_(func(K int, sd, Ls []scoreDist) bool {
		return len(sd) == K && forall_(func(i int) bool {
			return implies_(0 <= i && i < K, same_(sd[i], penalized_(Ls, float64(n.m.model.MissingValuePenalty))[i]))
		})
	})
	// penalized in place
	candidate_(func(sd, Ls []scoreDist) bool { return len(sd) == len(Ls) })
	candidate_(func(K int, sd, Ls []scoreDist) bool {
		return forall_(func(i int) bool {
			return implies_(0 <= i && i < len(sd), same_(sd[i], cond_(i < K, penalized_(Ls, float64(n.m.model.MissingValuePenalty))[i], Ls[i])))
		})
	})
	ensures_("C13.one of three", func() bool { return 0 <= res && res <= 2 })
	ensures_("C13.truth of the node", func() bool { return res == resDef_(n, contents_(input)) })
	ensures_("C13.prediction", func() bool { return same_(r, distDef_(n, contents_(input))) })
}

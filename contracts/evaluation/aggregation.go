package evaluation

import "github.com/flukeish/pmml/models"

// ---- weightedConfidence and aggregateNodes (C14)

func in_(vs []string, v string) bool {
	return exists_(func(i int) bool { return 0 <= i && i < len(vs) && vs[i] == v })
}

// the classes of the first k scores, added to those met before
func addClasses_(acc []string, sds []scoreDist, k int) []string {
	if k <= 0 {
		return acc
	}
	if in_(addClasses_(acc, sds, k-1), sds[k-1].value) {
		return addClasses_(acc, sds, k-1)
	}
	return append(addClasses_(acc, sds, k-1), sds[k-1].value)
}

// weightedConfidence

func someWC_(cs []node, k int, r predicateResult, row Map_[string, Value]) bool {
	return exists_(func(i int) bool { return 0 <= i && i < k && resWC_(cs[i], row) == r })
}

// the prediction of the last true child among the first k
func trueWC_(cs []node, k int, row Map_[string, Value]) []scoreDist {
	if k <= 0 {
		return nil
	}
	if resWC_(cs[k-1], row) == tt_ {
		return distWC_(cs[k-1], row)
	}
	return trueWC_(cs, k-1, row)
}

func resWC_(n node, row Map_[string, Value]) predicateResult {
	r := call_[predicateResult](n.test, row)
	if r == ff_ {
		return ff_
	}
	if someWC_(n.children, len(n.children), uu_, row) {
		return tt_
	}
	return r
}

func distWC_(n node, row Map_[string, Value]) []scoreDist {
	if call_[predicateResult](n.test, row) == ff_ {
		return n.scoreDist
	}
	if someWC_(n.children, len(n.children), uu_, row) {
		ws := weights_(n.children, len(n.children), row)
		ss := notFalse_(n.children, len(n.children), row)
		vs := classes_(ss, len(ss))
		total := totalWeight_(n.children, len(n.children), row)
		return seq_(len(vs), func(i int) scoreDist { return shares_(scoreDist{value: vs[i]}, ss, ws, len(ss), total) })
	}
	if len(trueWC_(n.children, len(n.children), row)) != 0 {
		return trueWC_(n.children, len(n.children), row)
	}
	return outDist_(n)
}

// record counts and predictions of the children not known to be false
func weights_(cs []node, k int, row Map_[string, Value]) []float64 {
	if k <= 0 {
		return nil
	}
	if resWC_(cs[k-1], row) == ff_ {
		return weights_(cs, k-1, row)
	}
	return append(weights_(cs, k-1, row), cs[k-1].score.recordCount)
}

func notFalse_(cs []node, k int, row Map_[string, Value]) [][]scoreDist {
	if k <= 0 {
		return nil
	}
	if resWC_(cs[k-1], row) == ff_ {
		return notFalse_(cs, k-1, row)
	}
	return append(notFalse_(cs, k-1, row), distWC_(cs[k-1], row))
}

func totalWeight_(cs []node, k int, row Map_[string, Value]) float64 {
	if k <= 0 {
		return 0
	}
	if resWC_(cs[k-1], row) == ff_ {
		return totalWeight_(cs, k-1, row)
	}
	return totalWeight_(cs, k-1, row) + cs[k-1].score.recordCount
}

func classes_(ss [][]scoreDist, k int) []string {
	if k <= 0 {
		return nil
	}
	return addClasses_(classes_(ss, k-1), ss[k-1], len(ss[k-1]))
}

// acc with the first k of the scores of its class added, each weighted by w
func share_(acc scoreDist, sds []scoreDist, k int, w float64) scoreDist {
	if k <= 0 {
		return acc
	}
	a := share_(acc, sds, k-1, w)
	s := sds[k-1]
	if s.value != a.value {
		return a
	}
	return scoreDist{a.value, a.confidence + s.confidence*w, a.probability + s.probability*w, a.recordCount + s.recordCount}
}

func shares_(acc scoreDist, ss [][]scoreDist, ws []float64, k int, total float64) scoreDist {
	if k <= 0 {
		return acc
	}
	return share_(shares_(acc, ss, ws, k-1, total), ss[k-1], len(ss[k-1]), ws[k-1]/total)
}

func allNotFalse_(n node, row Map_[string, Value]) [][]scoreDist {
	return notFalse_(n.children, len(n.children), row)
}

func contract_node_evaluateMissingValueStrategyWeightedConfidence(n node, input DataRow, r []scoreDist, res predicateResult) {
	requires_("usable", func() bool { return usable_(n) })
	candidate_(func(K int, b bool) bool { return b == someWC_(n.children, K, uu_, contents_(input)) })
	candidate_(func(K int, sd []scoreDist) bool { return same_(sd, trueWC_(n.children, K, contents_(input))) })
	candidate_(func(K int, ws []float64) bool { return same_(ws, weights_(n.children, K, contents_(input))) })
	candidate_(func(K int, ss [][]scoreDist) bool {
		return len(ss) == len(notFalse_(n.children, K, contents_(input))) &&
			forall_(func(i int) bool {
				return implies_(0 <= i && i < len(ss), same_(ss[i], notFalse_(n.children, K, contents_(input))[i]))
			})
	})
	candidate_(func(K int, ws []float64, ss [][]scoreDist) bool { return len(ws) == len(ss) })
	candidate_(func(K int, t float64) bool { return same_(t, totalWeight_(n.children, K, contents_(input))) })
	candidate_(func(K int, vs []string) bool { return same_(vs, classes_(allNotFalse_(n, contents_(input)), K)) })
	candidate_(func(K, Li int, vs []string) bool {
		return implies_(0 <= Li && Li < len(allNotFalse_(n, contents_(input))), same_(vs, addClasses_(classes_(allNotFalse_(n, contents_(input)), Li), allNotFalse_(n, contents_(input))[Li], K)))
	})
	candidate_(func(K int, Lws []float64, Lm map[string]scoreDist, Lt float64, vs []string) bool {
		return forall_(func(v string) bool {
			return has_(contents_(Lm), v) == in_(vs, v) &&
				same_(shares_(scoreDist{value: v}, allNotFalse_(n, contents_(input)), Lws, K, Lt), cond_(has_(contents_(Lm), v), get_(contents_(Lm), v), scoreDist{value: v})) &&
				implies_(has_(contents_(Lm), v), get_(contents_(Lm), v).value == v)
		})
	})
	candidate_(func(K, Li int, Lws []float64, Lm map[string]scoreDist, Lt float64, vs []string) bool {
		return implies_(0 <= Li && Li < len(allNotFalse_(n, contents_(input))), forall_(func(v string) bool {
			return has_(contents_(Lm), v) == in_(vs, v) &&
				same_(share_(shares_(scoreDist{value: v}, allNotFalse_(n, contents_(input)), Lws, Li, Lt), allNotFalse_(n, contents_(input))[Li], K, Lws[Li]/Lt), cond_(has_(contents_(Lm), v), get_(contents_(Lm), v), scoreDist{value: v})) &&
				implies_(has_(contents_(Lm), v), get_(contents_(Lm), v).value == v)
		}))
	})
	candidate_(func(K int, sd []scoreDist, Lvs []string, Lm map[string]scoreDist) bool {
		return len(sd) == K && forall_(func(i int) bool { return implies_(0 <= i && i < K, same_(sd[i], get_(contents_(Lm), Lvs[i]))) })
	})
	// the same with the position of the class in the map
	candidate_(func(Lm map[string]int, sd []scoreDist) bool {
		return forall_(func(v string) bool {
			return implies_(has_(contents_(Lm), v), 0 <= get_(contents_(Lm), v) && get_(contents_(Lm), v) < len(sd) && sd[get_(contents_(Lm), v)].value == v)
		})
	})
	candidate_(func(Lm map[string]int, sd []scoreDist) bool {
		return forall_(func(i int) bool {
			return implies_(0 <= i && i < len(sd), has_(contents_(Lm), sd[i].value) && get_(contents_(Lm), sd[i].value) == i)
		})
	})
	candidate_(func(K int, sd []scoreDist) bool { return len(sd) == len(classes_(allNotFalse_(n, contents_(input)), K)) })
	candidate_(func(K int, sd []scoreDist) bool {
		return forall_(func(i int) bool { return implies_(0 <= i && i < len(sd), sd[i].value == classes_(allNotFalse_(n, contents_(input)), K)[i]) })
	})
	candidate_(func(K int, Lm map[string]int) bool {
		return forall_(func(v string) bool { return has_(contents_(Lm), v) == in_(classes_(allNotFalse_(n, contents_(input)), K), v) })
	})
	candidate_(func(K int, Lws []float64, Lm map[string]int, Lt float64) bool {
		return forall_(func(v string) bool {
			return implies_(!has_(contents_(Lm), v), same_(shares_(scoreDist{value: v}, allNotFalse_(n, contents_(input)), Lws, K, Lt), scoreDist{value: v}))
		})
	})
	candidate_(func(K int, Lws []float64, Lt float64, sd []scoreDist) bool {
		return forall_(func(i int) bool {
			return implies_(0 <= i && i < len(sd), same_(sd[i], shares_(scoreDist{value: sd[i].value}, allNotFalse_(n, contents_(input)), Lws, K, Lt)))
		})
	})
	candidate_(func(K, Li int, sd []scoreDist) bool {
		return implies_(0 <= Li && Li < len(allNotFalse_(n, contents_(input))), len(sd) == len(addClasses_(classes_(allNotFalse_(n, contents_(input)), Li), allNotFalse_(n, contents_(input))[Li], K)))
	})
	candidate_(func(K, Li int, sd []scoreDist) bool {
		return implies_(0 <= Li && Li < len(allNotFalse_(n, contents_(input))), forall_(func(i int) bool {
			return implies_(0 <= i && i < len(sd), sd[i].value == addClasses_(classes_(allNotFalse_(n, contents_(input)), Li), allNotFalse_(n, contents_(input))[Li], K)[i])
		}))
	})
	candidate_(func(K, Li int, Lm map[string]int) bool {
		return implies_(0 <= Li && Li < len(allNotFalse_(n, contents_(input))), forall_(func(v string) bool {
			return has_(contents_(Lm), v) == in_(addClasses_(classes_(allNotFalse_(n, contents_(input)), Li), allNotFalse_(n, contents_(input))[Li], K), v)
		}))
	})
	candidate_(func(K, Li int, Lws []float64, Lm map[string]int, Lt float64) bool {
		return implies_(0 <= Li && Li < len(allNotFalse_(n, contents_(input))), forall_(func(v string) bool {
			return implies_(!has_(contents_(Lm), v), same_(share_(shares_(scoreDist{value: v}, allNotFalse_(n, contents_(input)), Lws, Li, Lt), allNotFalse_(n, contents_(input))[Li], K, Lws[Li]/Lt), scoreDist{value: v}))
		}))
	})
	candidate_(func(K, Li int, Lws []float64, Lt float64, sd []scoreDist) bool {
		return implies_(0 <= Li && Li < len(allNotFalse_(n, contents_(input))), forall_(func(i int) bool {
			return implies_(0 <= i && i < len(sd), same_(sd[i], share_(shares_(scoreDist{value: sd[i].value}, allNotFalse_(n, contents_(input)), Lws, Li, Lt), allNotFalse_(n, contents_(input))[Li], K, Lws[Li]/Lt)))
		}))
	})
	ensures_("C14.one of three", func() bool { return 0 <= res && res <= 2 })
	ensures_("C14.truth of the node", func() bool { return res == resWC_(n, contents_(input)) })
	ensures_("C14.prediction", func() bool { return same_(r, distWC_(n, contents_(input))) })
}

// aggregateNodes

func someAgg_(cs []node, k int, r predicateResult, row Map_[string, Value]) bool {
	return exists_(func(i int) bool { return 0 <= i && i < k && resAgg_(cs[i], row) == r })
}

// the prediction of the last true child among the first k
func trueAgg_(cs []node, k int, row Map_[string, Value]) []scoreDist {
	if k <= 0 {
		return nil
	}
	if resAgg_(cs[k-1], row) == tt_ {
		return distAgg_(cs[k-1], row)
	}
	return trueAgg_(cs, k-1, row)
}

func resAgg_(n node, row Map_[string, Value]) predicateResult {
	r := call_[predicateResult](n.test, row)
	if r == ff_ {
		return ff_
	}
	if someAgg_(n.children, len(n.children), uu_, row) {
		return tt_
	}
	return r
}

func distAgg_(n node, row Map_[string, Value]) []scoreDist {
	if call_[predicateResult](n.test, row) == ff_ {
		return outDist_(n)
	}
	if someAgg_(n.children, len(n.children), uu_, row) {
		ss := pooled_(n.children, len(n.children), row)
		vs := addClasses_(nil, ss, len(ss))
		return seq_(len(vs), func(i int) scoreDist {
			c := count_(ss, len(ss), vs[i])
			share := c / countAll_(ss, len(ss))
			return scoreDist{vs[i], share, share, c}
		})
	}
	if len(trueAgg_(n.children, len(n.children), row)) != 0 {
		return trueAgg_(n.children, len(n.children), row)
	}
	return outDist_(n)
}

func pooled_(cs []node, k int, row Map_[string, Value]) []scoreDist {
	if k <= 0 {
		return nil
	}
	return append(pooled_(cs, k-1, row), distAgg_(cs[k-1], row)...)
}

// records of a class, and of all classes, among the first k scores
func count_(sds []scoreDist, k int, v string) float64 {
	if k <= 0 {
		return 0
	}
	if sds[k-1].value != v {
		return count_(sds, k-1, v)
	}
	return count_(sds, k-1, v) + sds[k-1].recordCount
}

func countAll_(sds []scoreDist, k int) float64 {
	if k <= 0 {
		return 0
	}
	return countAll_(sds, k-1) + sds[k-1].recordCount
}

func contract_node_evaluateMissingValueStrategyAggregateNodes(n node, input DataRow, r []scoreDist, res predicateResult) {
	requires_("usable", func() bool { return usable_(n) })
	candidate_(func(K int, b bool) bool { return b == someAgg_(n.children, K, uu_, contents_(input)) })
	candidate_(func(K int, sd []scoreDist) bool { return same_(sd, trueAgg_(n.children, K, contents_(input))) })
	candidate_(func(K int, ss []scoreDist) bool { return same_(ss, pooled_(n.children, K, contents_(input))) })
	candidate_(func(K int, Lss []scoreDist, vs []string) bool { return same_(vs, addClasses_(nil, Lss, K)) })
	candidate_(func(K int, Lss []scoreDist, t float64) bool { return same_(t, countAll_(Lss, K)) })
	candidate_(func(K int, Lss []scoreDist, Lm map[string]scoreDist, vs []string) bool {
		return forall_(func(v string) bool {
			return has_(contents_(Lm), v) == in_(vs, v) && same_(count_(Lss, K, v), get_(contents_(Lm), v).recordCount) &&
				implies_(has_(contents_(Lm), v), get_(contents_(Lm), v).value == v)
		})
	})
	// the same with the counts alone in the map
	candidate_(func(K int, Lss []scoreDist, Lm map[string]float64, vs []string) bool {
		return forall_(func(v string) bool {
			return has_(contents_(Lm), v) == in_(vs, v) && same_(count_(Lss, K, v), get_(contents_(Lm), v))
		})
	})
	candidate_(func(K int, sd []scoreDist, Lvs []string, Lm map[string]float64, Lt float64) bool {
		return len(sd) == K && forall_(func(i int) bool {
			c := get_(contents_(Lm), Lvs[i])
			return implies_(0 <= i && i < K, same_(sd[i], scoreDist{Lvs[i], c / Lt, c / Lt, c}))
		})
	})
	candidate_(func(K int, sd []scoreDist, Lvs []string, Lm map[string]float64, Lt float64) bool {
		return len(sd) == len(Lvs) && forall_(func(i int) bool {
			c := get_(contents_(Lm), Lvs[i])
			return implies_(0 <= i && i < K, same_(sd[i], scoreDist{Lvs[i], c / Lt, c / Lt, c}))
		})
	})
	candidate_(func(K int, sd []scoreDist, Lvs []string, Lm map[string]scoreDist, Lt float64) bool {
		return len(sd) == K && forall_(func(i int) bool {
			c := get_(contents_(Lm), Lvs[i]).recordCount
			return implies_(0 <= i && i < K, same_(sd[i], scoreDist{get_(contents_(Lm), Lvs[i]).value, c / Lt, c / Lt, c}))
		})
	})
	// the same with the position of the class in the map
	candidate_(func(K int, Lss []scoreDist, sd []scoreDist) bool { return len(sd) == len(addClasses_(nil, Lss, K)) })
	candidate_(func(K int, Lss []scoreDist, sd []scoreDist) bool {
		return forall_(func(i int) bool { return implies_(0 <= i && i < len(sd), sd[i].value == addClasses_(nil, Lss, K)[i]) })
	})
	candidate_(func(K int, Lss []scoreDist, Lm map[string]int) bool {
		return forall_(func(v string) bool { return has_(contents_(Lm), v) == in_(addClasses_(nil, Lss, K), v) })
	})
	candidate_(func(K int, Lm map[string]int, sd []scoreDist) bool {
		return forall_(func(v string) bool {
			return implies_(has_(contents_(Lm), v), 0 <= get_(contents_(Lm), v) && get_(contents_(Lm), v) < len(sd) && sd[get_(contents_(Lm), v)].value == v)
		})
	})
	candidate_(func(K int, Lss []scoreDist, Lm map[string]int) bool {
		return forall_(func(v string) bool { return implies_(!has_(contents_(Lm), v), same_(count_(Lss, K, v), 0.0)) })
	})
	candidate_(func(K int, Lss []scoreDist, Lm map[string]int, sd []scoreDist) bool {
		return forall_(func(i int) bool {
			return implies_(0 <= i && i < len(sd), has_(contents_(Lm), sd[i].value) && get_(contents_(Lm), sd[i].value) == i)
		})
	})
	candidate_(func(K int, Lss []scoreDist, sd []scoreDist) bool {
		return forall_(func(i int) bool { return implies_(0 <= i && i < len(sd), same_(sd[i].recordCount, count_(Lss, K, sd[i].value))) })
	})
	candidate_(func(K int, Lss []scoreDist, Lt float64, sd []scoreDist) bool {
		vs := addClasses_(nil, Lss, len(Lss))
		return len(sd) == len(vs) && forall_(func(i int) bool {
			return implies_(0 <= i && i < len(sd), sd[i].value == vs[i] && same_(sd[i].recordCount, count_(Lss, len(Lss), vs[i])) &&
				implies_(i < K, same_(sd[i].probability, sd[i].recordCount/Lt) && same_(sd[i].confidence, sd[i].recordCount/Lt)))
		})
	})
	ensures_("C14.one of three", func() bool { return 0 <= res && res <= 2 })
	ensures_("C14.truth of the node", func() bool { return res == resAgg_(n, contents_(input)) })
	ensures_("C14.prediction", func() bool { return same_(r, distAgg_(n, contents_(input))) })
}

var _ models.Value

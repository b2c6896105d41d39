package evaluation

import (
	"math"
	"strings"

	"github.com/flukeish/pmml/models"
)

// ---- verification (C22)

func unprefixed_(fs []models.VerificationField, k int) bool {
	return exists_(func(i int) bool { return 0 <= i && i < k && !strings.HasPrefix(fs[i].Column, "data:") })
}

// the cells of the first k columns that are fed to the model, by cell name
func inCells_(fs []models.VerificationField, k int) Map_[string, string] {
	if k <= 0 {
		return empty_[string, string]()
	}
	if fs[k-1].Precision == nil {
		return put_(inCells_(fs, k-1), fs[k-1].Column[5:], string(fs[k-1].Field))
	}
	return inCells_(fs, k-1)
}

// those that are compared
func outCells_(fs []models.VerificationField, k int) Map_[string, string] {
	if k <= 0 {
		return empty_[string, string]()
	}
	if fs[k-1].Precision != nil {
		return put_(outCells_(fs, k-1), fs[k-1].Column[5:], string(fs[k-1].Field))
	}
	return outCells_(fs, k-1)
}

// the value of field f comes from a cell that is fed to it
func fed_(in Map_[string, Value], cells Map_[string, string], row Map_[string, any], among Map_[string, bool], f string) bool {
	return implies_(has_(in, f), exists_(func(c string) bool {
		return has_(among, c) && has_(row, c) && has_(cells, c) && get_(cells, c) == f && same_(get_(in, f), Value{val: get_(row, c)})
	}))
}

func keys_(row Map_[string, any]) Map_[string, bool] {
	return mapOf_(func(c string) bool { return has_(row, c) }, func(c string) bool { return true })
}

// in holds the input cells of the row under their field names, nothing else
func feeds_(in Map_[string, Value], cells Map_[string, string], row Map_[string, any]) bool {
	return sealed_("feeds", func() bool {
		return forall_(func(f string) bool { return fed_(in, cells, row, keys_(row), f) }) &&
			forall_(func(c string) bool { return implies_(has_(row, c) && has_(cells, c), has_(in, get_(cells, c))) })
	}, in, cells, row)
}

func close_(expected, predicted float64) bool {
	return math.Abs(expected-predicted) <= 1e-5*math.Abs(expected)
}

func agreesOn_(out Map_[string, Value], cells Map_[string, string], row Map_[string, any], c string) bool {
	return implies_(has_(row, c) && has_(cells, c), has_(out, get_(cells, c)) &&
		close_(floatOf_(get_(row, c)), floatOf_(get_(out, get_(cells, c)).val)))
}

// every recorded output of the row is in out, closely enough
func agrees_(out Map_[string, Value], cells Map_[string, string], row Map_[string, any]) bool {
	return sealed_("agrees", func() bool {
		return forall_(func(c string) bool { return agreesOn_(out, cells, row, c) })
	}, out, cells, row)
}

func passes_(m Model, mv *models.ModelVerification, i int) bool {
	fs := mv.VerificationFields.Fields
	row := contents_(mv.InlineTable.Rows[i])
	return exists_(func(in Map_[string, Value]) bool {
		return feeds_(in, inCells_(fs, len(fs)), row) && !evFails_(m, in) && agrees_(evOut_(m, in), outCells_(fs, len(fs)), row)
	})
}

func breaks_(m Model, mv *models.ModelVerification, i int) bool {
	fs := mv.VerificationFields.Fields
	row := contents_(mv.InlineTable.Rows[i])
	return exists_(func(in Map_[string, Value]) bool {
		return feeds_(in, inCells_(fs, len(fs)), row) && (evFails_(m, in) || exists_(func(c string) bool { return !agreesOn_(evOut_(m, in), outCells_(fs, len(fs)), row, c) }))
	})
}

func reproduced_(m Model, mv *models.ModelVerification) bool {
	return !unprefixed_(mv.VerificationFields.Fields, len(mv.VerificationFields.Fields)) && forall_(func(i int) bool {
		return implies_(0 <= i && i < len(mv.InlineTable.Rows), passes_(m, mv, i))
	})
}

func notReproduced_(m Model, mv *models.ModelVerification) bool {
	return unprefixed_(mv.VerificationFields.Fields, len(mv.VerificationFields.Fields)) || exists_(func(i int) bool {
		return 0 <= i && i < len(mv.InlineTable.Rows) && breaks_(m, mv, i)
	})
}

func contract_verifyModel(m Model, mv *models.ModelVerification, err error) {
	requires_("constructed", func() bool { return m != nil && ready_(m) })
	candidate_(func(K int) bool { return !unprefixed_(mv.VerificationFields.Fields, K) })
	candidate_(func(K int, Lin map[string]string) bool {
		return same_(contents_(Lin), inCells_(mv.VerificationFields.Fields, K))
	})
	candidate_(func(K int, Lout map[string]string) bool {
		return same_(contents_(Lout), outCells_(mv.VerificationFields.Fields, K))
	})
	candidate_(func(K int) bool {
		return forall_(func(i int) bool { return implies_(0 <= i && i < K, passes_(m, mv, i)) })
	})
	candidate_(func(V Map_[string, bool], Lrow models.Row, Lin DataRow) bool {
		return forall_(func(f string) bool {
			return fed_(contents_(Lin), inCells_(mv.VerificationFields.Fields, len(mv.VerificationFields.Fields)), contents_(Lrow), V, f)
		})
	})
	candidate_(func(V Map_[string, bool], Lrow models.Row, Lin DataRow) bool {
		return forall_(func(c string) bool {
			return implies_(has_(V, c) && has_(contents_(Lrow), c) && has_(inCells_(mv.VerificationFields.Fields, len(mv.VerificationFields.Fields)), c), has_(contents_(Lin), get_(inCells_(mv.VerificationFields.Fields, len(mv.VerificationFields.Fields)), c)))
		})
	})
	candidate_(func(V Map_[string, bool], Lrow models.Row, Lout DataRow) bool {
		return forall_(func(c string) bool {
			return implies_(has_(V, c), agreesOn_(contents_(Lout), outCells_(mv.VerificationFields.Fields, len(mv.VerificationFields.Fields)), contents_(Lrow), c))
		})
	})
	ensures_("C22.nothing to verify", func() bool { return implies_(mv == nil, err == nil) })
	ensures_("C22.passes only if reproduced", func() bool { return implies_(mv != nil && err == nil, reproduced_(m, mv)) })
	ensures_("C22.fails only if not reproduced", func() bool { return implies_(mv != nil && err != nil, notReproduced_(m, mv)) })
}

func contract_TreeModel_Verify(m *TreeModel, err error) {
	requires_("constructed", func() bool { return treeReady_(m) })
	ensures_("C22.nothing to verify", func() bool { return implies_(m.model.ModelVerification == nil, err == nil) })
	ensures_("C22.passes only if reproduced", func() bool {
		return implies_(m.model.ModelVerification != nil && err == nil, reproduced_(Model(m), m.model.ModelVerification))
	})
	ensures_("C22.fails only if not reproduced", func() bool {
		return implies_(m.model.ModelVerification != nil && err != nil, notReproduced_(Model(m), m.model.ModelVerification))
	})
}

func contract_MiningModel_Verify(m *MiningModel, err error) {
	requires_("constructed", func() bool { return miningReady_(m) })
	ensures_("C22.nothing to verify", func() bool { return implies_(m.model.ModelVerification == nil, err == nil) })
	ensures_("C22.passes only if reproduced", func() bool {
		return implies_(m.model.ModelVerification != nil && err == nil, reproduced_(Model(m), m.model.ModelVerification))
	})
	ensures_("C22.fails only if not reproduced", func() bool {
		return implies_(m.model.ModelVerification != nil && err != nil, notReproduced_(Model(m), m.model.ModelVerification))
	})
}

func contract_RegressionModel_Verify(m *RegressionModel, err error) {
	requires_("constructed", func() bool { return regressionReady_(m) })
	ensures_("C22.nothing to verify", func() bool { return implies_(m.model.ModelVerification == nil, err == nil) })
	ensures_("C22.passes only if reproduced", func() bool {
		return implies_(m.model.ModelVerification != nil && err == nil, reproduced_(Model(m), m.model.ModelVerification))
	})
	ensures_("C22.fails only if not reproduced", func() bool {
		return implies_(m.model.ModelVerification != nil && err != nil, notReproduced_(Model(m), m.model.ModelVerification))
	})
}

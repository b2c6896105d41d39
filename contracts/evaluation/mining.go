package evaluation

import (
	"github.com/flukeish/pmml/models"
)

// ---- models behind the interface
//
// What a model answers to a row is named by the functions ev...: the contract
// of the interface method defines them for every model, the contracts of the
// concrete models say what they are for trees, ensembles and regressions.

func evFails_(m Model, row Map_[string, Value]) bool { return fn_[bool]("evFails", m, row) }

// err is an error m answers to row
func evErr_(err error, m Model, row Map_[string, Value]) bool {
	return fn_[bool]("evErr", err, m, row)
}

func evOut_(m Model, row Map_[string, Value]) Map_[string, Value] {
	return fn_[Map_[string, Value]]("evOut", m, row)
}

func evNil_(m Model, row Map_[string, Value]) bool { return fn_[bool]("evNil", m, row) }

// the row afterwards
func evRow_(m Model, row Map_[string, Value]) Map_[string, Value] {
	return fn_[Map_[string, Value]]("evRow", m, row)
}

// m is a model construction has accepted
//
//gover:inline
func ready_(m Model) bool {
	return sealed_("ready", func() bool {
		return is_[*TreeModel](m) && treeReady_(as_[*TreeModel](m)) ||
			is_[*MiningModel](m) && miningReady_(as_[*MiningModel](m)) ||
			is_[*RegressionModel](m) && regressionReady_(as_[*RegressionModel](m))
	}, m)
}

func regressionReady_(m *RegressionModel) bool { return m != nil && m.model != nil }

func contract_I_Model_Evaluate(m Model, input DataRow, r DataRow, err error) {
	requires_("constructed", func() bool { return ready_(m) })
	requires_("row", func() bool { return input != nil })
	modifies_(input)
	ensures_("fails", func() bool {
		return (err != nil) == evFails_(m, old_(func() Map_[string, Value] { return contents_(input) }))
	})
	ensures_("error", func() bool {
		return implies_(err != nil, evErr_(err, m, old_(func() Map_[string, Value] { return contents_(input) })))
	})
	ensures_("row", func() bool {
		return same_(contents_(input), evRow_(m, old_(func() Map_[string, Value] { return contents_(input) })))
	})
	ensures_("answer", func() bool {
		return implies_(err == nil, (r == nil) == evNil_(m, old_(func() Map_[string, Value] { return contents_(input) })) &&
			same_(contents_(r), evOut_(m, old_(func() Map_[string, Value] { return contents_(input) }))))
	})
	ensures_("own row", func() bool { return r == nil || fresh_(r) })
}

// ---- ensembles (C16, C17, C18)

func segsReady_(ms []Model, k int) bool {
	return forall_(func(i int) bool { return implies_(0 <= i && i < k, ms[i] != nil && ready_(ms[i])) })
}

func miningReady_(m *MiningModel) bool {
	return m != nil && m.model != nil && implies_(m.validated && m.compiled,
		len(m.segmodels) == len(m.model.Segmentation.Segments) && segsReady_(m.segmodels, len(m.segmodels)))
}

// the row as segment i finds it
func segRow_(ms []Model, i int, row Map_[string, Value]) Map_[string, Value] {
	if i <= 0 {
		return row
	}
	return evRow_(ms[i-1], segRow_(ms, i-1, row))
}

func segFails_(ms []Model, k int, row Map_[string, Value]) bool {
	return exists_(func(i int) bool { return 0 <= i && i < k && evFails_(ms[i], segRow_(ms, i, row)) })
}

// err is the error of the first segment that fails
func segErr_(err error, ms []Model, row Map_[string, Value]) bool {
	return exists_(func(i int) bool {
		return 0 <= i && i < len(ms) && evErr_(err, ms[i], segRow_(ms, i, row)) && !segFails_(ms, i, row)
	})
}

// the value of a segment for a field
func hasPart_(f models.MiningFunction, out Map_[string, Value], k models.FieldName) bool {
	return cond_(f == "classification", has_(out, string(k)), has_(out, "score"))
}

func part_(f models.MiningFunction, out Map_[string, Value], k models.FieldName) float64 {
	return floatOf_(cond_(f == "classification", get_(out, string(k)), get_(out, "score")).val)
}

// what the first n segments add up to
func added_(f models.MiningFunction, ms []Model, n int, row Map_[string, Value], k models.FieldName) float64 {
	if n <= 0 {
		return 0
	}
	if hasPart_(f, evOut_(ms[n-1], segRow_(ms, n-1, row)), k) {
		return added_(f, ms, n-1, row, k) + part_(f, evOut_(ms[n-1], segRow_(ms, n-1, row)), k)
	}
	return added_(f, ms, n-1, row, k)
}

func outSlots_(fs []models.OutputField, k int) Map_[models.FieldName, float64] {
	if k <= 0 {
		return empty_[models.FieldName, float64]()
	}
	return put_(outSlots_(fs, k-1), fs[k-1].Name, 0)
}

func slots_(fs []models.OutputField, ts []models.Target, k int) Map_[models.FieldName, float64] {
	if k <= 0 {
		return outSlots_(fs, len(fs))
	}
	return put_(slots_(fs, ts, k-1), ts[k-1].Field, 0)
}

func sums_(m *MiningModel, n int, row Map_[string, Value]) Map_[models.FieldName, float64] {
	return mapOf_(func(k models.FieldName) bool { return has_(slots_(m.outputFields, m.targets, len(m.targets)), k) },
		func(k models.FieldName) float64 { return added_(m.model.FunctionName, m.segmodels, n, row, k) })
}

func scaled_(t models.Target, s Map_[models.FieldName, float64]) Map_[models.FieldName, float64] {
	return cond_(t.RescaleFactor != nil, put_(s, t.Field, get_(s, t.Field)**t.RescaleFactor), s)
}

func shifted_(t models.Target, s Map_[models.FieldName, float64]) Map_[models.FieldName, float64] {
	return cond_(t.RescaleConstant != nil, put_(s, t.Field, get_(s, t.Field)+*t.RescaleConstant), s)
}

func rescaled_(ts []models.Target, k int, s Map_[models.FieldName, float64]) Map_[models.FieldName, float64] {
	if k <= 0 {
		return s
	}
	return shifted_(ts[k-1], scaled_(ts[k-1], rescaled_(ts, k-1, s)))
}

func scores_(m *MiningModel, row Map_[string, Value]) Map_[models.FieldName, float64] {
	return rescaled_(m.targets, len(m.targets), sums_(m, len(m.segmodels), row))
}

func sumOut_(m *MiningModel, row Map_[string, Value]) Map_[string, Value] {
	return mapOf_(func(k string) bool { return has_(scores_(m, row), models.FieldName(k)) },
		func(k string) Value { return Value{val: get_(scores_(m, row), models.FieldName(k))} })
}

func miningOpen_(m *MiningModel) bool {
	return m != nil && m.model != nil && len(m.segmodels) == len(m.model.Segmentation.Segments) && segsReady_(m.segmodels, len(m.segmodels))
}

func contract_MiningModel_evaluateMultipleModelSum(m *MiningModel, input DataRow, r DataRow, err error) {
	requires_("model", func() bool { return miningOpen_(m) })
	requires_("row", func() bool { return input != nil })
	modifies_(input)
	candidate_(func(Ls map[models.FieldName]float64) bool {
		return forall_(func(k models.FieldName) bool { return implies_(has_(contents_(Ls), k), same_(get_(contents_(Ls), k), 0)) })
	})
	candidate_(func(K int, Ls map[models.FieldName]float64) bool {
		return same_(contents_(Ls), outSlots_(m.outputFields, K))
	})
	candidate_(func(K int, Ls map[models.FieldName]float64) bool {
		return same_(contents_(Ls), slots_(m.outputFields, m.targets, K))
	})
	candidate_(func(K int, Ls map[models.FieldName]float64) bool {
		return same_(contents_(Ls), sums_(m, K, old_(func() Map_[string, Value] { return contents_(input) })))
	})
	candidate_(func(K int) bool {
		return same_(contents_(input), segRow_(m.segmodels, K, old_(func() Map_[string, Value] { return contents_(input) })))
	})
	candidate_(func(K int) bool {
		return !segFails_(m.segmodels, K, old_(func() Map_[string, Value] { return contents_(input) }))
	})
	candidate_(func(V Map_[models.FieldName, bool], Li int, Ls map[models.FieldName]float64) bool {
		return forall_(func(k models.FieldName) bool {
			return has_(contents_(Ls), k) == has_(slots_(m.outputFields, m.targets, len(m.targets)), k) &&
				implies_(has_(contents_(Ls), k), same_(get_(contents_(Ls), k), cond_(has_(V, k), added_(m.model.FunctionName, m.segmodels, Li+1, old_(func() Map_[string, Value] { return contents_(input) }), k),
					added_(m.model.FunctionName, m.segmodels, Li, old_(func() Map_[string, Value] { return contents_(input) }), k))))
		})
	})
	candidate_(func(K int, Ls map[models.FieldName]float64) bool {
		return same_(contents_(Ls), rescaled_(m.targets, K, sums_(m, len(m.segmodels), old_(func() Map_[string, Value] { return contents_(input) }))))
	})
	candidate_(func(V Map_[models.FieldName, bool], Lout DataRow) bool {
		return forall_(func(k string) bool {
			return has_(contents_(Lout), k) == has_(V, models.FieldName(k)) && implies_(has_(V, models.FieldName(k)), has_(scores_(m, old_(func() Map_[string, Value] { return contents_(input) })), models.FieldName(k))) &&
				implies_(has_(contents_(Lout), k), same_(get_(contents_(Lout), k), Value{val: get_(scores_(m, old_(func() Map_[string, Value] { return contents_(input) })), models.FieldName(k))}))
		})
	})
	ensures_("C16.first segment error", func() bool {
		return (err != nil) == segFails_(m.segmodels, len(m.segmodels), old_(func() Map_[string, Value] { return contents_(input) })) &&
			implies_(err != nil, r == nil && segErr_(err, m.segmodels, old_(func() Map_[string, Value] { return contents_(input) })))
	})
	ensures_("C16.sum, factor, constant", func() bool {
		return implies_(err == nil, same_(contents_(r), sumOut_(m, old_(func() Map_[string, Value] { return contents_(input) }))))
	})
	ensures_("C16.every segment once, in order", func() bool {
		return implies_(err == nil, same_(contents_(input), segRow_(m.segmodels, len(m.segmodels), old_(func() Map_[string, Value] { return contents_(input) }))))
	})
	ensures_("C23.own row", func() bool { return implies_(err == nil, r != nil && fresh_(r)) })
}


func shared_(m *MiningModel, v Value) Value {
	return Value{val: floatOf_(v.val) / float64(len(m.model.Segmentation.Segments))}
}

func averageOut_(m *MiningModel, row Map_[string, Value]) Map_[string, Value] {
	return mapOf_(func(k string) bool { return has_(sumOut_(m, row), k) },
		func(k string) Value { return shared_(m, get_(sumOut_(m, row), k)) })
}

func contract_MiningModel_evaluateMultipleModelAverage(m *MiningModel, input DataRow, r DataRow, err error) {
	requires_("model", func() bool { return miningOpen_(m) })
	requires_("row", func() bool { return input != nil })
	modifies_(input)
	candidate_(func(V Map_[string, bool], Lout DataRow) bool {
		return forall_(func(k string) bool {
			return has_(contents_(Lout), k) == has_(sumOut_(m, old_(func() Map_[string, Value] { return contents_(input) })), k) &&
				implies_(has_(contents_(Lout), k), same_(get_(contents_(Lout), k), cond_(has_(V, k),
					shared_(m, get_(sumOut_(m, old_(func() Map_[string, Value] { return contents_(input) })), k)),
					get_(sumOut_(m, old_(func() Map_[string, Value] { return contents_(input) })), k))))
		})
	})
	// the same into another row
	candidate_(func(V Map_[string, bool], Lout DataRow) bool {
		return forall_(func(k string) bool {
			return has_(contents_(Lout), k) == has_(V, k) && implies_(has_(V, k), has_(sumOut_(m, old_(func() Map_[string, Value] { return contents_(input) })), k)) &&
				implies_(has_(contents_(Lout), k), same_(get_(contents_(Lout), k),
					shared_(m, get_(sumOut_(m, old_(func() Map_[string, Value] { return contents_(input) })), k))))
		})
	})
	ensures_("C16.first segment error", func() bool {
		return (err != nil) == segFails_(m.segmodels, len(m.segmodels), old_(func() Map_[string, Value] { return contents_(input) })) &&
			implies_(err != nil, r == nil && segErr_(err, m.segmodels, old_(func() Map_[string, Value] { return contents_(input) })))
	})
	ensures_("C16.sum divided by segments", func() bool {
		return implies_(err == nil, same_(contents_(r), averageOut_(m, old_(func() Map_[string, Value] { return contents_(input) }))))
	})
	ensures_("C16.every segment once, in order", func() bool {
		return implies_(err == nil, same_(contents_(input), segRow_(m.segmodels, len(m.segmodels), old_(func() Map_[string, Value] { return contents_(input) }))))
	})
	ensures_("C23.own row", func() bool { return implies_(err == nil, r != nil && fresh_(r)) })
}

// row with the outputs added
func overlay_(row, out Map_[string, Value]) Map_[string, Value] {
	return mapOf_(func(k string) bool { return has_(row, k) || has_(out, k) },
		func(k string) Value { return cond_(has_(out, k), get_(out, k), get_(row, k)) })
}

// the row segment i of a chain gets
func chainIn_(ms []Model, i int, row Map_[string, Value]) Map_[string, Value] {
	return overlay_(chainRow_(ms, i, row), chainOut_(ms, i, row))
}

// the row after i segments
func chainRow_(ms []Model, i int, row Map_[string, Value]) Map_[string, Value] {
	if i <= 0 {
		return row
	}
	return evRow_(ms[i-1], overlay_(chainRow_(ms, i-1, row), chainOut_(ms, i-1, row)))
}

// the outputs of segment i-1
func chainOut_(ms []Model, i int, row Map_[string, Value]) Map_[string, Value] {
	if i <= 0 {
		return empty_[string, Value]()
	}
	return evOut_(ms[i-1], overlay_(chainRow_(ms, i-1, row), chainOut_(ms, i-1, row)))
}

func chainFails_(ms []Model, k int, row Map_[string, Value]) bool {
	return exists_(func(i int) bool { return 0 <= i && i < k && evFails_(ms[i], chainIn_(ms, i, row)) })
}

func chainErr_(err error, ms []Model, row Map_[string, Value]) bool {
	return exists_(func(i int) bool {
		return 0 <= i && i < len(ms) && evErr_(err, ms[i], chainIn_(ms, i, row)) && !chainFails_(ms, i, row)
	})
}

func contract_MiningModel_evaluateMultipleModelChain(m *MiningModel, input DataRow, r DataRow, err error) {
	requires_("model", func() bool { return miningOpen_(m) })
	requires_("row", func() bool { return input != nil })
	modifies_(input)
	candidate_(func(last DataRow) bool { return last == nil || fresh_(last) })
	candidate_(func(K int, last DataRow) bool {
		return same_(contents_(last), chainOut_(m.segmodels, K, old_(func() Map_[string, Value] { return contents_(input) })))
	})
	candidate_(func(K int, last DataRow) bool {
		return (last == nil) == (K > 0 && evNil_(m.segmodels[K-1], chainIn_(m.segmodels, K-1, old_(func() Map_[string, Value] { return contents_(input) }))))
	})
	candidate_(func(K int) bool {
		return same_(contents_(input), chainRow_(m.segmodels, K, old_(func() Map_[string, Value] { return contents_(input) })))
	})
	candidate_(func(K int) bool {
		return same_(contents_(input), cond_(K < len(m.segmodels), chainIn_(m.segmodels, K, old_(func() Map_[string, Value] { return contents_(input) })),
			chainRow_(m.segmodels, K, old_(func() Map_[string, Value] { return contents_(input) }))))
	})
	candidate_(func(K int) bool {
		return !chainFails_(m.segmodels, K, old_(func() Map_[string, Value] { return contents_(input) }))
	})
	candidate_(func(V Map_[string, bool], Llast DataRow) bool {
		return forall_(func(k string) bool {
			return has_(contents_(input), k) == (has_(entry_(func() Map_[string, Value] { return contents_(input) }), k) || has_(V, k)) &&
				implies_(has_(V, k), has_(contents_(Llast), k)) &&
				implies_(has_(contents_(input), k), same_(get_(contents_(input), k), cond_(has_(V, k), get_(contents_(Llast), k), get_(entry_(func() Map_[string, Value] { return contents_(input) }), k))))
		})
	})
	ensures_("C17.first segment error", func() bool {
		return (err != nil) == chainFails_(m.segmodels, len(m.segmodels), old_(func() Map_[string, Value] { return contents_(input) })) &&
			implies_(err != nil, r == nil && chainErr_(err, m.segmodels, old_(func() Map_[string, Value] { return contents_(input) })))
	})
	ensures_("C17.last segment's output", func() bool {
		return implies_(err == nil, same_(contents_(r), chainOut_(m.segmodels, len(m.segmodels), old_(func() Map_[string, Value] { return contents_(input) }))) &&
			(r == nil) == (len(m.segmodels) > 0 && evNil_(m.segmodels[len(m.segmodels)-1], chainIn_(m.segmodels, len(m.segmodels)-1, old_(func() Map_[string, Value] { return contents_(input) })))))
	})
	ensures_("C17.in order, each segment's outputs added", func() bool {
		return implies_(err == nil, same_(contents_(input), chainRow_(m.segmodels, len(m.segmodels), old_(func() Map_[string, Value] { return contents_(input) }))))
	})
	ensures_("C23.own row", func() bool { return implies_(err == nil, r == nil || fresh_(r)) })
}

func contract_MiningModel_evaluateMultipleModelSelectFirst(m *MiningModel, input DataRow, r DataRow, err error) {
	requires_("model", func() bool { return miningOpen_(m) })
	requires_("row", func() bool { return input != nil })
	modifies_(input)
	ensures_("C17.first segment error", func() bool {
		return (err != nil) == (len(m.segmodels) == 0 || evFails_(m.segmodels[0], old_(func() Map_[string, Value] { return contents_(input) }))) &&
			implies_(err != nil, r == nil && (len(m.segmodels) == 0 || evErr_(err, m.segmodels[0], old_(func() Map_[string, Value] { return contents_(input) }))))
	})
	ensures_("C17.first segment's result", func() bool {
		return implies_(err == nil, same_(contents_(r), evOut_(m.segmodels[0], old_(func() Map_[string, Value] { return contents_(input) }))) &&
			(r == nil) == evNil_(m.segmodels[0], old_(func() Map_[string, Value] { return contents_(input) })))
	})
	ensures_("C17.no other segment", func() bool {
		return implies_(err == nil, same_(contents_(input), evRow_(m.segmodels[0], old_(func() Map_[string, Value] { return contents_(input) }))))
	})
	ensures_("C23.own row", func() bool { return implies_(err == nil, r == nil || fresh_(r)) })
}

// ---- missing values (C18)

func imputed_(row, dv Map_[string, Value]) Map_[string, Value] {
	return mapOf_(func(k string) bool { return has_(row, k) || has_(dv, k) },
		func(k string) Value {
			return cond_(has_(dv, k) && (!has_(row, k) || get_(row, k).val == nil), get_(dv, k), get_(row, k))
		})
}

func contract_MiningModel_imputeMissingValues(m *MiningModel, input DataRow, r DataRow, err error) {
	requires_("model", func() bool { return m != nil })
	requires_("row", func() bool { return input != nil })
	confined_(&m.defaultValues) // the row is not the model's own map of replacements
	modifies_(input)
	candidate_(func(V Map_[string, bool]) bool {
		return forall_(func(k string) bool {
			return implies_(has_(V, k), has_(contents_(m.defaultValues), k)) &&
				has_(contents_(input), k) == (has_(old_(func() Map_[string, Value] { return contents_(input) }), k) || has_(V, k)) &&
				implies_(has_(contents_(input), k), same_(get_(contents_(input), k), cond_(has_(V, k), get_(imputed_(old_(func() Map_[string, Value] { return contents_(input) }), contents_(m.defaultValues)), k),
					get_(old_(func() Map_[string, Value] { return contents_(input) }), k))))
		})
	})
	ensures_("C18.never fails, same row", func() bool { return err == nil && same_(r, input) })
	ensures_("C18.declared replacements, nothing else", func() bool {
		return same_(contents_(input), imputed_(old_(func() Map_[string, Value] { return contents_(input) }), old_(func() Map_[string, Value] { return contents_(m.defaultValues) })))
	})
}

// ---- ensembles as a whole

func supportedMethod_(s models.MultipleModelMethod) bool {
	return s == "average" || s == "modelChain" || s == "sum" || s == "selectFirst"
}

// the row the segments see first
func start_(m *MiningModel, row Map_[string, Value]) Map_[string, Value] {
	return prepared_(m.model.LocalTransformations, imputed_(row, contents_(m.defaultValues)))
}

func miningErr_(m *MiningModel, row Map_[string, Value]) bool {
	if unprepared_(m.model.LocalTransformations, imputed_(row, contents_(m.defaultValues))) {
		return true
	}
	s := m.model.Segmentation.MultipleModelMethod
	if s == "average" || s == "sum" {
		return segFails_(m.segmodels, len(m.segmodels), start_(m, row))
	}
	if s == "modelChain" {
		return chainFails_(m.segmodels, len(m.segmodels), start_(m, row))
	}
	if s == "selectFirst" {
		return len(m.segmodels) == 0 || evFails_(m.segmodels[0], start_(m, row))
	}
	return true
}

func miningOut_(m *MiningModel, row Map_[string, Value]) Map_[string, Value] {
	s := m.model.Segmentation.MultipleModelMethod
	if s == "average" {
		return averageOut_(m, start_(m, row))
	}
	if s == "sum" {
		return sumOut_(m, start_(m, row))
	}
	if s == "modelChain" {
		return chainOut_(m.segmodels, len(m.segmodels), start_(m, row))
	}
	return evOut_(m.segmodels[0], start_(m, row))
}

func miningNil_(m *MiningModel, row Map_[string, Value]) bool {
	s := m.model.Segmentation.MultipleModelMethod
	if s == "average" || s == "sum" {
		return false
	}
	if s == "modelChain" {
		return len(m.segmodels) > 0 && evNil_(m.segmodels[len(m.segmodels)-1], chainIn_(m.segmodels, len(m.segmodels)-1, start_(m, row)))
	}
	return evNil_(m.segmodels[0], start_(m, row))
}

// the row afterwards
func miningRow_(m *MiningModel, row Map_[string, Value]) Map_[string, Value] {
	s := m.model.Segmentation.MultipleModelMethod
	if s == "average" || s == "sum" {
		return segRow_(m.segmodels, len(m.segmodels), start_(m, row))
	}
	if s == "modelChain" {
		return chainRow_(m.segmodels, len(m.segmodels), start_(m, row))
	}
	return evRow_(m.segmodels[0], start_(m, row))
}

func contract_MiningModel_Evaluate(m *MiningModel, input DataRow, r DataRow, err error) {
	requires_("constructed", func() bool { return miningReady_(m) })
	requires_("row", func() bool { return input != nil })
	confined_(&m.defaultValues) // the row is not the model's own map of replacements
	modifies_(input)
	ensures_("C21.not validated", func() bool {
		return implies_(!m.validated, r == nil && same_(err, error(Error("evaluation: not validated"))))
	})
	ensures_("C21.not compiled", func() bool {
		return implies_(m.validated && !m.compiled, r == nil && same_(err, error(Error("evaluation: not compiled"))))
	})
	ensures_("C16,C17,C18.error", func() bool {
		return implies_(m.validated && m.compiled, (err != nil) == miningErr_(m, old_(func() Map_[string, Value] { return contents_(input) })) && implies_(err != nil, r == nil))
	})
	ensures_("C16,C17,C18.result", func() bool {
		return implies_(err == nil, same_(contents_(r), miningOut_(m, old_(func() Map_[string, Value] { return contents_(input) }))))
	})
	ensures_("C17.no result", func() bool {
		return implies_(err == nil, (r == nil) == miningNil_(m, old_(func() Map_[string, Value] { return contents_(input) })))
	})
	ensures_("C16,C17,C18.row", func() bool {
		return implies_(err == nil, same_(contents_(input), miningRow_(m, old_(func() Map_[string, Value] { return contents_(input) }))))
	})
	ensures_("C23.own row", func() bool { return r == nil || fresh_(r) })
	determined_("C23.equal rows, equal answers", func() bool { return err == nil }, func() bool { return r == nil },
		func() Map_[string, Value] {
			return cond_(err == nil, contents_(r), empty_[string, Value]())
		},
		func() Map_[string, Value] {
			return cond_(err == nil, contents_(input), empty_[string, Value]())
		})
}

// ---- construction (C21)

func effective_(s models.MultipleModelMethod) models.MultipleModelMethod {
	return cond_(s == "", models.MultipleModelMethod("sum"), s)
}

func defaulted_(now, before models.MultipleModelMethod) bool {
	return now == before || now == effective_(before)
}

func featuresOK_(fs []models.OutputField, k int) bool {
	return forall_(func(i int) bool {
		return implies_(0 <= i && i < k, fs[i].Feature == "" || fs[i].Feature == "probability")
	})
}

func contract_MiningModel_Validate(m *MiningModel, err error) {
	requires_("model", func() bool { return m != nil && m.model != nil })
	modifies_(&m.validated, &m.model.Segmentation.MultipleModelMethod)
	candidate_(func(K int) bool { return featuresOK_(m.model.Output.Fields, K) })
	ensures_("C17,C21.sum unless configured", func() bool {
		return m.model.Segmentation.MultipleModelMethod == effective_(old_(func() models.MultipleModelMethod { return m.model.Segmentation.MultipleModelMethod }))
	})
	ensures_("C21.methods and features", func() bool {
		return (err == nil) == (supportedMethod_(m.model.Segmentation.MultipleModelMethod) && featuresOK_(m.model.Output.Fields, len(m.model.Output.Fields)))
	})
	ensures_("C21.validated", func() bool {
		return m.validated == (err == nil || old_(func() bool { return m.validated }))
	})
}

// the replacements the first k fields declare
func replacements_(fs []models.MiningField, k int) Map_[string, Value] {
	if k <= 0 {
		return empty_[string, Value]()
	}
	if fs[k-1].MissingValueReplacement != nil {
		return put_(replacements_(fs, k-1), string(fs[k-1].Name), Value{val: *fs[k-1].MissingValueReplacement})
	}
	return replacements_(fs, k-1)
}

// the combination methods of all ensembles of the document, defaults applied
func methods_() Map_[*models.MiningModel, models.MultipleModelMethod] {
	return mapOf_(func(p *models.MiningModel) bool { return true },
		func(p *models.MiningModel) models.MultipleModelMethod {
			return effective_(p.Segmentation.MultipleModelMethod)
		})
}

func scope_(ds []models.DerivedField, lt models.LocalTransformations) []models.DerivedField {
	return append(ds, lt.DerivedFields...)
}

func segmentsOK_(ss []models.Segment, k int, dd *models.DataDictionary, ds []models.DerivedField, ms Map_[*models.MiningModel, models.MultipleModelMethod]) bool {
	return forall_(func(i int) bool {
		return implies_(0 <= i && i < k, len(ss[i].Models) == 1 && modelOK_(ss[i].Models[0], dd, ds, ms))
	})
}

// a model can be built for the element
//
//gover:uf
func modelOK_(e models.ModelElement, dd *models.DataDictionary, ds []models.DerivedField, ms Map_[*models.MiningModel, models.MultipleModelMethod]) bool {
	if is_[*models.TreeModel](e) {
		t := as_[*models.TreeModel](e)
		return treeFunction_(t.FunctionName) && !badNode_(t.Node, types_(dd, scope_(ds, t.LocalTransformations)))
	}
	if is_[*models.MiningModel](e) {
		return ensembleOK_(as_[*models.MiningModel](e), dd, ds, ms)
	}
	return is_[*models.RegressionModel](e)
}

func ensembleOK_(d *models.MiningModel, dd *models.DataDictionary, ds []models.DerivedField, ms Map_[*models.MiningModel, models.MultipleModelMethod]) bool {
	return supportedMethod_(get_(ms, d)) && featuresOK_(d.Output.Fields, len(d.Output.Fields)) &&
		segmentsOK_(d.Segmentation.Segments, len(d.Segmentation.Segments), dd, scope_(ds, d.LocalTransformations), ms)
}

// r is a model of the element's kind, built for it
func built4_(r Model, e models.ModelElement) bool {
	if is_[*models.TreeModel](e) {
		return is_[*TreeModel](r) && as_[*TreeModel](r) != nil && as_[*TreeModel](r).model == as_[*models.TreeModel](e)
	}
	if is_[*models.MiningModel](e) {
		return is_[*MiningModel](r) && as_[*MiningModel](r) != nil && as_[*MiningModel](r).model == as_[*models.MiningModel](e)
	}
	return is_[*models.RegressionModel](e) && is_[*RegressionModel](r) && as_[*RegressionModel](r) != nil && as_[*RegressionModel](r).model == as_[*models.RegressionModel](e)
}

func isModel_(e models.ModelElement) bool {
	return implies_(is_[*models.TreeModel](e), as_[*models.TreeModel](e) != nil) &&
		implies_(is_[*models.MiningModel](e), as_[*models.MiningModel](e) != nil) &&
		implies_(is_[*models.RegressionModel](e), as_[*models.RegressionModel](e) != nil)
}

func contract_NewModel(dd *models.DataDictionary, td *models.TransformationDictionary, mdl models.ModelElement, r Model, err error) {
	requires_("document", func() bool { return dd != nil && td != nil && isModel_(mdl) })
	modifiesAll_(&(*models.SimplePredicate)(nil).RawPredicateValue, &(*models.SimpleSetPredicate)(nil).RawArrayValues, &(*models.TreeModel)(nil).MiningSchema.MiningFields, &(*models.MiningModel)(nil).Segmentation.MultipleModelMethod)
	ensures_("C21.accepted iff supported", func() bool {
		return (err == nil) == modelOK_(mdl, dd, td.DerivedFields, old_(func() Map_[*models.MiningModel, models.MultipleModelMethod] { return methods_() }))
	})
	ensures_("C21.kind", func() bool { return implies_(err == nil, r != nil && built4_(r, mdl)) })
	ensures_("C24.ready", func() bool { return implies_(err == nil, ready_(r)) })
	ensures_("C21,C23.only defaults are filled in", func() bool {
		return same_(methods_(), old_(func() Map_[*models.MiningModel, models.MultipleModelMethod] { return methods_() })) && forall_(func(p *models.MiningModel) bool {
			return defaulted_(p.Segmentation.MultipleModelMethod, old_(func() models.MultipleModelMethod { return p.Segmentation.MultipleModelMethod }))
		})
	})
}

func contract_NewRegressionModel(dd *models.DataDictionary, td *models.TransformationDictionary, model *models.RegressionModel, r *RegressionModel, err error) {
	ensures_("C21.always accepted", func() bool { return err == nil && r != nil && fresh_(r) && r.model == model })
}

func miningDoc_(m *MiningModel) bool {
	return m != nil && m.model != nil && m.dd != nil && m.td != nil
}

func contract_MiningModel_Compile(m *MiningModel, err error) {
	requires_("model", func() bool { return miningDoc_(m) })
	assume_("a document holds no nil models", func() bool {
		return forall_(func(i int) bool {
			return implies_(0 <= i && i < len(m.model.Segmentation.Segments) && len(m.model.Segmentation.Segments[i].Models) == 1, isModel_(m.model.Segmentation.Segments[i].Models[0]))
		})
	})
	modifies_(&m.outputFields, &m.targets, &m.targetField, &m.defaultValues, &m.fieldTypes, &m.td, &m.segmodels, &m.compiled)
	modifiesAll_(&(*models.SimplePredicate)(nil).RawPredicateValue, &(*models.SimpleSetPredicate)(nil).RawArrayValues, &(*models.TreeModel)(nil).MiningSchema.MiningFields, &(*models.MiningModel)(nil).Segmentation.MultipleModelMethod)
	candidate_(func(K int) bool {
		return same_(contents_(m.defaultValues), replacements_(m.model.MiningSchema.MiningFields, K))
	})
	candidate_(func(K int, ms []Model) bool { return len(ms) == K })
	candidate_(func(K int, ms []Model) bool { return segsReady_(ms, K) })
	candidate_(func(K int, ms []Model) bool {
		return forall_(func(i int) bool {
			return implies_(0 <= i && i < K, built4_(ms[i], m.model.Segmentation.Segments[i].Models[0]))
		})
	})
	candidate_(func(K int) bool { return len(m.segmodels) == K })
	candidate_(func(K int) bool { return segsReady_(m.segmodels, K) })
	candidate_(func(K int) bool {
		return forall_(func(i int) bool {
			return implies_(0 <= i && i < K, built4_(m.segmodels[i], m.model.Segmentation.Segments[i].Models[0]))
		})
	})
	candidate_(func(K int) bool {
		return segmentsOK_(m.model.Segmentation.Segments, K, m.dd, m.td.DerivedFields, old_(func() Map_[*models.MiningModel, models.MultipleModelMethod] { return methods_() }))
	})
	candidate_(func() bool {
		return forall_(func(p *models.MiningModel) bool {
			return defaulted_(p.Segmentation.MultipleModelMethod, old_(func() models.MultipleModelMethod { return p.Segmentation.MultipleModelMethod }))
		})
	})
	candidate_(func() bool {
		return same_(methods_(), old_(func() Map_[*models.MiningModel, models.MultipleModelMethod] { return methods_() }))
	})
	ensures_("C16.fields and targets", func() bool {
		return same_(m.outputFields, m.model.Output.Fields) && same_(m.targets, m.model.Targets.Targets)
	})
	ensures_("C18.declared replacements", func() bool {
		return m.defaultValues != nil && same_(contents_(m.defaultValues), replacements_(old_(func() []models.MiningField { return m.model.MiningSchema.MiningFields }), len(old_(func() []models.MiningField { return m.model.MiningSchema.MiningFields }))))
	})
	ensures_("C18.private replacements", func() bool { return fresh_(m.defaultValues) })
	ensures_("C10,C11,C21.derived fields in scope", func() bool {
		return m.td != nil && same_(m.td.DerivedFields, scope_(old_(func() []models.DerivedField { return m.td.DerivedFields }), m.model.LocalTransformations))
	})
	ensures_("C23.own transformation dictionary", func() bool { return fresh_(m.td) })
	ensures_("C21.rejected iff a segment is unsupported", func() bool {
		return (err == nil) == segmentsOK_(m.model.Segmentation.Segments, len(m.model.Segmentation.Segments), m.dd, m.td.DerivedFields, old_(func() Map_[*models.MiningModel, models.MultipleModelMethod] { return methods_() }))
	})
	ensures_("C21.one sub-model per segment, in order", func() bool {
		return implies_(err == nil, len(m.segmodels) == len(m.model.Segmentation.Segments) && forall_(func(i int) bool {
			return implies_(0 <= i && i < len(m.segmodels), built4_(m.segmodels[i], m.model.Segmentation.Segments[i].Models[0]))
		}))
	})
	ensures_("C24.ready", func() bool { return implies_(err == nil, segsReady_(m.segmodels, len(m.segmodels))) })
	ensures_("C21.compiled", func() bool {
		return m.compiled == (err == nil || old_(func() bool { return m.compiled }))
	})
	ensures_("C21,C23.only defaults are filled in", func() bool {
		return same_(methods_(), old_(func() Map_[*models.MiningModel, models.MultipleModelMethod] { return methods_() })) && forall_(func(p *models.MiningModel) bool {
			return defaulted_(p.Segmentation.MultipleModelMethod, old_(func() models.MultipleModelMethod { return p.Segmentation.MultipleModelMethod }))
		})
	})
}

func contract_NewMiningModel(dd *models.DataDictionary, td *models.TransformationDictionary, model *models.MiningModel, m *MiningModel, err error) {
	requires_("document", func() bool { return dd != nil && td != nil && model != nil })
	modifiesAll_(&(*models.SimplePredicate)(nil).RawPredicateValue, &(*models.SimpleSetPredicate)(nil).RawArrayValues, &(*models.TreeModel)(nil).MiningSchema.MiningFields, &(*models.MiningModel)(nil).Segmentation.MultipleModelMethod)
	ensures_("C21.accepted iff supported", func() bool {
		return (err == nil) == ensembleOK_(model, dd, td.DerivedFields, old_(func() Map_[*models.MiningModel, models.MultipleModelMethod] { return methods_() }))
	})
	ensures_("C21.rejected", func() bool { return implies_(err != nil, m == nil) })
	ensures_("C21.of this document", func() bool {
		return implies_(err == nil, fresh_(m) && m.validated && m.compiled && m.model == model && m.dd == dd)
	})
	ensures_("C16.fields and targets", func() bool {
		return implies_(err == nil, same_(m.outputFields, model.Output.Fields) && same_(m.targets, model.Targets.Targets))
	})
	ensures_("C18.declared replacements", func() bool {
		return implies_(err == nil, m.defaultValues != nil && fresh_(m.defaultValues) && same_(contents_(m.defaultValues), replacements_(old_(func() []models.MiningField { return model.MiningSchema.MiningFields }), len(old_(func() []models.MiningField { return model.MiningSchema.MiningFields })))))
	})
	ensures_("C17,C21.sum unless configured", func() bool {
		return implies_(err == nil, model.Segmentation.MultipleModelMethod != "" &&
			model.Segmentation.MultipleModelMethod == effective_(old_(func() models.MultipleModelMethod { return model.Segmentation.MultipleModelMethod })))
	})
	ensures_("C21.one sub-model per segment, in order", func() bool {
		return implies_(err == nil, len(m.segmodels) == len(model.Segmentation.Segments) && forall_(func(i int) bool {
			return implies_(0 <= i && i < len(m.segmodels), built4_(m.segmodels[i], model.Segmentation.Segments[i].Models[0]))
		}))
	})
	ensures_("C24.ready", func() bool { return implies_(err == nil, miningReady_(m)) })
	ensures_("C21,C23.only defaults are filled in", func() bool {
		return same_(methods_(), old_(func() Map_[*models.MiningModel, models.MultipleModelMethod] { return methods_() })) && forall_(func(p *models.MiningModel) bool {
			return defaulted_(p.Segmentation.MultipleModelMethod, old_(func() models.MultipleModelMethod { return p.Segmentation.MultipleModelMethod }))
		})
	})
}

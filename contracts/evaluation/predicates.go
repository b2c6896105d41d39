package evaluation

import (
	"strconv"

	"github.com/flukeish/pmml/models"
)

// ---- three-valued predicates (C08, C09)

// unknown, true, false
const (
	uu_ predicateResult = 0
	tt_ predicateResult = 1
	ff_ predicateResult = 2
)

func boolRes_(b bool) predicateResult { return cond_(b, tt_, ff_) }

// the field is absent from the row or carries no value
func missing_(row Map_[string, Value], field string) bool {
	return !has_(row, field) || get_(row, field).val == nil
}

func numeric_(dt models.DataType) bool {
	return dt == "double" || dt == "float" || dt == "integer"
}

// the value equals the literal: as numbers when the literal is a number
func equals_(v, lit any) bool {
	if is_[float64](lit) {
		return floatOf_(v) == as_[float64](lit)
	}
	if is_[int64](lit) {
		return intOf_(v) == as_[int64](lit)
	}
	return v == lit
}

func orderF_(op models.SimplePredicateOperator, a, b float64) bool {
	return op == "greaterOrEqual" && a >= b || op == "greaterThan" && a > b || op == "lessOrEqual" && a <= b || op == "lessThan" && a < b
}

func orderI_(op models.SimplePredicateOperator, a, b int64) bool {
	return op == "greaterOrEqual" && a >= b || op == "greaterThan" && a > b || op == "lessOrEqual" && a <= b || op == "lessThan" && a < b
}

func holds_(op models.SimplePredicateOperator, dt models.DataType, v, lit any) bool {
	if op == "equal" {
		return equals_(v, lit)
	}
	if op == "notEqual" {
		return !equals_(v, lit)
	}
	if dt == "double" || dt == "float" {
		return orderF_(op, floatOf_(v), as_[float64](lit))
	}
	if dt == "integer" {
		return orderI_(op, intOf_(v), as_[int64](lit))
	}
	return false
}

func simpleRes_(p *models.SimplePredicate, row Map_[string, Value], ft Map_[models.FieldName, models.DataType]) predicateResult {
	if !has_(ft, p.Field) {
		return ff_
	}
	if p.Operator == "isMissing" {
		return boolRes_(missing_(row, string(p.Field)))
	}
	if p.Operator == "isNotMissing" {
		return boolRes_(!missing_(row, string(p.Field)))
	}
	if p.RawPredicateValue == nil { // never compiled
		return ff_
	}
	if missing_(row, string(p.Field)) {
		return uu_
	}
	return boolRes_(holds_(p.Operator, get_(ft, p.Field), get_(row, string(p.Field)).val, p.RawPredicateValue))
}

// the value equals one of the first n elements
func among_(v any, elems []any, n int) bool {
	return exists_(func(i int) bool { return 0 <= i && i < n && equals_(v, elems[i]) })
}

func setRes_(p *models.SimpleSetPredicate, row Map_[string, Value], ft Map_[models.FieldName, models.DataType]) predicateResult {
	if !has_(ft, p.Field) {
		return ff_
	}
	if missing_(row, string(p.Field)) {
		return uu_
	}
	if p.BooleanOperator == "isIn" {
		return boolRes_(among_(get_(row, string(p.Field)).val, p.RawArrayValues, len(p.RawArrayValues)))
	}
	if p.BooleanOperator == "isNotIn" {
		return boolRes_(!among_(get_(row, string(p.Field)).val, p.RawArrayValues, len(p.RawArrayValues)))
	}
	return ff_
}

// the literal of an ordering has the type its field calls for
func typed_(p *models.SimplePredicate, ft Map_[models.FieldName, models.DataType]) bool {
	return p != nil && implies_(has_(ft, p.Field) && p.RawPredicateValue != nil && p.Operator != "isMissing" && p.Operator != "isNotMissing",
		implies_(get_(ft, p.Field) == "double" || get_(ft, p.Field) == "float", is_[float64](p.RawPredicateValue)) &&
			implies_(get_(ft, p.Field) == "integer", is_[int64](p.RawPredicateValue)))
}

// predRes_: what a predicate says about a row
//
//gover:uf
func predRes_(pi models.Predicate, row Map_[string, Value], ft Map_[models.FieldName, models.DataType]) predicateResult {
	if is_[*models.SimplePredicate](pi) {
		return simpleRes_(as_[*models.SimplePredicate](pi), row, ft)
	}
	if is_[*models.CompoundPredicate](pi) {
		return compoundRes_(as_[*models.CompoundPredicate](pi), row, ft)
	}
	if is_[*models.SimpleSetPredicate](pi) {
		return setRes_(as_[*models.SimpleSetPredicate](pi), row, ft)
	}
	if is_[*models.True](pi) {
		return tt_
	}
	if is_[*models.False](pi) {
		return ff_
	}
	return uu_
}

func some_(ps []models.Predicate, n int, r predicateResult, row Map_[string, Value], ft Map_[models.FieldName, models.DataType]) bool {
	return exists_(func(i int) bool { return 0 <= i && i < n && predRes_(ps[i], row, ft) == r })
}

func oddTrue_(ps []models.Predicate, n int, row Map_[string, Value], ft Map_[models.FieldName, models.DataType]) bool {
	if n <= 0 {
		return false
	}
	return oddTrue_(ps, n-1, row, ft) != (predRes_(ps[n-1], row, ft) == tt_)
}

// first operand from i on that is not unknown
func firstKnown_(ps []models.Predicate, i int, row Map_[string, Value], ft Map_[models.FieldName, models.DataType]) predicateResult {
	if i >= len(ps) {
		return uu_
	}
	if predRes_(ps[i], row, ft) != uu_ {
		return predRes_(ps[i], row, ft)
	}
	return firstKnown_(ps, i+1, row, ft)
}

func compoundRes_(p *models.CompoundPredicate, row Map_[string, Value], ft Map_[models.FieldName, models.DataType]) predicateResult {
	ps := p.Predicates
	n := len(ps)
	if p.BooleanOperator == "and" {
		return cond_(some_(ps, n, ff_, row, ft), ff_, cond_(some_(ps, n, uu_, row, ft), uu_, tt_))
	}
	if p.BooleanOperator == "or" {
		return cond_(some_(ps, n, tt_, row, ft), tt_, cond_(some_(ps, n, uu_, row, ft), uu_, ff_))
	}
	if p.BooleanOperator == "xor" {
		return cond_(some_(ps, n, uu_, row, ft), uu_, boolRes_(oddTrue_(ps, n, row, ft)))
	}
	if p.BooleanOperator == "surrogate" {
		return firstKnown_(ps, 0, row, ft)
	}
	return ff_
}

// q is one of the comparisons below pi
func inPred_(pi models.Predicate, q *models.SimplePredicate) bool {
	if is_[*models.SimplePredicate](pi) {
		return as_[*models.SimplePredicate](pi) == q
	}
	if is_[*models.CompoundPredicate](pi) {
		return inComp_(as_[*models.CompoundPredicate](pi), q)
	}
	return false
}

func inComp_(p *models.CompoundPredicate, q *models.SimplePredicate) bool {
	return exists_(func(i int) bool { return 0 <= i && i < len(p.Predicates) && inPred_(p.Predicates[i], q) })
}

// q is one of the set predicates below pi
func inPredS_(pi models.Predicate, q *models.SimpleSetPredicate) bool {
	if is_[*models.SimpleSetPredicate](pi) {
		return as_[*models.SimpleSetPredicate](pi) == q
	}
	if is_[*models.CompoundPredicate](pi) {
		return inCompS_(as_[*models.CompoundPredicate](pi), q)
	}
	return false
}

func inCompS_(p *models.CompoundPredicate, q *models.SimpleSetPredicate) bool {
	return exists_(func(i int) bool { return 0 <= i && i < len(p.Predicates) && inPredS_(p.Predicates[i], q) })
}

// every comparison below is typed
func wfPred_(pi models.Predicate, ft Map_[models.FieldName, models.DataType]) bool {
	return forall_(func(q *models.SimplePredicate) bool { return implies_(inPred_(pi, q), typed_(q, ft)) }) &&
		forall_(func(q *models.SimpleSetPredicate) bool { return implies_(inPredS_(pi, q), q != nil) })
}

func wfComp_(p *models.CompoundPredicate, ft Map_[models.FieldName, models.DataType]) bool {
	return p != nil && forall_(func(q *models.SimplePredicate) bool { return implies_(inComp_(p, q), typed_(q, ft)) }) &&
		forall_(func(q *models.SimpleSetPredicate) bool { return implies_(inCompS_(p, q), q != nil) })
}

// ---- literals (C10)

func litOk_(dt models.DataType, s string) bool {
	if dt == "boolean" {
		_, err := strconv.ParseBool(s)
		return err == nil
	}
	if dt == "double" || dt == "float" {
		_, err := strconv.ParseFloat(s, 64)
		return err == nil
	}
	if dt == "integer" {
		_, err := strconv.ParseInt(s, 10, 64)
		return err == nil
	}
	return dt == "string"
}

func lit_(dt models.DataType, s string) any {
	if dt == "boolean" {
		b, _ := strconv.ParseBool(s)
		return b
	}
	if dt == "double" || dt == "float" {
		x, _ := strconv.ParseFloat(s, 64)
		return x
	}
	if dt == "integer" {
		i, _ := strconv.ParseInt(s, 10, 64)
		return i
	}
	return s
}

func binary_(q *models.SimplePredicate) bool {
	return q.Operator != "isMissing" && q.Operator != "isNotMissing"
}

// a comparison the model cannot be built with
func badLit_(q *models.SimplePredicate, ft Map_[models.FieldName, models.DataType]) bool {
	return !has_(ft, q.Field) || binary_(q) && !litOk_(get_(ft, q.Field), q.Value)
}

func compiled_(q *models.SimplePredicate, ft Map_[models.FieldName, models.DataType]) bool {
	return !badLit_(q, ft) && implies_(binary_(q), same_(q.RawPredicateValue, lit_(get_(ft, q.Field), q.Value)))
}

// the words of an array's text
func words_(s string) []string { return fn_[[]string]("array.tokens", s) }
func wordsErr_(s string) error  { return fn_[error]("array.splitErr", s) }

// some word cannot be read as the data type
//
//gover:uf
func badWords_(dt models.DataType, text string) bool {
	return exists_(func(i int) bool { return 0 <= i && i < len(words_(text)) && !litOk_(dt, words_(text)[i]) })
}

// a set the model cannot be built with
func badSet_(q *models.SimpleSetPredicate, ft Map_[models.FieldName, models.DataType]) bool {
	return !has_(ft, q.Field) || wordsErr_(q.Array.RawValue) != nil || badWords_(get_(ft, q.Field), q.Array.RawValue)
}

// elems are the first n words of the text, read as the data type
//
//gover:uf
func elements_(elems []any, dt models.DataType, text string, n int) bool {
	return len(elems) == n && forall_(func(i int) bool {
		return implies_(0 <= i && i < n, same_(elems[i], lit_(dt, words_(text)[i])))
	})
}

func compiledS_(q *models.SimpleSetPredicate, ft Map_[models.FieldName, models.DataType]) bool {
	return !badSet_(q, ft) && elements_(q.RawArrayValues, get_(ft, q.Field), q.Array.RawValue, len(words_(q.Array.RawValue)))
}

func contract_getRawValue(dt models.DataType, val string, r interface{}, err error) {
	ensures_("C06,C10.accepts", func() bool { return (err == nil) == litOk_(dt, val) })
	ensures_("C06,C10.converts", func() bool { return implies_(err == nil, same_(r, lit_(dt, val))) })
}

func contract_compilePredicate(m *TreeModel, pi models.Predicate, err error) {
	requires_("model", func() bool { return m != nil })
	modifiesAll_(&(*models.SimplePredicate)(nil).RawPredicateValue)
	modifiesAll_(&(*models.SimpleSetPredicate)(nil).RawArrayValues)
	candidate_(func(K int) bool {
		return forall_(func(q *models.SimplePredicate) bool {
			return forall_(func(i int) bool {
				return implies_(0 <= i && i < K && inPred_(as_[*models.CompoundPredicate](pi).Predicates[i], q), compiled_(q, contents_(m.fieldTypes)))
			})
		})
	})
	candidate_(func(K int) bool {
		return forall_(func(q *models.SimpleSetPredicate) bool {
			return forall_(func(i int) bool {
				return implies_(0 <= i && i < K && inPredS_(as_[*models.CompoundPredicate](pi).Predicates[i], q), compiledS_(q, contents_(m.fieldTypes)))
			})
		})
	})
	candidate_(func() bool {
		return forall_(func(q *models.SimplePredicate) bool {
			return same_(q.RawPredicateValue, old_(func() any { return q.RawPredicateValue })) ||
				inPred_(pi, q) && same_(q.RawPredicateValue, lit_(get_(contents_(m.fieldTypes), q.Field), q.Value))
		})
	})
	candidate_(func() bool {
		return forall_(func(q *models.SimpleSetPredicate) bool {
			return same_(q.RawArrayValues, old_(func() []any { return q.RawArrayValues })) ||
				inPredS_(pi, q) && compiledS_(q, contents_(m.fieldTypes))
		})
	})
	candidate_(func(K int, elems []any) bool {
		return elements_(elems, get_(contents_(m.fieldTypes), as_[*models.SimpleSetPredicate](pi).Field), as_[*models.SimpleSetPredicate](pi).Array.RawValue, K)
	})
	candidate_(func(K int, elems []any) bool {
		return forall_(func(i int) bool {
			return implies_(0 <= i && i < K, same_(elems[i], lit_(get_(contents_(m.fieldTypes), as_[*models.SimpleSetPredicate](pi).Field), words_(as_[*models.SimpleSetPredicate](pi).Array.RawValue)[i])))
		})
	})
	candidate_(func(K int) bool {
		return forall_(func(i int) bool {
			return implies_(0 <= i && i < K, litOk_(get_(contents_(m.fieldTypes), as_[*models.SimpleSetPredicate](pi).Field), words_(as_[*models.SimpleSetPredicate](pi).Array.RawValue)[i]))
		})
	})
	ensures_("C10.literals typed", func() bool {
		return implies_(err == nil, forall_(func(q *models.SimplePredicate) bool {
			return implies_(inPred_(pi, q), compiled_(q, contents_(m.fieldTypes)))
		}))
	})
	ensures_("C10,C26.sets typed", func() bool {
		return implies_(err == nil, forall_(func(q *models.SimpleSetPredicate) bool {
			return implies_(inPredS_(pi, q), compiledS_(q, contents_(m.fieldTypes)))
		}))
	})
	ensures_("C10,C26.rejected only if bad", func() bool {
		return implies_(err != nil, exists_(func(q *models.SimplePredicate) bool {
			return inPred_(pi, q) && badLit_(q, contents_(m.fieldTypes))
		}) || exists_(func(q *models.SimpleSetPredicate) bool {
			return inPredS_(pi, q) && badSet_(q, contents_(m.fieldTypes))
		}))
	})
	ensures_("C10,C23.only literals of this predicate change", func() bool {
		return forall_(func(q *models.SimplePredicate) bool {
			return same_(q.RawPredicateValue, old_(func() any { return q.RawPredicateValue })) ||
				inPred_(pi, q) && same_(q.RawPredicateValue, lit_(get_(contents_(m.fieldTypes), q.Field), q.Value))
		})
	})
	ensures_("C23,C26.only sets of this predicate change", func() bool {
		return forall_(func(q *models.SimpleSetPredicate) bool {
			return same_(q.RawArrayValues, old_(func() []any { return q.RawArrayValues })) ||
				inPredS_(pi, q) && compiledS_(q, contents_(m.fieldTypes))
		})
	})
}

func contract_equalsRaw(val Value, raw interface{}, r bool) {
	ensures_("C08.equality", func() bool { return r == equals_(val.val, raw) })
}

func contract_evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldTypes map[models.FieldName]models.DataType, r predicateResult) {
	requires_("typed literal", func() bool { return typed_(p, contents_(fieldTypes)) })
	ensures_("C08.three-valued", func() bool { return r == simpleRes_(p, contents_(input), contents_(fieldTypes)) })
}

func contract_evaluateSimpleSetPredicate(p *models.SimpleSetPredicate, input DataRow, fieldTypes map[models.FieldName]models.DataType, r predicateResult) {
	requires_("set predicate", func() bool { return p != nil })
	candidate_(func(K int, b bool) bool {
		return b == among_(get_(contents_(input), string(p.Field)).val, p.RawArrayValues, K)
	})
	candidate_(func(K int) bool {
		return !among_(get_(contents_(input), string(p.Field)).val, p.RawArrayValues, K)
	})
	candidate_(func(K, n int) bool {
		return n >= 0 && (n > 0) == among_(get_(contents_(input), string(p.Field)).val, p.RawArrayValues, K)
	})
	ensures_("C09,C26.membership", func() bool { return r == setRes_(p, contents_(input), contents_(fieldTypes)) })
}

func contract_evaluateCompoundPredicate(p *models.CompoundPredicate, input DataRow, fieldTypes map[models.FieldName]models.DataType, r predicateResult) {
	requires_("typed literals", func() bool { return wfComp_(p, contents_(fieldTypes)) })
	// the answers gathered before they are counted
	candidate_(func(K int, rs []predicateResult) bool { return len(rs) == K })
	candidate_(func(K int, rs []predicateResult) bool {
		return forall_(func(i int) bool { return implies_(0 <= i && i < len(rs), 0 <= rs[i] && rs[i] <= 2) })
	})
	candidate_(func(K int, rs []predicateResult) bool {
		return forall_(func(i int) bool {
			return implies_(0 <= i && i < len(rs), rs[i] == predRes_(p.Predicates[i], contents_(input), contents_(fieldTypes)))
		})
	})
	candidate_(func(K, n int) bool {
		return n >= 0 && (n > 0) == some_(p.Predicates, K, tt_, contents_(input), contents_(fieldTypes))
	})
	candidate_(func(K, n int) bool {
		return n >= 0 && (n > 0) == some_(p.Predicates, K, uu_, contents_(input), contents_(fieldTypes))
	})
	candidate_(func(K, n int) bool {
		return n >= 0 && (n > 0) == some_(p.Predicates, K, ff_, contents_(input), contents_(fieldTypes))
	})
	candidate_(func(K, n, m int) bool {
		return n+m <= K && (n+m < K) == some_(p.Predicates, K, ff_, contents_(input), contents_(fieldTypes))
	})
	candidate_(func(K, n int) bool {
		return (n%2 == 1) == oddTrue_(p.Predicates, K, contents_(input), contents_(fieldTypes))
	})
	candidate_(func(K int, b bool) bool {
		return b == some_(p.Predicates, K, tt_, contents_(input), contents_(fieldTypes))
	})
	candidate_(func(K int, b bool) bool {
		return b == some_(p.Predicates, K, uu_, contents_(input), contents_(fieldTypes))
	})
	candidate_(func(K int, b bool) bool {
		return b == some_(p.Predicates, K, ff_, contents_(input), contents_(fieldTypes))
	})
	candidate_(func(K int, b bool) bool {
		return b == oddTrue_(p.Predicates, K, contents_(input), contents_(fieldTypes))
	})
	candidate_(func(K int) bool {
		return !some_(p.Predicates, K, tt_, contents_(input), contents_(fieldTypes))
	})
	candidate_(func(K int) bool {
		return !some_(p.Predicates, K, uu_, contents_(input), contents_(fieldTypes))
	})
	candidate_(func(K int) bool {
		return !some_(p.Predicates, K, ff_, contents_(input), contents_(fieldTypes))
	})
	candidate_(func(K int) bool {
		return implies_(p.BooleanOperator == "surrogate", firstKnown_(p.Predicates, 0, contents_(input), contents_(fieldTypes)) == firstKnown_(p.Predicates, K, contents_(input), contents_(fieldTypes)))
	})
	ensures_("C09.three-valued", func() bool {
		return r == compoundRes_(p, contents_(input), contents_(fieldTypes))
	})
	ensures_("C09.one of three", func() bool { return 0 <= r && r <= 2 })
}

var _ = strconv.Itoa

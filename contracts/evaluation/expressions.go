package evaluation

import (
	"strconv"

	"github.com/flukeish/pmml/models"
)

// ---- expressions (C05, C06)

// what the first k operands add up to
func total_(es []models.Expression, k int, row Map_[string, Value]) float64 {
	if k <= 0 {
		return 0
	}
	return total_(es, k-1, row) + floatOf_(exprVal_(es[k-1], row).val)
}

func someBad_(es []models.Expression, k int, row Map_[string, Value]) bool {
	return exists_(func(i int) bool { return 0 <= i && i < k && exprBad_(es[i], row) })
}

func arith_(op string) bool { return op == "*" || op == "+" || op == "-" || op == "/" }

func true_(v any) bool { return is_[bool](v) && as_[bool](v) }

func applyBad_(a *models.Apply, row Map_[string, Value]) bool {
	es := a.Expressions
	if a.Function == "sum" {
		return someBad_(es, len(es), row)
	}
	if arith_(a.Function) {
		return len(es) != 2 || exprBad_(es[0], row) || exprBad_(es[1], row)
	}
	if a.Function == "isMissing" || a.Function == "isNotMissing" {
		return len(es) != 1 || exprBad_(es[0], row)
	}
	if a.Function == "if" {
		return len(es) != 3 || exprBad_(es[0], row) || cond_(true_(exprVal_(es[0], row).val), exprBad_(es[1], row), exprBad_(es[2], row))
	}
	return true
}

func applyVal_(a *models.Apply, row Map_[string, Value]) any {
	es := a.Expressions
	if a.Function == "sum" {
		return total_(es, len(es), row)
	}
	if a.Function == "*" {
		return floatOf_(exprVal_(es[0], row).val) * floatOf_(exprVal_(es[1], row).val)
	}
	if a.Function == "+" {
		return floatOf_(exprVal_(es[0], row).val) + floatOf_(exprVal_(es[1], row).val)
	}
	if a.Function == "-" {
		return floatOf_(exprVal_(es[0], row).val) - floatOf_(exprVal_(es[1], row).val)
	}
	if a.Function == "/" {
		return floatOf_(exprVal_(es[0], row).val) / floatOf_(exprVal_(es[1], row).val)
	}
	if a.Function == "isMissing" {
		return exprVal_(es[0], row).val == nil
	}
	if a.Function == "isNotMissing" {
		return exprVal_(es[0], row).val != nil
	}
	return cond_(true_(exprVal_(es[0], row).val), exprVal_(es[1], row).val, exprVal_(es[2], row).val)
}

// the columns the first k pairs bind
func columns_(ps []models.FieldColumnPair, k int, row Map_[string, Value]) Map_[string, Value] {
	if k <= 0 {
		return empty_[string, Value]()
	}
	if has_(row, ps[k-1].Field) {
		return put_(columns_(ps, k-1, row), ps[k-1].Column, get_(row, ps[k-1].Field))
	}
	return columns_(ps, k-1, row)
}

// the first k rows of a table applied to what is known so far
func lookupRows_(key string, cols Map_[string, Value], rows []models.Row, k int) Map_[string, Value] {
	if k <= 0 {
		return cols
	}
	if get_(contents_(rows[k-1]), "input") == any(key) {
		return put_(lookupRows_(key, cols, rows, k-1), "data:output", Value{val: get_(contents_(rows[k-1]), "output")})
	}
	return lookupRows_(key, cols, rows, k-1)
}

func lookup_(key string, cols Map_[string, Value], ts []models.InlineTable, k int) Map_[string, Value] {
	if k <= 0 {
		return cols
	}
	return lookupRows_(key, lookup_(key, cols, ts, k-1), ts[k-1].Rows, len(ts[k-1].Rows))
}

func bound_(e *models.MapValues, row Map_[string, Value]) Map_[string, Value] {
	return columns_(e.FieldColumnPairs, len(e.FieldColumnPairs), row)
}

func key_(e *models.MapValues, row Map_[string, Value]) string {
	return textOf_(get_(bound_(e, row), "data:input").val)
}

func mapped_(e *models.MapValues, row Map_[string, Value]) Map_[string, Value] {
	return lookup_(key_(e, row), bound_(e, row), e.InlineTables, len(e.InlineTables))
}

func mapBad_(e *models.MapValues, row Map_[string, Value]) bool {
	if has_(mapped_(e, row), "data:output") {
		return false
	}
	if e.DefaultValue != nil {
		return !litOk_(e.DataType, *e.DefaultValue)
	}
	return !has_(mapped_(e, row), "data:input")
}

func mapVal_(e *models.MapValues, row Map_[string, Value]) Value {
	if has_(mapped_(e, row), "data:output") {
		return get_(mapped_(e, row), "data:output")
	}
	if e.DefaultValue != nil {
		return Value{val: lit_(e.DataType, *e.DefaultValue)}
	}
	return get_(mapped_(e, row), "data:input")
}

func constBad_(c *models.Constant) bool {
	if c.DataType == "double" {
		_, err := strconv.ParseFloat(c.Value, 64)
		return err != nil
	}
	return true
}

func constVal_(c *models.Constant) any {
	x, _ := strconv.ParseFloat(c.Value, 64)
	return x
}

// the expression fails on the row
//
//gover:uf
func exprBad_(e models.Expression, row Map_[string, Value]) bool {
	if is_[*models.FieldRef](e) {
		return false
	}
	if is_[*models.Constant](e) {
		return constBad_(as_[*models.Constant](e))
	}
	if is_[*models.Apply](e) {
		return applyBad_(as_[*models.Apply](e), row)
	}
	if is_[*models.MapValues](e) {
		return mapBad_(as_[*models.MapValues](e), row)
	}
	return true
}

// its value if it does not fail
//
//gover:uf
func exprVal_(e models.Expression, row Map_[string, Value]) Value {
	if is_[*models.FieldRef](e) {
		return get_(row, string(as_[*models.FieldRef](e).Field))
	}
	if is_[*models.Constant](e) {
		return Value{val: constVal_(as_[*models.Constant](e))}
	}
	if is_[*models.Apply](e) {
		return Value{val: applyVal_(as_[*models.Apply](e), row)}
	}
	return mapVal_(as_[*models.MapValues](e), row)
}

func contract_handleConstantExpression(constExpr *models.Constant, v Value, err error) {
	requires_("expression", func() bool { return constExpr != nil })
	ensures_("C05.constant accepted", func() bool { return (err == nil) == !constBad_(constExpr) })
	ensures_("C05.constant", func() bool { return implies_(err == nil, same_(v.val, constVal_(constExpr))) })
}

func contract_handleApplyExpression(apply *models.Apply, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema, v Value, err error) {
	requires_("expression", func() bool { return apply != nil })
	candidate_(func(K int, s float64) bool { return same_(s, total_(apply.Expressions, K, contents_(in))) })
	candidate_(func(K int) bool { return !someBad_(apply.Expressions, K, contents_(in)) })
	// operands gathered before they are combined
	candidate_(func(K int, xs []float64) bool {
		return len(xs) >= K && len(xs) <= len(apply.Expressions) && forall_(func(j int) bool {
			return implies_(0 <= j && j < K, same_(xs[j], floatOf_(exprVal_(apply.Expressions[j], contents_(in)).val)))
		})
	})
	candidate_(func(K int, xs []float64) bool { return len(xs) == K })
	candidate_(func(K int, vs []Value) bool {
		return len(vs) >= K && len(vs) <= len(apply.Expressions) && forall_(func(j int) bool {
			return implies_(0 <= j && j < K, same_(vs[j], exprVal_(apply.Expressions[j], contents_(in))))
		})
	})
	candidate_(func(K int, vs []Value) bool { return len(vs) == K })
	ensures_("C05.apply accepted", func() bool { return (err == nil) == !applyBad_(apply, contents_(in)) })
	ensures_("C05.apply", func() bool { return implies_(err == nil, same_(v.val, applyVal_(apply, contents_(in)))) })
}

func contract_isMissing(apply *models.Apply, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema, r bool, err error) {
	requires_("expression", func() bool { return apply != nil })
	ensures_("C05.missing test accepted", func() bool {
		return (err == nil) == (len(apply.Expressions) == 1 && !exprBad_(apply.Expressions[0], contents_(in)))
	})
	ensures_("C05.missing test", func() bool {
		return implies_(err == nil, r == (exprVal_(apply.Expressions[0], contents_(in)).val == nil))
	})
}

func contract_handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema, v Value, err error) {
	requires_("expression", func() bool { return expr != nil })
	candidate_(func(K int, Lcols map[string]Value) bool {
		return same_(contents_(Lcols), columns_(expr.FieldColumnPairs, K, contents_(in)))
	})
	candidate_(func(K int, Lcols map[string]Value) bool {
		return same_(contents_(Lcols), lookup_(key_(expr, contents_(in)), bound_(expr, contents_(in)), expr.InlineTables, K))
	})
	candidate_(func(K, Li int, Lcols map[string]Value) bool {
		return implies_(0 <= Li && Li < len(expr.InlineTables), same_(contents_(Lcols),
			lookupRows_(key_(expr, contents_(in)), lookup_(key_(expr, contents_(in)), bound_(expr, contents_(in)), expr.InlineTables, Li), expr.InlineTables[Li].Rows, K)))
	})
	candidate_(func(K int, Lcols map[string]Value) bool {
		return has_(contents_(Lcols), "data:input") == has_(bound_(expr, contents_(in)), "data:input") &&
			same_(get_(contents_(Lcols), "data:input"), get_(bound_(expr, contents_(in)), "data:input"))
	})
	// the answer kept apart from the columns
	candidate_(func(K int, v Value, found bool) bool {
		cols := lookup_(key_(expr, contents_(in)), bound_(expr, contents_(in)), expr.InlineTables, K)
		return found == has_(cols, "data:output") && implies_(found, same_(v, get_(cols, "data:output")))
	})
	candidate_(func(K, Li int, v Value, found bool) bool {
		cols := lookupRows_(key_(expr, contents_(in)), lookup_(key_(expr, contents_(in)), bound_(expr, contents_(in)), expr.InlineTables, Li), expr.InlineTables[Li].Rows, K)
		return implies_(0 <= Li && Li < len(expr.InlineTables), found == has_(cols, "data:output") && implies_(found, same_(v, get_(cols, "data:output"))))
	})
	candidate_(func(K int) bool {
		cols := lookup_(key_(expr, contents_(in)), bound_(expr, contents_(in)), expr.InlineTables, K)
		return has_(cols, "data:input") == has_(bound_(expr, contents_(in)), "data:input") &&
			same_(get_(cols, "data:input"), get_(bound_(expr, contents_(in)), "data:input"))
	})
	candidate_(func(K, Li int) bool {
		cols := lookupRows_(key_(expr, contents_(in)), lookup_(key_(expr, contents_(in)), bound_(expr, contents_(in)), expr.InlineTables, Li), expr.InlineTables[Li].Rows, K)
		return implies_(0 <= Li && Li < len(expr.InlineTables), has_(cols, "data:input") == has_(bound_(expr, contents_(in)), "data:input") &&
			same_(get_(cols, "data:input"), get_(bound_(expr, contents_(in)), "data:input")))
	})
	ensures_("C06.accepted", func() bool { return (err == nil) == !mapBad_(expr, contents_(in)) })
	ensures_("C06.last matching row", func() bool { return implies_(err == nil, same_(v, mapVal_(expr, contents_(in)))) })
}

func contract_HandleExpression(expr models.Expression, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema, v Value, err error) {
	ensures_("C05,C06.accepted", func() bool { return (err == nil) == !exprBad_(expr, contents_(in)) })
	ensures_("C05,C06.value", func() bool { return implies_(err == nil, same_(v, exprVal_(expr, contents_(in)))) })
}

// ---- derived fields (C07)

// the row after the first k derived fields
func derive_(ds []models.DerivedField, k int, row Map_[string, Value]) Map_[string, Value] {
	if k <= 0 {
		return row
	}
	v := exprVal_(ds[k-1].Expression, derive_(ds, k-1, row))
	return put_(derive_(ds, k-1, row), ds[k-1].Name,
		cond_(ds[k-1].OpType == "continuous" && v.val != nil, Value{val: floatOf_(v.val)}, v))
}

// one of the first k derived fields fails
func deriveBad_(ds []models.DerivedField, k int, row Map_[string, Value]) bool {
	return exists_(func(i int) bool { return 0 <= i && i < k && exprBad_(ds[i].Expression, derive_(ds, i, row)) })
}

func contract_HandleInput(in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema, out DataRow, err error) {
	requires_("row", func() bool { return in != nil && lt != nil })
	modifies_(in)
	candidate_(func(K int) bool {
		return same_(contents_(in), derive_(lt.DerivedFields, K, old_(func() Map_[string, Value] { return contents_(in) })))
	})
	candidate_(func(K int) bool {
		return !deriveBad_(lt.DerivedFields, K, old_(func() Map_[string, Value] { return contents_(in) }))
	})
	ensures_("C07.first failure", func() bool {
		return (err == nil) == !deriveBad_(lt.DerivedFields, len(lt.DerivedFields), old_(func() Map_[string, Value] { return contents_(in) }))
	})
	ensures_("C07.in order, nothing else", func() bool {
		return implies_(err == nil, same_(contents_(in), derive_(lt.DerivedFields, len(lt.DerivedFields), old_(func() Map_[string, Value] { return contents_(in) }))))
	})
	ensures_("C07,C23.same row", func() bool { return implies_(err == nil, same_(out, in)) })
}

func contract_validate(in DataRow, ms *models.MiningSchema, err error) {
	ensures_("C07.accepts", func() bool { return err == nil })
}

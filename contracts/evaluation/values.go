package evaluation

import (
	"fmt"
	"strconv"
)

// ---- values (C04)

func intOf_(v any) int64 {
	if is_[int](v) {
		return int64(as_[int](v))
	}
	if is_[int64](v) {
		return as_[int64](v)
	}
	if is_[int32](v) {
		return int64(as_[int32](v))
	}
	if is_[int16](v) {
		return int64(as_[int16](v))
	}
	if is_[int8](v) {
		return int64(as_[int8](v))
	}
	if is_[uint](v) {
		return int64(as_[uint](v))
	}
	if is_[uint8](v) {
		return int64(as_[uint8](v))
	}
	if is_[uint16](v) {
		return int64(as_[uint16](v))
	}
	if is_[uint32](v) {
		return int64(as_[uint32](v))
	}
	if is_[uint64](v) {
		return int64(as_[uint64](v))
	}
	if is_[float64](v) {
		return int64(as_[float64](v))
	}
	if is_[float32](v) {
		return int64(as_[float32](v))
	}
	if is_[string](v) {
		i, err := strconv.ParseInt(as_[string](v), 10, 64)
		if err != nil {
			return int64(floatOf_(v))
		}
		return i
	}
	return 0
}

// the float a value stands for
func floatOf_(v any) float64 {
	if is_[float64](v) {
		return as_[float64](v)
	}
	if is_[float32](v) {
		return float64(as_[float32](v))
	}
	if is_[string](v) {
		f, err := strconv.ParseFloat(as_[string](v), 64)
		if err != nil {
			return 0
		}
		return f
	}
	return float64(intOf0_(v))
}

// integers of every width; 0 for anything else
func intOf0_(v any) int64 {
	if is_[int](v) {
		return int64(as_[int](v))
	}
	if is_[int64](v) {
		return as_[int64](v)
	}
	if is_[int32](v) {
		return int64(as_[int32](v))
	}
	if is_[int16](v) {
		return int64(as_[int16](v))
	}
	if is_[int8](v) {
		return int64(as_[int8](v))
	}
	if is_[uint](v) {
		return int64(as_[uint](v))
	}
	if is_[uint8](v) {
		return int64(as_[uint8](v))
	}
	if is_[uint16](v) {
		return int64(as_[uint16](v))
	}
	if is_[uint32](v) {
		return int64(as_[uint32](v))
	}
	if is_[uint64](v) {
		return int64(as_[uint64](v))
	}
	return 0
}

func float32Of_(v any) float32 {
	if is_[float32](v) {
		return as_[float32](v)
	}
	if is_[float64](v) {
		return float32(as_[float64](v))
	}
	if is_[string](v) {
		return float32(floatOf_(v))
	}
	return float32(intOf0_(v))
}

func contract_NewValue(val interface{}, r Value) {
	ensures_("C04.wraps", func() bool { return same_(r.val, val) })
}

func contract_Value_Raw(v Value, r interface{}) {
	ensures_("C04.unwraps", func() bool { return same_(r, v.val) })
}

func contract_Value_Float64(v Value, r float64) {
	decreases_(func() int { return cond_(is_[string](v.val), 0, 1) })
	ensures_("C04.float64", func() bool { return same_(r, floatOf_(v.val)) })
}

func contract_Value_Float32(v Value, r float32) {
	ensures_("C04.float32", func() bool { return same_(r, float32Of_(v.val)) })
}

func contract_Value_Int64(v Value, r int64) {
	decreases_(func() int { return cond_(is_[string](v.val), 1, 0) })
	ensures_("C04.int64", func() bool { return same_(r, intOf_(v.val)) })
}

func contract_Value_Bool(v Value, r bool) {
	ensures_("C04.bool", func() bool { return r == (is_[bool](v.val) && as_[bool](v.val)) })
}

type texter_ interface{ String() string }

// the text a value stands for
func textOf_(v any) string {
	if is_[string](v) {
		return as_[string](v)
	}
	if is_[texter_](v) {
		return as_[texter_](v).String()
	}
	return fmt.Sprintf("%v", v)
}

func contract_Value_String(v Value, r string) {
	ensures_("C04.text", func() bool { return r == textOf_(v.val) })
}

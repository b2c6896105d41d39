package models

import "strconv"

// C03: typed arrays. tokens_ and splitErr_ name what go-shellwords makes of a
// text; the conversions of single tokens are those of strconv.

func tokens_(s string) []string { return fn_[[]string]("array.tokens", s) }
func splitErr_(s string) error  { return fn_[error]("array.splitErr", s) }

//gover:inline
func isInt_(s string) bool {
	_, err := strconv.ParseInt(s, 10, 64)
	return err == nil
}

//gover:inline
func int_(s string) int64 {
	v, _ := strconv.ParseInt(s, 10, 64)
	return v
}

//gover:inline
func isReal_(s string) bool {
	_, err := strconv.ParseFloat(s, 64)
	return err == nil
}

//gover:inline
func real_(s string) float64 {
	v, _ := strconv.ParseFloat(s, 64)
	return v
}

//gover:inline
func stringsOf_(text string, r []string) bool {
	return splitErr_(text) == nil && same_(seq_(len(r), func(i int) string { return r[i] }), tokens_(text))
}

//gover:inline
func intsOf_(text string, r []int64) bool {
	return splitErr_(text) == nil && len(r) == len(tokens_(text)) && forall_(func(i int) bool {
		return implies_(0 <= i && i < len(r), isInt_(tokens_(text)[i]) && r[i] == int_(tokens_(text)[i]))
	})
}

//gover:inline
func realsOf_(text string, r []float64) bool {
	return splitErr_(text) == nil && len(r) == len(tokens_(text)) && forall_(func(i int) bool {
		return implies_(0 <= i && i < len(r), isReal_(tokens_(text)[i]) && same_(r[i], real_(tokens_(text)[i])))
	})
}

func contract_ArrayType_Strings(at *ArrayType, r []string, err error) {
	requires_("array", func() bool { return at != nil })
	requires_("the cache holds the strings of the text", func() bool { return at.s == nil || stringsOf_(at.RawValue, at.s) })
	modifies_(&at.s)
	ensures_("C03.only a string array gives strings", func() bool {
		return implies_(at.Type != ArrayTypeTypeString, err != nil)
	})
	ensures_("C03.a text that cannot be split is an error", func() bool {
		return implies_(splitErr_(at.RawValue) != nil, err != nil)
	})
	ensures_("C03.no values with an error", func() bool { return implies_(err != nil, r == nil) })
	ensures_("C03.every token in order", func() bool {
		return implies_(err == nil, r != nil && stringsOf_(at.RawValue, r))
	})
	ensures_("C03.a text that can be split is read", func() bool {
		return implies_(at.Type == ArrayTypeTypeString && splitErr_(at.RawValue) == nil, err == nil)
	})
	ensures_("C03.the cache holds the strings of the text", func() bool { return at.s == nil || stringsOf_(at.RawValue, at.s) })
}

func contract_ArrayType_Int64s(at *ArrayType, r []int64, err error) {
	requires_("array", func() bool { return at != nil })
	requires_("the cache holds the integers of the text", func() bool { return at.i == nil || intsOf_(at.RawValue, at.i) })
	modifies_(&at.i)
	candidate_(func(K int, result []int64, Ltokens []string) bool {
		return len(result) == K
	})
	candidate_(func(K int, result []int64) bool { return result != nil })
	candidate_(func(K int, result []int64, Ltokens []string) bool {
		return forall_(func(j int) bool {
			return implies_(0 <= j && j < K, isInt_(Ltokens[j]) && result[j] == int_(Ltokens[j]))
		})
	})
	ensures_("C03.only an int array gives integers", func() bool {
		return implies_(at.Type != ArrayTypeTypeInt, err != nil)
	})
	ensures_("C03.a text that cannot be split is an error", func() bool {
		return implies_(splitErr_(at.RawValue) != nil, err != nil)
	})
	ensures_("C03.a token that is not an integer is an error", func() bool {
		return implies_(exists_(func(i int) bool {
			return 0 <= i && i < len(tokens_(at.RawValue)) && !isInt_(tokens_(at.RawValue)[i])
		}), err != nil)
	})
	ensures_("C03.no values with an error", func() bool { return implies_(err != nil, r == nil) })
	ensures_("C03.every token in order", func() bool {
		return implies_(err == nil, r != nil && intsOf_(at.RawValue, r))
	})
	ensures_("C03.a text of integers is read", func() bool {
		return implies_(at.Type == ArrayTypeTypeInt && splitErr_(at.RawValue) == nil && forall_(func(i int) bool {
			return implies_(0 <= i && i < len(tokens_(at.RawValue)), isInt_(tokens_(at.RawValue)[i]))
		}), err == nil)
	})
	ensures_("C03.the cache holds the integers of the text", func() bool { return at.i == nil || intsOf_(at.RawValue, at.i) })
}

func contract_ArrayType_Float64s(at *ArrayType, r []float64, err error) {
	requires_("array", func() bool { return at != nil })
	requires_("the cache holds the reals of the text", func() bool { return at.f == nil || realsOf_(at.RawValue, at.f) })
	modifies_(&at.f)
	candidate_(func(K int, result []float64, Ltokens []string) bool {
		return len(result) == K
	})
	candidate_(func(K int, result []float64) bool { return result != nil })
	candidate_(func(K int, result []float64, Ltokens []string) bool {
		return forall_(func(j int) bool {
			return implies_(0 <= j && j < K, isReal_(Ltokens[j]) && same_(result[j], real_(Ltokens[j])))
		})
	})
	ensures_("C03.only a real array gives reals", func() bool {
		return implies_(at.Type != ArrayTypeTypeReal, err != nil)
	})
	ensures_("C03.a text that cannot be split is an error", func() bool {
		return implies_(splitErr_(at.RawValue) != nil, err != nil)
	})
	ensures_("C03.a token that is not a number is an error", func() bool {
		return implies_(exists_(func(i int) bool {
			return 0 <= i && i < len(tokens_(at.RawValue)) && !isReal_(tokens_(at.RawValue)[i])
		}), err != nil)
	})
	ensures_("C03.no values with an error", func() bool { return implies_(err != nil, r == nil) })
	ensures_("C03.every token in order", func() bool {
		return implies_(err == nil, r != nil && realsOf_(at.RawValue, r))
	})
	ensures_("C03.a text of numbers is read", func() bool {
		return implies_(at.Type == ArrayTypeTypeReal && splitErr_(at.RawValue) == nil && forall_(func(i int) bool {
			return implies_(0 <= i && i < len(tokens_(at.RawValue)), isReal_(tokens_(at.RawValue)[i]))
		}), err == nil)
	})
	ensures_("C03.the cache holds the reals of the text", func() bool { return at.f == nil || realsOf_(at.RawValue, at.f) })
}

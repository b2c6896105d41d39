package models

import (
	"encoding/xml"
)

// C02: the hand-written decoders.
//
// A decoder d stands in front of the tokens token(d,p), token(d,p+1) ...;
// reading token p fails if tokErr, decoding (skipping) the element that starts
// at p fails if decErr (skipErr), and it ends in front of after(d,p). walk_ is
// where a decoder stands that has stepped over k children, texts and comments.

func tok_(d *xml.Decoder, p int) any       { return fn_[any]("xml.token", d, p) }
func tokErr_(d *xml.Decoder, p int) error  { return fn_[error]("xml.tokerr", d, p) }
func decErr_(d *xml.Decoder, p int) error  { return fn_[error]("xml.decerr", d, p) }
func skipErr_(d *xml.Decoder, p int) error { return fn_[error]("xml.skiperr", d, p) }
func after_(d *xml.Decoder, p int) int     { return fn_[int]("xml.after", d, p) }

//gover:inline
func isStart_(d *xml.Decoder, p int) bool { return is_[xml.StartElement](tok_(d, p)) }

//gover:inline
func isEnd_(d *xml.Decoder, p int) bool {
	return tokErr_(d, p) == nil && is_[xml.EndElement](tok_(d, p))
}

//gover:inline
func name_(d *xml.Decoder, p int) string { return as_[xml.StartElement](tok_(d, p)).Name.Local }

// child_: a child element of the name starts at p.
//
//gover:inline
func child_(d *xml.Decoder, p int, name string) bool { return isStart_(d, p) && name_(d, p) == name }

func walk_(d *xml.Decoder, p, k int) int {
	if k <= 0 {
		return p
	}
	if isStart_(d, walk_(d, p, k-1)) {
		return after_(d, walk_(d, p, k-1))
	}
	return walk_(d, p, k-1) + 1
}

// item_: e is an object of the type named by the element at q, made from it.
//
//gover:inline
func item_(e any, d *xml.Decoder, q int) bool {
	return e != nil && src_(e) == q && typeName_(e) == name_(d, q)
}

// attr_: the value of the last attribute of that name among the first k.
func attr_(as []xml.Attr, name string, k int) string {
	if k <= 0 {
		return ""
	}
	if as[k-1].Name.Local == name {
		return as[k-1].Value
	}
	return attr_(as, name, k-1)
}

func hasAttr_(as []xml.Attr, name string, k int) bool {
	if k <= 0 {
		return false
	}
	return as[k-1].Name.Local == name || hasAttr_(as, name, k-1)
}

// nonEmptyAttr_: the last such value that is not empty, or the default.
func nonEmptyAttr_(as []xml.Attr, name, def string, k int) string {
	if k <= 0 {
		return def
	}
	if as[k-1].Name.Local == name && as[k-1].Value != "" {
		return as[k-1].Value
	}
	return nonEmptyAttr_(as, name, def, k-1)
}

func numAttr_(as []xml.Attr, name string, k int) Number {
	if k <= 0 {
		return 0
	}
	if as[k-1].Name.Local == name && as[k-1].Value != "" {
		return Number(real_(as[k-1].Value))
	}
	return numAttr_(as, name, k-1)
}

//gover:inline
func badNum_(as []xml.Attr, name string, k int) bool {
	return exists_(func(i int) bool {
		return 0 <= i && i < k && as[i].Name.Local == name && as[i].Value != "" && !isReal_(as[i].Value)
	})
}

//gover:inline
func badYesNo_(as []xml.Attr, name string, k int) bool {
	return exists_(func(i int) bool {
		return 0 <= i && i < k && as[i].Name.Local == name && as[i].Value != "yes" && as[i].Value != "no"
	})
}

// distItems_: where the children of this kind start, among the first k.
func distItems_(d *xml.Decoder, p, k int) []int {
	if k <= 0 {
		return nil
	}
	if isStart_(d, walk_(d, p, k-1)) && isNameContinuousDistributionType_(name_(d, walk_(d, p, k-1))) {
		return append(distItems_(d, p, k-1), walk_(d, p, k-1))
	}
	return distItems_(d, p, k-1)
}

// expressionItems_: where the children of this kind start, among the first k.
func expressionItems_(d *xml.Decoder, p, k int) []int {
	if k <= 0 {
		return nil
	}
	if isStart_(d, walk_(d, p, k-1)) && isNameExpression_(name_(d, walk_(d, p, k-1))) {
		return append(expressionItems_(d, p, k-1), walk_(d, p, k-1))
	}
	return expressionItems_(d, p, k-1)
}

// embeddedItems_: where the children of this kind start, among the first k.
func embeddedItems_(d *xml.Decoder, p, k int) []int {
	if k <= 0 {
		return nil
	}
	if isStart_(d, walk_(d, p, k-1)) && isNameEmbeddedModel_(name_(d, walk_(d, p, k-1))) {
		return append(embeddedItems_(d, p, k-1), walk_(d, p, k-1))
	}
	return embeddedItems_(d, p, k-1)
}

// modelItems_: where the children of this kind start, among the first k.
func modelItems_(d *xml.Decoder, p, k int) []int {
	if k <= 0 {
		return nil
	}
	if isStart_(d, walk_(d, p, k-1)) && isNameModelElement_(name_(d, walk_(d, p, k-1))) {
		return append(modelItems_(d, p, k-1), walk_(d, p, k-1))
	}
	return modelItems_(d, p, k-1)
}

// predicateItems_: where the children of this kind start, among the first k.
func predicateItems_(d *xml.Decoder, p, k int) []int {
	if k <= 0 {
		return nil
	}
	if isStart_(d, walk_(d, p, k-1)) && isNamePredicate_(name_(d, walk_(d, p, k-1))) {
		return append(predicateItems_(d, p, k-1), walk_(d, p, k-1))
	}
	return predicateItems_(d, p, k-1)
}

// tableItems_: where the children of this kind start, among the first k.
func tableItems_(d *xml.Decoder, p, k int) []int {
	if k <= 0 {
		return nil
	}
	if isStart_(d, walk_(d, p, k-1)) && isNameTable_(name_(d, walk_(d, p, k-1))) {
		return append(tableItems_(d, p, k-1), walk_(d, p, k-1))
	}
	return tableItems_(d, p, k-1)
}

//gover:inline
func alternateKnows_(n string) bool { return isNameContinuousDistributionType_(n) }

// alternateBad_: the decoder cannot go on at q.
//
//gover:inline
func alternateBad_(d *xml.Decoder, q int) bool {
	return tokErr_(d, q) != nil || isStart_(d, q) && cond_(alternateKnows_(name_(d, q)), decErr_(d, q) != nil, skipErr_(d, q) != nil)
}

//gover:inline
func alternateClean_(d *xml.Decoder, p, k int) bool {
	return 0 <= k && forall_(func(j int) bool {
		return implies_(0 <= j && j < k, !alternateBad_(d, walk_(d, p, j)) && !isEnd_(d, walk_(d, p, j)))
	})
}

//gover:inline
func alternateDone_(d *xml.Decoder, p, k int) bool {
	return alternateClean_(d, p, k) && isEnd_(d, walk_(d, p, k))
}

func contract_Alternate_UnmarshalXML(x *Alternate, decoder *xml.Decoder, start xml.StartElement, err error) {
	requires_("object and decoder", func() bool { return x != nil && decoder != nil })
	requires_("the object is empty", func() bool { return same_(*x, Alternate{}) })
	modifies_(x)
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return pos_(decoder) == walk_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return alternateClean_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		return x.Distribution == nil || isNameContinuousDistributionType_(typeName_(x.Distribution))
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return cond_(len(distItems_(decoder, p, K)) == 0, x.Distribution == nil, item_(x.Distribution, decoder, distItems_(decoder, p, K)[len(distItems_(decoder, p, K))-1]))
	})
	ensures_("C02.ends at its own end tag", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return alternateDone_(decoder, p, k) && pos_(decoder) == walk_(decoder, p, k)+1 }))
	})
	ensures_("C02.the dist child", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return alternateDone_(decoder, p, k) && cond_(len(distItems_(decoder, p, k)) == 0, x.Distribution == nil, item_(x.Distribution, decoder, distItems_(decoder, p, k)[len(distItems_(decoder, p, k))-1]))
		}))
	})
	ensures_("C02.fails only on a failing child, attribute or stream", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err != nil, exists_(func(k int) bool {
			return alternateClean_(decoder, p, k) && alternateBad_(decoder, walk_(decoder, p, k))
		}))
	})
}

// extensions_: what the Extension children among the first k contain.
func extensions_(d *xml.Decoder, p, k int) []Extension {
	if k <= 0 {
		return nil
	}
	if child_(d, walk_(d, p, k-1), "Extension") {
		return append(extensions_(d, p, k-1), fn_[Extension]("xml.decoded.models.Extension", Extension{}, d, walk_(d, p, k-1)))
	}
	return extensions_(d, p, k-1)
}

//gover:inline
func applyKnows_(n string) bool { return n == "Extension" || isNameExpression_(n) }

// applyBad_: the decoder cannot go on at q.
//
//gover:inline
func applyBad_(d *xml.Decoder, q int) bool {
	return tokErr_(d, q) != nil || isStart_(d, q) && cond_(applyKnows_(name_(d, q)), decErr_(d, q) != nil, skipErr_(d, q) != nil)
}

//gover:inline
func applyClean_(d *xml.Decoder, p, k int) bool {
	return 0 <= k && forall_(func(j int) bool {
		return implies_(0 <= j && j < k, !applyBad_(d, walk_(d, p, j)) && !isEnd_(d, walk_(d, p, j)))
	})
}

//gover:inline
func applyDone_(d *xml.Decoder, p, k int) bool {
	return applyClean_(d, p, k) && isEnd_(d, walk_(d, p, k))
}

func contract_Apply_UnmarshalXML(x *Apply, decoder *xml.Decoder, start xml.StartElement, err error) {
	requires_("object and decoder", func() bool { return x != nil && decoder != nil })
	requires_("the object is empty", func() bool { return same_(*x, Apply{}) })
	modifies_(x)
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return pos_(decoder) == walk_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return applyClean_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return same_(x.Extensions, extensions_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		return forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.Expressions), isNameExpression_(typeName_(x.Expressions[j])))
		})
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return len(x.Expressions) == len(expressionItems_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.Expressions), item_(x.Expressions[j], decoder, expressionItems_(decoder, p, K)[j]))
		})
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return len(x.Expressions) == len(expressionItems_(decoder, p, K)) && forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.Expressions), item_(x.Expressions[j], decoder, expressionItems_(decoder, p, K)[j]))
		})
	})
	candidate_(func(K int) bool { return x.DefaultValue == nil || fresh_(x.DefaultValue) })
	candidate_(func(K int) bool {
		return cond_(hasAttr_(start.Attr, "defaultValue", K), x.DefaultValue != nil && *x.DefaultValue == attr_(start.Attr, "defaultValue", K), x.DefaultValue == nil)
	})
	candidate_(func(K int) bool {
		return cond_(hasAttr_(start.Attr, "defaultValue", len(start.Attr)), x.DefaultValue != nil && *x.DefaultValue == attr_(start.Attr, "defaultValue", len(start.Attr)), x.DefaultValue == nil)
	})
	candidate_(func(K int) bool { return string(x.Function) == attr_(start.Attr, "function", K) })
	candidate_(func(K int) bool { return string(x.Function) == attr_(start.Attr, "function", len(start.Attr)) })
	candidate_(func(K int) bool {
		return string(x.InvalidValueTreatment) == nonEmptyAttr_(start.Attr, "invalidValueTreatment", "returnInvalid", K)
	})
	candidate_(func(K int) bool {
		return string(x.InvalidValueTreatment) == nonEmptyAttr_(start.Attr, "invalidValueTreatment", "returnInvalid", len(start.Attr))
	})
	candidate_(func(K int) bool { return x.MapMissingTo == nil || fresh_(x.MapMissingTo) })
	candidate_(func(K int) bool {
		return cond_(hasAttr_(start.Attr, "mapMissingTo", K), x.MapMissingTo != nil && *x.MapMissingTo == attr_(start.Attr, "mapMissingTo", K), x.MapMissingTo == nil)
	})
	candidate_(func(K int) bool {
		return cond_(hasAttr_(start.Attr, "mapMissingTo", len(start.Attr)), x.MapMissingTo != nil && *x.MapMissingTo == attr_(start.Attr, "mapMissingTo", len(start.Attr)), x.MapMissingTo == nil)
	})
	ensures_("C02.ends at its own end tag", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return applyDone_(decoder, p, k) && pos_(decoder) == walk_(decoder, p, k)+1 }))
	})
	ensures_("C02.every Extension child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return applyDone_(decoder, p, k) && same_(x.Extensions, extensions_(decoder, p, k)) }))
	})
	ensures_("C02.every expression child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return applyDone_(decoder, p, k) && len(x.Expressions) == len(expressionItems_(decoder, p, k)) && forall_(func(j int) bool {
				return implies_(0 <= j && j < len(x.Expressions), item_(x.Expressions[j], decoder, expressionItems_(decoder, p, k)[j]))
			})
		}))
	})
	ensures_("C02.attribute defaultValue", func() bool {
		return implies_(err == nil, cond_(hasAttr_(start.Attr, "defaultValue", len(start.Attr)), x.DefaultValue != nil && *x.DefaultValue == attr_(start.Attr, "defaultValue", len(start.Attr)), x.DefaultValue == nil))
	})
	ensures_("C02.attribute function", func() bool {
		return implies_(err == nil, string(x.Function) == attr_(start.Attr, "function", len(start.Attr)))
	})
	ensures_("C02.attribute invalidValueTreatment", func() bool {
		return implies_(err == nil, string(x.InvalidValueTreatment) == nonEmptyAttr_(start.Attr, "invalidValueTreatment", "returnInvalid", len(start.Attr)))
	})
	ensures_("C02.attribute mapMissingTo", func() bool {
		return implies_(err == nil, cond_(hasAttr_(start.Attr, "mapMissingTo", len(start.Attr)), x.MapMissingTo != nil && *x.MapMissingTo == attr_(start.Attr, "mapMissingTo", len(start.Attr)), x.MapMissingTo == nil))
	})
	ensures_("C02.fails only on a failing child, attribute or stream", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err != nil, exists_(func(k int) bool { return applyClean_(decoder, p, k) && applyBad_(decoder, walk_(decoder, p, k)) }))
	})
}

// fieldColumnPairs_: what the FieldColumnPair children among the first k contain.
func fieldColumnPairs_(d *xml.Decoder, p, k int) []FieldColumnPair {
	if k <= 0 {
		return nil
	}
	if child_(d, walk_(d, p, k-1), "FieldColumnPair") {
		return append(fieldColumnPairs_(d, p, k-1), fn_[FieldColumnPair]("xml.decoded.models.FieldColumnPair", FieldColumnPair{}, d, walk_(d, p, k-1)))
	}
	return fieldColumnPairs_(d, p, k-1)
}

//gover:inline
func childParentKnows_(n string) bool {
	return n == "Extension" || n == "FieldColumnPair" || isNameTable_(n)
}

// childParentBad_: the decoder cannot go on at q.
//
//gover:inline
func childParentBad_(d *xml.Decoder, q int) bool {
	return tokErr_(d, q) != nil || isStart_(d, q) && cond_(childParentKnows_(name_(d, q)), decErr_(d, q) != nil, skipErr_(d, q) != nil)
}

//gover:inline
func childParentClean_(d *xml.Decoder, p, k int) bool {
	return 0 <= k && forall_(func(j int) bool {
		return implies_(0 <= j && j < k, !childParentBad_(d, walk_(d, p, j)) && !isEnd_(d, walk_(d, p, j)))
	})
}

//gover:inline
func childParentDone_(d *xml.Decoder, p, k int) bool {
	return childParentClean_(d, p, k) && isEnd_(d, walk_(d, p, k))
}

func contract_ChildParent_UnmarshalXML(x *ChildParent, decoder *xml.Decoder, start xml.StartElement, err error) {
	requires_("object and decoder", func() bool { return x != nil && decoder != nil })
	requires_("the object is empty", func() bool { return same_(*x, ChildParent{}) })
	modifies_(x)
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return pos_(decoder) == walk_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return childParentClean_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return same_(x.Extensions, extensions_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return same_(x.FieldColumnPairs, fieldColumnPairs_(decoder, p, K))
	})
	candidate_(func(K int) bool { return x.Table == nil || isNameTable_(typeName_(x.Table)) })
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return cond_(len(tableItems_(decoder, p, K)) == 0, x.Table == nil, item_(x.Table, decoder, tableItems_(decoder, p, K)[len(tableItems_(decoder, p, K))-1]))
	})
	candidate_(func(K int) bool { return string(x.ChildField) == attr_(start.Attr, "childField", K) })
	candidate_(func(K int) bool { return string(x.ChildField) == attr_(start.Attr, "childField", len(start.Attr)) })
	candidate_(func(K int) bool { return x.IsRecursive == (attr_(start.Attr, "isRecursive", K) == "yes") })
	candidate_(func(K int) bool { return x.IsRecursive == (attr_(start.Attr, "isRecursive", len(start.Attr)) == "yes") })
	candidate_(func(K int) bool { return string(x.ParentField) == attr_(start.Attr, "parentField", K) })
	candidate_(func(K int) bool { return string(x.ParentField) == attr_(start.Attr, "parentField", len(start.Attr)) })
	candidate_(func(K int) bool { return string(x.ParentLevelField) == attr_(start.Attr, "parentLevelField", K) })
	candidate_(func(K int) bool {
		return string(x.ParentLevelField) == attr_(start.Attr, "parentLevelField", len(start.Attr))
	})
	candidate_(func(K int) bool { return !badYesNo_(start.Attr, "isRecursive", K) })
	candidate_(func(K int) bool { return !badYesNo_(start.Attr, "isRecursive", len(start.Attr)) })
	ensures_("C02.ends at its own end tag", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return childParentDone_(decoder, p, k) && pos_(decoder) == walk_(decoder, p, k)+1 }))
	})
	ensures_("C02.every Extension child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return childParentDone_(decoder, p, k) && same_(x.Extensions, extensions_(decoder, p, k))
		}))
	})
	ensures_("C02.every FieldColumnPair child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return childParentDone_(decoder, p, k) && same_(x.FieldColumnPairs, fieldColumnPairs_(decoder, p, k))
		}))
	})
	ensures_("C02.the table child", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return childParentDone_(decoder, p, k) && cond_(len(tableItems_(decoder, p, k)) == 0, x.Table == nil, item_(x.Table, decoder, tableItems_(decoder, p, k)[len(tableItems_(decoder, p, k))-1]))
		}))
	})
	ensures_("C02.attribute childField", func() bool {
		return implies_(err == nil, string(x.ChildField) == attr_(start.Attr, "childField", len(start.Attr)))
	})
	ensures_("C02.attribute isRecursive", func() bool {
		return implies_(err == nil, x.IsRecursive == (attr_(start.Attr, "isRecursive", len(start.Attr)) == "yes"))
	})
	ensures_("C02.attribute parentField", func() bool {
		return implies_(err == nil, string(x.ParentField) == attr_(start.Attr, "parentField", len(start.Attr)))
	})
	ensures_("C02.attribute parentLevelField", func() bool {
		return implies_(err == nil, string(x.ParentLevelField) == attr_(start.Attr, "parentLevelField", len(start.Attr)))
	})
	ensures_("C02.an unreadable attribute fails", func() bool {
		return implies_(badYesNo_(start.Attr, "isRecursive", len(start.Attr)), err != nil)
	})
	ensures_("C02.fails only on a failing child, attribute or stream", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err != nil, badYesNo_(start.Attr, "isRecursive", len(start.Attr)) || exists_(func(k int) bool {
			return childParentClean_(decoder, p, k) && childParentBad_(decoder, walk_(decoder, p, k))
		}))
	})
}

//gover:inline
func compoundPredicateKnows_(n string) bool { return n == "Extension" || isNamePredicate_(n) }

// compoundPredicateBad_: the decoder cannot go on at q.
//
//gover:inline
func compoundPredicateBad_(d *xml.Decoder, q int) bool {
	return tokErr_(d, q) != nil || isStart_(d, q) && cond_(compoundPredicateKnows_(name_(d, q)), decErr_(d, q) != nil, skipErr_(d, q) != nil)
}

//gover:inline
func compoundPredicateClean_(d *xml.Decoder, p, k int) bool {
	return 0 <= k && forall_(func(j int) bool {
		return implies_(0 <= j && j < k, !compoundPredicateBad_(d, walk_(d, p, j)) && !isEnd_(d, walk_(d, p, j)))
	})
}

//gover:inline
func compoundPredicateDone_(d *xml.Decoder, p, k int) bool {
	return compoundPredicateClean_(d, p, k) && isEnd_(d, walk_(d, p, k))
}

func contract_CompoundPredicate_UnmarshalXML(x *CompoundPredicate, decoder *xml.Decoder, start xml.StartElement, err error) {
	requires_("object and decoder", func() bool { return x != nil && decoder != nil })
	requires_("the object is empty", func() bool { return same_(*x, CompoundPredicate{}) })
	modifies_(x)
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return pos_(decoder) == walk_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return compoundPredicateClean_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return same_(x.Extensions, extensions_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		return forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.Predicates), isNamePredicate_(typeName_(x.Predicates[j])))
		})
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return len(x.Predicates) == len(predicateItems_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.Predicates), item_(x.Predicates[j], decoder, predicateItems_(decoder, p, K)[j]))
		})
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return len(x.Predicates) == len(predicateItems_(decoder, p, K)) && forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.Predicates), item_(x.Predicates[j], decoder, predicateItems_(decoder, p, K)[j]))
		})
	})
	candidate_(func(K int) bool { return string(x.BooleanOperator) == attr_(start.Attr, "booleanOperator", K) })
	candidate_(func(K int) bool {
		return string(x.BooleanOperator) == attr_(start.Attr, "booleanOperator", len(start.Attr))
	})
	ensures_("C02.ends at its own end tag", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return compoundPredicateDone_(decoder, p, k) && pos_(decoder) == walk_(decoder, p, k)+1
		}))
	})
	ensures_("C02.every Extension child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return compoundPredicateDone_(decoder, p, k) && same_(x.Extensions, extensions_(decoder, p, k))
		}))
	})
	ensures_("C02.every predicate child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return compoundPredicateDone_(decoder, p, k) && len(x.Predicates) == len(predicateItems_(decoder, p, k)) && forall_(func(j int) bool {
				return implies_(0 <= j && j < len(x.Predicates), item_(x.Predicates[j], decoder, predicateItems_(decoder, p, k)[j]))
			})
		}))
	})
	ensures_("C02.attribute booleanOperator", func() bool {
		return implies_(err == nil, string(x.BooleanOperator) == attr_(start.Attr, "booleanOperator", len(start.Attr)))
	})
	ensures_("C02.fails only on a failing child, attribute or stream", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err != nil, exists_(func(k int) bool {
			return compoundPredicateClean_(decoder, p, k) && compoundPredicateBad_(decoder, walk_(decoder, p, k))
		}))
	})
}

// parameterFields_: what the ParameterField children among the first k contain.
func parameterFields_(d *xml.Decoder, p, k int) []ParameterField {
	if k <= 0 {
		return nil
	}
	if child_(d, walk_(d, p, k-1), "ParameterField") {
		return append(parameterFields_(d, p, k-1), fn_[ParameterField]("xml.decoded.models.ParameterField", ParameterField{}, d, walk_(d, p, k-1)))
	}
	return parameterFields_(d, p, k-1)
}

//gover:inline
func defineFunctionKnows_(n string) bool {
	return n == "Extension" || n == "ParameterField" || isNameExpression_(n)
}

// defineFunctionBad_: the decoder cannot go on at q.
//
//gover:inline
func defineFunctionBad_(d *xml.Decoder, q int) bool {
	return tokErr_(d, q) != nil || isStart_(d, q) && cond_(defineFunctionKnows_(name_(d, q)), decErr_(d, q) != nil, skipErr_(d, q) != nil)
}

//gover:inline
func defineFunctionClean_(d *xml.Decoder, p, k int) bool {
	return 0 <= k && forall_(func(j int) bool {
		return implies_(0 <= j && j < k, !defineFunctionBad_(d, walk_(d, p, j)) && !isEnd_(d, walk_(d, p, j)))
	})
}

//gover:inline
func defineFunctionDone_(d *xml.Decoder, p, k int) bool {
	return defineFunctionClean_(d, p, k) && isEnd_(d, walk_(d, p, k))
}

func contract_DefineFunction_UnmarshalXML(x *DefineFunction, decoder *xml.Decoder, start xml.StartElement, err error) {
	requires_("object and decoder", func() bool { return x != nil && decoder != nil })
	requires_("the object is empty", func() bool { return same_(*x, DefineFunction{}) })
	modifies_(x)
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return pos_(decoder) == walk_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return defineFunctionClean_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return same_(x.Extensions, extensions_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return same_(x.ParameterFields, parameterFields_(decoder, p, K))
	})
	candidate_(func(K int) bool { return x.Expression == nil || isNameExpression_(typeName_(x.Expression)) })
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return cond_(len(expressionItems_(decoder, p, K)) == 0, x.Expression == nil, item_(x.Expression, decoder, expressionItems_(decoder, p, K)[len(expressionItems_(decoder, p, K))-1]))
	})
	candidate_(func(K int) bool { return string(x.DataType) == attr_(start.Attr, "dataType", K) })
	candidate_(func(K int) bool { return string(x.DataType) == attr_(start.Attr, "dataType", len(start.Attr)) })
	candidate_(func(K int) bool { return string(x.Name) == attr_(start.Attr, "name", K) })
	candidate_(func(K int) bool { return string(x.Name) == attr_(start.Attr, "name", len(start.Attr)) })
	candidate_(func(K int) bool { return string(x.OpType) == attr_(start.Attr, "optype", K) })
	candidate_(func(K int) bool { return string(x.OpType) == attr_(start.Attr, "optype", len(start.Attr)) })
	ensures_("C02.ends at its own end tag", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return defineFunctionDone_(decoder, p, k) && pos_(decoder) == walk_(decoder, p, k)+1 }))
	})
	ensures_("C02.every Extension child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return defineFunctionDone_(decoder, p, k) && same_(x.Extensions, extensions_(decoder, p, k))
		}))
	})
	ensures_("C02.every ParameterField child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return defineFunctionDone_(decoder, p, k) && same_(x.ParameterFields, parameterFields_(decoder, p, k))
		}))
	})
	ensures_("C02.the expression child", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return defineFunctionDone_(decoder, p, k) && cond_(len(expressionItems_(decoder, p, k)) == 0, x.Expression == nil, item_(x.Expression, decoder, expressionItems_(decoder, p, k)[len(expressionItems_(decoder, p, k))-1]))
		}))
	})
	ensures_("C02.attribute dataType", func() bool {
		return implies_(err == nil, string(x.DataType) == attr_(start.Attr, "dataType", len(start.Attr)))
	})
	ensures_("C02.attribute name", func() bool {
		return implies_(err == nil, string(x.Name) == attr_(start.Attr, "name", len(start.Attr)))
	})
	ensures_("C02.attribute optype", func() bool {
		return implies_(err == nil, string(x.OpType) == attr_(start.Attr, "optype", len(start.Attr)))
	})
	ensures_("C02.fails only on a failing child, attribute or stream", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err != nil, exists_(func(k int) bool {
			return defineFunctionClean_(decoder, p, k) && defineFunctionBad_(decoder, walk_(decoder, p, k))
		}))
	})
}

// values_: what the Value children among the first k contain.
func values_(d *xml.Decoder, p, k int) []Value {
	if k <= 0 {
		return nil
	}
	if child_(d, walk_(d, p, k-1), "Value") {
		return append(values_(d, p, k-1), fn_[Value]("xml.decoded.models.Value", Value{}, d, walk_(d, p, k-1)))
	}
	return values_(d, p, k-1)
}

//gover:inline
func derivedFieldKnows_(n string) bool {
	return n == "Extension" || n == "Value" || isNameExpression_(n)
}

// derivedFieldBad_: the decoder cannot go on at q.
//
//gover:inline
func derivedFieldBad_(d *xml.Decoder, q int) bool {
	return tokErr_(d, q) != nil || isStart_(d, q) && cond_(derivedFieldKnows_(name_(d, q)), decErr_(d, q) != nil, skipErr_(d, q) != nil)
}

//gover:inline
func derivedFieldClean_(d *xml.Decoder, p, k int) bool {
	return 0 <= k && forall_(func(j int) bool {
		return implies_(0 <= j && j < k, !derivedFieldBad_(d, walk_(d, p, j)) && !isEnd_(d, walk_(d, p, j)))
	})
}

//gover:inline
func derivedFieldDone_(d *xml.Decoder, p, k int) bool {
	return derivedFieldClean_(d, p, k) && isEnd_(d, walk_(d, p, k))
}

func contract_DerivedField_UnmarshalXML(x *DerivedField, decoder *xml.Decoder, start xml.StartElement, err error) {
	requires_("object and decoder", func() bool { return x != nil && decoder != nil })
	requires_("the object is empty", func() bool { return same_(*x, DerivedField{}) })
	modifies_(x)
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return pos_(decoder) == walk_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return derivedFieldClean_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return same_(x.Extensions, extensions_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return same_(x.Values, values_(decoder, p, K))
	})
	candidate_(func(K int) bool { return x.Expression == nil || isNameExpression_(typeName_(x.Expression)) })
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return cond_(len(expressionItems_(decoder, p, K)) == 0, x.Expression == nil, item_(x.Expression, decoder, expressionItems_(decoder, p, K)[len(expressionItems_(decoder, p, K))-1]))
	})
	candidate_(func(K int) bool { return string(x.DataType) == attr_(start.Attr, "dataType", K) })
	candidate_(func(K int) bool { return string(x.DataType) == attr_(start.Attr, "dataType", len(start.Attr)) })
	candidate_(func(K int) bool { return string(x.DisplayName) == attr_(start.Attr, "displayName", K) })
	candidate_(func(K int) bool { return string(x.DisplayName) == attr_(start.Attr, "displayName", len(start.Attr)) })
	candidate_(func(K int) bool { return string(x.Name) == attr_(start.Attr, "name", K) })
	candidate_(func(K int) bool { return string(x.Name) == attr_(start.Attr, "name", len(start.Attr)) })
	candidate_(func(K int) bool { return string(x.OpType) == attr_(start.Attr, "optype", K) })
	candidate_(func(K int) bool { return string(x.OpType) == attr_(start.Attr, "optype", len(start.Attr)) })
	ensures_("C02.ends at its own end tag", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return derivedFieldDone_(decoder, p, k) && pos_(decoder) == walk_(decoder, p, k)+1 }))
	})
	ensures_("C02.every Extension child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return derivedFieldDone_(decoder, p, k) && same_(x.Extensions, extensions_(decoder, p, k))
		}))
	})
	ensures_("C02.every Value child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return derivedFieldDone_(decoder, p, k) && same_(x.Values, values_(decoder, p, k)) }))
	})
	ensures_("C02.the expression child", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return derivedFieldDone_(decoder, p, k) && cond_(len(expressionItems_(decoder, p, k)) == 0, x.Expression == nil, item_(x.Expression, decoder, expressionItems_(decoder, p, k)[len(expressionItems_(decoder, p, k))-1]))
		}))
	})
	ensures_("C02.attribute dataType", func() bool {
		return implies_(err == nil, string(x.DataType) == attr_(start.Attr, "dataType", len(start.Attr)))
	})
	ensures_("C02.attribute displayName", func() bool {
		return implies_(err == nil, string(x.DisplayName) == attr_(start.Attr, "displayName", len(start.Attr)))
	})
	ensures_("C02.attribute name", func() bool {
		return implies_(err == nil, string(x.Name) == attr_(start.Attr, "name", len(start.Attr)))
	})
	ensures_("C02.attribute optype", func() bool {
		return implies_(err == nil, string(x.OpType) == attr_(start.Attr, "optype", len(start.Attr)))
	})
	ensures_("C02.fails only on a failing child, attribute or stream", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err != nil, exists_(func(k int) bool {
			return derivedFieldClean_(decoder, p, k) && derivedFieldBad_(decoder, walk_(decoder, p, k))
		}))
	})
}

// rowItems_: where the row children start, among the first k.
func rowItems_(d *xml.Decoder, p, k int) []int {
	if k <= 0 {
		return nil
	}
	if child_(d, walk_(d, p, k-1), "row") {
		return append(rowItems_(d, p, k-1), walk_(d, p, k-1))
	}
	return rowItems_(d, p, k-1)
}

//gover:inline
func inlineTableKnows_(n string) bool { return n == "Extension" || n == "row" }

// inlineTableBad_: the decoder cannot go on at q.
//
//gover:inline
func inlineTableBad_(d *xml.Decoder, q int) bool {
	return tokErr_(d, q) != nil || isStart_(d, q) && cond_(inlineTableKnows_(name_(d, q)), decErr_(d, q) != nil, skipErr_(d, q) != nil)
}

//gover:inline
func inlineTableClean_(d *xml.Decoder, p, k int) bool {
	return 0 <= k && forall_(func(j int) bool {
		return implies_(0 <= j && j < k, !inlineTableBad_(d, walk_(d, p, j)) && !isEnd_(d, walk_(d, p, j)))
	})
}

//gover:inline
func inlineTableDone_(d *xml.Decoder, p, k int) bool {
	return inlineTableClean_(d, p, k) && isEnd_(d, walk_(d, p, k))
}

func contract_InlineTable_UnmarshalXML(x *InlineTable, decoder *xml.Decoder, start xml.StartElement, err error) {
	requires_("object and decoder", func() bool { return x != nil && decoder != nil })
	requires_("the object is empty", func() bool { return same_(*x, InlineTable{}) })
	modifies_(x)
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return pos_(decoder) == walk_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return inlineTableClean_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return same_(x.Extensions, extensions_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return len(x.Rows) == len(rowItems_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.Rows), x.Rows[j] != nil && src_(x.Rows[j]) == rowItems_(decoder, p, K)[j])
		})
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return len(x.Rows) == len(rowItems_(decoder, p, K)) && forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.Rows), x.Rows[j] != nil && src_(x.Rows[j]) == rowItems_(decoder, p, K)[j])
		})
	})
	ensures_("C02.ends at its own end tag", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return inlineTableDone_(decoder, p, k) && pos_(decoder) == walk_(decoder, p, k)+1 }))
	})
	ensures_("C02.every Extension child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return inlineTableDone_(decoder, p, k) && same_(x.Extensions, extensions_(decoder, p, k))
		}))
	})
	ensures_("C02.every row child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return inlineTableDone_(decoder, p, k) && len(x.Rows) == len(rowItems_(decoder, p, k)) && forall_(func(j int) bool {
				return implies_(0 <= j && j < len(x.Rows), x.Rows[j] != nil && src_(x.Rows[j]) == rowItems_(decoder, p, k)[j])
			})
		}))
	})
	ensures_("C02.fails only on a failing child, attribute or stream", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err != nil, exists_(func(k int) bool {
			return inlineTableClean_(decoder, p, k) && inlineTableBad_(decoder, walk_(decoder, p, k))
		}))
	})
}

// nodes_: what the Node children among the first k contain.
func nodes_(d *xml.Decoder, p, k int) []Node {
	if k <= 0 {
		return nil
	}
	if child_(d, walk_(d, p, k-1), "Node") {
		return append(nodes_(d, p, k-1), fn_[Node]("xml.decoded.models.Node", Node{}, d, walk_(d, p, k-1)))
	}
	return nodes_(d, p, k-1)
}

// scoreDistributions_: what the ScoreDistribution children among the first k contain.
func scoreDistributions_(d *xml.Decoder, p, k int) []ScoreDistribution {
	if k <= 0 {
		return nil
	}
	if child_(d, walk_(d, p, k-1), "ScoreDistribution") {
		return append(scoreDistributions_(d, p, k-1), fn_[ScoreDistribution]("xml.decoded.models.ScoreDistribution", ScoreDistribution{}, d, walk_(d, p, k-1)))
	}
	return scoreDistributions_(d, p, k-1)
}

// partitionItems_: where the Partition children start, among the first k.
func partitionItems_(d *xml.Decoder, p, k int) []int {
	if k <= 0 {
		return nil
	}
	if child_(d, walk_(d, p, k-1), "Partition") {
		return append(partitionItems_(d, p, k-1), walk_(d, p, k-1))
	}
	return partitionItems_(d, p, k-1)
}

//gover:inline
func nodeKnows_(n string) bool {
	return n == "Node" || n == "ScoreDistribution" || n == "Extension" || n == "Partition" || isNameEmbeddedModel_(n) || isNamePredicate_(n)
}

// nodeBad_: the decoder cannot go on at q.
//
//gover:inline
func nodeBad_(d *xml.Decoder, q int) bool {
	return tokErr_(d, q) != nil || isStart_(d, q) && cond_(nodeKnows_(name_(d, q)), decErr_(d, q) != nil, skipErr_(d, q) != nil)
}

//gover:inline
func nodeClean_(d *xml.Decoder, p, k int) bool {
	return 0 <= k && forall_(func(j int) bool {
		return implies_(0 <= j && j < k, !nodeBad_(d, walk_(d, p, j)) && !isEnd_(d, walk_(d, p, j)))
	})
}

//gover:inline
func nodeDone_(d *xml.Decoder, p, k int) bool {
	return nodeClean_(d, p, k) && isEnd_(d, walk_(d, p, k))
}

func contract_Node_UnmarshalXML(x *Node, decoder *xml.Decoder, start xml.StartElement, err error) {
	requires_("object and decoder", func() bool { return x != nil && decoder != nil })
	requires_("the object is empty", func() bool { return same_(*x, Node{}) })
	modifies_(x)
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return pos_(decoder) == walk_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return nodeClean_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return same_(x.Nodes, nodes_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return same_(x.ScoreDistributions, scoreDistributions_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return same_(x.Extensions, extensions_(decoder, p, K))
	})
	candidate_(func(K int) bool { return x.EmbeddedModel == nil || isNameEmbeddedModel_(typeName_(x.EmbeddedModel)) })
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return cond_(len(embeddedItems_(decoder, p, K)) == 0, x.EmbeddedModel == nil, item_(x.EmbeddedModel, decoder, embeddedItems_(decoder, p, K)[len(embeddedItems_(decoder, p, K))-1]))
	})
	candidate_(func(K int) bool { return x.Predicate == nil || isNamePredicate_(typeName_(x.Predicate)) })
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return cond_(len(predicateItems_(decoder, p, K)) == 0, x.Predicate == nil, item_(x.Predicate, decoder, predicateItems_(decoder, p, K)[len(predicateItems_(decoder, p, K))-1]))
	})
	candidate_(func(K int) bool { return x.Partition == nil || fresh_(x.Partition) })
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return cond_(len(partitionItems_(decoder, p, K)) == 0, x.Partition == nil, x.Partition != nil && src_(x.Partition) == partitionItems_(decoder, p, K)[len(partitionItems_(decoder, p, K))-1])
	})
	candidate_(func(K int) bool { return string(x.DefaultChild) == attr_(start.Attr, "defaultChild", K) })
	candidate_(func(K int) bool { return string(x.DefaultChild) == attr_(start.Attr, "defaultChild", len(start.Attr)) })
	candidate_(func(K int) bool { return string(x.ID) == attr_(start.Attr, "id", K) })
	candidate_(func(K int) bool { return string(x.ID) == attr_(start.Attr, "id", len(start.Attr)) })
	candidate_(func(K int) bool { return same_(x.RecordCount, numAttr_(start.Attr, "recordCount", K)) })
	candidate_(func(K int) bool { return same_(x.RecordCount, numAttr_(start.Attr, "recordCount", len(start.Attr))) })
	candidate_(func(K int) bool { return string(x.Score) == attr_(start.Attr, "score", K) })
	candidate_(func(K int) bool { return string(x.Score) == attr_(start.Attr, "score", len(start.Attr)) })
	candidate_(func(K int) bool { return !badNum_(start.Attr, "recordCount", K) })
	candidate_(func(K int) bool { return !badNum_(start.Attr, "recordCount", len(start.Attr)) })
	ensures_("C02.ends at its own end tag", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return nodeDone_(decoder, p, k) && pos_(decoder) == walk_(decoder, p, k)+1 }))
	})
	ensures_("C02.every Node child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return nodeDone_(decoder, p, k) && same_(x.Nodes, nodes_(decoder, p, k)) }))
	})
	ensures_("C02.every ScoreDistribution child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return nodeDone_(decoder, p, k) && same_(x.ScoreDistributions, scoreDistributions_(decoder, p, k))
		}))
	})
	ensures_("C02.every Extension child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return nodeDone_(decoder, p, k) && same_(x.Extensions, extensions_(decoder, p, k)) }))
	})
	ensures_("C02.the embedded child", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return nodeDone_(decoder, p, k) && cond_(len(embeddedItems_(decoder, p, k)) == 0, x.EmbeddedModel == nil, item_(x.EmbeddedModel, decoder, embeddedItems_(decoder, p, k)[len(embeddedItems_(decoder, p, k))-1]))
		}))
	})
	ensures_("C02.the predicate child", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return nodeDone_(decoder, p, k) && cond_(len(predicateItems_(decoder, p, k)) == 0, x.Predicate == nil, item_(x.Predicate, decoder, predicateItems_(decoder, p, k)[len(predicateItems_(decoder, p, k))-1]))
		}))
	})
	ensures_("C02.the Partition child", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return nodeDone_(decoder, p, k) && cond_(len(partitionItems_(decoder, p, k)) == 0, x.Partition == nil, x.Partition != nil && src_(x.Partition) == partitionItems_(decoder, p, k)[len(partitionItems_(decoder, p, k))-1])
		}))
	})
	ensures_("C02.attribute defaultChild", func() bool {
		return implies_(err == nil, string(x.DefaultChild) == attr_(start.Attr, "defaultChild", len(start.Attr)))
	})
	ensures_("C02.attribute id", func() bool {
		return implies_(err == nil, string(x.ID) == attr_(start.Attr, "id", len(start.Attr)))
	})
	ensures_("C02.attribute recordCount", func() bool {
		return implies_(err == nil, same_(x.RecordCount, numAttr_(start.Attr, "recordCount", len(start.Attr))))
	})
	ensures_("C02.attribute score", func() bool {
		return implies_(err == nil, string(x.Score) == attr_(start.Attr, "score", len(start.Attr)))
	})
	ensures_("C02.an unreadable attribute fails", func() bool {
		return implies_(badNum_(start.Attr, "recordCount", len(start.Attr)), err != nil)
	})
	ensures_("C02.fails only on a failing child, attribute or stream", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err != nil, badNum_(start.Attr, "recordCount", len(start.Attr)) || exists_(func(k int) bool { return nodeClean_(decoder, p, k) && nodeBad_(decoder, walk_(decoder, p, k)) }))
	})
}

// miningBuildTaskItems_: where the MiningBuildTask children start, among the first k.
func miningBuildTaskItems_(d *xml.Decoder, p, k int) []int {
	if k <= 0 {
		return nil
	}
	if child_(d, walk_(d, p, k-1), "MiningBuildTask") {
		return append(miningBuildTaskItems_(d, p, k-1), walk_(d, p, k-1))
	}
	return miningBuildTaskItems_(d, p, k-1)
}

// dataDictionary_: the DataDictionary children among the first k, decoded one after the other.
func dataDictionary_(d *xml.Decoder, p, k int) DataDictionary {
	if k <= 0 {
		return DataDictionary{}
	}
	if child_(d, walk_(d, p, k-1), "DataDictionary") {
		return fn_[DataDictionary]("xml.decoded.models.DataDictionary", dataDictionary_(d, p, k-1), d, walk_(d, p, k-1))
	}
	return dataDictionary_(d, p, k-1)
}

// transformationDictionary_: the TransformationDictionary children among the first k, decoded one after the other.
func transformationDictionary_(d *xml.Decoder, p, k int) TransformationDictionary {
	if k <= 0 {
		return TransformationDictionary{}
	}
	if child_(d, walk_(d, p, k-1), "TransformationDictionary") {
		return fn_[TransformationDictionary]("xml.decoded.models.TransformationDictionary", transformationDictionary_(d, p, k-1), d, walk_(d, p, k-1))
	}
	return transformationDictionary_(d, p, k-1)
}

// header_: the Header children among the first k, decoded one after the other.
func header_(d *xml.Decoder, p, k int) Header {
	if k <= 0 {
		return Header{}
	}
	if child_(d, walk_(d, p, k-1), "Header") {
		return fn_[Header]("xml.decoded.models.Header", header_(d, p, k-1), d, walk_(d, p, k-1))
	}
	return header_(d, p, k-1)
}

//gover:inline
func pmmlKnows_(n string) bool {
	return n == "Extension" || n == "MiningBuildTask" || n == "DataDictionary" || n == "TransformationDictionary" || n == "Header" || isNameModelElement_(n)
}

// pmmlBad_: the decoder cannot go on at q.
//
//gover:inline
func pmmlBad_(d *xml.Decoder, q int) bool {
	return tokErr_(d, q) != nil || isStart_(d, q) && cond_(pmmlKnows_(name_(d, q)), decErr_(d, q) != nil, skipErr_(d, q) != nil)
}

//gover:inline
func pmmlClean_(d *xml.Decoder, p, k int) bool {
	return 0 <= k && forall_(func(j int) bool {
		return implies_(0 <= j && j < k, !pmmlBad_(d, walk_(d, p, j)) && !isEnd_(d, walk_(d, p, j)))
	})
}

//gover:inline
func pmmlDone_(d *xml.Decoder, p, k int) bool {
	return pmmlClean_(d, p, k) && isEnd_(d, walk_(d, p, k))
}

func contract_PMML_UnmarshalXML(x *PMML, decoder *xml.Decoder, start xml.StartElement, err error) {
	requires_("object and decoder", func() bool { return x != nil && decoder != nil })
	requires_("the object is empty", func() bool { return same_(*x, PMML{}) })
	modifies_(x)
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return pos_(decoder) == walk_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return pmmlClean_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return same_(x.Extensions, extensions_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return same_(x.DataDictionary, dataDictionary_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return same_(x.TransformationDictionary, transformationDictionary_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return same_(x.Header, header_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		return forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.Models), isNameModelElement_(typeName_(x.Models[j])))
		})
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return len(x.Models) == len(modelItems_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.Models), item_(x.Models[j], decoder, modelItems_(decoder, p, K)[j]))
		})
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return len(x.Models) == len(modelItems_(decoder, p, K)) && forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.Models), item_(x.Models[j], decoder, modelItems_(decoder, p, K)[j]))
		})
	})
	candidate_(func(K int) bool { return x.MiningBuildTask == nil || fresh_(x.MiningBuildTask) })
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return cond_(len(miningBuildTaskItems_(decoder, p, K)) == 0, x.MiningBuildTask == nil, x.MiningBuildTask != nil && src_(x.MiningBuildTask) == miningBuildTaskItems_(decoder, p, K)[len(miningBuildTaskItems_(decoder, p, K))-1])
	})
	candidate_(func(K int) bool { return string(x.Version) == attr_(start.Attr, "version", K) })
	candidate_(func(K int) bool { return string(x.Version) == attr_(start.Attr, "version", len(start.Attr)) })
	ensures_("C02.ends at its own end tag", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return pmmlDone_(decoder, p, k) && pos_(decoder) == walk_(decoder, p, k)+1 }))
	})
	ensures_("C02.every Extension child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return pmmlDone_(decoder, p, k) && same_(x.Extensions, extensions_(decoder, p, k)) }))
	})
	ensures_("C02.the DataDictionary child", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return pmmlDone_(decoder, p, k) && same_(x.DataDictionary, dataDictionary_(decoder, p, k))
		}))
	})
	ensures_("C02.the TransformationDictionary child", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return pmmlDone_(decoder, p, k) && same_(x.TransformationDictionary, transformationDictionary_(decoder, p, k))
		}))
	})
	ensures_("C02.the Header child", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return pmmlDone_(decoder, p, k) && same_(x.Header, header_(decoder, p, k)) }))
	})
	ensures_("C02.every model child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return pmmlDone_(decoder, p, k) && len(x.Models) == len(modelItems_(decoder, p, k)) && forall_(func(j int) bool {
				return implies_(0 <= j && j < len(x.Models), item_(x.Models[j], decoder, modelItems_(decoder, p, k)[j]))
			})
		}))
	})
	ensures_("C02.the MiningBuildTask child", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return pmmlDone_(decoder, p, k) && cond_(len(miningBuildTaskItems_(decoder, p, k)) == 0, x.MiningBuildTask == nil, x.MiningBuildTask != nil && src_(x.MiningBuildTask) == miningBuildTaskItems_(decoder, p, k)[len(miningBuildTaskItems_(decoder, p, k))-1])
		}))
	})
	ensures_("C02.attribute version", func() bool {
		return implies_(err == nil, string(x.Version) == attr_(start.Attr, "version", len(start.Attr)))
	})
	ensures_("C02.fails only on a failing child, attribute or stream", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err != nil, exists_(func(k int) bool { return pmmlClean_(decoder, p, k) && pmmlBad_(decoder, walk_(decoder, p, k)) }))
	})
}

//gover:inline
func segmentKnows_(n string) bool {
	return n == "Extension" || isNamePredicate_(n) || isNameModelElement_(n)
}

// segmentBad_: the decoder cannot go on at q.
//
//gover:inline
func segmentBad_(d *xml.Decoder, q int) bool {
	return tokErr_(d, q) != nil || isStart_(d, q) && cond_(segmentKnows_(name_(d, q)), decErr_(d, q) != nil, skipErr_(d, q) != nil)
}

//gover:inline
func segmentClean_(d *xml.Decoder, p, k int) bool {
	return 0 <= k && forall_(func(j int) bool {
		return implies_(0 <= j && j < k, !segmentBad_(d, walk_(d, p, j)) && !isEnd_(d, walk_(d, p, j)))
	})
}

//gover:inline
func segmentDone_(d *xml.Decoder, p, k int) bool {
	return segmentClean_(d, p, k) && isEnd_(d, walk_(d, p, k))
}

func contract_Segment_UnmarshalXML(x *Segment, decoder *xml.Decoder, start xml.StartElement, err error) {
	requires_("object and decoder", func() bool { return x != nil && decoder != nil })
	requires_("the object is empty", func() bool { return same_(*x, Segment{}) })
	modifies_(x)
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return pos_(decoder) == walk_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return segmentClean_(decoder, p, K)
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return same_(x.Extensions, extensions_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		return forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.Predicates), isNamePredicate_(typeName_(x.Predicates[j])))
		})
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return len(x.Predicates) == len(predicateItems_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.Predicates), item_(x.Predicates[j], decoder, predicateItems_(decoder, p, K)[j]))
		})
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return len(x.Predicates) == len(predicateItems_(decoder, p, K)) && forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.Predicates), item_(x.Predicates[j], decoder, predicateItems_(decoder, p, K)[j]))
		})
	})
	candidate_(func(K int) bool {
		return forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.Models), isNameModelElement_(typeName_(x.Models[j])))
		})
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return len(x.Models) == len(modelItems_(decoder, p, K))
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.Models), item_(x.Models[j], decoder, modelItems_(decoder, p, K)[j]))
		})
	})
	candidate_(func(K int) bool {
		p := old_(func() int { return pos_(decoder) })
		return len(x.Models) == len(modelItems_(decoder, p, K)) && forall_(func(j int) bool {
			return implies_(0 <= j && j < len(x.Models), item_(x.Models[j], decoder, modelItems_(decoder, p, K)[j]))
		})
	})
	candidate_(func(K int) bool { return string(x.Id) == attr_(start.Attr, "id", K) })
	candidate_(func(K int) bool { return string(x.Id) == attr_(start.Attr, "id", len(start.Attr)) })
	ensures_("C02.ends at its own end tag", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return segmentDone_(decoder, p, k) && pos_(decoder) == walk_(decoder, p, k)+1 }))
	})
	ensures_("C02.every Extension child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return segmentDone_(decoder, p, k) && same_(x.Extensions, extensions_(decoder, p, k))
		}))
	})
	ensures_("C02.every predicate child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return segmentDone_(decoder, p, k) && len(x.Predicates) == len(predicateItems_(decoder, p, k)) && forall_(func(j int) bool {
				return implies_(0 <= j && j < len(x.Predicates), item_(x.Predicates[j], decoder, predicateItems_(decoder, p, k)[j]))
			})
		}))
	})
	ensures_("C02.every model child in order", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool {
			return segmentDone_(decoder, p, k) && len(x.Models) == len(modelItems_(decoder, p, k)) && forall_(func(j int) bool {
				return implies_(0 <= j && j < len(x.Models), item_(x.Models[j], decoder, modelItems_(decoder, p, k)[j]))
			})
		}))
	})
	ensures_("C02.attribute id", func() bool {
		return implies_(err == nil, string(x.Id) == attr_(start.Attr, "id", len(start.Attr)))
	})
	ensures_("C02.fails only on a failing child, attribute or stream", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err != nil, exists_(func(k int) bool { return segmentClean_(decoder, p, k) && segmentBad_(decoder, walk_(decoder, p, k)) }))
	})
}

func row_(d *xml.Decoder, p, k int, init Map_[string, interface{}]) Map_[string, interface{}] {
	if k <= 0 {
		return init
	}
	if isStart_(d, walk_(d, p, k-1)) {
		return put_(row_(d, p, k-1, init), name_(d, walk_(d, p, k-1)), any(fn_[string]("xml.decoded.string", "", d, walk_(d, p, k-1))))
	}
	return row_(d, p, k-1, init)
}

//gover:inline
func rowBad_(d *xml.Decoder, q int) bool {
	return tokErr_(d, q) != nil || isStart_(d, q) && decErr_(d, q) != nil
}

//gover:inline
func rowClean_(d *xml.Decoder, p, k int) bool {
	return 0 <= k && forall_(func(j int) bool {
		return implies_(0 <= j && j < k, !rowBad_(d, walk_(d, p, j)) && !isEnd_(d, walk_(d, p, j)))
	})
}

//gover:inline
func rowDone_(d *xml.Decoder, p, k int) bool {
	return rowClean_(d, p, k) && isEnd_(d, walk_(d, p, k))
}

func contract_Row_UnmarshalXML(x Row, decoder *xml.Decoder, start xml.StartElement, err error) {
	requires_("row and decoder", func() bool { return x != nil && decoder != nil })
	modifies_(x)
	candidate_(func(K int) bool {
		return pos_(decoder) == walk_(decoder, old_(func() int { return pos_(decoder) }), K)
	})
	candidate_(func(K int) bool { return rowClean_(decoder, old_(func() int { return pos_(decoder) }), K) })
	candidate_(func(K int) bool {
		return same_(contents_(x), row_(decoder, old_(func() int { return pos_(decoder) }), K, old_(func() Map_[string, interface{}] { return contents_(x) })))
	})
	ensures_("C02.ends at its own end tag", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err == nil, exists_(func(k int) bool { return rowDone_(decoder, p, k) && pos_(decoder) == walk_(decoder, p, k)+1 }))
	})
	ensures_("C02.every cell under its name", func() bool {
		p := old_(func() int { return pos_(decoder) })
		m := old_(func() Map_[string, interface{}] { return contents_(x) })
		return implies_(err == nil, exists_(func(k int) bool { return rowDone_(decoder, p, k) && same_(contents_(x), row_(decoder, p, k, m)) }))
	})
	ensures_("C02.fails only on a failing child or stream", func() bool {
		p := old_(func() int { return pos_(decoder) })
		return implies_(err != nil, exists_(func(k int) bool { return rowClean_(decoder, p, k) && rowBad_(decoder, walk_(decoder, p, k)) }))
	})
}

From 9a01176413f90916deac6e09f1295bc65d32fd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:06 +0000
Subject: [PATCH 01/20] fix: verification tolerance for negative expected
 values and NaN predictions

---
 evaluation/evaluation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index f034d05..ff1c29d 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -73,7 +73,7 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 				}
 				predicted := predictedVal.Float64()
 				delta := expected - predicted
-				if math.Abs(delta) > 1e-5 * expected {
+				if !(math.Abs(delta) <= 1e-5*math.Abs(expected)) {
 					return fmt.Errorf("%s: expected %f, predicted %f, error %f", k, expected, predicted, delta)
 				}
 			}
-- 
2.43.0


From a92dfc8c58787358b6230c7a2337fcd09eb25b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:07 +0000
Subject: [PATCH 02/20] fix: verification feeds a column's value to the field
 the column stands for

---
 evaluation/evaluation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index ff1c29d..388c5f5 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -52,9 +52,9 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 	for _, vRow := range mv.InlineTable.Rows {
 		input := make(DataRow)
 		for k, v := range vRow {
-			_, isInput := inputMap[k]
+			fieldName, isInput := inputMap[k]
 			if isInput {
-				input[k] = NewValue(v)
+				input[fieldName] = NewValue(v)
 			}
 		}
 
-- 
2.43.0


From 9edb92327f31bf173c5bf4997ebeff3e505b6f74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:08 +0000
Subject: [PATCH 03/20] fix: evaluating a tree model no longer writes to the
 shared model

---
 evaluation/tree.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 7ea71fb..ba121ac 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -18,7 +18,6 @@ type TreeModel struct {
 	fieldTypes map[models.FieldName]models.DataType
 	root       node
 
-	outKeys map[string]string
 	targetField models.FieldName
 }
 
@@ -371,7 +370,6 @@ func NewTreeModel(dd *models.DataDictionary, td *models.TransformationDictionary
 	m.dd = dd
 	m.td = td
 	m.model = model
-	m.outKeys = make(map[string]string)
 
 	err := m.Validate()
 	if err != nil {
@@ -734,12 +732,7 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 		if m.model.FunctionName == models.MiningFunctionClassification {
 			out[string(m.targetField)] = NewValue(best.value)
 			for _, score := range scores {
-				key, ok := m.outKeys[score.value]
-				if !ok {
-					key = fmt.Sprintf("probability(%s)", score.value)
-					m.outKeys[score.value] = key
-				}
-
+				key := fmt.Sprintf("probability(%s)", score.value)
 				out[key] = NewValue(score.probability)
 			}
 		} else if m.model.FunctionName == models.MiningFunctionRegression {
-- 
2.43.0


From 6ab1991f0d04465d7194e5ca717d6cfa6e56c77d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:53 +0000
Subject: [PATCH 04/20] fix: isMissing and isNotMissing predicates on fields of
 any type

---
 evaluation/tree.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index ba121ac..b0d0362 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -418,6 +418,11 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
 
+		if p.Operator == models.SimplePredicateOperatorIsMissing ||
+			p.Operator == models.SimplePredicateOperatorIsNotMissing {
+			return nil
+		}
+
 		pv, err := getRawValue(predicateValueType, p.Value)
 		if err != nil {
 			return err
@@ -517,22 +522,31 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 		return f
 	}
 
-	if p.RawPredicateValue == nil {
-		return f
-	}
-
 	val, ok := input[string(p.Field)]
-	if !ok {
-		if p.Operator == models.SimplePredicateOperatorIsMissing {
+	missing := !ok || val.Raw() == nil
+
+	switch p.Operator {
+	case models.SimplePredicateOperatorIsMissing:
+		if missing {
 			return t
 		}
+		return f
+	case models.SimplePredicateOperatorIsNotMissing:
+		if missing {
+			return f
+		}
+		return t
+	}
+
+	if p.RawPredicateValue == nil {
+		return f
+	}
 
+	if missing {
 		return u
 	}
 
 	switch p.Operator {
-	case models.SimplePredicateOperatorIsNotMissing:
-		return t
 	case models.SimplePredicateOperatorEqual:
 		if val.Raw() == p.RawPredicateValue {
 			return t
-- 
2.43.0


From 47fe42d3aa3ce4a67aa3d16961b41177a03aad88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 05/20] fix: equality predicates compare numeric fields by
 value, not by Go type

---
 evaluation/tree.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index b0d0362..4466cc8 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -515,6 +515,17 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 	return n, nil
 }
 
+func equalsRaw(val Value, raw interface{}) bool {
+	switch r := raw.(type) {
+	case float64:
+		return val.Float64() == r
+	case int64:
+		return val.Int64() == r
+	}
+
+	return val.Raw() == raw
+}
+
 //nolint:gocyclo
 func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldTypes map[models.FieldName]models.DataType) predicateResult {
 	predicateValueType, ok := fieldTypes[p.Field]
@@ -548,11 +559,11 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 
 	switch p.Operator {
 	case models.SimplePredicateOperatorEqual:
-		if val.Raw() == p.RawPredicateValue {
+		if equalsRaw(val, p.RawPredicateValue) {
 			return t
 		}
 	case models.SimplePredicateOperatorNotEqual:
-		if val.Raw() != p.RawPredicateValue {
+		if !equalsRaw(val, p.RawPredicateValue) {
 			return t
 		}
 	case models.SimplePredicateOperatorGreaterOrEqual:
-- 
2.43.0


From 9303f5ce1271ff4b6632fce8092ba993635b022c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:54 +0000
Subject: [PATCH 06/20] fix: integer reading of float and text values

---
 evaluation/miningschema.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 7ea215e..892f173 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -30,6 +30,10 @@ func (v Value) Float32() float32 {
 		return float32(f)
 	}
 
+	if _, ok := v.val.(string); ok {
+		return float32(v.Float64())
+	}
+
 	return float32(v.Int64())
 }
 
@@ -95,6 +99,21 @@ func (v Value) Int64() int64 {
 		return int64(f)
 	}
 
+	if f, ok := v.val.(float64); ok {
+		return int64(f)
+	}
+	if f, ok := v.val.(float32); ok {
+		return int64(f)
+	}
+
+	if s, ok := v.val.(string); ok {
+		i, err := strconv.ParseInt(s, 10, 64)
+		if err != nil {
+			return int64(v.Float64())
+		}
+		return i
+	}
+
 	return 0
 }
 
-- 
2.43.0


From 0f0da0a1466cfdd35bc074b3eec8967d2018430f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:55 +0000
Subject: [PATCH 07/20] fix: True and False inside compound predicates

---
 evaluation/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 4466cc8..12fdd0c 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -650,6 +650,10 @@ func evaluateCompoundPredicate(p *models.CompoundPredicate, input DataRow, field
 			val = evaluateCompoundPredicate(c, input, fieldTypes)
 		case *models.SimpleSetPredicate:
 			val = evaluateSimpleSetPredicate(c, input, fieldTypes)
+		case *models.True:
+			val = t
+		case *models.False:
+			val = f
 		}
 
 		if surrogate && val != u {
-- 
2.43.0


From 87cbe05918f84a85eac3449355d9883e3a18a79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:56 +0000
Subject: [PATCH 08/20] fix: a continuous derived field of a missing value is
 missing, not zero

---
 evaluation/input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index e9f99b5..46f25a5 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -190,7 +190,7 @@ func HandleInput(in DataRow, dd *models.DataDictionary, td *models.Transformatio
 			return nil, err
 		}
 
-		if df.OpType == models.OpTypeContinuous {
+		if df.OpType == models.OpTypeContinuous && expr_val.Raw() != nil {
 			in[df.Name] = NewValue(expr_val.Float64())
 		} else {
 			in[df.Name] = expr_val
-- 
2.43.0


From b624510a3ee19f43d30fd2a88b4450097ab699e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:17 +0000
Subject: [PATCH 09/20] fix: binary classification applies coefficients and
 intercept before the link function

---
 evaluation/regression.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 67d9784..db78d62 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -136,12 +136,16 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 				if !ok {
 					return nil, fmt.Errorf("regression missing term %s", np.Name)
 				}
-				normalized, err := m.normalize(term.Float64())
-				if err != nil {
-					return out, err
-				}
-				pred += normalized
+				indVar := term.Float64()
+				coeff := np.Coefficient
+				pred += coeff * indVar
+			}
+
+			normalized, err := m.normalize(pred)
+			if err != nil {
+				return out, err
 			}
+			pred = normalized
 		} else {
 			pred = finalPred
 		}
-- 
2.43.0


From 74103797566f21a852eafbabbc17a56034904371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:17 +0000
Subject: [PATCH 10/20] fix: regression without a normalization method is the
 identity, not an error

---
 evaluation/regression.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index db78d62..378bb9f 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -64,6 +64,8 @@ func (m *RegressionModel) Verify() error {
 
 func (m *RegressionModel) normalize(term float64) (float64, error) {
 	switch m.model.RegressionNormalizationMethod {
+	case models.RegressionNormalizationMethodNone, "":
+		return term, nil
 	case models.RegressionNormalizationMethodSoftmax:
 		return 1.0 / (1.0 + math.Exp(-term)), nil
 	case models.RegressionNormalizationMethodLogit:
-- 
2.43.0


From 37862493baceff14d3b801a1081bacf248169578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:18 +0000
Subject: [PATCH 11/20] fix: no nameless output for a category without output
 field

---
 evaluation/regression.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 378bb9f..172a023 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -173,9 +173,7 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 	}
 
 	y := make([]float64, len(m.model.RegressionTables))
-	targets := make([]string, len(m.model.RegressionTables))
 	for i, rtbl := range m.model.RegressionTables {
-		targets[i] = outFields[rtbl.TargetCategory]
 		y[i] = rtbl.Intercept
 
 		for _, np := range rtbl.NumericPredictor {
@@ -189,7 +187,12 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 		}
 	}
 
-	for i, target := range targets {
+	for i, rtbl := range m.model.RegressionTables {
+		target, ok := outFields[rtbl.TargetCategory]
+		if !ok {
+			continue
+		}
+
 		switch m.model.RegressionNormalizationMethod {
 		case models.RegressionNormalizationMethodSoftmax:
 			s := 0.0
-- 
2.43.0


From 2c934737ebe8b40fec5924598252e96ef5600d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:19 +0000
Subject: [PATCH 12/20] fix: a tree without a prediction gives the null result
 instead of panicking

---
 evaluation/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 12fdd0c..a35dcc8 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -754,7 +754,7 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 
 	scores, result := m.root.evaluate(input)
 
-	if result == t {
+	if result == t && len(scores) > 0 {
 		best := pickBest(scores)
 		out := make(DataRow)
 
-- 
2.43.0


From 02b254885d13d53af1b06251a32242d15a0da991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 13/20] fix: a tree node without predicate is rejected when the
 model is built

---
 evaluation/tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index a35dcc8..52639e4 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -510,6 +510,8 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		n.test = func(input DataRow) predicateResult {
 			return f
 		}
+	default:
+		return n, fmt.Errorf("unsupported node predicate %T", p)
 	}
 
 	return n, nil
-- 
2.43.0


From c39307795f9fcb34a809611cadc9035be06364df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:20 +0000
Subject: [PATCH 14/20] fix: Apply reads the invalidValueTreatment attribute

---
 models/elements.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/elements.go b/models/elements.go
index 2d83fdd..a0e152e 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -337,7 +337,7 @@ type Application struct {
 type Apply struct {
 	DefaultValue          *string                     `xml:"defaultValue,attr"`
 	Function              string                      `xml:"function,attr"`
-	InvalidValueTreatment InvalidValueTreatmentMethod `xml:"returnInvalid,attr" default:"returnInvalid"`
+	InvalidValueTreatment InvalidValueTreatmentMethod `xml:"invalidValueTreatment,attr" default:"returnInvalid"`
 	MapMissingTo          *string                     `xml:"mapMissingTo,attr"`
 
 	Extensions  []Extension `xml:"Extension"`
@@ -357,7 +357,7 @@ func (x *Apply) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 			x.DefaultValue = &val
 		case "function":
 			x.Function = attr.Value
-		case "returnInvalid":
+		case "invalidValueTreatment":
 			if attr.Value != "" {
 				x.InvalidValueTreatment = InvalidValueTreatmentMethod(attr.Value)
 			}
-- 
2.43.0


From 18f5dcfe085e2b4937fc216d58d5cd4e106aa0e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:54 +0000
Subject: [PATCH 15/20] fix: weightedConfidence and aggregateNodes no longer
 depend on map order and node ids

---
 evaluation/tree.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 52639e4..e740a2c 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -256,16 +256,16 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 
 	unknownValues := false
 	var trueDist []scoreDist
-	childRecordCounts := make(map[string]float64)
-	childScores := make(map[string][]scoreDist)
+	childRecordCounts := make([]float64, 0, len(n.children))
+	childScores := make([][]scoreDist, 0, len(n.children))
 	totalRecordCount := 0.0
 
 	for _, c := range n.children {
 		scores, childResult := c.evaluateMissingValueStrategyWeightedConfidence(input)
 
 		if childResult != f {
-			childRecordCounts[c.id] = c.score.recordCount
-			childScores[c.id] = scores
+			childRecordCounts = append(childRecordCounts, c.score.recordCount)
+			childScores = append(childScores, scores)
 			totalRecordCount += c.score.recordCount
 		}
 
@@ -282,14 +282,16 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 
 	if unknownValues {
 		aggScoreMap := make(map[string]scoreDist)
+		values := make([]string, 0, 0)
 
-		for nid, scores := range childScores {
+		for i, scores := range childScores {
 			for _, score := range scores {
 				aggScore, ok := aggScoreMap[score.value]
 				if !ok {
 					aggScore = scoreDist{value: score.value}
+					values = append(values, score.value)
 				}
-				nodeRecordCount := childRecordCounts[nid]
+				nodeRecordCount := childRecordCounts[i]
 
 				aggScore.recordCount += score.recordCount
 				aggScore.probability += score.probability * (nodeRecordCount / totalRecordCount)
@@ -300,8 +302,8 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 		}
 
 		aggScores := make([]scoreDist, 0, 0)
-		for _, aggScore := range aggScoreMap {
-			aggScores = append(aggScores, aggScore)
+		for _, value := range values {
+			aggScores = append(aggScores, aggScoreMap[value])
 		}
 
 		return aggScores, t
@@ -338,6 +340,7 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 
 	if unknownValues {
 		aggScoreMap := make(map[string]scoreDist)
+		values := make([]string, 0, 0)
 
 		recordCount := 0.0
 		for _, sc := range childScores {
@@ -345,6 +348,7 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 
 			if !ok {
 				aggScore.value = sc.value
+				values = append(values, sc.value)
 			}
 
 			aggScore.recordCount += sc.recordCount
@@ -353,7 +357,8 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 		}
 
 		aggScores := make([]scoreDist, 0, 0)
-		for _, aggScore := range aggScoreMap {
+		for _, value := range values {
+			aggScore := aggScoreMap[value]
 			aggScore.probability = aggScore.recordCount / recordCount
 			aggScore.confidence = aggScore.recordCount / recordCount
 			aggScores = append(aggScores, aggScore)
-- 
2.43.0


From ee264d3b4f893d0c6298e568aa1982cc11e8e5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 16/20] fix: hand-written decoders skip elements they do not
 know instead of failing

---
 models/elements.go | 51 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/models/elements.go b/models/elements.go
index a0e152e..07377bd 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -171,6 +171,11 @@ func (x *Alternate) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) e
 						return err
 					}
 					x.Distribution = item
+				} else {
+					err = decoder.Skip()
+					if err != nil {
+						return err
+					}
 				}
 			}
 		case xml.EndElement:
@@ -406,6 +411,11 @@ func (x *Apply) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -959,6 +969,11 @@ func (x *ChildParent) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement)
 				item = &InlineTable{}
 			case "TableLocator":
 				item = &TableLocator{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -1256,6 +1271,11 @@ func (x *CompoundPredicate) UnmarshalXML(decoder *xml.Decoder, start xml.StartEl
 					}
 
 					x.Predicates = append(x.Predicates, item)
+				} else {
+					err = decoder.Skip()
+					if err != nil {
+						return err
+					}
 				}
 			}
 
@@ -1771,6 +1791,11 @@ func (x *DefineFunction) UnmarshalXML(decoder *xml.Decoder, start xml.StartEleme
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -1892,6 +1917,11 @@ func (x *DerivedField) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -2424,6 +2454,11 @@ func (x *InlineTable) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement)
 				}
 
 				x.Rows = append(x.Rows, row)
+			} else {
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 		case xml.EndElement:
@@ -3418,6 +3453,11 @@ func (x *Node) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 						return err
 					}
 					x.EmbeddedModel = item
+				} else {
+					err = decoder.Skip()
+					if err != nil {
+						return err
+					}
 				}
 			}
 
@@ -3791,6 +3831,11 @@ func (x *PMML) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 					}
 
 					x.Models = append(x.Models, model)
+				} else {
+					err = decoder.Skip()
+					if err != nil {
+						return err
+					}
 				}
 			}
 		case xml.EndElement:
@@ -4538,6 +4583,12 @@ func (x *Segment) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) err
 				}
 
 				x.Models = append(x.Models, model)
+				continue
+			}
+
+			err = decoder.Skip()
+			if err != nil {
+				return err
 			}
 		case xml.EndElement:
 			return nil
-- 
2.43.0


From dc2d96e3692473a7cec837809d4eee94df1a9ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:17 +0000
Subject: [PATCH 17/20] fix: building a model leaves the document's
 transformation dictionary alone

---
 evaluation/mining.go | 7 ++++---
 evaluation/tree.go   | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index c153732..9a24ae8 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -88,9 +88,10 @@ func (m *MiningModel) Compile() error {
 		m.fieldTypes[df.Name] = df.DataType
 	}
 
-	for _, tf := range m.model.LocalTransformations.DerivedFields {
-		m.td.DerivedFields = append(m.td.DerivedFields, tf)
-	}
+	td := *m.td
+	td.DerivedFields = append([]models.DerivedField(nil), m.td.DerivedFields...)
+	td.DerivedFields = append(td.DerivedFields, m.model.LocalTransformations.DerivedFields...)
+	m.td = &td
 
 	for _, df := range m.td.DerivedFields {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
diff --git a/evaluation/tree.go b/evaluation/tree.go
index e740a2c..d95943a 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -720,9 +720,10 @@ func (m *TreeModel) Compile() error {
 		m.fieldTypes[df.Name] = df.DataType
 	}
 
-	for _, tf := range m.model.LocalTransformations.DerivedFields {
-		m.td.DerivedFields = append(m.td.DerivedFields, tf)
-	}
+	td := *m.td
+	td.DerivedFields = append([]models.DerivedField(nil), m.td.DerivedFields...)
+	td.DerivedFields = append(td.DerivedFields, m.model.LocalTransformations.DerivedFields...)
+	m.td = &td
 
 	for _, df := range m.td.DerivedFields {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
-- 
2.43.0


From 9a0ce061e9b59c6548e41256609f8652fcc5d4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:44 +0000
Subject: [PATCH 18/20] fix: compiling an ensemble again does not add its
 segments twice

---
 evaluation/mining.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 9a24ae8..eb52e9d 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -97,6 +97,7 @@ func (m *MiningModel) Compile() error {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
+	m.segmodels = nil
 	for _, seg := range m.model.Segmentation.Segments {
 		if len(seg.Models) != 1 {
 			return fmt.Errorf("unsupported single segment model group size %d", len(seg.Models))
-- 
2.43.0


From 291ddcfecbf6a431843d284e485fb8a22039a0b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:05:00 +0000
Subject: [PATCH 19/20] fix: PMML, Segment and InlineTable keep their Extension
 children

---
 models/elements.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/models/elements.go b/models/elements.go
index 07377bd..9ce368e 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -2454,6 +2454,14 @@ func (x *InlineTable) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement)
 				}
 
 				x.Rows = append(x.Rows, row)
+			} else if tok.Name.Local == "Extension" {
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+
+				x.Extensions = append(x.Extensions, e)
 			} else {
 				err = decoder.Skip()
 				if err != nil {
@@ -3803,6 +3811,14 @@ func (x *PMML) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 		switch tok := token.(type) {
 		case xml.StartElement:
 			switch tok.Name.Local {
+			case "Extension":
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+
+				x.Extensions = append(x.Extensions, e)
 			case "Header":
 				err = decoder.DecodeElement(&x.Header, &tok)
 				if err != nil {
@@ -4564,6 +4580,17 @@ func (x *Segment) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) err
 		}
 		switch tok := token.(type) {
 		case xml.StartElement:
+			if tok.Name.Local == "Extension" {
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+
+				x.Extensions = append(x.Extensions, e)
+				continue
+			}
+
 			pred, ok := GetPredicate(tok.Name.Local)
 			if ok {
 				err = decoder.DecodeElement(pred, &tok)
-- 
2.43.0


From 8bf8c3996bc174b9bc3cd23ab77e0a284f691511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:41 +0000
Subject: [PATCH 20/20] fix: set predicates test membership in their array
 instead of always answering false

---
 evaluation/tree.go | 52 +++++++++++++++++++++++++++++++++++++++++++++-
 models/elements.go |  2 ++
 2 files changed, 53 insertions(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index d95943a..3d5016a 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -3,6 +3,7 @@ package evaluation
 import (
 	"fmt"
 	"github.com/flukeish/pmml/models"
+	"github.com/mattn/go-shellwords"
 	"strconv"
 )
 
@@ -434,6 +435,27 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 		}
 
 		p.RawPredicateValue = pv
+	case *models.SimpleSetPredicate:
+		predicateValueType, ok := m.fieldTypes[p.Field]
+		if !ok {
+			return fmt.Errorf("unknown field type for %s", p.Field)
+		}
+
+		words, err := shellwords.Parse(p.Array.RawValue)
+		if err != nil {
+			return err
+		}
+
+		var values []interface{}
+		for _, word := range words {
+			pv, err := getRawValue(predicateValueType, word)
+			if err != nil {
+				return err
+			}
+			values = append(values, pv)
+		}
+
+		p.RawArrayValues = values
 	case *models.CompoundPredicate:
 		for _, cp := range p.Predicates {
 			err := compilePredicate(m, cp)
@@ -513,7 +535,7 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		}
 	case *models.SimpleSetPredicate:
 		n.test = func(input DataRow) predicateResult {
-			return f
+			return evaluateSimpleSetPredicate(p, input, m.fieldTypes)
 		}
 	default:
 		return n, fmt.Errorf("unsupported node predicate %T", p)
@@ -639,6 +661,34 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 }
 
 func evaluateSimpleSetPredicate(p *models.SimpleSetPredicate, input DataRow, fieldTypes map[models.FieldName]models.DataType) predicateResult {
+	if _, ok := fieldTypes[p.Field]; !ok {
+		return f
+	}
+
+	val, ok := input[string(p.Field)]
+	if !ok || val.Raw() == nil {
+		return u
+	}
+
+	isIn := false
+	for _, raw := range p.RawArrayValues {
+		if equalsRaw(val, raw) {
+			isIn = true
+			break
+		}
+	}
+
+	switch p.BooleanOperator {
+	case models.SimpleSetPredicateOperatorIsIn:
+		if isIn {
+			return t
+		}
+	case models.SimpleSetPredicateOperatorIsNotIn:
+		if !isIn {
+			return t
+		}
+	}
+
 	return f
 }
 
diff --git a/models/elements.go b/models/elements.go
index 9ce368e..2b73c07 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -4884,6 +4884,8 @@ type SimpleSetPredicate struct {
 
 	Array      Array       `xml:"Array"`
 	Extensions []Extension `xml:"Extension"`
+
+	RawArrayValues []interface{} `xml:"-"`
 }
 
 func (*SimpleSetPredicate) predicate() {}
-- 
2.43.0


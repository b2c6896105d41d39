#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single place where the property texts live)."""
import json, os
P=[]
def p(id,title,statement,over,q,why,files,mech,obs,state=()):
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=q),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in state],
      mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=obs,hook_needed=None)))
I=["inputs"]; IC=["inputs","configurations"]
ev='evaluation/'; mo='models/'
p("C01","Element names map to exactly the right kind of document object",
 "For every element name, looking up a polymorphic PMML kind (distribution, expression, embedded model, model, predicate, table) yields a fresh, empty object of the type PMML gives to that name, and reports 'unknown' with no object for every other name.",
 I,"all strings as element names, all six families","Tests parse a handful of documents that mention perhaps a quarter of the 41 names; a swapped, missing or shared object for one of the others passes them all.",
 [mo+'groups.go'],[("factory switches","models/groups.go Get*")],["return values of the exported lookup functions"])
p("C02","Decoding keeps every child element, in order, in the right place",
 "Decoding any element that has a hand-written decoder stores each known child element, in document order, in the collection that stands for it, each known attribute in its field, and skips elements it does not know. It ends exactly at the element's own end tag, and a failing child, an unreadable attribute value or a truncated stream makes the whole decode fail.",
 I,"all XML token streams (children in any order and number, any attributes, an error at any point)","Tests decode a few well-formed documents; token streams that fail midway, foreign elements, repeated children and most child kinds never occur.",
 [mo+'elements.go'],[("token loops","models/elements.go UnmarshalXML of Alternate, Apply, ChildParent, CompoundPredicate, DefineFunction, DerivedField, InlineTable, Node, PMML, Segment, Row")],["the decoded structs and the returned error"])
p("C03","Typed arrays read back every element, or an error",
 "Reading a PMML array as strings, integers or reals is allowed only for an array declared with that type and returns exactly the tokens of its text, converted one by one in order; a text that cannot be split or a token that is not a number gives an error and no values. Reading again gives the same result.",
 I,"all declared types, all array texts, any number of reads","The tests read one array of each type; wrong-type access, malformed tokens in the middle and repeated reads after failure are untested.",
 [mo+'complexTypes.go'],[("token conversion and cache","models/complexTypes.go Strings, Int64s, Float64s")],["returned slices and errors"],[("cached values","last converted values","ArrayType")])
p("C04","Values convert faithfully between representations",
 "A value holding a number of any Go integer or floating type reads back as that number in every numeric form (subject only to the target type's own conversion), a text value reads as the number it spells, as 0 if it spells none, and any other value reads as 0. The text form is the text itself, the value's own text method, or the default formatting, and the truth form is true only for a true boolean.",
 I,"all dynamic types and all contents of a value","Tests exercise float64 and string values; the other ten numeric types and mixed conversions are never read.",
 [ev+'miningschema.go'],[("type-directed conversions","evaluation/miningschema.go Value methods")],["results of the exported value accessors"])
p("C05","Transformation expressions compute what they say",
 "For every expression tree, a field reference yields the row's current value (missing if absent), a constant its declared number, the arithmetic functions and the sum combine the numeric readings of their operands in order, missing-tests report exactly whether the operand is missing, and a conditional yields the branch its condition selects. A wrong operand count, an unsupported function, type or expression kind, or an error in any operand that is evaluated makes the whole expression fail.",
 I,"all expression trees over the supported kinds and all rows","The test models use a few fixed expressions on fixed rows; nesting, error propagation and operand order are barely sampled.",
 [ev+'input.go'],[("expression evaluator","evaluation/input.go HandleExpression and its helpers")],["value and error of the exported expression evaluator; derived fields"])
p("C06","Table lookups return the matching row, else default, else input",
 "A value-mapping expression takes the text of the row field bound to its input column and returns the output cell of the last table row whose input cell equals that text. Without such a row it returns its declared default converted to its data type, without a default the bound input value, and it fails if the default cannot be converted or nothing is bound.",
 I,"all column bindings, tables, defaults and rows","Tests map a few fixed categories; duplicate rows, several tables, missing inputs and typed defaults do not occur.",
 [ev+'input.go'],[("map-values evaluation","evaluation/input.go handleMapValuesExpression"),("typed literals","evaluation/evaluation.go getRawValue")],["value and error of the exported expression evaluator"])
p("C07","Derived fields are computed in order and touch nothing else",
 "Preparing an input row evaluates the local derived fields in declaration order, each one seeing the fields derived before it, and stores each result under the derived field's own name, as a number if the field is continuous and its value is not missing. Every other field of the row is unchanged, and the first failing expression stops preparation with an error.",
 I,"all lists of derived fields (including ones that shadow inputs or each other) and all rows","Tests have short independent lists; shadowing, dependence on earlier derived fields, missing values and failures are not covered.",
 [ev+'input.go'],[("row preparation","evaluation/input.go HandleInput")],["the prepared row and the error"],[("input row","field values visible to the model","evaluation.DataRow")])
p("C08","Simple predicates follow three-valued logic",
 "A comparison predicate is true or false according to its operator applied to the field's value and the predicate's literal, compared as numbers for numeric fields and as raw values otherwise, and is unknown exactly when the value is missing (absent or empty). The missing-tests never answer unknown, and a field without a known type or an ordering on a non-numeric field never answers true.",
 I,"all operators, field types, literals, values and rows","Tests cover some operators on doubles and strings; integers, floats, booleans, NaN and missing values in each operator are unsampled.",
 [ev+'tree.go'],[("predicate evaluation","evaluation/tree.go evaluateSimplePredicate")],["which tree branch is taken, hence the prediction"])
p("C09","Compound predicates follow three-valued logic",
 "'and' is false if any operand is false, else unknown if any is unknown, else true; 'or' is true if any is true, else unknown if any is unknown, else false; 'xor' is unknown if any is unknown, else the parity of true operands; 'surrogate' is the first operand that is not unknown. This holds for any number and nesting of comparison, set, compound and constant operands.",
 I,"all compound predicate trees and all rows","Tests use two-operand 'and'/'or' on known values; unknowns in every position, xor, surrogate and nesting are not sampled.",
 [ev+'tree.go'],[("compound evaluation","evaluation/tree.go evaluateCompoundPredicate")],["which tree branch is taken, hence the prediction"])
p("C10","Predicate literals are typed by their field, or the model is rejected",
 "When a tree model is built, the literal of every comparison predicate at every depth is converted to the data type of its field (data dictionary or derived field), and an unknown field or unconvertible literal anywhere makes construction fail. Missing-tests need a known field but no literal.",
 I,"all predicate trees, field types and literals","Tests only build valid models with double and string fields; one bad literal deep in a compound predicate is never tried.",
 [ev+'tree.go',ev+'evaluation.go'],[("predicate compilation","evaluation/tree.go compilePredicate"),("literal conversion","evaluation/evaluation.go getRawValue")],["construction error; predictions"],[("typed literal","converted predicate value","models.SimplePredicate")])
p("C11","The compiled tree mirrors the document tree",
 "Building a tree model yields, for every document node and in document order, a node with the same id, default child and score, the same children, and one class score per score distribution, whose confidence and probability are the declared ones or else its share of the records. Each node decides by its own predicate, and a node without a supported predicate makes construction fail.",
 I,"all document trees (any shape, depth and distributions)","Tests build a few trees; declared versus computed probabilities, captured predicates per node and malformed nodes deep down are not sampled.",
 [ev+'tree.go'],[("node compilation","evaluation/tree.go newNode")],["predictions and reported probabilities; construction error"])
p("C12","Tree traversal: first true child, null prediction on unknown",
 "Without a missing-value strategy a tree descends from each reached node to the first child whose predicate is true, treating unknown as false, and predicts at the last node reached; with the null-prediction strategy an unknown met before a true child gives no prediction. A non-leaf node without true child predicts itself, or nothing if the model asks for a null prediction there.",
 I,"all trees, predicates and rows under these two strategies","Tests follow a few fixed paths; several true siblings, unknowns before or after the true child and dead ends are not sampled.",
 [ev+'tree.go'],[("traversal","evaluation/tree.go evaluateMissingValueStrategyNone, ...NullPrediction, outputScoreDist")],["predicted class, probabilities or absence of prediction"])
p("C13","Tree traversal: last-prediction and default-child strategies",
 "With last-prediction, a node with an unknown child predicts itself, and otherwise its true child's prediction. With default-child, a node with an unknown child gives its default child's distribution with every confidence and probability multiplied by the missing-value penalty, or an unknown result if it has no such child.",
 I,"all trees, default children, penalties and rows under these two strategies","Two small documents are tested with one row each; nested unknowns, absent defaults and repeated penalties are not sampled.",
 [ev+'tree.go'],[("traversal","evaluation/tree.go evaluateMissingValueStrategyLastPrediction, ...DefaultChild")],["predicted class, probabilities or absence of prediction"])
p("C14","Tree traversal: weighted-confidence and aggregate-nodes strategies",
 "When a child is unknown, weighted-confidence adds up, per class, the confidences and probabilities of all children not known to be false, weighted by their share of those children's records, and aggregate-nodes gives each class its share of the pooled record counts of all children. Classes appear in order of first contribution, so the result is a function of tree and row alone.",
 I,"all trees, distributions and rows under these two strategies","One document and one row each; repeated runs, children with equal or empty ids and several levels of unknowns are not sampled.",
 [ev+'tree.go'],[("traversal","evaluation/tree.go evaluateMissingValueStrategyWeightedConfidence, ...AggregateNodes")],["predicted class and probabilities"])
p("C15","Tree outputs: winner, class probabilities, numeric score",
 "A classification tree reports under the target field the class with the highest positive probability (the first such in case of a tie) and, for every class of the reached distribution, its probability under 'probability(class)'; a regression tree reports the numeric value of the reached score, or an error if it is not a number. No prediction gives a nil result, and leaf nodes without distribution give certainty to their own score among the target's declared values.",
 I,"all reached distributions, target fields and data dictionaries","Tests compare a few probabilities; ties, zero and NaN probabilities, empty distributions and non-numeric scores are not sampled.",
 [ev+'tree.go'],[("winner selection","evaluation/tree.go pickBest, TreeModel.Evaluate"),("leaf distribution","evaluation/tree.go outputScoreDist")],["returned output row"])
p("C16","Ensembles: sum and average of segment scores, then rescaling",
 "A summing ensemble evaluates every segment once, in order, on the same row and reports, for each output field and each target, the sum of the segments' values for it (per field for classification, the score for regression), each target then multiplied by its rescale factor and shifted by its rescale constant. An averaging ensemble reports that result divided by the number of segments, and any segment error is returned instead of a result.",
 I,"all lists of segments, outputs, targets and rescalings, all segment results","The test ensembles are fixed files with verification rows; empty ensembles, several targets, both rescalings and errors in the middle are not sampled.",
 [ev+'mining.go'],[("aggregation","evaluation/mining.go evaluateMultipleModelSum, evaluateMultipleModelAverage")],["returned output row and error"])
p("C17","Ensembles: model chain and select-first",
 "A model chain evaluates its segments in order, adding all outputs of each segment to the row the next one sees, and returns the last segment's output. Select-first returns the first segment's result, and both return the first segment error met and nothing else; an unconfigured combination method means summing.",
 I,"all lists of segments and all segment results","Fixed two-segment chains are tested; longer chains, overwritten fields, nil outputs and errors are not sampled.",
 [ev+'mining.go'],[("chaining and dispatch","evaluation/mining.go evaluateMultipleModelChain, evaluateMultipleModelSelectFirst, MiningModel.Evaluate")],["returned output row and error; row seen by later segments"])
p("C18","Missing values are replaced by the declared replacement, nothing else is",
 "Before an ensemble evaluates anything, every mining field that declares a replacement and is absent or empty in the row gets that replacement, and every other field keeps its value.",
 I,"all mining schemas and rows","Tests never check the row after replacement, nor rows where a declared field is present, empty or absent in combination.",
 [ev+'mining.go'],[("imputation","evaluation/mining.go imputeMissingValues, Compile")],["row contents and predictions"],[("replacement table","replacement per field","MiningModel")])
p("C19","Regression score: linear predictor through the declared link",
 "A regression model reports under its output field the declared link function (identity, logit or softmax as the logistic function, exp, complementary log-log, Cauchit) of intercept plus the sum of coefficient times field value. A missing field, an unsupported link, or other than one table and one output gives an error.",
 I,"all coefficients, predictors, links and rows","No test evaluates a regression-type regression model, and the classification files use coefficient 1 and intercept 0.",
 [ev+'regression.go'],[("linear predictor and link","evaluation/regression.go EvaluateRegression, normalize")],["returned output row and error"])
p("C20","Classification by regression tables",
 "With two outputs, each table with predictors gives its category the link function of its linear predictor, a table without predictors gives its category the probability left over by the tables before it; otherwise every category with an output gets its softmax or simplemax share among all tables' linear predictors. A missing field or unsupported link is an error.",
 I,"all tables, coefficients, categories, outputs and rows","The test files have one predictor of coefficient 1; several predictors, table orders, multi-class models and unmatched categories are not sampled.",
 [ev+'regression.go'],[("binary and multi-class evaluation","evaluation/regression.go EvaluateBinaryClassification, EvaluateMulticlassClassification")],["returned output row and error"])
p("C21","Construction accepts exactly what evaluation supports",
 "Building a model of an unknown kind, a tree with an unsupported mining function, or an ensemble with an unsupported combination method, output feature or a segment without exactly one model fails; otherwise the result is a model of the matching kind with one sub-model per segment in order. A tree or ensemble that was not validated or not compiled answers evaluation with the corresponding error.",
 IC,"all documents and construction histories","Tests build supported documents only.",
 [ev+'evaluation.go',ev+'mining.go',ev+'tree.go'],[("construction","evaluation/evaluation.go NewModel; Validate/Compile of each model")],["construction error, evaluation error, dynamic type"],[("lifecycle flags","validated, compiled","TreeModel, MiningModel")])
p("C22","Verification passes only if every recorded output is reproduced",
 "Verifying a model feeds each verification row's input cells to the model under their field names and succeeds only if every recorded output cell is produced by the model and agrees with it within one part in 100,000; a disagreement, a missing output, a prediction that is not a number or an evaluation error makes it fail. A model without verification data passes.",
 I,"all verification tables, all model behaviours, including negative, zero and NaN values","The test models all verify; a verifier that accepts too much would never be noticed, and negative or zero expected values do not occur.",
 [ev+'evaluation.go'],[("verification","evaluation/evaluation.go verifyModel")],["error of Verify"])
p("C23","Evaluation leaves the model and the document unchanged",
 "Evaluating a model changes nothing reachable by anyone else except the row it was given, and returns a row of its own. Hence a model answers equal rows equally, however often and in whatever order (or concurrently on distinct rows) it is asked.",
 ["inputs","histories","schedules"],"all models, rows, evaluation histories and interleavings on distinct rows","Tests evaluate once, from one goroutine; writes to shared state and results depending on earlier calls stay invisible.",
 [ev+'tree.go',ev+'mining.go',ev+'regression.go',ev+'input.go'],[("evaluation paths","Evaluate of each model and everything it calls")],["model and document after evaluation; repeated results"])
p("C24","Evaluation of a constructed model never panics",
 "Evaluating any model that construction accepted, on any non-nil row, returns a result or an error and never panics: no nil dereference, index out of range, failed type assertion, write to a nil map or call of a missing predicate.",
 I,"all constructed models and all rows","Tests evaluate a few complete rows on well-formed models; panics need the odd row or model.",
 [ev+'tree.go',ev+'mining.go',ev+'regression.go',ev+'input.go',ev+'miningschema.go'],[("all evaluation code","evaluation/*.go")],["absence of panics"])
p("C25","Segment predicates decide which segments take part",
 "In an ensemble a segment contributes only if its own predicate is true for the row, and select-first returns the first segment whose predicate is true.",
 I,"all segment predicates and rows","All test segments carry the constant-true predicate.",
 [ev+'mining.go'],[("segment evaluation","evaluation/mining.go")],["returned output row"])
p("C26","Set predicates test membership in their array",
 "A set predicate is true if the field's value is (for 'isIn') or is not (for 'isNotIn') an element of its array, unknown if the value is missing, and false otherwise. The elements are the words of the array, typed by the field when the model is built, and compared like the literal of an equality test; an unknown field or an unconvertible element makes construction fail.",
 I,"all arrays, field types and rows","No test uses a set predicate.",
 [ev+'tree.go',mo+'elements.go'],[("set predicate evaluation","evaluation/tree.go evaluateSimpleSetPredicate"),("element typing","evaluation/tree.go compilePredicate")],["predictions; construction error"],[("typed elements","converted array elements","models.SimpleSetPredicate")])
p("C27","Dictionary-level derived fields are available to models",
 "A derived field declared in the document's transformation dictionary has its computed value wherever a model refers to it.",
 I,"all documents and rows","No test document has such a field.",
 [ev+'input.go'],[("row preparation","evaluation/input.go HandleInput")],["predictions"])
p("C28","Class probabilities form a distribution",
 "The class probabilities a classification reports are between 0 and 1 and add up to 1 up to rounding, for score distributions without declared probabilities and for softmax and logistic models.",
 I,"all models and rows","Tests compare single numbers.",
 [ev+'tree.go',ev+'regression.go'],[("probability computation","evaluation/tree.go newNode; evaluation/regression.go")],["reported probabilities"])
p("C29","Tag-driven decoding fills every declared field",
 "Every attribute and child element that the PMML schema gives to an element is decoded into the corresponding field of its struct.",
 I,"all documents","Tests decode a few elements.",
 [mo+'elements.go'],[("struct tags","models/elements.go")],["decoded structs"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x)+"\n")

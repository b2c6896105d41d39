package models

// C01: the factories of polymorphic kinds.

func contract_GetContinuousDistributionType(name string, e ContinuousDistributionType, ok bool) {
	modifies_()
	shows_("C01.AnyDistribution", func() bool {
		return implies_(name == "AnyDistribution", ok && is_[*AnyDistribution](e) && fresh_(as_[*AnyDistribution](e)) && same_(*as_[*AnyDistribution](e), AnyDistribution{}))
	})
	shows_("C01.GaussianDistribution", func() bool {
		return implies_(name == "GaussianDistribution", ok && is_[*GaussianDistribution](e) && fresh_(as_[*GaussianDistribution](e)) && same_(*as_[*GaussianDistribution](e), GaussianDistribution{}))
	})
	shows_("C01.PoissonDistribution", func() bool {
		return implies_(name == "PoissonDistribution", ok && is_[*PoissonDistribution](e) && fresh_(as_[*PoissonDistribution](e)) && same_(*as_[*PoissonDistribution](e), PoissonDistribution{}))
	})
	shows_("C01.UniformDistribution", func() bool {
		return implies_(name == "UniformDistribution", ok && is_[*UniformDistribution](e) && fresh_(as_[*UniformDistribution](e)) && same_(*as_[*UniformDistribution](e), UniformDistribution{}))
	})
	ensures_("C01.known names", func() bool { return ok == isNameContinuousDistributionType_(name) })
	ensures_("C01.known name", func() bool {
		return implies_(ok, e != nil && fresh_(e) && typeName_(e) == name)
	})
	ensures_("C01.unknown name", func() bool { return implies_(!ok, e == nil) })
}

// isNameContinuousDistributionType_: the names of the kind.
//
//gover:uf
func isNameContinuousDistributionType_(n string) bool {
	return n == "AnyDistribution" || n == "GaussianDistribution" || n == "PoissonDistribution" || n == "UniformDistribution"
}

func contract_GetExpression(name string, e Expression, ok bool) {
	modifies_()
	shows_("C01.Aggregate", func() bool {
		return implies_(name == "Aggregate", ok && is_[*Aggregate](e) && fresh_(as_[*Aggregate](e)) && same_(*as_[*Aggregate](e), Aggregate{}))
	})
	shows_("C01.Apply", func() bool {
		return implies_(name == "Apply", ok && is_[*Apply](e) && fresh_(as_[*Apply](e)) && same_(*as_[*Apply](e), Apply{}))
	})
	shows_("C01.Constant", func() bool {
		return implies_(name == "Constant", ok && is_[*Constant](e) && fresh_(as_[*Constant](e)) && same_(*as_[*Constant](e), Constant{}))
	})
	shows_("C01.Discretize", func() bool {
		return implies_(name == "Discretize", ok && is_[*Discretize](e) && fresh_(as_[*Discretize](e)) && same_(*as_[*Discretize](e), Discretize{}))
	})
	shows_("C01.FieldRef", func() bool {
		return implies_(name == "FieldRef", ok && is_[*FieldRef](e) && fresh_(as_[*FieldRef](e)) && same_(*as_[*FieldRef](e), FieldRef{}))
	})
	shows_("C01.Lag", func() bool {
		return implies_(name == "Lag", ok && is_[*Lag](e) && fresh_(as_[*Lag](e)) && same_(*as_[*Lag](e), Lag{}))
	})
	shows_("C01.MapValues", func() bool {
		return implies_(name == "MapValues", ok && is_[*MapValues](e) && fresh_(as_[*MapValues](e)) && same_(*as_[*MapValues](e), MapValues{}))
	})
	shows_("C01.NormContinuous", func() bool {
		return implies_(name == "NormContinuous", ok && is_[*NormContinuous](e) && fresh_(as_[*NormContinuous](e)) && same_(*as_[*NormContinuous](e), NormContinuous{}))
	})
	shows_("C01.NormDiscrete", func() bool {
		return implies_(name == "NormDiscrete", ok && is_[*NormDiscrete](e) && fresh_(as_[*NormDiscrete](e)) && same_(*as_[*NormDiscrete](e), NormDiscrete{}))
	})
	shows_("C01.TextIndex", func() bool {
		return implies_(name == "TextIndex", ok && is_[*TextIndex](e) && fresh_(as_[*TextIndex](e)) && same_(*as_[*TextIndex](e), TextIndex{}))
	})
	ensures_("C01.known names", func() bool { return ok == isNameExpression_(name) })
	ensures_("C01.known name", func() bool {
		return implies_(ok, e != nil && fresh_(e) && typeName_(e) == name)
	})
	ensures_("C01.unknown name", func() bool { return implies_(!ok, e == nil) })
}

// isNameExpression_: the names of the kind.
//
//gover:uf
func isNameExpression_(n string) bool {
	return n == "Aggregate" || n == "Apply" || n == "Constant" || n == "Discretize" || n == "FieldRef" || n == "Lag" || n == "MapValues" || n == "NormContinuous" || n == "NormDiscrete" || n == "TextIndex"
}

func contract_GetEmbeddedModel(name string, e EmbeddedModel, ok bool) {
	modifies_()
	shows_("C01.DecisionTree", func() bool {
		return implies_(name == "DecisionTree", ok && is_[*DecisionTree](e) && fresh_(as_[*DecisionTree](e)) && same_(*as_[*DecisionTree](e), DecisionTree{}))
	})
	shows_("C01.Regression", func() bool {
		return implies_(name == "Regression", ok && is_[*Regression](e) && fresh_(as_[*Regression](e)) && same_(*as_[*Regression](e), Regression{}))
	})
	ensures_("C01.known names", func() bool { return ok == isNameEmbeddedModel_(name) })
	ensures_("C01.known name", func() bool {
		return implies_(ok, e != nil && fresh_(e) && typeName_(e) == name)
	})
	ensures_("C01.unknown name", func() bool { return implies_(!ok, e == nil) })
}

// isNameEmbeddedModel_: the names of the kind.
//
//gover:uf
func isNameEmbeddedModel_(n string) bool {
	return n == "DecisionTree" || n == "Regression"
}

func contract_GetModelElement(name string, e ModelElement, ok bool) {
	modifies_()
	shows_("C01.AssociationModel", func() bool {
		return implies_(name == "AssociationModel", ok && is_[*AssociationModel](e) && fresh_(as_[*AssociationModel](e)) && same_(*as_[*AssociationModel](e), AssociationModel{}))
	})
	shows_("C01.BaselineModel", func() bool {
		return implies_(name == "BaselineModel", ok && is_[*BaselineModel](e) && fresh_(as_[*BaselineModel](e)) && same_(*as_[*BaselineModel](e), BaselineModel{}))
	})
	shows_("C01.BayesianNetworkModel", func() bool {
		return implies_(name == "BayesianNetworkModel", ok && is_[*BayesianNetworkModel](e) && fresh_(as_[*BayesianNetworkModel](e)) && same_(*as_[*BayesianNetworkModel](e), BayesianNetworkModel{}))
	})
	shows_("C01.ClusteringModel", func() bool {
		return implies_(name == "ClusteringModel", ok && is_[*ClusteringModel](e) && fresh_(as_[*ClusteringModel](e)) && same_(*as_[*ClusteringModel](e), ClusteringModel{}))
	})
	shows_("C01.GaussianProcessModel", func() bool {
		return implies_(name == "GaussianProcessModel", ok && is_[*GaussianProcessModel](e) && fresh_(as_[*GaussianProcessModel](e)) && same_(*as_[*GaussianProcessModel](e), GaussianProcessModel{}))
	})
	shows_("C01.GeneralRegressionModel", func() bool {
		return implies_(name == "GeneralRegressionModel", ok && is_[*GeneralRegressionModel](e) && fresh_(as_[*GeneralRegressionModel](e)) && same_(*as_[*GeneralRegressionModel](e), GeneralRegressionModel{}))
	})
	shows_("C01.MiningModel", func() bool {
		return implies_(name == "MiningModel", ok && is_[*MiningModel](e) && fresh_(as_[*MiningModel](e)) && same_(*as_[*MiningModel](e), MiningModel{}))
	})
	shows_("C01.NaiveBayesModel", func() bool {
		return implies_(name == "NaiveBayesModel", ok && is_[*NaiveBayesModel](e) && fresh_(as_[*NaiveBayesModel](e)) && same_(*as_[*NaiveBayesModel](e), NaiveBayesModel{}))
	})
	shows_("C01.NearestNeighborModel", func() bool {
		return implies_(name == "NearestNeighborModel", ok && is_[*NearestNeighborModel](e) && fresh_(as_[*NearestNeighborModel](e)) && same_(*as_[*NearestNeighborModel](e), NearestNeighborModel{}))
	})
	shows_("C01.NeuralNetwork", func() bool {
		return implies_(name == "NeuralNetwork", ok && is_[*NeuralNetwork](e) && fresh_(as_[*NeuralNetwork](e)) && same_(*as_[*NeuralNetwork](e), NeuralNetwork{}))
	})
	shows_("C01.RegressionModel", func() bool {
		return implies_(name == "RegressionModel", ok && is_[*RegressionModel](e) && fresh_(as_[*RegressionModel](e)) && same_(*as_[*RegressionModel](e), RegressionModel{}))
	})
	shows_("C01.RuleSetModel", func() bool {
		return implies_(name == "RuleSetModel", ok && is_[*RuleSetModel](e) && fresh_(as_[*RuleSetModel](e)) && same_(*as_[*RuleSetModel](e), RuleSetModel{}))
	})
	shows_("C01.Scorecard", func() bool {
		return implies_(name == "Scorecard", ok && is_[*Scorecard](e) && fresh_(as_[*Scorecard](e)) && same_(*as_[*Scorecard](e), Scorecard{}))
	})
	shows_("C01.SequenceModel", func() bool {
		return implies_(name == "SequenceModel", ok && is_[*SequenceModel](e) && fresh_(as_[*SequenceModel](e)) && same_(*as_[*SequenceModel](e), SequenceModel{}))
	})
	shows_("C01.SupportVectorMachineModel", func() bool {
		return implies_(name == "SupportVectorMachineModel", ok && is_[*SupportVectorMachineModel](e) && fresh_(as_[*SupportVectorMachineModel](e)) && same_(*as_[*SupportVectorMachineModel](e), SupportVectorMachineModel{}))
	})
	shows_("C01.TextModel", func() bool {
		return implies_(name == "TextModel", ok && is_[*TextModel](e) && fresh_(as_[*TextModel](e)) && same_(*as_[*TextModel](e), TextModel{}))
	})
	shows_("C01.TimeSeriesModel", func() bool {
		return implies_(name == "TimeSeriesModel", ok && is_[*TimeSeriesModel](e) && fresh_(as_[*TimeSeriesModel](e)) && same_(*as_[*TimeSeriesModel](e), TimeSeriesModel{}))
	})
	shows_("C01.TreeModel", func() bool {
		return implies_(name == "TreeModel", ok && is_[*TreeModel](e) && fresh_(as_[*TreeModel](e)) && same_(*as_[*TreeModel](e), TreeModel{}))
	})
	ensures_("C01.known names", func() bool { return ok == isNameModelElement_(name) })
	ensures_("C01.known name", func() bool {
		return implies_(ok, e != nil && fresh_(e) && typeName_(e) == name)
	})
	ensures_("C01.unknown name", func() bool { return implies_(!ok, e == nil) })
}

// isNameModelElement_: the names of the kind.
//
//gover:uf
func isNameModelElement_(n string) bool {
	return n == "AssociationModel" || n == "BaselineModel" || n == "BayesianNetworkModel" || n == "ClusteringModel" || n == "GaussianProcessModel" || n == "GeneralRegressionModel" || n == "MiningModel" || n == "NaiveBayesModel" || n == "NearestNeighborModel" || n == "NeuralNetwork" || n == "RegressionModel" || n == "RuleSetModel" || n == "Scorecard" || n == "SequenceModel" || n == "SupportVectorMachineModel" || n == "TextModel" || n == "TimeSeriesModel" || n == "TreeModel"
}

func contract_GetPredicate(name string, e Predicate, ok bool) {
	modifies_()
	shows_("C01.CompoundPredicate", func() bool {
		return implies_(name == "CompoundPredicate", ok && is_[*CompoundPredicate](e) && fresh_(as_[*CompoundPredicate](e)) && same_(*as_[*CompoundPredicate](e), CompoundPredicate{}))
	})
	shows_("C01.False", func() bool {
		return implies_(name == "False", ok && is_[*False](e) && fresh_(as_[*False](e)) && same_(*as_[*False](e), False{}))
	})
	shows_("C01.SimplePredicate", func() bool {
		return implies_(name == "SimplePredicate", ok && is_[*SimplePredicate](e) && fresh_(as_[*SimplePredicate](e)) && same_(*as_[*SimplePredicate](e), SimplePredicate{}))
	})
	shows_("C01.SimpleSetPredicate", func() bool {
		return implies_(name == "SimpleSetPredicate", ok && is_[*SimpleSetPredicate](e) && fresh_(as_[*SimpleSetPredicate](e)) && same_(*as_[*SimpleSetPredicate](e), SimpleSetPredicate{}))
	})
	shows_("C01.True", func() bool {
		return implies_(name == "True", ok && is_[*True](e) && fresh_(as_[*True](e)) && same_(*as_[*True](e), True{}))
	})
	ensures_("C01.known names", func() bool { return ok == isNamePredicate_(name) })
	ensures_("C01.known name", func() bool {
		return implies_(ok, e != nil && fresh_(e) && typeName_(e) == name)
	})
	ensures_("C01.unknown name", func() bool { return implies_(!ok, e == nil) })
}

// isNamePredicate_: the names of the kind.
//
//gover:uf
func isNamePredicate_(n string) bool {
	return n == "CompoundPredicate" || n == "False" || n == "SimplePredicate" || n == "SimpleSetPredicate" || n == "True"
}

func contract_GetTable(name string, e Table, ok bool) {
	modifies_()
	shows_("C01.InlineTable", func() bool {
		return implies_(name == "InlineTable", ok && is_[*InlineTable](e) && fresh_(as_[*InlineTable](e)) && same_(*as_[*InlineTable](e), InlineTable{}))
	})
	shows_("C01.TableLocator", func() bool {
		return implies_(name == "TableLocator", ok && is_[*TableLocator](e) && fresh_(as_[*TableLocator](e)) && same_(*as_[*TableLocator](e), TableLocator{}))
	})
	ensures_("C01.known names", func() bool { return ok == isNameTable_(name) })
	ensures_("C01.known name", func() bool {
		return implies_(ok, e != nil && fresh_(e) && typeName_(e) == name)
	})
	ensures_("C01.unknown name", func() bool { return implies_(!ok, e == nil) })
}

// isNameTable_: the names of the kind.
//
//gover:uf
func isNameTable_(n string) bool {
	return n == "InlineTable" || n == "TableLocator"
}

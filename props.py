PROPS = []
NOT_APPLICABLE = []


def P(id, title, statement, over, text, why, files, symbols, technique, level_note):
    a = {"files": files, "mechanism": [{"name": n, "where": files[min(i, len(files) - 1)]} for i, n in enumerate(symbols)]}
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text},
                      why_tests_cant=why, anchors=a, technique=technique, level_note=level_note))


P("C01", "Frequencies behave like calendar positions",
  "Moving any frequency (cross-section, year-, week-, day-based or list) by any number of steps, forward or backward, in one "
  "or several moves, ends at the position an independent calendar gives. Subtracting two frequencies of the same class gives exactly the "
  "number of steps between them, and comparing them agrees in sign with that number. Frequencies of different classes are rejected by "
  "subtraction and comparison with an error.",
  ["inputs", "histories"],
  "every frequency class and its parameters, every date of the years 1600-2400, every sequence of moves",
  "The tests move a few hand-picked frequencies by a few steps; the laws must hold for all dates, week ranges, partition counts, list ends and step sequences.",
  ["include/frequency.h", "src/frequency/f_base.cpp", "src/frequency/f_year_based.cpp", "src/frequency/f_week_based.cpp",
   "src/frequency/f_day_based.cpp", "src/frequency/f_list.cpp", "src/frequency/f_cross_section.cpp"],
  ["Frequency::Next", "Frequency::Minus", "Frequency::CompareTo", "DayOfWeekRange"],
  "stateful property-based testing against an independent calendar model",
  "Random search over generated frequencies and move sequences; trusts the reference calendar in harness/freq_gen.h.")
P("C02", "Frequency text round-trips",
  "The text and class text written for any frequency, at any position it was moved to (including beyond the ends of a list), have the documented "
  "format, and parsing them gives back an equal frequency of the same class that continues to move exactly as the original. Any other text is "
  "either parsed or rejected with the library's error, never a crash.",
  ["inputs"],
  "every frequency class and its parameters and position; every perturbed text",
  "The tests round-trip one example per class; the relation must hold for all positions and parameters, and rejection for all malformed texts.",
  ["include/frequency.h", "src/frequency/f_base.cpp", "src/frequency/f_year_based.cpp", "src/frequency/f_week_based.cpp",
   "src/frequency/f_day_based.cpp", "src/frequency/f_list.cpp"],
  ["Frequency::Parse", "Frequency::ToString", "Frequency::ToClassString", "FrequencyList::ParseList", "DayOfWeekRange::Parse"],
  "round-trip property-based testing plus mutation fuzzing of the texts",
  "Random search; the expected text comes from an independent formatter in harness/freq_gen.h.")
P("C03", "Converting daily data puts every observation in its calendar group",
  "Converting daily data to weekly, multi-day, yearly, half-yearly, quarterly, monthly or any x-times-a-year data aggregates exactly the observations "
  "that fall in each calendar week, k-day block (counted from the start or the end) or part of the year, in order and without losing or repeating one, and the result "
  "starts at the frequency of its first group. Converting date-list data, or daily-in-week data starting on the first day of its week, to daily data keeps each value on its own date and puts missing values elsewhere. "
  "Unsupported conversions are rejected, and the built-in aggregates (min, max, mean, first, last, population variance and std) are those of the non-missing values.",
  ["inputs"],
  "every start date, length, week definition and number of parts",
  "The tests convert a handful of series; leap years, year ends, partial weeks and rounding in the part of the year need a search over dates.",
  ["include/variable.h", "src/variable/variable.cpp", "src/array.cpp", "include/array.h", "Rpackage_F/src/r_convert.cpp"],
  ["ConvertTo_XxYear_month_based", "ConvertTo_Daily, ConvertTo_MultiDaily, ConvertTo_Weekly, ConvertTo_XxYear", "Array::PartitionEqual", "Array::GetDescriptive"],
  "property-based testing against an independent calendar",
  "Random search; the groups come from an independent calendar; the aggregate function records what it was given.")
P("C04", "Variables keep their observations on the time axis",
  "The valid range, trimming, linear interpolation and equal partitioning of a variable's data follow their definitions: trimming drops only the "
  "missing ends and moves the start accordingly, interpolation fills only the gaps between observations and reports how many, and the parts of a partition put together are the data. Putting variables of one frequency class on one axis spans from the earliest start to the latest "
  "end with every value at its own period; mixed classes are rejected. A variable's text parses back to an equal variable, malformed text is parsed or rejected without a crash, and the inverse "
  "Box-Cox transformation undoes the forward one.",
  ["inputs"],
  "every frequency class, start, length, pattern of missing values, set of variables and text",
  "Missing-value patterns, overlaps and text contents are combinatorial; the tests use one example of each.",
  ["include/variable.h", "src/variable/variable.cpp", "src/variable/variables.cpp", "src/array.cpp"],
  ["Variable::Trim", "Variable::Parse", "Variables::Variables", "Array::Interpolate, Array::PartitionEqual, Array::BoxCox"],
  "property-based testing against a direct model, round trips and text mutation",
  "Random search over generated variables.")
P("C05", "Matrix arithmetic follows its algebra",
  "Element-wise operations, matrix products (general, transposed, with a diagonal matrix, cross products, one factor symmetric), the Kronecker products and transposes "
  "give the values of their textbook definitions for every shape, write only their own storage and leave their inputs unchanged. "
  "Cross products that skip missing values use exactly the complete rows. Mismatched dimensions are rejected with an error and not computed.",
  ["inputs"],
  "every shape (including vectors, non-square and one-element matrices), scale factors, missing-value patterns and values",
  "The tests use one fixed small matrix per operation; wrong strides, swapped dimensions and out-of-bounds writes show only for other shapes.",
  ["include/matrix.h", "src/matrix/matrix.cpp", "src/matrix/matrix_la.cpp"],
  ["Matrix::Add, Subtract, Multiply, Divide, Pow, Apply", "Matrix::Dot, TrDot, DotTr, TrDotTr, DotDiag, DiagDot, Dot_AAt, Dot_AtA", "Matrix::Kron, KronIden, IdenKron, TrKron", "Matrix::Transpose"],
  "property-based testing against naive reference implementations with exact-size guarded storage under ASan",
  "Random search; references are direct loops with a forward error bound.")
P("C06", "Linear algebra decompositions solve their equations",
  "The inverse, determinant, Cholesky factor, triangular and positive-definite solve, singular values (and vectors), QR factors and matrix norms of any well-conditioned matrix satisfy their defining "
  "equations up to rounding: for example A times its inverse is the identity, the factors multiply back to A and have the required shape and orthogonality. "
  "Singular or non-positive-definite matrices are reported and not silently solved, and no call touches memory outside its storage.",
  ["inputs"],
  "every well-conditioned matrix of a suitable shape, and singular ones",
  "The tests factor one fixed matrix each; shapes (tall, wide, 1x1) and conditioning need a search.",
  ["include/matrix.h", "src/matrix/matrix_la.cpp", "src/matrix/matrix.cpp"],
  ["Matrix::Inv, Inv2x2", "Matrix::Det", "Matrix::Chol", "Matrix::SolveTrian, SolvePos", "Matrix::SVD", "Matrix::QR", "Matrix::Norm"],
  "property-based testing of defining equations and an elimination reference",
  "Random search over generated well-conditioned matrices; tolerances scale with size and condition.")
P("C07", "Matrix and dataset bookkeeping keeps the right cells",
  "Reading, writing, comparing, copying, sub-matrices, row and column selection or removal, sorting and ordering touch exactly the cells they name. Missing-value handling (dropping, "
  "counting, interpolating), extremes, sums, means, variances, covariances, correlations and standardisation of rows, columns or the whole use exactly the intended cells. "
  "Datasets pick exactly the rows complete in the selected columns (or, for time series, the range without missing ends), and packed triangular storage returns what was stored.",
  ["inputs"],
  "every shape, index set, missing-value pattern and value",
  "Index arithmetic errors appear only for particular shapes, subsets and missing patterns; the tests fix one of each.",
  ["include/matrix.h", "include/matrix_utils.h", "src/matrix/matrix.cpp", "src/matrix/dataset.cpp", "src/matrix/matrix_sym.cpp", "src/ldt_statistics/statistics/statistics.cpp"],
  ["Matrix::GetSub, SetSub, GetRow0, GetColumn0", "Matrix::SortByVector, SortIndicesVector, IndicesOfVector", "Matrix::Mean, VarianceColumn, CorrelationColumn, ColumnsVariances", "MatrixStandardized", "Dataset, DatasetTs", "MatrixSym"],
  "property-based testing against direct models of the cells",
  "Random search; direct loops over the cells are the reference.")
P("C08", "Polynomial arithmetic is exact",
  "Products, powers and inverses of polynomials, with scalar or square-matrix coefficients, have the coefficients of their definitions up to the requested number of terms: "
  "products and powers are convolutions, and a matrix polynomial times its inverse is the identity in every computed term. A polynomial whose first coefficient is singular, and degrees larger than "
  "declared, are rejected, and only the declared storage is written.",
  ["inputs"],
  "every degree, matrix size, power, truncation length and coefficient",
  "The tests multiply one pair and invert two polynomials; truncation shorter than an operand and unequal degrees need a search.",
  ["include/math/polynomial.h", "src/ldt_math/polynomials/polynomial.cpp", "src/ldt_math/polynomials/mpolynomial.cpp"],
  ["Polynomial, PolynomialM", "PolynomialMultiply, PolynomialPower", "PolynomialMMultiply, PolynomialMInvert"],
  "property-based testing against naive convolution and the defining identity of the inverse",
  "Random search; rounding error bounds come from sums of absolute values.")
P("C09", "Minimizers and numerical derivatives",
  "On smooth strictly convex functions, Newton (with line search, and without it on quadratic functions) and L-BFGS-B (with any bounds) end at a point that satisfies the conditions of the minimum, L-BFGS-B never "
  "evaluates outside the bounds, and the one-dimensional search ends at the minimum within its bounds. Every minimizer reports the value at the point it reports, Nelder-Mead reports the best penalised value it has seen, and none ends above its start. "
  "Numerical first and second derivatives agree with the exact ones within their discretisation error, and the area under a list of points is the trapezoid sum.",
  ["inputs", "histories"],
  "every dimension, convex function, start, bound set and option",
  "The tests minimise two fixed functions; active bounds, options that are off by default and other dimensions are not covered.",
  ["include/math/optimization.h", "src/ldt_math/optimization/newton.cpp", "src/ldt_math/optimization/lmbfgsb.cpp", "src/ldt_math/optimization/nelder_mead.cpp", "src/ldt_math/derivative.cpp", "src/ldt_math/auc.cpp"],
  ["Newton::Minimize, Minimize2", "wolfe_weak", "LimitedMemoryBFGSB::Minimize", "NelderMead::Minimize, Minimize1", "Derivative::CalculateFirst, CalculateSecond", "AucPoints"],
  "property-based testing of optimality conditions on generated convex functions with exact derivatives",
  "Random search; convergence is claimed on strictly convex functions only.")
P("C11", "Moments, quantiles and filters follow their definitions",
  "Mean, variance, skewness, kurtosis (weighted or not, skipping missing values, over an array or accumulated one observation or one accumulator at a time), sums, extremes "
  "and type-8 quantiles equal their two-pass definitions. Moving-average and recursive filters, the linear trend, the additive or multiplicative seasonal decomposition and the Box-Cox "
  "transformation equal their definitions at every position, and the components of a decomposition give the data back. A storage that is too short is rejected.",
  ["inputs", "histories"],
  "every data set, weight vector, missing pattern, split into accumulators, quantile level, filter and season length",
  "The tests compute each statistic for one vector; zero weights, missing values, merged accumulators, even seasons and windows at the ends need a search.",
  ["include/array.h", "include/math/statistics/running.h", "include/math/statistics/statistics.h", "src/array.cpp", "src/ldt_statistics/statistics/descriptive.cpp"],
  ["Array::Moments", "RunningMoments", "Descriptive", "Array::BoxCox", "Descriptive::FilterMa, FilterAr, SeasonalDecompositionMa, RegressionTrend"],
  "property-based testing against two-pass definitions in extended precision; sequences of updates and merges for the accumulators",
  "Random search; tolerances scale with the loss of precision of the data.")
P("C12", "Ranks, correlations and least squares follow their definitions",
  "Column ranks count the values before each one (ascending or descending), and covariance and correlation matrices, Pearson or Spearman, of one or two sets of columns equal their pairwise definitions, with missing "
  "values skipped pair by pair when asked and the number of complete pairs reported. OLS and GLS coefficients, residuals and projections satisfy the (generalised) normal equations. Too small workspaces and fewer rows "
  "than regressors are rejected.",
  ["inputs"],
  "every shape, missing pattern, tie pattern, design matrix and error covariance",
  "The tests use one data set; ties, missing pairs, one-column results and workspace sizes need a search.",
  ["include/math/statistics/statistics.h", "include/math/statistics/correlation.h", "src/ldt_statistics/correlation.cpp", "src/ldt_statistics/statistics/statistics.cpp"],
  ["Rank", "Correlation::Calculate", "Ols, Gls", "Correlation"],
  "property-based testing against pairwise definitions and normal equations",
  "Random search over well-conditioned designs.")
P("C13", "Scores and goodness-of-fit measures follow their definitions",
  "The ROC curve starts at the origin, is monotone and passes through one point per distinct score, and its area (whole, partial, weighted, pessimistic or with example-specific costs) is the area "
  "under it; without bounds and costs it is the concordance probability. The frequency-cost ratio is the (weighted) average of the cost each observation gets from the cost matrices, and the continuous ranked "
  "probability score of a normal or log-normal forecast is the integral of its definition. Metrics turned into weights come back unchanged, better metrics get larger weights, and their names parse to themselves.",
  ["inputs"],
  "every outcome, score, weight, tie pattern, bound, cost matrix and metric value",
  "Ties, scores on a threshold, partial areas and costs are combinatorial; the tests use one data set each.",
  ["include/math/statistics/scoring.h", "src/ldt_statistics/scoring/roc.cpp", "src/ldt_statistics/scoring/frequency_cost.cpp", "src/ldt_statistics/scoring/scoring.cpp"],
  ["ROC", "ROC::Calculate", "FrequencyCost::Calculate, Check", "GoodnessOfFit, Scoring"],
  "property-based testing against concordance counts, direct sums and numerical integration",
  "Random search; integrals are computed by a fine quadrature.")
P("C14", "Principal components diagonalise the data",
  "The directions are orthonormal, the components are the standardised data times the directions, they are uncorrelated with the reported decreasing standard deviations, and those account for all the variance. New rows are "
  "standardised with the original means and scales and projected on the same directions. When used to shrink a model's data, ignored columns stay, the rest is replaced by exactly the number of "
  "components requested or needed for the requested share of variance, and invalid options are rejected.",
  ["inputs"],
  "every shape, centring and scaling option, constant columns, number of new rows, ignored columns and cutoff",
  "The tests analyse one matrix; wide data, removed constant columns and cutoffs need a search.",
  ["include/math/statistics/pca.h", "src/ldt_statistics/pca.cpp"],
  ["PcaAnalysis::Calculate", "PcaAnalysisOptions::CalculateForModel"],
  "property-based testing of the defining equations",
  "Random search over data without near-equal singular values where signs or order matter.")
P("C15", "Distances, hierarchical clustering and grouping of variables",
  "The distance of two variables (Euclidean, Manhattan, maximum, or from Pearson or Spearman correlation) equals its definition over their complete pairs. Hierarchical clustering with any linkage merges the nearest "
  "clusters one after the other, and reports each merge, at the distance of its two branches, as a tree with non-decreasing heights. Grouping gives exactly the requested number of non-empty "
  "branches of that tree, more groups only split the existing ones, and within a group exactly the variables nearer than the threshold to an earlier one are removed and reported.",
  ["inputs", "histories"],
  "every data set, missing pattern, constant variable, linkage, number of groups and threshold; repeated use of a grouping",
  "The tests cluster three fixed distance matrices; linkages, ties, thresholds and removed variables need a search.",
  ["include/math/statistics/clustering.h", "src/ldt_statistics/clustering/distance.cpp", "src/ldt_statistics/clustering/hcluster.cpp", "src/ldt_statistics/clustering/group_data.cpp"],
  ["DistanceBase, GroupDataBase", "Distance::Calculate", "HCluster::Calculate, Group, MergeR", "GroupData::Calculate"],
  "property-based testing against a naive agglomeration and direct definitions",
  "Random search; the order of merges is compared only when no two candidate merges are at (almost) the same distance. Equality with R's cutree is not claimed (the documentation says it can differ).")
P("C16", "Training and test samples split the data",
  "The training and test samples together are exactly the rows of the data, with the requested (or rounded) training size, every row having the same chance, and the same generator state gives the same split. For discrete data "
  "every choice but the largest gives its share of rows to the training sample, keeping a row on each side when it has two, and the largest one fills the rest. Impossible splits and choices without observations are rejected "
  "without writing outside the samples.",
  ["inputs", "histories"],
  "every number of rows, choice counts, ratio, fixed size and generator state",
  "The tests split one data set; rare choices, extreme ratios and fixed sizes need a search.",
  ["include/math/statistics/data_split.h", "src/ldt_statistics/data_split.cpp"],
  ["DataSplit, DataSplitDiscrete", "DataSplit::Shuffle, DataSplitDiscrete::Calculate, Shuffle"],
  "property-based testing of the partition, a direct model of the shares, and inclusion frequencies over many shuffles",
  "Random search; the inclusion frequencies are compared with a bound of 6.5 standard errors and fixed seeds.")
P("C17", "Discrete choice models are estimated, predicted and evaluated correctly",
  "A binary or ordered logit or probit model, with or without observation weights, gives the maximum likelihood coefficients of its data, the inverse-Hessian covariances, standard errors, z-statistics, p-values, log-likelihood and information criteria, and predicted "
  "probabilities are those of the estimated coefficients. Rows with missing values are dropped and components replace regressors before estimation, and Brier score, AUC and cost ratios are those of the used observations and weights. "
  "Out-of-sample metrics and the frequency table aggregate exactly the valid stratified splits of the given seed; inconsistent sizes, unidentified models and labels without observations are rejected.",
  ["inputs", "histories"],
  "every data set, label and weight vector, link, component option, cost matrix, split, seed and number of new observations",
  "The tests estimate a few fixed binary models; weights, missing rows, components, ordered models and repeated random splits need generated data and an independent estimator.",
  ["include/math/statistics/inference/models/discrete_choice.h", "src/ldt_statistics/modeling/discrete/discrete_choice.cpp", "src/ldt_statistics/modeling/discrete/discrete_choice_extended.cpp", "src/ldt_statistics/modeling/discrete/discrete_choice_sim.cpp"],
  ["DiscreteChoice, DiscreteChoiceExtended, DiscreteChoiceSim", "DiscreteChoice::Calculate", "DiscreteChoice::GetProbabilities", "DiscreteChoiceExtended::Calculate", "DiscreteChoiceSim::Calculate"],
  "property-based testing against an independent maximum likelihood estimator and a replay of the random splits",
  "Random search over up to four regressors, five labels and 70 observations; separated and ill-conditioned data are discarded. Observation-specific costs of the AUC are not claimed here.")
P("C18", "Systems of linear regressions are estimated, restricted, projected and evaluated correctly",
  "A system of regressions gives the least-squares (restricted: generalised least-squares) coefficients, their standard errors, t-statistics and p-values, residuals, their covariance, R2 and condition number of its data, and for unrestricted systems the log-likelihood and "
  "information criteria; a significance search drops exactly the coefficients whose p-values are too large and estimates again. Projections for new data have the stated means and variances. Rows with missing values and principal components "
  "are handled before estimation as documented, model checks reject exactly the models that fail them, and out-of-sample metrics are the averages over the valid random splits.",
  ["inputs", "histories"],
  "every system size, data set, restriction, significance level, missing pattern, component option, model check, split and metric",
  "The tests estimate a few fixed systems; restrictions, searches that drop everything or nothing, components and simulations need generated data and an independent estimator.",
  ["include/math/statistics/inference/models/sur.h", "src/ldt_statistics/modeling/linear/sur.cpp", "src/ldt_statistics/modeling/linear/sur_projection.cpp", "src/ldt_statistics/modeling/linear/sur_extended.cpp", "src/ldt_statistics/modeling/linear/sur_simulation.cpp"],
  ["Sur, SurProjection, SurExtended, SurSimulation", "Sur::Calculate", "SurProjection::Calculate", "SurExtended::Calculate", "SurSimulation::Calculate"],
  "property-based testing against an independent implementation of the estimators",
  "Random search over systems of up to three equations; ill-conditioned data are discarded. Information criteria of restricted systems are not claimed.")
P("C19", "Vector autoregressive moving average models are estimated, forecast and evaluated correctly",
  "Seasonal orders give exactly the lags and the difference polynomial they stand for, and differencing is undone exactly. Autoregressions have the least-squares coefficients with their standard errors; with moving average terms, residuals, their variance and the "
  "log-likelihood are those at the estimates, which satisfy the restrictions and never have a worse likelihood than the starting values. Forecasts and their variances follow the estimated recursion on the levels, missing margins, components and "
  "future exogenous data are used at the right rows, and out-of-sample metrics are the averages over the evaluated samples and horizons.",
  ["inputs", "histories"],
  "every order, season, number of equations, exogenous data, out-of-sample size, horizon, restriction, component option and metric",
  "The tests estimate a few fixed models and compare some numbers; lags that overlap, differences, short samples, unavailable horizons and components need generated models and an independent recursion.",
  ["include/math/statistics/inference/models/varma.h", "src/ldt_statistics/modeling/time_series/varma/varma.cpp", "src/ldt_statistics/modeling/time_series/varma/varma_sizes.cpp", "src/ldt_statistics/modeling/time_series/varma/varma_arma.cpp", "src/ldt_statistics/modeling/time_series/varma/varma_forecast.cpp", "src/ldt_statistics/modeling/time_series/varma/varma_extended.cpp", "src/ldt_statistics/modeling/time_series/varma/varma_simulation.cpp"],
  ["VarmaSizes, Varma, VarmaArma, VarmaForecast, VarmaExtended, VarmaSimulation", "Varma::EstimateMl", "VarmaSizes", "VarmaArma::Calculate", "VarmaForecast::Calculate", "VarmaExtended::Calculate", "VarmaSimulation::Calculate"],
  "property-based testing against independent least squares, residual and forecast recursions",
  "Random search over models of up to three equations. That the optimizer finds the maximum is not claimed (it is a local search inside bounds), nor information criteria and bounds of restricted models.")
P("C20", "A model search visits every model once and reports exactly what estimating each of them would give",
  "A search estimates every combination of its partitioned endogenous and exogenous variables (with the given sizes, fixed items, orders and choice models) exactly once, drops exactly the models that fail a model check or cannot be estimated, and counts failures. "
  "Each remaining model's metrics and the means and variances of its coefficients or predictions are those of estimating that model alone. The summaries are exact functions of these: best models in order of weight with their values, all models, inclusion weights, "
  "extreme bounds, weighted CDFs and weighted mixture moments, per target and metric. Searching in parallel reports the same.",
  ["inputs", "histories", "schedules"],
  "every partition, size, fixed count, inner group, order range, model check, metric set, requested summary and data set of a regression, discrete choice or vector autoregression search",
  "The tests search a few fixed sets and inspect the best model; pruned, duplicated or swapped models, wrong ties, targets and truncation show up only when every model is recomputed independently.",
  ["include/math/statistics/inference/searchers.h", "src/ldt_statistics/modeling/search/searcher.cpp", "src/ldt_statistics/modeling/search/summary.cpp", "src/ldt_statistics/modeling/search/modelset.cpp", "src/ldt_statistics/modeling/linear/sur_modelset.cpp", "src/ldt_statistics/modeling/discrete/discrete_choice_modelset.cpp", "src/ldt_statistics/modeling/time_series/varma/varma_modelset.cpp"],
  ["Searcher, SearcherReg, SearcherSummary, ModelSet, SurModelset, DiscreteChoiceModelset, VarmaModelset", "Searcher::Start", "SearcherSummary::Push", "ModelSet::CombineInfo", "SurModelset", "DiscreteChoiceModelset", "VarmaModelset"],
  "property-based testing against a brute-force enumeration that estimates every model separately",
  "Random search over up to nine variables. The single models are estimated by the library itself (C17, C18 and C19 decide those); models whose outcome depends on rounding are discarded.")
P("C21", "Data and search sets given to the R functions become exactly the columns, rows and indices they describe",
  "The data matrix prepared in R holds the target, the intercept, weight and exogenous columns in the documented order, with the user's names, values, missing values and Box-Cox lambdas; equations give the same matrix as the evaluated formulas, and new data go to the rows after the sample. "
  "Rows are appended, removed or completed without shifting the others. Sizes, partitions, inner groups and fixed items given by name or by index denote the same variables, removed indices shift the others only, and first-horizon prediction bounds are the growth bounds applied to the last observation. "
  "Inconsistent data, unknown names and invalid indices are rejected.",
  ["inputs", "histories"],
  "every number of variables and rows, name style, weight, lambda, equation, new data, missing pattern, partition and inner group",
  "The tests prepare a few fixed data frames; missing rows, single columns, unnamed data and name/index mixtures need generated inputs and a second implementation.",
  ["Rpackage/R/data.R", "Rpackage/R/search.R", "Rpackage/R/helpers.R", "Rpackage/src/r_ldt.cpp"],
  ["get.data, get.data.append.newX, get.data.keep.complete, get.indexation, get.search.modelchecks", "get.indexation", "get.data.keep.complete", "UpdateModelCheckItems"],
  "property-based testing against an independent model of the data layout",
  "Random search over small data. Prediction bounds of later horizons are not claimed.")
P("C22", "A model estimated in R reports what its data and options imply, with the user's names, and every accessor agrees with it",
  "Estimating a regression system (free, restricted or by significance search), a binary model or a vector autoregression from R gives the coefficients, standard errors, p-values, residuals, covariance, likelihood and information criteria, Brier score, AUC and cost, projections, forecasts and simulated forecast errors that a direct computation on the prepared data gives, labelled with the user's variables, also with weights, Box-Cox lambdas, missing rows, integer matrices and principal components. "
  "endogenous, exogenous, coef, resid, fitted, logLik, AIC, BIC and predict return these values, per equation and per observation of the sample, and standardized residuals, leverages and Cook's distances follow their formulas.",
  ["inputs"],
  "every system size, variable naming, intercept, weight, lambda, restriction, lag order, season, difference, missing pattern, cost matrix, component count and new data within the generators' bounds",
  "The tests compare a few fixed models with other packages; accessors, labels, subsets of equations, memory of coerced arguments and rows after missing data need generated models and a second implementation.",
  ["Rpackage/R/sur.R", "Rpackage/R/bin.R", "Rpackage/R/varma.R", "Rpackage/R/g.regression.R", "Rpackage/src/r_sur.cpp", "Rpackage/src/r_dc.cpp", "Rpackage/src/r_varma.cpp"],
  ["estim.sur, estim.bin, estim.varma and their methods", "estim.sur", "estim.bin", "estim.varma", "residuals.ldt.estim", "EstimSur", "EstimDc", "EstimVarma"],
  "property-based testing against independent estimators written in numpy",
  "Random search over small systems. Moving-average models are estimated in C19 only; metrics of random train/test splits and components of the endogenous data are not claimed.")
P("C23", "A search started from R visits the requested models once and reports, under the user's names, what estimating each one alone gives",
  "A search of regressions, binary models, vector autoregressions or of a function written by the user visits every combination of the given partitions, sizes, fixed items, orders and choice models exactly once, drops exactly the models that fail the options' model checks or minimum metrics, and counts failures. "
  "In-sample and seeded out-of-sample metrics, best models, all models, inclusion weights, extreme bounds, weighted distributions and mixture moments are those obtained by estimating every model separately, labelled with the right variables, per target and metric. "
  "The summary of a search estimates the reported model again on the same data with the same result.",
  ["inputs", "histories"],
  "every partition, size, fixed count, order range, model check, metric set, item, weight, lambda and missing pattern within the generators' bounds",
  "The tests search a few fixed data sets and compare the best model with its own re-estimation; swapped names, indices, weights or options need generated searches recomputed by another implementation.",
  ["Rpackage/R/search.R", "Rpackage/R/sur.R", "Rpackage/R/bin.R", "Rpackage/R/varma.R", "Rpackage/R/r-func.R", "Rpackage/R/g.summary.R", "Rpackage/src/r_func.cpp", "Rpackage/src/r_sur.cpp", "Rpackage/src/r_dc.cpp", "Rpackage/src/r_varma.cpp", "Rpackage/src/r_ldt.cpp"],
  ["search.rfunc, search.sur, search.bin, search.varma", "search.sur", "search.bin", "search.varma", "search.rfunc", "SearchRFunc", "SearchSur", "SearchDc", "SearchVarma", "summary.ldt.search"],
  "property-based testing against a brute-force enumeration with estimators written in numpy",
  "Random search over up to seven variables. The order of names inside a model's exogenous variables and ties of equal metrics are not claimed; models whose outcome depends on rounding are discarded.")
P("C24", "The statistical helper functions of the R package compute what they document",
  "s.roc gives the (partial, pessimistic, weighted or cost-based) area and the curve of the scores; s.distance, s.cluster.h and s.cluster.h.group give the distances, the merges with their heights and groups that are branches of the tree without variables closer than the threshold; s.pca gives orthonormal directions, decreasing standard deviations, their shares and projections of new data. "
  "Quantiles and densities of the generalised lambda distribution follow its formulas, its parameters from moments have these mean and variance, satisfy the restrictions of the type and reproduce the skewness and kurtosis when started at a solution. "
  "Combining moments (with excess kurtosis) equals the moments of the joined samples, weights and metrics are inverse functions, and normal samples have the requested dimensions and moments. Numbers stored as integers or given as data frames are treated like doubles in matrices.",
  ["inputs"],
  "every score vector, weight, cost, threshold, data matrix with missing values, distance, linkage, correlation, set of shape parameters, sample and metric within the generators' bounds",
  "The tests call each helper once or twice with fixed data; ties, partial areas, missing values, constant columns and shapes at the poles of the formulas need generated inputs and a second implementation.",
  ["Rpackage/R/statistics.R", "Rpackage/src/r_statistics.cpp", "Rpackage/src/r_clustering.cpp", "src/ldt_statistics/distributions/distribution_gld.cpp", "src/ldt_statistics/clustering/hcluster.cpp"],
  ["s.roc, s.distance, s.cluster.h, s.cluster.h.group, s.pca, s.gld.*, s.combine.stats4, s.weight.from.metric, rand.mnormal", "GetRoc", "GetDistance", "ClusterH", "ClusterHGroup", "GetPca", "GetGldFromMoments", "CombineStats4"],
  "property-based testing against independent implementations in numpy and scipy",
  "Random search. Ties of distances, the order vector of the clustering and distances of constant variables are not claimed.")

P("C26", "Frequencies, variables, binding and conversion in R",
  "In the R time-series package, every frequency is written and read back as the same frequency, and moving it, subtracting two of them and listing a sequence agree with calendar arithmetic, also for lists and beyond their ends. "
  "A variable's length, values, row names and data frame are its own observations on that axis; binding places every observation in its period and with lead/lag adjustment all columns end with the first one (exogenous ones a horizon later) and are named after the shift, and the information table describes them. "
  "Conversions of daily data pass each calendar group to the given function (or named statistic). Invalid arguments stop with an R error. "
  "Long-run growth reproduces the last value from the first, and every strategy for removing missing values leaves none, with the largest sizes first.",
  ["inputs", "histories"],
  "every class of frequency, date form, step, sequence, variable with missing values, binding option, conversion and invalid argument within the generators' bounds",
  "The tests use one fixed frequency of each class, one binding example and four conversions of short series.",
  ["Rpackage_F/src/r_frequency.cpp", "Rpackage_F/src/r_variable.cpp", "Rpackage_F/src/r_convert.cpp", "Rpackage_F/R/frequency.R", "Rpackage_F/R/generics_f.R", "Rpackage_F/R/variable.R", "Rpackage_F/R/convert.R", "Rpackage_F/R/helpers.R"],
  ["f.* constructors", "as.frequency, get.class.id, next.freq, minus.freqs, get.seq, get.seq0", "variable, bind.variables", "convert.to.*", "get.longrun.growth", "remove.na.strategies"],
  "property-based testing against calendar arithmetic and brute-force models written in Python",
  "Random search over years 1600-2400 and series of up to 400 observations. Daily-in-week data that starts in the middle of a week (the recorded finding of C03), binding of two different lists, variables without any observation and ties between the strategies are not claimed.")

P("C27", "Results in R do not depend on when memory is collected",
  "Estimations, model searches, the statistical helper functions, and the frequencies, variables and conversions of the data package return the same results whenever R's garbage collector runs during the call, for double and integer inputs, with names, weights, metrics, simulations and user functions. "
  "No call stops with an error or crashes because of it.",
  ["schedules", "inputs"],
  "every call within the generators' bounds, with a collection at every, every second or every third allocation in the calls to the C++ code, and released memory overwritten",
  "The tests run with R's normal collection schedule, where an unprotected object is almost always still intact when it is used.",
  ["Rpackage/src/r_ldt.cpp", "Rpackage/src/r_sur.cpp", "Rpackage/src/r_dc.cpp", "Rpackage/src/r_varma.cpp", "Rpackage_F/src/r_variable.cpp", "Rpackage_F/src/r_frequency.cpp"],
  ["estim.*, search.*, s.*, variable, bind.variables, convert.to.*, frequencies", "as_matrix", "GetModelSetResults", "BindVariables", "To_SEXP"],
  "property-based testing with injected garbage collections against the same call without them",
  "Random search over schedules given by a fixed step. Models of a search are compared as sets, since their order depends on threads; random seeds chosen inside the calls and times are not compared.")
P("C25", "Step-wise searches select the best variables and combine the results of the steps",
  "A search given as steps estimates in every step exactly the models of its sizes that use the variables of the step: all of them, or the targets, the fixed names and those with the largest mean weight in the previous step. "
  "Its result equals the result of one search over the models of all steps: counts and failures, best and all models, inclusion weights, distributions, extreme bounds and mixtures. "
  "A search that saves its steps and is started again gives the same result without estimating the models of the saved steps.",
  ["inputs", "crash_points"],
  "every data set with weights, missing values or transformations, set of combinations, list of sizes, number of variables in the steps, fixed names, failures, items and metrics within the generators' bounds; resuming after any step",
  "The tests compare one split of the sizes without any selection of variables for each type of model; selection, failures in some steps, weights and saved steps are never exercised.",
  ["Rpackage/R/steps.R", "Rpackage/R/data.R", "Rpackage/R/r-func.R", "Rpackage/R/sur.R", "Rpackage/R/bin.R", "Rpackage/R/varma.R"],
  ["search.sur, search.bin, search.varma and search.rfunc with a list of sizes", "search.steps", "combine.search", "adjust_indices_after_remove"],
  "property-based testing against a brute-force enumeration and against the equivalent single search",
  "Random search over up to nine variables and three steps with disjoint sizes. Ties of the mean weights, an inner group that loses all of its variables, a number of variables given for the first step, repeated points of the distribution and all models of a step failing are not claimed.")

P("C10", "Distributions are consistent with each other and with their definitions",
  "For every supported parametric distribution, densities or probabilities, their logarithms, distribution functions, quantiles, means, variances, standard deviations, skewness, kurtosis, medians, modes and bounds agree with an independent implementation, also in the tails, at the ends of the support, between the integers and for many degrees of freedom. "
  "Random samples follow the distribution, also for generalised lambda distributions, whose quantiles, densities at quantiles and moments follow their formulas. "
  "Moments and distribution functions of a mixture are the weighted ones of its components. The approximate empirical distribution built from 103 quantiles interpolates them and combines with others by weight. Parameters out of the documented range are rejected.",
  ["inputs"],
  "every type with parameters from tiny to large, argument, probability, mixture of up to six components, empirical quantile vector and invalid parameter within the generators' bounds",
  "The tests compare a few numbers for one or two parameter sets per type; regions where formulas overflow, jump or change branch are not visited.",
  ["src/ldt_statistics/distributions/distributions_uni.cpp", "src/ldt_statistics/distributions/distribution_gld.cpp", "src/ldt_statistics/distributions/mixture.cpp", "src/ldt_statistics/distributions/empirical103.cpp"],
  ["Distribution<T>", "Distribution::GetPdfOrPmf, GetCdf, GetQuantile, GetSample", "DistributionGld", "DistributionMixture", "DistributionEmpirical103"],
  "property-based testing against boost.math, brute-force sums and Kolmogorov-Smirnov bounds",
  "Random search. Infinite parameters, F distributions with fewer than one degree of freedom, a zero standard deviation, moments that the library reports as not available, samples of a beta distribution and histograms are not claimed.")

P("C28", "Handles, buffers and errors of the C interface",
  "Through the C interface, a frequency that is created from text, copied or returned with a combined variable is moved, compared, written and disposed independently of all others, in any order, and everything allocated for it is released. "
  "Texts and values are written only when the given buffer is long enough; otherwise only the required length is given. "
  "Combining two variables places both on one time axis, prefers the second one where it has a value, and gives the largest difference in percent of the first one. "
  "Properties, quantiles, scores and combined quantiles of distributions are those of the C++ classes; a failing call returns nothing (or NaN) and leaves an error message, a successful one clears it.",
  ["histories", "inputs"],
  "every history of calls on frequencies of all classes, buffer length, pair of variables with missing values, distribution, list of quantiles and invalid argument within the generators' bounds",
  "No test calls the C interface, and it is not part of the library that the tests are linked to.",
  ["src/api.cpp", "include/api.h", "include/frequency.h", "src/frequency/f_list.cpp"],
  ["LDT_FrequencyCreate, LDT_FrequencyCopy, LDT_FrequencyNext, LDT_FrequencyMinus, LDT_FrequencyToString, LDT_FrequencyToString0, LDT_DisposeFrequency", "LDT_VariableCombine", "LDT_GetDistributionProperty, LDT_GetDistributionQuantiles, LDT_CombineDistribution103", "LDT_GetScoreCrpsNormal, LDT_GetScoreCrpsLogNormal", "LDT_GetLastError"],
  "stateful property-based testing against a position model and the C++ classes, under AddressSanitizer",
  "Random search over histories of up to 14 calls. Empty variables, daily-in-week data that starts in the middle of a week and buffers shorter than their stated length are not claimed.")

P("C29", "What is printed, tabulated and plotted in R",
  "A printed estimation shows the name of the model and, for every equation and variable, the coefficient, standard error, statistic and p-value of the model with the right significance mark (or that it is restricted), and the right counts. "
  "A table of coefficients has one column for every requested equation of every model and one row for every requested variable and item, each cell with the value of that model. "
  "A printed search result shows, for every target and evaluation, the best model, the variable with the largest inclusion weight and exactly the significant coefficients, bounds, probabilities and mixtures of the result; its summary can be printed. "
  "Diagnostic plots draw the residuals, leverages and Cook's distances of the equation, and fan plots draw the actual values, the medians, bands between the given quantiles and, for predictions, the simulated forecasts at their own periods.",
  ["inputs"],
  "every estimated model, list of models and options of the table, search result, plot type, fan and prediction within the generators' bounds",
  "No test looks at what is printed, tabulated or plotted.",
  ["Rpackage/R/g.prints.R", "Rpackage/R/g.plots.R", "Rpackage/R/g.summary.R"],
  ["print.ldt.estim", "print.ldt.search, summary.ldt.search", "coefs.table", "print.ldt.varma.prediction", "plot.ldt.estim, fan.plot, plot.ldt.varma.prediction"],
  "property-based testing: text output and the display list of the graphics device are parsed and compared with the values of the object and textbook definitions",
  "Random search over generated models. Only the first best model, the sections named here and the positions of drawn items are claimed; titles, colours, summaries of residuals and the number of printed rows of nested lists are not.")

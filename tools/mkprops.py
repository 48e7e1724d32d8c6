#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place where the properties are worded)."""
import json, os
P = []
SRC = 'src/reor/'
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier=dict(over=over, text=' '.join(qtext.split())),
                  why_tests_cant=' '.join(why.split()),
                  anchors=dict(files=[SRC + f for f in files],
                               state=state or [],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=observe, hook_needed=None)))

prop('P01', 'Simplex projection is the exact Euclidean projection',
 '''Projecting a real vector onto the probability simplex returns the unique nearest point of the simplex: non-negative
 entries summing to one, at minimal Euclidean distance, in the position order of the input. Projecting the rows (or
 columns) of a matrix does this to every row (column) independently and in place, whatever the shape or memory layout;
 the vector form leaves its input untouched unless it is also given as the output.''',
 ['inputs'], 'all finite vectors (length 1 upwards, ties, huge and tiny entries, points already in the simplex) and all matrix shapes and layouts',
 'The tests project a handful of hand-picked 1-D/2-D points and only check that longer random results lie in the simplex, never that they are the nearest point; columns are not tested at all.',
 ['simplex_projection.py'], [('sorted threshold search', 'simplex_projection.py:simplex_project_vector'), ('in-place row/column loops', 'simplex_projection.py')],
 ['return value / in-place result of the projection functions'])

prop('P02', 'FurthestSum returns distinct, allowed, greedily furthest samples',
 '''Given a symmetric dissimilarity matrix, FurthestSum returns exactly the requested number of distinct, in-range, non-excluded sample
 indices; starting from the start index each further one maximises the summed dissimilarity to those already chosen, and
 each extra step re-selects the next position (cyclically) by the same rule against the remaining ones. A non-square matrix, an
 out-of-range or excluded start index, or a request for more samples than are available is rejected with ValueError. The matrix is not modified.''',
 ['inputs', 'configurations'], 'all symmetric dissimilarity matrices (ties, duplicates), start indices, exclusion lists, component counts and numbers of extra steps',
 'Tests cover a 3-point example and one random cloud with a single exclusion pattern; the greedy rule, the refinement steps and ties are not checked against any model.',
 ['furthest_sum.py'], [('greedy selection with running distance sums', 'furthest_sum.py:_furthest_sum_impl'), ('argument checks', 'furthest_sum.py:furthest_sum')],
 ['returned indices', 'ValueError'])

prop('P03', 'Random stochastic matrices are stochastic along the promised axis',
 '''A left-stochastic random matrix has non-negative entries and unit column sums, a right-stochastic one non-negative entries and unit row
 sums, for every shape. The result has the requested shape and is a function of the seed or generator passed: equal seeds give equal matrices, a shared
 generator advances between draws, and different seeds give different matrices whenever the shape leaves freedom.''',
 ['inputs'], 'all two-dimensional shapes and all seeds / generator objects',
 'No test exercises these helpers directly; they are only used with one seed and non-degenerate shapes.',
 ['_random_matrix.py'], [('normalisation along an axis', '_random_matrix.py:_uniform_stochastic_matrix')], ['returned matrices'])

prop('P04', 'Line-search step and spectral step-size control stay safeguarded',
 '''After a rejected step, the next trial step is strictly smaller than the current one, strictly positive, and is the minimiser of the quadratic interpolating
 the two costs and the slope whenever that minimiser lies between the lower safeguard and the allowed fraction of the current step, and half the
 current step otherwise. The next spectral step size is the ratio of squared step to curvature clamped to the configured minimum and maximum, and the maximum when the curvature is not positive.''',
 ['inputs'], 'all step lengths in (0,1], negative slopes, rejected cost pairs and all curvature values and bounds',
 'There is no test of these functions; they only run implicitly inside a few fits.',
 ['spg.py'], [('safeguarded quadratic interpolation', 'spg.py:get_next_spg_step_length'), ('clamped Barzilai-Borwein step', 'spg.py:get_next_spg_alpha')], ['returned step values'])

prop('P05', 'Every fit and transform returns feasible factors',
 '''For every data set, initialisation, regularisation, iteration budget and choice of which factors to update, the weights returned by fitting or transforming with
 archetypal analysis, kernel archetypal analysis, GPNH or MTD convex coding are finite, have the documented shape, and have non-negative rows summing to one. The
 archetypal dictionary is likewise non-negative with each row summing to one (within [1-delta, 1+delta] when a relaxation delta is given), and fitted MTD/CROM order weights
 and every transition-matrix column are probability distributions.''',
 ['inputs', 'configurations', 'histories'], 'all data matrices/kernels, component counts, initialisations, seeds, delta/epsilon settings, lag sets, iteration budgets and fit-then-transform histories',
 'Tests check row sums after a handful of fixed-seed updates; transition matrices after a CROM fit, transform results and the combination of options are not examined.',
 ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py', 'gpnh_convex_coding_crom.py'],
 [('projected gradient increments', '*_convex_coding*.py/archetypal_analysis.py: _update_weights, _update_dictionary, _update_parameters')],
 ['fit_transform / transform return values', 'dictionary_', 'order_weights', 'transition_matrices'])

prop('P06', 'The reported cost is the documented objective at the returned factors',
 '''After a fit, cost_ equals the method's objective evaluated from scratch at the returned weights and dictionary: the squared (kernel) reconstruction error for archetypal analysis; the mean squared
 reconstruction error plus epsilon_states times the average squared separation of the states for GPNH convex coding; and additionally epsilon_weights times the
 normalised squared one-step MTD prediction error of the weights for MTD convex coding. It is never negative beyond rounding, and inverse_transform reproduces exactly the reconstruction that enters it.''',
 ['inputs', 'configurations'], 'all data, shapes (including one component), regularisation strengths, lag sets, initialisations and iteration budgets',
 'Tests only check that the cost is zero for a perfect reconstruction; no test compares the value at a non-zero optimum or the penalty terms to an independent formula.',
 ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py', 'gpnh_convex_coding_crom.py'],
 [('cost evaluation with cached products', 'archetypal_analysis.py:_evaluate_cost; gpnh/mtd: _evaluate_loss_function, _evaluate_*_penalty')],
 ['cost_', 'inverse_transform'])

prop('P07', 'More iterations never increase the cost, and valid fits never abort',
 '''Giving a fit of archetypal analysis, GPNH or MTD convex coding one more iteration never yields a larger final cost (beyond rounding), and the final cost never exceeds the cost of the
 initial guess, whichever factors are updated and whatever admissible step control (gamma, alpha_min, alpha_max, sigma_one, sigma_two, step_size_tolerance) is chosen. With a line search memory above one (and the guard against increases off) single iterations may
raise the cost, but never above that of the initial guess. Fitting valid finite data, at any scale, offset or degree of exactness and with zero tolerance, completes without an error.''',
 ['inputs', 'configurations'], 'all data sets (including exactly factorisable, duplicated, large-scale data), initial guesses, regularisations, update selections and iteration budgets',
 'Tests check descent for a few fixed-seed updates; no test runs full fits near an exact optimum or on large-magnitude data, where rounding makes cost comparisons fail.',
 ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py', 'gpnh_convex_coding_crom.py', 'spg.py'],
 [('Armijo line search', '_weights_line_search/_dictionary_line_search/_parameters_line_search'), ('monotonicity guard', '_iterate')],
 ['cost_ as a function of max_iterations', 'exceptions'])

prop('P08', 'With a fixed dictionary the weights converge to the global optimum',
 '''Given enough iterations, transform (and a fit that updates only the weights) of archetypal analysis, GPNH and MTD convex coding returns weights at which the objective
 for the fixed dictionary (and fixed MTD parameters) is globally minimal over row-stochastic weights, up to solver accuracy. In particular no single sample's weights can be replaced by other feasible weights with a materially lower cost.''',
 ['inputs', 'configurations'], 'all order-one data, dictionaries, MTD parameters and regularisation strengths, starting from any random weights',
 'Tests compare gradients with finite differences for a single configuration and check that updates converge somewhere; none checks that the limit is the optimum.',
 ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py', 'spg.py', 'simplex_projection.py'],
 [('weights gradient and projected line search', '_update_weights_gradient, _update_weights')], ['transform / fit_transform return values', 'cost_'])

prop('P09', 'With fixed weights the dictionary converges to the global optimum',
 '''Given enough iterations, a fit that updates only the dictionary reaches the global minimum of the objective for the given weights: the regularised least-squares solution for GPNH and MTD
 convex coding, and the optimal row-stochastic combination of samples for (kernel) archetypal analysis, up to solver accuracy.''',
 ['inputs', 'configurations'], 'all order-one data or kernels, weight matrices and regularisation strengths, starting from any dictionary',
 'Tests check that repeated dictionary updates converge and reduce the cost for fixed seeds, never that the limit is optimal; the GPNH gradient with regularisation is not checked at all.',
 ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py'],
 [('dictionary gradient and line search', '_update_dictionary_gradient, _update_dictionary')], ['dictionary_', 'cost_'])

prop('P10', 'Fitted MTD parameters minimise the one-step prediction error',
 '''For weights held fixed, the order weights and transition matrices fitted by MTD convex coding, and those fitted by the GPNH CROM to its own weights, are first-order
 optimal for the squared one-step prediction error over probability vectors and column-stochastic matrices, and globally optimal when there is a single lag. The fit never ends with a larger prediction error than a uniform competitor in the single-lag case,
 and respects the given lags (any positive integers, in any order).''',
 ['inputs', 'configurations'], 'all weight sequences, component counts, lag sets and seeds',
 'One fixed-seed test compares gradients for two lags and one checks convergence; the CROM class has no tests at all.',
 ['mtd_convex_coding.py', 'gpnh_convex_coding_crom.py'], [('parameter gradient and projected line search', '_update_parameters_gradient, _update_parameters, _fit_parameters')],
 ['order_weights', 'transition_matrices'])

prop('P11', 'Archetypal analysis depends on the data only through its kernel',
 '''Archetypal analysis of a data matrix gives the same weights, dictionary and cost as kernel archetypal analysis of its Gram matrix (or of the matrix returned by the user's kernel function), both for fitting and
 for transforming. Rotating the data in feature space (and, without relaxation of the archetypes, translating it) leaves the linear-kernel results unchanged up to rounding.''',
 ['inputs', 'configurations'], 'all data matrices, kernel functions, rotations, translations, initialisations and seeds',
 'The data-matrix class has no test of its own; no test relates the two classes.',
 ['archetypal_analysis.py'], [('kernel computation in fit_transform/transform', 'archetypal_analysis.py:ArchetypalAnalysis')], ['weights', 'dictionary_', 'cost_'])

prop('P12', 'Fits are equivariant under relabelling, rotation and translation',
 '''From corresponding custom initial guesses, permuting the samples or the components permutes the fitted factors of archetypal analysis and GPNH convex coding accordingly (components also for MTD convex coding with its parameters), and rotating or
 translating the data of GPNH or MTD convex coding rotates or translates the fitted dictionary; weights and costs are otherwise unchanged up to rounding. No sample, feature or component position is privileged.''',
 ['inputs', 'configurations'], 'all data, initial guesses, permutations, rotations and translations',
 'No test relates two fits to each other.',
 ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py', 'simplex_projection.py'], [('matrix formulation of the updates', '_update_*')], ['weights', 'dictionary_', 'cost_', 'transition_matrices'])

prop('P13', 'Initialisation options are honoured',
 '''A custom initial guess is the actual starting point; init='random' starts from row-stochastic weights (and dictionary, for archetypal analysis); init='furthest_sum' starts from the samples FurthestSum selects for the Euclidean
 (kernel) distances with the given start_index, exclude and n_extra_steps, also when samples coincide; init=None means 'furthest_sum' for archetypal analysis and 'random' for convex coding. These options are accepted by every factorisation class, and a model fitted
 from a custom guess can still transform and predict.''',
 ['inputs', 'configurations'], 'all data (including repeated samples), seeds and option combinations for all four factorisation classes',
 'No test uses furthest_sum initialisation, its options, or transform after a custom fit.',
 ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py', 'gpnh_convex_coding_crom.py'], [('initialisers', '_initialize_*'), ('init dispatch', '_kernel_aa, _gpnh_convex_coding, _mtd_convex_coding')],
 ['dictionary_ and weights of fits that update nothing', 'exceptions'])

prop('P14', 'Iteration stops exactly when the stopping rule says so',
 '''A fit performs at least one and at most max_iterations iterations, stops at the first iteration whose absolute cost change is below tolerance, and n_iter_ is the number of iterations performed; with zero tolerance the whole budget is used. When the
 budget is exhausted with a positive tolerance a UserWarning is issued, and no such warning is issued when the fit stops earlier.''',
 ['inputs', 'configurations'], 'all data, seeds, tolerances and iteration budgets, for AA, GPNH, MTD and FEM-BV models',
 'Tests only check n_iter_ < max_iter for two AA fits.',
 ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py', 'fembv.py'], [('iteration loop', '_iterate'), ('warning', '_kernel_aa/_gpnh_convex_coding/_mtd_convex_coding/_fembv_fit')],
 ['n_iter_', 'cost_', 'warnings'])

prop('P15', 'Seeded results are reproducible and isolated from global randomness',
 '''With a seed (or an equally seeded generator) every estimator of the package gives the same result on the same data in fresh objects, regardless of the state of the global random generator and of verbosity, and
 does not advance the global generator. A different seed changes random initial guesses.''',
 ['inputs', 'configurations'], 'all estimators, data, seeds, verbosity levels and global generator states',
 'No test runs an estimator twice.',
 ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py', 'gpnh_convex_coding_crom.py', 'fembv.py', 'fembv_kmeans.py', 'fembv_varx.py', 'pwvarx.py', 'crom.py'],
 [('random_state plumbing', 'check_random_state uses throughout')], ['fitted attributes', 'np.random state'])

prop('P16', 'Operations do not disturb inputs, earlier results or the fitted model',
 '''In any sequence of fit, transform, predict and inverse_transform calls on an estimator, no call modifies the arrays passed to it or arrays returned earlier; transform, predict and inverse_transform leave the fitted parameters (dictionary,
 centroids, regression coefficients, order weights, transition matrices, cost) unchanged; and refitting from the same initial guess gives what a fresh object gives, whatever happened before and whatever the shape of
the earlier data (with or without exogenous data). The fitted model does not depend on what the caller later does to the arrays passed in.''',
 ['histories', 'inputs'], 'all call sequences and data on factorisation, FEM-BV, piecewise VARX and k-means CROM estimators',
 'Tests never call two public operations on one object in sequence.',
 ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py', 'gpnh_convex_coding_crom.py', 'fembv.py', 'fembv_kmeans.py', 'fembv_varx.py', 'pwvarx.py', 'crom.py'],
 [('defensive copies and workspace reset', '_kernel_aa, _gpnh_convex_coding, _mtd_convex_coding, _initialize_workspace')], ['public attributes and arrays across calls'])

prop('P17', 'Exact convex combinations are encoded and decoded without loss',
 '''If every sample is a convex combination of affinely independent dictionary states (or archetypes), transform with that fixed dictionary recovers the combination weights and inverse_transform returns
 the original data (for archetypal analysis: coefficients which applied to the training samples return the data), up to solver accuracy. inverse_transform is linear in the weights and equals their product with the fitted dictionary.''',
 ['inputs', 'histories'], 'all well-conditioned dictionaries and convex combinations, for AA, GPNH and (unpenalised) MTD convex coding',
 'No test calls inverse_transform or checks recovered weights.',
 ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py'], [('transform / inverse_transform', 'same names')], ['transform, inverse_transform return values'])

prop('P18', 'Invalid arguments are rejected and valid ones accepted',
 '''Every estimator rejects, with a ValueError or TypeError rather than a result, a non-positive or non-integer component count and, where it takes them, a non-positive or non-integer iteration limit, a negative tolerance, an unknown initialisation name, a non-square kernel, non-positive or non-integer lags and negative VAR orders (both already when the estimator is constructed), a negative memory, mismatched numbers of
 samples or features, and custom initial guesses of the wrong shape or with the wrong sums; the same call without the defect is accepted. A rejected call does not modify its arguments.''',
 ['inputs', 'configurations'], 'all single-defect mutations of otherwise valid calls to every estimator',
 'Only the furthest-sum argument checks are tested.',
 ['_validation.py', 'archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py', 'fembv.py', 'fembv_kmeans.py', 'fembv_varx.py', 'furthest_sum.py'], [('shape and sum checks', '_validation.py'), ('argument checks', '_kernel_aa, _gpnh_convex_coding, _mtd_convex_coding, _fembv_fit, __init__')],
 ['exceptions'])

prop('P19', 'Forecasts follow the fitted MTD recursion',
 '''For MTD convex coding and the GPNH CROM, predict with horizon h returns for each sample with enough history the dictionary applied to the weights obtained by iterating the fitted lagged transition model h steps from that sample's (and its predecessors')
 encoded weights, rows without enough history are NaN, and horizon zero returns the reconstruction. Forecasts therefore are convex combinations of the dictionary states and the forecast for a sample does not depend on later encoded weights.''',
 ['inputs', 'configurations', 'histories'], 'all data, fitted models, lag sets (unsorted, gaps) and horizons',
 'One fixed-seed test checks horizon 1 with lags 1 and 3 for MTD; longer horizons and the CROM class are untested.',
 ['mtd_convex_coding.py', 'gpnh_convex_coding_crom.py'], [('rolling window of lagged weights', 'predict')], ['predict return value'])

prop('P20', 'k-means CROM: transition matrix and predictions follow the observed labels',
 '''The fitted transition matrix holds the relative frequencies of observed label-to-label transitions (column = origin), each column a probability distribution; predictions are each sample's nearest-centre indicator propagated by that matrix the requested
 number of steps, so every predicted row is a probability distribution and horizon zero is the indicator itself. fit_predict and fit_transform work on an unfitted model, agree with the fitted labels/centres and leave a consistent model, n_clusters defaults to two, and
 sample weights are accepted when fitting.''',
 ['inputs', 'configurations', 'histories'], 'all data sequences (including states visited only at the end), cluster counts, seeds, weights and horizons',
 'The module has no tests.',
 ['crom.py'], [('transition counting', 'crom.py:kmeans_markov_crom'), ('propagation', 'crom.py:predict')], ['transition_matrix_', 'predict', 'fit_predict', 'fit_transform'])

prop('P21', 'FEM-BV affiliations are distributions within the total-variation bound',
 '''After fitting or transforming any FEM-BV model, every sample's affiliations are non-negative and sum to one, and, when a maximum total-variation norm is given, the summed absolute change of each component's affiliation sequence does not exceed it (up to solver accuracy). A zero bound gives constant
 affiliations, and one component gives all ones.''',
 ['inputs', 'configurations'], 'all data, component counts, bounds (none, zero, small, inactive), seeds and sequence lengths',
 'Tests compare the constraint matrices with hand-written ones for n=3 and n=4; no test solves a problem.',
 ['fembv.py', 'fembv_kmeans.py', 'fembv_varx.py'], [('constraint assembly', 'fembv.py:_initialize_constraints'), ('solution unpacking', 'fembv.py:_update_weights')], ['fit_transform / transform return values'])

prop('P22', 'FEM-BV affiliations minimise the total distance among admissible sequences',
 '''For given per-sample, per-component distances, the affiliations chosen by a FEM-BV model attain the minimum of the affiliation-weighted total distance over all sequences of distributions obeying the total-variation bound; without a bound each sample is
 assigned to its closest component. The reported cost is that weighted total.''',
 ['inputs', 'configurations'], 'all non-negative distance matrices, bounds, component counts and lengths, through any FEM-BV subclass',
 'No test solves the affiliation problem.',
 ['fembv.py'], [('linear programme', 'fembv.py:_update_weights, _initialize_constraints')], ['Gamma', 'cost_'])

prop('P23', 'FEM-BV k-means alternates exact centroid and affiliation updates',
 '''Each iteration of FEM-BV k-means replaces the centroids by the affiliation-weighted means of the data and then the affiliations by the best admissible ones for the squared distances to the centroids, so that the reported cost equals the weighted squared distance
 and never increases from one iteration to the next. A random start consists of different samples of the series, a custom start (of which a part may be left out) is used as given, factors held fixed stay as they are, and transforming new data uses the fitted centroids and leaves them unchanged.''',
 ['inputs', 'configurations', 'histories'], 'all data, starting affiliations, bounds, component counts and iteration budgets',
 'The class has no tests.',
 ['fembv_kmeans.py', 'fembv.py'], [('centroid update and distances', 'fembv_kmeans.py'), ('alternation', 'fembv.py:_iterate')], ['Theta', 'Gamma', 'cost_', 'transform'])

prop('P24', 'The local VARX model is the (weighted) least-squares regression',
 '''Fitting the local VARX(p, s) model returns the intercept, lag matrices and exogenous coefficient matrices, in documented orientation and lag order, that minimise the (weighted) squared one-step residuals; the stored residuals are observation minus prediction with zeros in
 the presample; and the residual covariance is the (weighted) residual product with the documented degrees of freedom. Coefficients that are given instead of fitted are taken over, with residuals of the same kind. Rescaling all weights leaves the coefficients unchanged and samples of zero weight have no influence.''',
 ['inputs', 'configurations'], 'all series, orders p and s, exogenous factors and non-negative weight vectors',
 'One unweighted example with p=2 and no exogenous factors is compared at three decimals.',
 ['fembv_varx.py'], [('stacked regressors and lstsq', 'fembv_varx.py:FEMBVVARXLocalLinearModel')], ['mu', 'A', 'B', 'B0', 'Sigma_u', 'residuals'])

prop('P25', 'FEM-BV-VARX alternates exact weighted regressions and affiliation updates',
 '''Each iteration of FEM-BV-VARX refits every component's regression by affiliation-weighted least squares and then chooses the best admissible affiliations for the squared residuals, so the cost recomputed from the published coefficients, data, external factors and affiliations equals the reported one and never
 increases between iterations. Per-component memories may differ (unused lags stay zero), affiliations cover the samples after the longest memory, given starting values and factors held fixed are used as they are, and transforming new data uses the fitted coefficients and leaves them unchanged.''',
 ['inputs', 'configurations', 'histories'], 'all series, memories (scalar or per component), external factors, bounds, starting affiliations and iteration budgets',
 'The class itself has no tests (only its local model).',
 ['fembv_varx.py', 'fembv.py'], [('weighted refits', 'fembv_varx.py:_update_parameters'), ('residual distances', 'fembv_varx.py:_evaluate_distance_matrix')], ['mu', 'A', 'B0', 'Gamma', 'cost_', 'transform'])

prop('P26', 'Piecewise VARX fits one least-squares model per predicted regime',
 '''For endogenous data given as a vector or a matrix, with or without exogenous data, the piecewise VARX model assigns every sample after the presample the regime its classifier predicts from the stacked lagged values, and within each regime the published intercept, lag and exogenous matrices are the least-squares
 fit, with matching residuals and residual covariance. Transforming the training data reproduces the labels, and transforming other data labels it by its lagged values only.''',
 ['inputs', 'configurations'], 'all series, orders p and s, trend settings, shapes (1-D, single column, multivariate), custom clusterers and classifiers',
 'The module has no tests.',
 ['pwvarx.py'], [('lag stacking', 'pwvarx.py:_stack_predictors'), ('per-regime lstsq', 'pwvarx.py:_fit_var_model')], ['labels', 'mu', 'A', 'B', 'Sigma_u', 'residuals', 'transform'])

prop('P27', 'The AA relaxation parameter relaxes the archetype scales',
 '''With delta > 0, each archetype is a convex combination of samples times a scale factor that is optimised within [1-delta, 1+delta]: scales stay in that range, the cost is the reconstruction error with the scaled archetypes, and for
 fixed weights the fit is at least as good as every single-scale change allowed. The weights of new data are optimal for the scaled archetypes. With delta = 0 all scales are one.''',
 ['inputs', 'configurations'], 'all data or kernels, delta values, weights and initial dictionaries',
 'Tests run updates with nonzero delta but only check that scales lie in the range and the cost does not rise, which also holds if the scales never move.',
 ['archetypal_analysis.py'], [('scale factor update', 'archetypal_analysis.py:_update_dictionary, _scale_factors_line_search')], ['dictionary_ row sums', 'cost_'])

prop('P28', 'Fits with every factor free reach a stationary point',
 '''Given enough iterations, alternating the updates of archetypal analysis, GPNH and MTD convex coding reaches a point where no factor alone can be improved: the weights are optimal for the dictionary (and MTD parameters), the dictionary and archetype scales for the weights, and the MTD parameters for the weights (to first order). The cost
 does not stall anywhere else, whatever the initialisation, regularisation and relaxation.''',
 ['inputs', 'configurations', 'histories'], 'all data, component counts, initialisations, regularisation strengths, lag sets and relaxations, over fits of thousands of iterations',
 'Tests run single factors, a few steps, or compare final factors of a handful of easy data sets with known solutions.',
 ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py', 'spg.py'], [('alternation', '_iterate'), ('block updates', '_update_dictionary, _update_weights, _update_parameters'), ('step control', 'spg.py')], ['dictionary_', 'returned weights', 'order_weights', 'transition_matrices', 'cost_'])

prop('P29', 'Omitted arguments have their documented defaults',
 '''Leaving out any optional argument of an estimator (regularisation, relaxation, initialisation, tolerance, iteration limit, verbosity, lags, memory, total-variation bound, kernel function, number of clusters, orders, trend, sample weights, horizon, initial guesses and update switches) or its random state is the same as giving the documented default, by keyword or
 in the documented order, in every combination with the others: fits, iteration counts, transforms, forecasts and printed output agree.''',
 ['inputs', 'configurations'], 'all data and all subsets of omitted arguments of every estimator, with other values for the rest',
 'Tests give nearly every argument explicitly, and never compare with the default.',
 ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'gpnh_convex_coding_crom.py', 'mtd_convex_coding.py', 'fembv_kmeans.py', 'fembv_varx.py', 'crom.py', 'pwvarx.py'], [('constructor signatures and keyword defaults', '__init__')], ['fit_transform / transform / predict return values', 'cost_', 'n_iter_', 'printed output'])

prop('P30', 'Numeric types and memory layouts of arguments do not matter',
 '''An array of integers (signed or unsigned, of any width), booleans, single or half precision numbers, or with swapped byte order, in any memory layout (C, Fortran, strided, reversed, read-only, a view of a larger array), gives the result of the same values as a contiguous double precision array: in every
 factorisation, FEM-BV and piecewise model, for data, exogenous data, initial guesses, weights and kernels, and in simplex projection, furthest-sum and initialisation. Likewise numbers of any NumPy type are as good as Python's (component counts, lags, orders, horizons, start indices, regularisation). No sum or product overflows or is truncated in a small type. (The FEM-BV and scikit-learn based models may compute in the precision of single or extended precision data.)''',
 ['inputs', 'configurations'], 'all arrays whose values are representable in the type, every argument taking an array, every estimator and documented function',
 'Tests use double precision C-ordered arrays almost throughout; overflow in small integer types needs particular values.',
 ['simplex_projection.py', 'furthest_sum.py', 'archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py', 'gpnh_convex_coding_crom.py', 'fembv.py', 'fembv_kmeans.py', 'fembv_varx.py', 'crom.py', 'pwvarx.py'], [('conversion of data and guesses', 'astype, copy'), ('projection and initialisation of integer arrays', 'simplex_project_vector, furthest_sum')], ['fit_transform / transform / predict return values', 'cost_', 'n_iter_', 'projections', 'selected indices'])

prop('P31', 'Copies of estimators are equivalent and independent',
 '''A deep copy of an estimator, or one restored from a pickle, taken before or after fitting and at any point of a sequence of calls, has the same fitted parameters and behaves from then on exactly as the original would: the same calls give the same transforms, forecasts, reconstructions and (given a seed) further fits. Afterwards the two are independent: calling, refitting or discarding one changes neither the fitted parameters nor any later result of the other. So the best of several fits can be kept with deepcopy while the estimator is fitted again.''',
 ['histories', 'configurations'], 'all sequences of calls on an estimator and its copies, every estimator, deep copies and pickles',
 'No test copies an estimator; the example scripts keep the best of several fits with deepcopy.',
 ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py', 'gpnh_convex_coding_crom.py', 'fembv.py', 'fembv_kmeans.py', 'fembv_varx.py', 'crom.py', 'pwvarx.py'], [('estimator state', '__init__, fit_transform, transform, predict')], ['fit_transform / transform / predict / inverse_transform return values', 'fitted attributes'])

prop('P32', 'Settings changed on an estimator apply to its next fit',
 '''The documented parameters of an estimator are attributes of the same names. Assigning another value to one of them (number of components, initialisation method, lags, regularisation, relaxation, bound on the total variation, tolerance, iteration budget, random state) between two fits makes the next fit give what a new estimator created with the current settings gives: same factors, cost and number of iterations. Nothing that was derived from the earlier setting survives, whatever fits came before.''',
 ['histories', 'configurations'], 'all sequences of fits with changes of settings in between, every estimator, all data and seeds',
 'No test changes a setting of an existing object, or fits an object twice.',
 ['archetypal_analysis.py', 'gpnh_convex_coding.py', 'mtd_convex_coding.py', 'gpnh_convex_coding_crom.py', 'fembv.py', 'fembv_kmeans.py', 'fembv_varx.py', 'crom.py'], [('settings', '__init__'), ('state carried between fits', 'fit_transform, _initialize_*')], ['fit_transform return values', 'fitted attributes', 'n_iter_'])

prop('P33', 'FEM-BV results are equivariant under changes of coordinates',
 '''From corresponding custom starts, FEM-BV k-means and FEM-BV-VARX give corresponding results when the components are relabelled (with their memories), the features rotated, reflected, translated or rescaled by a common factor, the exogenous factors rescaled, or (k-means) time is reversed: affiliations are the same up to the relabelling or reversal, centroids and VARX coefficients transform accordingly and the cost scales with the square of the factor, for fits and for transforms of new data. No component, feature, sample position, origin or unit is privileged.''',
 ['inputs', 'configurations'], 'all data in generic position with unique regressions, starts, bounds, memories, component counts and coordinate changes',
 'The FEM-BV k-means class has no tests, and no test compares fits of transformed data.',
 ['fembv.py', 'fembv_kmeans.py', 'fembv_varx.py'], [('linear programme', 'fembv.py:_update_weights, _initialize_constraints'), ('parameter updates', '_update_parameters'), ('distances', '_evaluate_distance_matrix')], ['Gamma', 'Theta', 'mu', 'A', 'B0', 'cost_', 'transform'])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for p in P:
        f.write(json.dumps(p) + '\n')
print(len(P))

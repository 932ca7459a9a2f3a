PROPS = []
NOT_APPLICABLE = []


def prop(**kw):
    PROPS.append(kw)


prop(id="C01", title="Sparse/Kronecker kernels equal the dense operation they name",
     statement="Every compiled sparse, Kronecker, block-diagonal, repeat/tile, trace and in-place add/multiply kernel leaves in its output exactly the matrix that the corresponding dense expression would give, for real and complex data, rectangular shapes, empty rows or columns and any CSC/COO pattern the operands have. "
               "Calling an in-place kernel again on the same preallocated output with new values gives the result for the new values, and the output is always a structurally valid (sorted where flagged) sparse matrix. "
               "No kernel reads or writes outside its arrays.",
     text="all operand shapes, sparsity patterns, values, dtypes and reuse histories of the output container",
     over=["inputs", "histories"],
     why="The tests use a handful of fixed random matrices of one shape and never rectangular, empty, unsorted or reused-output cases, nor memory safety.",
     files=["pystatsm/utilities/cython_wrappers.pyx", "pystatsm/utilities/python_wrappers.py", "pystatsm/utilities/src"],
     mechanism="C kernels over CSC arrays wrapped by Cython and by Python functions that size and validate the output",
     tech="every kernel against dense NumPy, exact on integer data; reuse histories; ASan/UBSan child process for memory safety")

prop(id="C02", title="Index maps are bijections agreeing with the array layout they describe",
     statement="Each forward/reverse index map (vec, vech, vecl, lexicographic, colexicographic, multiset rank, Kronecker) is the inverse of its partner and agrees with the position of the element in the array layout it names. "
               "Each enumeration of index tuples lists exactly the tuples satisfying its predicate, once, in the documented order. "
               "Symmetric-tensor fills write every permutation of an index with the value of its canonical representative.",
     text="all sizes, shapes, orders, offsets and index values",
     why="Unit tests check a few small sizes; a wrong closed form agrees on small sizes and diverges on others.",
     files=["pystatsm/utilities/indexing_utils.py", "pystatsm/utilities/ordered_indices.pyx"],
     mechanism="closed-form index arithmetic (triangular numbers, binomial ranks) and compiled enumerations",
     tech="round trips and exhaustive comparison with itertools enumerations per drawn size")

prop(id="C03", title="Structured matrices act as their defining permutation or duplication operator",
     statement="Commutation, duplication, elimination, lower/strictly-lower selection and pattern matrices satisfy their defining identities (K vec A = vec A', D vech S = vec S, and so on) for every size. "
               "The fast paths that multiply by such a matrix without forming it give the same result as the explicit matrix product, on dense and sparse operands, for left, right and two-sided application.",
     text="all sizes and operands",
     why="The tests compare a few sizes; index-arithmetic fast paths fail only on particular shapes (rectangular operands, two-sided application).",
     files=["pystatsm/utilities/special_mats.py"],
     mechanism="explicit sparse constructions and index-permuting fast paths",
     tech="defining identities on integer-valued operands, exact")

prop(id="C04", title="Parameter transforms are bijections with exact first and second derivatives",
     statement="Every covariance, Cholesky, correlation, simplex, log, tanh and unconstrained-parameter transform inverts its partner on its whole domain and maps unconstrained vectors to valid objects (positive definite, unit diagonal, inside bounds). "
               "Its Jacobian and Hessian routines equal the derivatives of its own forward map, and composed or parallel transforms obey the chain rule.",
     text="all dimensions and points of the domain",
     why="Round trips and derivatives are claims over a continuum; tests sample one fixed matrix.",
     files=["pystatsm/utilities/cov_transform.py", "pystatsm/utilities/param_transforms.py", "pystatsm/utilities/unconstrained_chol.py", "pystatsm/utilities/dchol.py"],
     mechanism="closed-form forward/reverse maps and hand-written Jacobians and Hessians",
     tech="round trips and Richardson-extrapolated numerical derivatives at generated points")

prop(id="C05", title="Linear-algebra helpers compute the decomposition or solution they name",
     statement="Vectorisations, sparse Cholesky wrappers, block inverses, whitening, matrix square roots, Kronecker solves, subspace and quadratic-form helpers return the object their name defines for every well-conditioned input. "
               "Optimizer-option helpers merge options without leaking state between calls.",
     text="all well-conditioned inputs and sequences of option-processing calls", over=["inputs", "histories"],
     why="Unit tests check one or two matrices; shape, batching and aliasing errors appear only for others.",
     files=["pystatsm/utilities/linalg_operations.py", "pystatsm/utilities/optimizer_utils.py"],
     mechanism="NumPy/SciPy/CHOLMOD compositions",
     tech="differential comparison with dense NumPy definitions; call histories for option processing")

prop(id="C06", title="Numerical differentiation is accurate to the order of its scheme",
     statement="Every finite-difference, Richardson and complex-step routine returns, for smooth scalar, vector and matrix-argument functions, the analytic gradient, Jacobian or Hessian within the error of its scheme, in the documented orientation, with masks zeroing exactly the masked entries and without modifying the evaluation point. "
               "Stencil weights differentiate every polynomial of lower degree than the number of nodes exactly.",
     text="all smooth functions, points (including zero coordinates), shapes, masks and node sets",
     why="These routines are the yardstick of the rest of the test suite, and are themselves only used, never tested.",
     files=["pystatsm/utilities/numerical_derivs.py"],
     mechanism="perturbation loops over coordinates and recursive stencil weights",
     tech="random analytic functions with known derivatives; exact polynomial reproduction of stencils")

prop(id="C07", title="Random generators and covariance constructors satisfy their constraints and law",
     statement="Exact-moment sampling reproduces the requested mean and covariance exactly; correlation generators return symmetric unit-diagonal positive semidefinite matrices with the named distribution; truncated draws stay in their bounds and follow the truncated law; Wishart, multivariate t, Student and Cauchy draws follow theirs. "
               "Structured correlation constructors (AR1, exchangeable, antedependence, m-dependent, factor, spatial, Toeplitz, canonical, eigenvalue) have the stated entries, and asymptotic covariances of (co)variances follow the delta method.",
     text="all dimensions, parameters and seeds",
     why="Tests only use these as data sources, so a wrong law or an occasional invalid matrix goes unnoticed.",
     files=["pystatsm/utilities/random.py", "pystatsm/utilities/tf_utils.py", "pystatsm/utilities/cov_utils.py"],
     mechanism="numba and NumPy samplers; closed-form covariance constructions",
     tech="exact constraints per draw, seeded Kolmogorov-Smirnov tests with negligible false-alarm rate, entrywise definitions")

prop(id="C08", title="Spline bases evaluate the named spline; penalties equal its squared curvature",
     statement="Cubic regression, cyclic cubic and B-spline bases times any coefficient vector equal the natural, periodic or B-spline function with those coefficients at any point, including knots and beyond the end knots. "
               "Their penalty matrices equal the integrated squared second derivative of that function, constraint absorption makes columns sum to zero, and GCV scores and gradients equal their definitions.",
     text="all covariate samples, knot counts, coefficients and evaluation points",
     why="Tests fit one data set; a basis that is wrong at ties, knots or outside the training points passes.",
     files=["pystatsm/utilities/splines.py"],
     mechanism="banded linear systems for second derivatives at knots; basis evaluation by interval search",
     tech="differential against scipy CubicSpline/BSpline with exact piecewise integration")

prop(id="C09", title="Data, probability and reporting helpers equal their elementary definitions",
     statement="Moment, coding, cross-tabulation, Welford, sign-change, cross-correlation, normal and bivariate-normal probability and derivative, partition, allocation and quantile helpers return what their elementary definition gives. "
               "Parameter tables report matching statistics, p-values and intervals (an interval excludes zero exactly when p < alpha), and BCa intervals follow their definition.",
     text="all inputs",
     why="Most of these have no test; every model's output table and data preparation depends on them.",
     files=["pystatsm/utilities/data_utils.py", "pystatsm/utilities/func_utils.py", "pystatsm/utilities/output.py", "pystatsm/utilities/xcorr.py"],
     mechanism="short NumPy/numba routines shared by all models",
     tech="differential against elementary definitions, itertools and scipy.stats")

prop(id="C10", title="Survey designs give the stratified-cluster variance of totals and estimators",
     statement="For any strata/PSU layout, weights, finite-population correction and singleton policy, SampleDesign.meat is the stratified between-PSU variance of the total of the score rows, independent of input row order, and a subset keeps the full design structure while zeroing weights outside the domain. "
               "The sandwich built from the WLS and GLM adapters equals the linearised design-based covariance, and the caller's data frame is never modified.",
     text="all designs, row orders, policies and domains",
     why="Tests use a few fixed designs; lonely PSUs, unsorted rows and domains combine in ways they do not reach.",
     files=["pystatsm/utilities/complexdesign"],
     mechanism="sorted frame with pointer arithmetic over strata and PSUs",
     tech="naive dictionary-based reference variance; permutation metamorphic relation")

prop(id="C11", title="Link functions invert exactly and their derivatives are true derivatives",
     statement="For every link in pyglm, pyglm2 and pylmm and every mean in its domain, inv_link(link(mu)) = mu and the inverse stays inside the mean's domain. "
               "dinv_link, d2inv_link and dlink, d2link, d3link, d4link are the successive derivatives of inv_link and link, on arrays of any length.",
     text="all links, powers, dispersions and means of the domain",
     why="Tests compare a few links at a few points, never the higher derivatives; a sign or a factor is wrong only away from symmetric points.",
     files=["pystatsm/pyglm/links.py", "pystatsm/pyglm2/links.py", "pystatsm/pylmm/links.py"],
     mechanism="closed-form link classes with hand-written derivatives",
     tech="round trip and Richardson-extrapolated derivatives at generated means")

prop(id="C12", title="GLM family densities, scores, curvatures and deviances agree with each other",
     statement="For every exponential family and link, full_loglike is minus the log density of the named distribution and loglike differs from it by a term free of the mean. "
               "gw, hw, ehw, dtau, d2tau and scale derivatives are the derivatives (or expected derivatives) of that log-likelihood in the linear predictor and log scale; variance, deviance, Pearson and signed residuals follow their definitions, with prior weights entering once. "
               "Sampling and quantile functions follow the named distribution.",
     text="all families, links, means, responses, weights, scales and dispersions",
     why="Each formula is one of dozens hand-derived; tests check only fits of a few, where a wrong constant or weight cancels.",
     files=["pystatsm/pyglm/families.py", "pystatsm/pyglm2/families.py", "pystatsm/pylmm/families.py"],
     mechanism="closed-form family classes",
     tech="scipy densities as reference, numerical derivatives, quantile and moment checks of draws")

prop(id="C13", title="GLM fits maximise the likelihood; inference, diagnostics and weights follow",
     statement="For the three GLM classes (pyglm.linear_model, pyglm.glm, pyglm2.glm) and every family, link and scale estimator, gradient and hessian are the derivatives of loglike, and fit maximises it: no independent search finds a higher likelihood. "
               "Coefficient covariance is the inverse information, and log-likelihoods, AIC/BIC, pseudo R-squares, leverages, residuals, predictions, jackknife and bootstrap follow their definitions. "
               "Integer prior weights act as their family prescribes, and results are equivariant to row order, column order and linear reparameterisation.",
     text="all designs, families, links, weights and scale estimators",
     why="Tests fit a few simulated unweighted data sets and compare pinned numbers; weighting, scale estimation and statistics outside those cases are unobserved.",
     files=["pystatsm/pyglm/linear_model.py", "pystatsm/pyglm/glm.py", "pystatsm/pyglm2/glm.py"],
     mechanism="profile or joint optimisation of hand-derived likelihood derivatives; closed-form statistics",
     tech="independent optimiser, numerical derivatives, definitions of each statistic, replication and equivariance relations")

prop(id="C14", title="Linear model fits, influence, robust errors and permutation tests are exact",
     statement="For pyglm.ols.OLS, pyglm.linear_model.LinearModel and pyglm2 OLS, with arrays or formulas, loglike is the Gaussian log-likelihood, gradient and hessian its derivatives, and the fit is the least squares solution with the stated residual variance and standard errors. "
               "Linear constraints are satisfied and give the constrained least squares optimum; HC0-HC4 errors, leverage, deletion diagnostics, jackknife and sums of squares equal their definitions (refitting without the row). "
               "Permutation p-values are the fraction of permuted statistics exceeding the observed one, and results are equivariant to row/column order and rescaling.",
     text="all full-rank designs, responses, constraints, weights and resampling seeds",
     why="No test covers OLS or its influence and resampling, and closed-form identities must hold for every design, not a sample.",
     files=["pystatsm/pyglm/ols.py", "pystatsm/pyglm/linear_model.py", "pystatsm/pyglm2/ols.py"],
     mechanism="Cholesky/SVD closed forms, deletion formulas, resampling loops",
     tech="generated designs against brute-force refits, normal equations and numerical derivatives")

prop(id="C15", title="Likelihood inference tools and data containers follow their definitions",
     statement="Profile likelihoods are the optimum over the free parameters with the fixed ones held, profile intervals solve their equation on each side of the estimate, and generated constraints fix each its own parameter. "
               "LR, Wald and score tests, per-term tests of a GLM, information criteria, parameter tables, BCa intervals, robust meat matrices and leverages equal their formulas for any inputs. "
               "ModelData keeps arrays, names, indexes and weights aligned through storing, indexing, iteration, dropping missing rows and building from formulas; ordinal data removes only the intercept.",
     text="all information matrices, constraints, profiles, data kinds and formulas",
     why="These helpers are shared by every model but have no tests of their own; several defects (constraints all bound to the last parameter) lived there unnoticed.",
     files=["pystatsm/pyglm2/likelihood_model.py", "pystatsm/pyglm2/regression_model.py", "pystatsm/pyglm/linear_model.py", "pystatsm/utilities/output.py"],
     mechanism="static helper methods over user-supplied functions, patsy design handling",
     tech="closed forms for quadratics, independent constrained optimiser, dense formulas")

prop(id="C16", title="Multivariate regression and MANOVA statistics equal their definitions",
     statement="MVOLS packs and unpacks (B, precision Cholesky) losslessly; its loglike, gradient, per-row scores and hessian are the matrix-normal log-likelihood and its derivatives, and both fitting methods give the weighted least squares coefficients and ML covariance. "
               "The four MANOVA statistics with F approximations, degrees of freedom, canonical correlations and association measures equal the classical formulas from the hypothesis and error SSCP for any contrast and response transform. "
               "Hypothesis tests are invariant to nonsingular transforms of responses and predictors, and integer weights equal replication.",
     text="all designs, response counts, contrasts, response transforms and weights",
     why="The module has no tests at all.",
     files=["pystatsm/pyglm2/mvols.py"],
     mechanism="log-Cholesky precision parametrisation, generalised eigenproblem for the SSCP pair",
     tech="generated data against dense closed forms, numerical derivatives and invariance relations")

prop(id="C17", title="Ordinal regression maximises its likelihood and predicts by its definition",
     statement="For both CLM classes and every link, loglike is the (weighted) multinomial likelihood of differences of the inverse link at increasing thresholds, and gradient, per-row scores and hessian are its derivatives in the threshold and in the unconstrained parametrisation. "
               "fit returns the likelihood maximum with increasing thresholds whatever the optimiser options; standard errors, tables, likelihood ratio, information criteria, pseudo R-squares, predicted probabilities with errors, jackknife and bootstrap follow their definitions. "
               "Integer weights equal replication, and relabelling, row/column order, rescaling and reversal of the categories act as they must.",
     text="all ordinal responses with observed categories, links, weights and optimiser options",
     why="Tests fit one data set per class without weights; the order constraints, weighted hessian, options and statistics are unobserved.",
     files=["pystatsm/pyglm/clm.py", "pystatsm/pyglm2/clm.py"],
     mechanism="offsets standing in for infinite thresholds, log-spacing reparametrisation, hand-derived derivatives",
     tech="independent likelihood and optimiser, numerical derivatives, replication and equivariance relations, refits")

prop(id="C18", title="Beta, negative binomial and zero-inflated models maximise their likelihoods",
     statement="For BetaReg, NegativeBinomial, ZIP, ZeroInflatedPoisson and ZeroInflatedNBinom, from arrays, frames or formulas and for every link, loglike is minus the (weighted) log density of the stated distribution and gradient, per-row scores and hessians are its derivatives. "
               "fit is the likelihood maximum with inverse-information errors; t tables, information criteria, likelihood ratio, pseudo R-squares, deviance, predictions and intervals equal their definitions. "
               "Weights act as replication, and the models reduce to each other in their limits (no dispersion, no zero inflation).",
     text="all designs, responses, links, weights and kinds of input",
     why="Tests check one simulated data set for some of these classes; ZeroInflatedNBinom was never even constructed.",
     files=["pystatsm/pyglm/betareg.py", "pystatsm/pyglm/nb2.py", "pystatsm/pyglm/zimodels.py", "pystatsm/pyglm2/zinf.py"],
     mechanism="hand-derived derivatives of two-part likelihoods",
     tech="scipy densities as reference, numerical derivatives, independent optimiser, limits and replication")

prop(id="C19", title="Elastic net, lasso and LARS solutions are optimal along the whole path",
     statement="For standardised predictors, elnet, binom_glmnet, binom_elnet, GLMEN and ElasticNetGLM (Gaussian, binomial, Poisson; with observation weights where accepted) return coefficients that satisfy the elastic net optimality conditions at their lambda, whatever the start, screening or warm starts: all zero at lambda_max, the objective never rising. "
               "LARS and lasso paths satisfy the equicorrelation conditions at and between steps and end at least squares. "
               "Cross-validation folds partition (and stratify) the rows, held-out deviances belong to their fold, lambda and intercept, and the chosen lambda minimises their mean; objectives, gradients, Hessians and predictions equal their definitions.",
     text="all designs, responses, penalties, starts and weights",
     why="Tests pin one fit per family at loose tolerance; permanently dropped variables and a path shifted by one lambda passed unnoticed.",
     files=["pystatsm/pyglmnet/gaussian_eln.py", "pystatsm/pyglmnet/binomial_eln.py", "pystatsm/pyglmnet/binom_eln2.py", "pystatsm/pyglmnet/glmen.py", "pystatsm/pyglmnet/glmen2.py", "pystatsm/pyglmnet/lars.py", "pystatsm/pyglmnet/lasso.py", "pystatsm/pyglmnet/eln_utils.py"],
     mechanism="cyclic coordinate descent with active sets, warm starts along a path, Cholesky-updated LARS",
     tech="KKT residuals, a bound-constrained reference minimiser, recomputed folds")

prop(id="C20", title="Linear mixed models: likelihood, derivatives, estimates and inference",
     statement="For LMM and LMM2 with any random terms (nested, crossed, slopes, dummies, any group labels and row order), the ML and REML criteria equal the Gaussian marginal likelihood with the dense covariance ZGZ'+s2 I, in every parametrisation and by every (sparse, dense, blocked) path, and gradients and Hessians are its derivatives. "
               "Fixed effects are generalised least squares, random effects the best linear predictions with their prediction errors, at every theta. fit maximises the chosen criterion; standard errors, signed t and two-sided p values, Satterthwaite degrees of freedom, information criteria, likelihood ratios, profiles, variance shares and tables follow their definitions; a singular estimate still gives a result. "
               "Evaluation leaves no state behind, and relabelling, reordering, shifting and rescaling act as they must.",
     text="all grouping structures, designs, covariance parameters and criteria",
     why="Tests fit well-conditioned balanced data; the permutation chosen by the sparse factorisation, zero columns within groups, ML errors and boundary estimates never occur in them.",
     files=["pystatsm/pylmm/lmm.py", "pystatsm/pylmm/re_mod.py", "pystatsm/pylmm/ranef_terms.py", "pystatsm/pylmm/model_matrices.py", "pystatsm/pylmm/prf.py"],
     mechanism="mixed model equations updated in place, fill-reducing sparse Cholesky, blockwise gradients, covariance reparametrisations",
     tech="dense multivariate normal reference, numerical derivatives, independent optimiser, metamorphic relations")

prop(id="C21", title="Structural equation models: implied moments, likelihood, derivatives, estimates",
     statement="For every recursive model formula (measurement, regressions, covariances, intercepts, fixed values, equality labels, observed exogenous variables, second-order factors, comments and any ordering) with any grouping and sharing, SEM's free parameters are exactly those the formula implies, under their own names, and the implied covariance and mean equal the path-algebra moments at those named values. "
               "The fit function is the Gaussian likelihood ratio against the saturated model, loglike sums observation densities, and gradients, scores, Hessians and moment derivatives are its derivatives. "
               "fit minimises it; standard errors, tests, tables, matrices and fit indices follow their definitions. Row, column and variable order, extra columns, group labels and rescaling act as they must.",
     text="all recursive model formulas or model matrices, groupings, parameter values and data",
     why="Tests pin three models with one start each, and for grouped models only compare derivatives with the model's own function; wrong implied moments, misplaced labels and unused options never show.",
     files=["pystatsm/pysem/sem.py", "pystatsm/pysem/sem2.py", "pystatsm/pysem2/sem.py", "pystatsm/pysem2/model_base.py", "pystatsm/pysem2/param_table.py", "pystatsm/pysem2/derivatives.py"],
     mechanism="formula to parameter table to sparse templates, equality constraints by index maps, hand-derived derivatives",
     tech="independent RAM path algebra over a generated model, Gaussian likelihood from raw data, numerical derivatives")

prop(id="C22", title="Factor analysis and rotation are exact, optimal and rotation-consistent",
     statement="Rotation criteria (Crawford-Ferguson family, oblimin, weighted target) and their first and second derivatives equal their definitions in both packages, as do the stationarity constraints and their derivatives. "
               "Every rotation, from any start and at any loading scale, preserves the common covariance, gives an orthogonal matrix or unit-variance factors, never raises its criterion and ends stationary (for two orthogonal factors no worse than Kaiser's closed form). "
               "Factor analysis from data or a covariance matrix maximises the Gaussian likelihood in any units, is canonical when unrotated, and its standard errors are those of the constrained information; the degrees of freedom, tests, fit indices, score weights, tables, sorted and aligned factors follow their definitions, the implementations agree, and simulated models draw from the covariance they declare, reproducibly by seed.",
     text="all covariance matrices, numbers of factors, rotations, starts and units",
     why="Tests compare derivatives on a few simulated unit-scale models; loadings of another scale, zero-weighted targets, small variances, sorted factors and indices were never checked.",
     files=["pystatsm/pyfa/efa.py", "pystatsm/pyfa/factor_analysis.py", "pystatsm/pyfa/rotation.py", "pystatsm/pyfa/fit_measures.py", "pystatsm/pyfa/align_loadings.py", "pystatsm/pyfa/simulate_factor_model.py", "pystatsm/pyfa2/criterion.py", "pystatsm/pyfa2/rotation.py", "pystatsm/pyfa2/likelihood.py", "pystatsm/pyfa2/identification.py", "pystatsm/pyfa2/inference.py", "pystatsm/pyfa2/alignment.py"],
     mechanism="gradient projection and Cayley rotations, concentrated likelihood, bordered information",
     tech="definitions by loops, numerical derivatives, closed form for two factors, metamorphic relations")

prop(id="C23", title="Additive models: smooth design, penalised fits and smoothing criteria",
     statement="For any formula of cubic, cyclic and B-spline smooths, by-variables and parametric terms, the parametric part is the formula without the smooths, each smooth is a centred spline of its own variable on its own rows and its penalty the integrated squared curvature. "
               "For GAM, GaussianAdditiveModel and GauLS (modelled mean and spread, any link, prior weights) the penalised fit minimises the penalised likelihood, the smoothing criterion is the Laplace marginal likelihood (for a Gaussian the restricted likelihood of the equivalent mixed model), and all derivatives with respect to coefficients, predictors and smoothing parameters are its derivatives. "
               "fit ends at an optimum; covariances, effective degrees of freedom, tests, intervals, fit statistics, components and predictions follow their definitions; the implementations agree, and units, row order, weight scale and replication act as they must.",
     text="all smooth formulas, families, links, data, weights and smoothing parameters",
     why="Tests fit three fixed formulas and compare derivatives with the model's own functions at one point; by-variables, missing smooths, other spline types, tables and predictions never occur.",
     files=["pystatsm/pygam/gam.py", "pystatsm/pygam/gaussian_additive_model.py", "pystatsm/pygam/gauls.py", "pystatsm/pygam/smooth_setup.py"],
     mechanism="spline bases with absorbed constraints, penalised Newton iterations, implicit differentiation",
     tech="scipy splines and distributions, dense mixed-model likelihood, numerical derivatives, metamorphic relations")


prop(id="C24", title="Robust M-, S- and scale estimators",
     statement="Huber's and Tukey's rho, psi, phi and weights equal their definitions at every argument and tuning constant (given at construction, per call or by default), are each other's derivatives, and their normal expectations are those expectations. "
               "Gini's mean difference, Qn, Sn and MAD, in every implementation, equal their order-statistic definitions, ignore order and location and scale with the data. M-estimates of scale, and of location and scale together, solve their equations. "
               "RobustLM minimises Huber's criterion in any units, its derivatives and iteratively reweighted fits agree with it, and its covariances, tests and indices follow their definitions; S-estimates solve the scale equation, are no worse than least squares, resist gross outliers and are reproducible; simulated regressions have the declared covariance, coefficients and explained share, reproducibly by seed or generator.",
     text="all samples, tuning constants, designs, units and contamination",
     why="One test compares the functions at float arguments and the default constant; the estimators, constants, order statistics and standard errors were never run.",
     files=["pystatsm/pyrobust/m_estimators.py", "pystatsm/pyrobust/dispersion_estimators.py", "pystatsm/pyrobust/rls.py", "pystatsm/pyrobust/robust_model_sim.py"],
     mechanism="weighted least squares iterations, order statistics, trust-region minimisation",
     tech="elementwise definitions, sorted pairwise distances, independent convex minimisation, equivariance")


prop(id="C25", title="Polychoric and polyserial correlations",
     statement="For any ordinal variables (any numbers and codes of categories, missing values where accepted), the cell probabilities of every implementation equal the bivariate normal rectangle probabilities at the marginal (or given) thresholds, the log-likelihood is their multinomial one, and first and second derivatives in the correlation, its Fisher transform, the thresholds and the unconstrained parameters are its derivatives. "
               "Two-step and joint fits maximise it, agree across implementations, change sign when a variable is reversed and use pairwise complete rows; standard errors come from the observed information, the asymptotic covariance from the two-step influence functions; matrices, labels and tables match the pairs. "
               "The polyserial correlation is the conditional maximum likelihood estimate in any units and labels. Normal kernels equal their definitions; simulators cut the declared latent correlation at the declared thresholds, reproducibly.",
     text="all ordinal tables, codes, missing patterns, thresholds and correlations",
     why="One test compares polyserial derivatives on standardised data; unstandardised data, gaps in the codes, missing values, several variables and covariances were never run.",
     files=["pystatsm/pylvcorr/lvcorr.py", "pystatsm/pylvcorr/polychoric.py", "pystatsm/pylvcorr/polychoric2.py", "pystatsm/pylvcorr/statfuncs.py", "pystatsm/pylvcorr/sim_lvcorr.py"],
     mechanism="Gauss-Legendre bivariate normal, Newton and trust-region maximisation, influence matrices per category",
     tech="row-wise quadrature reference, independent maximisation, numerical derivatives, influence functions from the definition")


prop(id="C26", title="Multivariate and generalised mixed models",
     statement="For any mixed-model formula (spaces, term order, random intercepts and slopes, one or two grouping factors, labels, row order, unbalanced groups) the design matrices, covariance parameters and their Cholesky form are those of the formula. "
               "For the multivariate model the (restricted) log-likelihood, in sparse and dense form, is that of the dense Gaussian covariance, its derivatives are its derivatives, fixed and random effects are GLS and BLUP, fits reach the optimum, and errors, tests, criteria and every named parameter follow from it. "
               "For generalised models the random-effect modes, the Laplace log-likelihood for any link and adaptive quadrature equal the direct optimum and the numerical integral of the joint density (one node is Laplace); fits are optima with errors from the observed information.",
     text="all formulas of the supported form, data, families, links and parameter values",
     why="No test runs these two models at all.",
     files=["pystatsm/pylmm/mlmm.py", "pystatsm/pylmm/glmm.py", "pystatsm/pylmm/model_matrices.py"],
     mechanism="sparse mixed-model equations, Gauss-Hermite nodes centred at penalised modes",
     tech="dense covariance likelihood, direct integration, numerical derivatives, generated formulas and data")

prop(id="C27", title="Canonical, sparse, independent and factor components",
     statement="Canonical correlation analysis (any shapes, number of components, frames or arrays, collinear columns) gives the singular values of the whitened cross covariance, unit variance uncorrelated scores whose pairwise correlations are these, loadings, redundancies and tests that follow; the simulator returns matrices with the requested canonical correlations and reproducible samples. "
               "Sparse canonical components have unit norm, meet their L1 bound, are each optimal given the other side, deflate or orthogonalise correctly, are invariant to units and origin, leave the caller's data alone and are labelled; resampling returns the held-out correlations of its folds and permutations. "
               "Independent component analysis reconstructs the data, whitens, and recovers sources up to order and sign; convolutive non-negative factorisation steps never increase their objective, stay non-negative, and kernels (shifts, convolution, products, penalties, centring) equal their definitions.",
     text="all data of full column rank with a definite association, all shapes, penalties and component counts",
     why="The existing tests run one shape of CCA; the other modules have none.",
     files=["pystatsm/pyscca/base_cca.py", "pystatsm/pyscca/cca_sim.py", "pystatsm/pyscca/scca.py", "pystatsm/pyica/ica.py", "pystatsm/pynmf/hfuncs.py"],
     mechanism="SVD of whitened cross products, alternating soft-thresholded power steps, fixed point iteration, multiplicative updates",
     tech="independent dense solutions, optimality given the other block, monotone objectives, invariances, generated data")

prop(id="C28", title="Flexible distributions, independence tests, intraclass correlations",
     statement="For all parameters the sinh-arcsinh distributions (both parametrisations, and the two further modules) and the skew normal have the density, distribution function, quantiles, moments, skewness and kurtosis of their definition; their derivatives up to fourth order are the derivatives of the log density in the packed order of ascending indices, for arrays of any shape; samples follow the distribution and repeat with the generator. "
               "Distance correlation and the Hilbert-Schmidt criterion equal their definitions for one or many variables, their permutation statistics belong to permutations and their p-values are the shares over all permutations. "
               "Intraclass correlations from components or from rating data in any row order are those of the two-way analysis of variance.",
     text="all parameter values inside the domain where the skew normal tail does not underflow; all data; balanced designs with positive components for the mixed model",
     why="One test evaluates derivatives at one point; moments, other modules, tests and intraclass correlations are untested.",
     files=["pystatsm/misc/shash1.py", "pystatsm/misc/shashr.py", "pystatsm/misc/sash.py", "pystatsm/misc/skewnorm_dist.py", "pystatsm/misc/sinharcsinh_dist.py", "pystatsm/misc/independence_tests.py", "pystatsm/misc/icc.py"],
     mechanism="generated symbolic derivatives, Bessel function moments, parallel permutation loops",
     tech="numerical derivatives of the next lower order, quadrature, exhaustive permutations of small samples, analysis of variance identities")

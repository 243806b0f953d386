#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (one place to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
                  "mechanism": [{"name": n, "where": w} for n, w in mech],
                  "observe_at": observe or [], "hook_needed": None}})

F = "maxlike/func/"
p("C01", "Elementary model functions report exact values and derivatives",
  "For every parameter value, each elementary model function (identity, scalar, vector, constant, linear, quadratic, exponential, logarithm, logistic and arctan sigmoid) returns its documented value. The gradient and Hessian it reports are exactly the first and second partial derivatives of that value, attached to the right parameter and feature axes. This holds for parameters of any rank, given as plain numbers/arrays, as tensors, or as the Param objects an estimator passes.",
  ["inputs"], "all parameter values, constructor arguments and parameter shapes (rank 0 to 3 decided)",
  "func_test samples two parameter vectors of rank 0/1 and only compares eval with the separate calls, never with a derivative; a wrong derivative formula used consistently passes.",
  [F+"func.py", F+"sigmoid.py", F+"func_base.py", "maxlike/tensor/tensor.py"],
  [("__call__/grad/hess of each class", F+"func.py"), ("sigmoids", F+"sigmoid.py"), ("grad_tensor / hess_tensor axis placement", F+"func_base.py")],
  ["Func.__call__", "Func.grad", "Func.hess"])
p("C02", "Count-distribution functions report exact values and derivatives",
  "The truncated Poisson vector equals lambda^x / x! and the log negative binomial vector equals the log-probability of x = 0..size-1 for the given mean and dispersion; their gradients and Hessians are exactly the derivatives of those vectors for every mean, size, dispersion and feature shape. The one-step negative binomial shortcut is the exponential of the log version.",
  ["inputs"], "all means, sizes, dispersions, feature ranks 0 to 3",
  "Tests fit two data sets to 1e-8 against stored outputs and compare eval with call on [0,1,2]; other means, sizes, dispersions (r != 1) and ranks are never reached.",
  [F+"func_proba.py"], [("shifted-vector derivatives", F+"func_proba.py:Poisson"), ("digamma-free derivatives", F+"func_proba.py:LogNegativeBinomial")],
  ["Poisson", "LogNegativeBinomial", "NegativeBinomial"])
p("C03", "Tennis scoring functions are coherent probabilities with exact derivatives",
  "For every point, game and tie-break winning probability, the game, tie-break and set functions return the probabilities of each winning score: adding over scores the two players' winning probabilities gives exactly one. Their gradients and Hessians are exactly the derivatives of those probabilities.",
  ["inputs"], "all probabilities strictly between 0 and 1; scalar and vector parameters (matrix-shaped parameters are a recorded finding)",
  "The only tennis test fits one data set and compares with stored output produced by the same code.",
  [F+"tennis.py"], [("closed-form score polynomials", F+"tennis.py")], ["Game", "TieBreak", "Set"])
p("C04", "Markov score models conserve probability and differentiate exactly",
  "For every size, number of steps, pair of rates and skew table, the matrix and vector Markov models start from the zero score with probability one and conserve total probability at each step, moving mass only to the next score (or staying at the border). The gradients and Hessians they report are exactly the derivatives of the returned distribution with respect to both rates, and plain evaluation agrees with the value returned alongside the derivatives.",
  ["inputs"], "all rates, skews, sizes and numbers of steps",
  "func_test compares eval with call for one size and one rate vector; derivatives are only exercised indirectly by stored fit outputs with skew = 1.",
  [F+"matrix.py"], [("in-place recurrence and its tangent recurrences", F+"matrix.py:MarkovMatrix.eval, MarkovVector.eval")], ["MarkovMatrix", "MarkovVector"])
p("C05", "Collapsing a score frame sums exactly the cells selected by each condition",
  "For every frame of probabilities and every list of linear sign conditions given by the user (or the default win/draw/loss list), the collapsed vector holds, per condition, the sum of exactly the cells satisfying it, for any leading feature axes. Its gradient is the matching 0/1 indicator on the right axes.",
  ["inputs"], "all frames, conditions and feature ranks 0 to 2",
  "Tests only use the default conditions on 2-feature frames inside a fit.",
  [F+"matrix.py"], [("indicator filters", F+"matrix.py:CollapseMatrix")], ["CollapseMatrix"])
p("C06", "One-shot evaluation agrees with separate value, gradient and Hessian calls",
  "For every model function and every list of parameters, the combined evaluation returns exactly the value, the list of gradients and the lower triangle of Hessians that the three separate calls return. A single parameter may be passed bare, as a list or as a tuple with the same result, and asking for one derivative by index returns the same entry as asking for all of them.",
  ["inputs", "programs"], "all functions (elementary, distribution, tennis, Markov, combinators) and all parameters",
  "func_test checks eval against the separate calls for a dozen functions on tiny inputs; Markov vector, tennis, collapse, nested products and compositions are not compared.",
  [F+"func_base.py", F+"func_op.py", F+"matrix.py", F+"func_proba.py", F+"sigmoid.py", F+"func.py"],
  [("synthesised and hand-written eval", F+"func_base.py:FuncMeta"), ("calling-convention wrappers", F+"func_base.py:call_wrap, vector_wrap, matrix_wrap, eval_wrap")], ["Func.eval", "Func.__call__", "Func.grad", "Func.hess"])
p("C07", "Arithmetic on model functions means arithmetic on their values",
  "Adding or subtracting a constant, negating and scaling a model function yields the function whose value is the same arithmetic applied to the original value, with derivatives scaled accordingly. Nesting such functions, and adding them (with any weight) or other sums and products into a sum or product, never changes the value denoted: an offset or scale is applied exactly once and with the weight of the term it belongs to.",
  ["inputs", "programs"], "all functions, constants, weights and nestings",
  "Tests check X+1, 1-X, 2*X and one nested Affine; weighted or negated offsets inside sums are never exercised.",
  [F+"func_base.py", F+"func_op.py"], [("Affine flattening", F+"func_base.py:Affine.__init__"), ("Sum.add / Product.add flattening", F+"func_op.py")], ["Func operators", "Sum.add", "Product.add"])
p("C08", "Sums and products of placed functions obey the calculus rules",
  "A sum (product) of functions, each reading its own subset of parameters and placed on its own subset of feature and outcome axes in any order, evaluates to the sum (product) of the placed values. Its gradient and Hessian are exactly the derivatives of that value with respect to every parameter, zero for parameters a term does not read, for any order in which the parameters are listed. Collapsing a function over features or outcomes commutes with differentiation.",
  ["inputs", "programs"], "all component functions satisfying the function contract, distinct parameter/feature placements",
  "Tests cover sums of single-parameter functions with sorted placements inside fits; term lists with permuted parameter order and products sharing parameters are hardly reached.",
  [F+"func_op.py", "maxlike/tensor/tensor.py"], [("FuncWrap parameter/axis placement", F+"func_op.py:FuncWrap"), ("sum and product rules", F+"func_op.py:Sum, Product"), ("Collapse", F+"func_op.py:Collapse")], ["Sum", "Product", "FuncWrap", "Collapse"])
p("C09", "Composition obeys the chain rule",
  "Composing an outer function with one or several inner functions evaluates the outer function at the inner values, and the gradient and Hessian reported for the composition are exactly those given by the first- and second-order chain rule, including the cross terms between different inner functions and different parameters.",
  ["inputs", "programs"], "all outer and inner functions satisfying the function contract (linear, element-wise or dense in their arguments)",
  "Only a handful of concrete compositions occur in tests, all evaluated at one data set's optimum.",
  [F+"func_base.py", "maxlike/tensor/tensor.py"], [("Compose.grad/hess/eval", F+"func_base.py:Compose"), ("dot_left / dot_right contractions", "maxlike/tensor/tensor.py")], ["Compose"])
p("C10", "The maximised objective is the documented log-likelihood",
  "For every model output and every data set, the likelihood of each estimator (Poisson, zero-inflated Poisson, logistic, finite, normalised finite, negative binomial) equals the log-likelihood of its documented distribution, up to terms that depend on neither parameters nor model output. The objective is that likelihood minus all registered regularisation penalties, divided by the total number of observations.",
  ["inputs"], "all data, model outputs and regularisation lists",
  "Each estimator is checked on one data set; constants and off-optimum values are not.",
  ["maxlike/maxlike.py", "maxlike/maxlike_base.py"], [("like", "maxlike/maxlike.py"), ("g", "maxlike/maxlike_base.py:MaxLike.g")], ["MaxLike.like", "MaxLike.g"])
p("C11", "Likelihood gradient and Hessian are exact derivatives of the likelihood",
  "For every estimator, data set and differentiable model, the reported log-likelihood gradient and the lower-triangular log-likelihood Hessian are exactly the first and second derivatives of the reported log-likelihood with respect to every parameter entry.",
  ["inputs"], "all data, model outputs and model derivatives; 2 parameters, features of rank 1-2, outcome rank 0-2",
  "A numeric-derivative helper exists but no test calls it; fits only visit a neighbourhood of one optimum.",
  ["maxlike/maxlike.py"], [("grad_like/hess_like pairs", "maxlike/maxlike.py")], ["MaxLike.grad_like", "MaxLike.hess_like"])
p("C12", "Assembled gradient and Hessian match the penalised, constrained objective",
  "The flat gradient and flat Hessian used by the optimiser are the derivatives of the likelihood minus the regularisation penalties with respect to the free parameter entries, bordered by the value and the gradient of each constraint. The Hessian is symmetric and its blocks follow the order of the parameters; constraints and penalties may list their parameters in any order.",
  ["inputs", "programs"], "all parameter lists, masks, constraints and regularisers",
  "Tests use sorted parameter maps, at most one constraint and one regulariser.",
  ["maxlike/maxlike_base.py"], [("flat_grad / flat_hess", "maxlike/maxlike_base.py")], ["MaxLike.flat_grad", "MaxLike.flat_hess"])
p("C13", "Fixed parameter entries never move and free entries keep their place",
  "Flattening the parameters takes exactly the free entries in parameter order, and rebuilding parameters from any flat vector puts each entry back at its own position, leaves every fixed entry at its given value and keeps the fixed/free pattern and shapes. Matrices over the free entries are split back into blocks the same way.",
  ["inputs"], "all parameter shapes, fixed/free patterns and flat vectors",
  "Tests fix a single entry of a vector parameter.",
  ["maxlike/maxlike_base.py"], [("_reshape_array/_reshape_params/_reshape_matrix", "maxlike/maxlike_base.py"), ("Param.compressed/count", "maxlike/maxlike_base.py:Param")], ["MaxLike.fit", "MaxLike.get_params", "MaxLike.error_matrix"])
p("C14", "A fit either converges and stores its result, or raises and leaves parameters alone",
  "A fit returns true only after its convergence test passed, and then the stored parameters are the accepted iterate, the matching curvature is stored, and the estimator is marked as converged. Every other outcome is an exception (a convergence error when the step limit is reached or no improving step is found, a value error for an unknown method) which leaves the stored parameters unchanged and the estimator marked as not converged; verbosity never changes the outcome.",
  ["histories", "inputs"], "all data, tolerances, step limits, methods and verbosity levels",
  "Tests only run fits that converge, silently.",
  ["maxlike/maxlike_base.py"], [("fit", "maxlike/maxlike_base.py:MaxLike.fit")], ["MaxLike.fit", "MaxLike.params", "MaxLike.converged"])
p("C15", "Newton fitting never accepts a step that lowers the objective",
  "During Newton fitting, the current point is replaced only by a point whose objective is at least that of the current point, and the objective used for the comparison is the one of the point being accepted. The number of outer and inner iterations is bounded by the given and built-in limits.",
  ["histories", "inputs"], "all objectives, data and starting points",
  "Tests see only well-behaved starting points where the full step is accepted.",
  ["maxlike/maxlike_base.py"], [("step halving", "maxlike/maxlike_base.py:MaxLike.fit")], ["MaxLike.fit"])
p("C16", "Parameters and tensors are immutable once built",
  "After construction, no attribute of a parameter or of a dense tensor can be rebound or deleted, the stored values are read-only, and no library operation writes into them. Any attempt raises.",
  ["histories", "programs"], "all sequences of library calls and attribute writes",
  "No test attempts a mutation; aliasing and in-place updates are invisible to value comparisons made once.",
  ["maxlike/maxlike_base.py", "maxlike/tensor/tensor.py"], [("__setattr__/__delattr__ blocks and WRITEABLE flag", "Param, BaseTensor, Tensor")], ["Param", "Tensor"])
p("C17", "Evaluating models and tensors has no side effects",
  "Evaluating a model function, its derivatives, a likelihood, an objective or any tensor operation modifies neither its operands, nor the caller's arrays, nor the function or estimator itself, so repeating or reordering evaluations gives the same results. Building a combination of functions does not modify the functions combined.",
  ["histories"], "all evaluation orders and repetitions",
  "Each test evaluates a fresh object once.",
  [F+"func_base.py", F+"func_op.py", F+"matrix.py", F+"func.py", F+"copula.py", "maxlike/tensor/tensor.py", "maxlike/maxlike.py", "maxlike/maxlike_base.py"], [("pure evaluation methods", "Func.__call__/grad/hess/eval, Tensor methods, like/grad_like/hess_like/g/flat_grad/flat_hess")], ["Func", "Tensor", "MaxLike"])
p("C18", "Tensor arithmetic equals arithmetic on the dense arrays",
  "Adding, subtracting, multiplying, dividing and negating tensors, in any representation (plain, diagonal-mapped on either derivative axis group, broadcast, or a lazily held sum) and against numbers or arrays on either side, gives a tensor whose dense array is the same operation on the dense arrays. Dividing by zero raises and unsupported operations raise instead of returning a wrong value.",
  ["inputs", "programs"], "all values and sizes; representations up to 2 derivative groups, 2-3 value axes, 1 outcome axis",
  "tensor_test samples one 3x3 shape per representation with all axes the same size.",
  ["maxlike/tensor/tensor.py"], [("bin_op dispatch", "maxlike/tensor/tensor.py:Tensor.bin_op, GenericTensor.bin_op"), ("reflected operators and __array_ufunc__", "maxlike/tensor/tensor.py")], ["Tensor operators", "toarray"])
p("C19", "Tensor restructuring equals restructuring of the dense arrays",
  "Summing over value or outcome axes, expanding to more axes, flipping, transposing the two derivative groups, merging outcome axes into value axes and contracting two tensors all give a tensor whose dense array and axis counts are those of the same operation on the dense arrays, for plain, diagonal-mapped and lazily summed tensors alike.",
  ["inputs", "programs"], "all values and sizes; same representations as C18",
  "tensor_test uses 3x3 tensors, full sums and a few contractions; partial sums, mapped axes with distinct sizes and outcome axes are not compared.",
  ["maxlike/tensor/tensor.py"], [("sum/expand/flip/transpose/drop_dim/dot*", "maxlike/tensor/tensor.py")], ["Tensor.sum", "Tensor.expand", "Tensor.flip", "Tensor.transpose", "Tensor.drop_dim", "Tensor.dot"])
p("C20", "Failures while evaluating derivatives are never turned into zeros",
  "When a component function fails while computing a value or derivative, the failure reaches the caller. A derivative of zero is reported only for parameters the component does not read or for functions that are constant or linear.",
  ["programs", "inputs"], "all component functions and parameter placements",
  "No test uses a failing component.",
  [F+"func_op.py", F+"func_base.py"], [("exception handlers around parameter lookup", F+"func_op.py:FuncWrap")], ["FuncWrap.grad", "FuncWrap.hess", "FuncWrap.eval", "Sum", "Product"])
p("C21", "Inverse-distribution solvers terminate and signal failure by raising",
  "Every solver that inverts a Poisson or Skellam distribution function stops after a bounded number of iterations for every input. It returns a value only when its residual test passed, rejects impossible targets with a value error and raises a convergence error otherwise; an iterate is only replaced by one with a smaller residual.",
  ["inputs"], "all targets, orders and tolerances",
  "Tests use one feasible target per solver.",
  ["maxlike/skellam.py"], [("bounded Newton loops with step halving", "maxlike/skellam.py")], ["poisson_cdf_root", "skellam_cdf_root", "conditional_skellam_cdf_root"])
p("C22", "Poisson and Skellam distribution functions come with exact derivatives",
  "The Poisson vector, the Skellam frame and the cumulative functions built on them return the documented probabilities, and the derivative rows they return are exactly the derivatives of those probabilities with respect to the rates, for every rate, order and size. The probability below, at and above a threshold are counted without overlap.",
  ["inputs"], "all rates, orders and sizes",
  "Tests check three numbers.",
  ["maxlike/skellam.py"], [("poisson_vector, skellam_frame", "maxlike/skellam.py")], ["poisson_vector", "skellam_frame", "poisson_cdf", "poisson_mid_cdf", "skellam_cdf", "skellam_cdf_pair"])
p("C23", "Copulas preserve the marginals",
  "For every pair of (unnormalised) marginals and every admissible dependence parameter, the joint distribution returned by a copula has exactly the normalised marginals, and follows the documented copula formula. Inadmissible dependence parameters are rejected at construction, and the caller's marginals are not modified.",
  ["inputs"], "all marginals and admissible parameters",
  "Tests use one pair of marginals and one or two parameters per copula.",
  [F+"copula.py"], [("copulaWrap differencing", F+"copula.py"), ("closed-form copulas", F+"copula.py")], ["Gaussian", "Clayton", "Gumbel", "Frank", "AkiMikhailHaq"])
p("C24", "Information criteria follow their documented formulas",
  "The Akaike and Bayesian criteria equal the documented formulas in the number of parameters, extra parameters, constraints, total observations and mean log-likelihood, for every fitted model.",
  ["inputs"], "all parameter counts, extra counts, constraint counts and data",
  "Tests compare three stored numbers at one data set.",
  ["maxlike/maxlike_base.py"], [("akaine_information_criterion / bayesian_information_criterion", "maxlike/maxlike_base.py")], ["MaxLike.akaine_information_criterion", "MaxLike.bayesian_information_criterion"])
p("C25", "Standard errors and covariances come from the inverse negative Hessian",
  "After a fit, the covariance blocks are the blocks of the inverse (pseudo-inverse) of the negative bordered Hessian and the standard errors are the square roots of the diagonal of the same inverse, one per free entry at its own position, with or without constraints and whatever the number of constraints.",
  ["inputs"], "all fitted Hessians, masks and constraint counts (including none)",
  "Every test fits with exactly one constraint.",
  ["maxlike/maxlike_base.py"], [("error_matrix / std_error / fisher_matrix", "maxlike/maxlike_base.py")], ["MaxLike.std_error", "MaxLike.error_matrix", "MaxLike.fisher_matrix"])
p("C26", "Prepared data arrays line up with the returned axis labels",
  "Turning a series or frame of observations into arrays places the aggregate of every label combination at the position given by the returned sorted axes, zero where nothing was observed, and requested extra labels only add positions. Every requested transformation and the weights share the same grid.",
  ["inputs"], "all observation tables, transformations and extra labels",
  "Tests prepare four fixed tables and never look at the returned axes.",
  ["maxlike/preprocessing.py"], [("reindex to the product grid and reshape", "maxlike/preprocessing.py")], ["prepare_series", "prepare_dataframe", "df_count"])
p("C27", "Fitting moves along the documented search directions",
  "With the Newton method every trial point is the current point minus a repeatedly halved multiple of the parameter part of the solution of the bordered Hessian system with the flat gradient, both taken at the current point. With the Broyden method every point is the previous one minus an approximate inverse curvature times the gradient, starting from the (pseudo-)inverse of the Hessian (or of the curvature stored by an earlier converged fit of the same size) and updated so that it maps the last gradient change to the last step.",
  ["histories", "inputs"], "all models, data, constraints and starting points",
  "A wrong step is usually repaired by later iterations, so tests that compare the final estimate with a tolerance pass.",
  ["maxlike/maxlike_base.py"], [("newton_step / Broyden update", "maxlike/maxlike_base.py")], ["MaxLike.newton_step", "MaxLike.fit"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P), "properties")

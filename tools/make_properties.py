#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os

H1, H2, HA, HU = ("templatefitter/histograms/hist1d.py", "templatefitter/histograms/hist2d.py",
                  "templatefitter/histograms/abstract_hist.py", "templatefitter/histograms/hist_utils.py")
TA, T1, T2, CH, MC = ("templatefitter/templates/abstract_template.py", "templatefitter/templates/template1d.py",
                      "templatefitter/templates/template2d.py", "templatefitter/templates/channel.py",
                      "templatefitter/templates/multi_channel_template.py")
MI, FI, TS, ST, UT, NL, TL, HL = ("templatefitter/minimizer.py", "templatefitter/fitter.py", "templatefitter/toy_study.py",
                                  "templatefitter/stats.py", "templatefitter/utility.py", "templatefitter/nll.py",
                                  "templatefitter/templates_legacy.py", "templatefitter/histogram_legacy.py")

P = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        d["anchors"]["observe_at"] = observe
    d["anchors"]["hook_needed"] = None
    P.append(d)


prop("P01", "A filled histogram holds the exact per-bin weight sums",
     "After a 1d or 2d histogram is filled, every bin count is the sum of the weights (1 if none are given) of the entries with lower edge <= value < upper edge, the last bin including its upper edge, and every squared bin error is the sum of the squared weights of the same entries. "
     "Entries outside the range or not finite contribute nothing, in 2d an entry counts only if both coordinates are in range, and x and y select the first and second axis. "
     "This holds for equal-width and variable bin edges and for data and weights given as lists, tuples, arrays of any numeric type or pandas series.",
     ["inputs"], "all bin definitions (1-40 bins per axis, equal or variable width, any location and scale), all finite or non-finite data including values exactly on edges, all weights (none, integer, float, negative) and the accepted containers and dtypes; values within rounding distance above the last edge are excluded",
     "The tests fill a handful of fixed gaussian samples into equal-width bins and compare with numpy; edge values, 2d axes, integer weights, non-finite entries and variable edges are never sampled.",
     [H1, H2, HA], [("Hist1d.fill", H1), ("Hist2d.fill", H2), ("bin edge construction", H1 + ", " + H2)],
     [("bin counts", "sum of weights per bin", HA), ("squared bin errors", "sum of squared weights per bin", HA)])

prop("P02", "Filling is additive, order independent and isolated from the caller",
     "Filling a histogram in several calls, in any order of the entries and with any split into chunks (including empty ones), gives the same counts and errors as filling all entries at once, on top of the contents the histogram was created with. "
     "Filling one histogram never changes another one, nor the arrays, edges or lists the caller passed in, and later changes to those arrays never change the histogram. "
     "A histogram reports itself as empty until it is filled or created from binned data.",
     ["histories", "inputs"], "all histories of create, create-from-binned-data, fill, project and caller-side mutation over several 1d and 2d histograms",
     "The tests never fill a histogram twice, never fill one created from binned data and never modify an array after handing it over.",
     [H1, H2, HA], [("accumulation in fill", H1 + ", " + H2), ("from_binned_data copies", H1 + ", " + H2)],
     [("bin counts", "accumulated weights", HA), ("is_empty", "whether anything has been stored", HA)])

prop("P03", "Binning geometry, binned-data round trip and 2d projections are exact",
     "Number of bins, shape, range, edges, bin mids and bin widths of a histogram agree with the binning it was created with: equal-width bins divide the range evenly, given edges are kept, mids are the centres and widths the differences of neighbouring edges, per axis in 2d. "
     "A histogram created from binned data returns exactly the given counts, edges and errors, with square-root-of-count errors if none are given. "
     "The x (y) projection of a 2d histogram has the x (y) edges, the counts summed over the other axis, and errors added in quadrature over the other axis.",
     ["inputs"], "all binnings given as int, tuple or edge sequences in 1d and 2d with different numbers of bins per axis, all non-negative counts and errors",
     "Tests check a single square or fixed binning; swapped axes, asymmetric shapes, variable edges and quadrature sums for general contents are not reached.",
     [H1, H2, HA, HU], [("bin edge construction", H1 + ", " + H2), ("bin_mids/bin_widths/get_bin_range", HU), ("projections", H2), ("from_binned_data", H1 + ", " + H2)])

prop("P04", "Template bin values equal yield times nuisance-dependent normalised fractions",
     "For yield nu, nuisance parameters theta, nominal bin contents n and relative bin uncertainties eps, the expected content of bin i is nu * n_i(1+theta_i*eps_i) / sum_j n_j(1+theta_j*eps_j), in the shape of the histogram; with zero nuisance parameters a new template reproduces its histogram. "
     "Fractions always sum to one, the values sum to the yield, scale linearly with it and do not depend on the overall normalisation of the histogram, and a template without entries has zero fractions and values.",
     ["inputs"], "all 1d and 2d templates with non-negative bin contents (including empty bins and empty templates), any bin errors and added systematics, all yields and all nuisance parameters that keep the expectation positive",
     "Tests evaluate the fractions at theta=0 or one fixed vector on one histogram; the formula for arbitrary parameters, empty bins and 2d order of bins is not covered.",
     [TA, T1, T2], [("bin_fractions", TA), ("AbstractTemplate.values", TA), ("relative errors", TA)])

prop("P05", "Template uncertainties are the sum of statistical and all added systematics",
     "The template covariance matrix is the diagonal of squared histogram errors (1e-14 for bins without error) plus, for every added systematic, either the given matrix or the outer product of the signed symmetrised up/down variation of the template's own bins, in any order of addition; the list of matrices has one entry per source and sums to the total. "
     "Correlation matrix, inverse correlation matrix, relative and absolute bin uncertainties all follow from that total at any time, the bin uncertainty being the relative uncertainty times the current bin value. "
     "Variations are binned exactly like the template, in 1d and 2d and with variable edges, and matrices of the wrong shape are rejected without any effect.",
     ["inputs", "histories"], "all sequences of variations and covariance matrices added to 1d and 2d templates with equal or variable bins, including empty bins and mixed up/down signs, interleaved with reads",
     "Tests add at most one variation to one template with equal-width bins, and the 2d case failed; accumulation, sign conventions and consistency of the derived matrices are not checked.",
     [TA, T1, T2, UT], [("_init_errors/_add_cov_mat", TA), ("add_variation", T1 + ", " + T2), ("get_systematic_cov_mat", UT), ("cov2corr", UT)],
     [("covariance", "total covariance of the template bins", TA), ("correlation and inverse", "derived from the total", TA)])

prop("P06", "Template parameters are stored, validated and reset faithfully",
     "After any sequence of setting the whole parameter vector, the yield or the nuisance parameters, the template reports exactly the last values set, with the yield first, and its values, fractions and errors follow from them; setting one part never changes the other. "
     "A vector of wrong shape or a yield that is not a number is rejected and leaves all parameters unchanged, and resetting restores the initial yield (the histogram sum) and zero nuisance parameters but keeps added systematics. "
     "Two templates never share parameters, and neither later changes of the arrays passed in nor later filling of the histogram change a template.",
     ["histories"], "all histories of parameter writes (valid and invalid), resets, variations and histogram fills over several templates",
     "Tests set one value once and read it back; no history, no rejected write followed by a read, no aliasing.",
     [TA], [("params/yield_param/nui_params setters", TA), ("reset", TA)],
     [("parameters", "yield followed by nuisance parameters", TA)])

prop("P07", "Model assembly accepts only compatible parts and rejection changes nothing",
     "A channel accepts a template or data histogram only if number of bins, range, bin edges and template type match the channel, and a process only once; templates for undefined channels or processes, data for undefined channels, constraints on undefined processes and processes defined twice are rejected. "
     "A rejected operation leaves the model exactly as it was, and an accepted one adds exactly that part: processes, channels, templates, efficiencies, data and the numbers of templates, processes and nuisance parameters always reflect the accepted operations in order.",
     ["histories"], "all sequences of valid and invalid define/add operations with 1d and 2d histograms of matching and non-matching binnings",
     "Tests try a few single invalid calls; histories mixing accepted and rejected operations and the state afterwards are not explored.",
     [CH, MC], [("Channel.add_template/add_data compatibility checks", CH), ("define_process/add_template/add_data/add_gaussian_constraint_on_yield", MC)],
     [("channel and process registries", "what has been accepted so far, in order", MC)])

prop("P08", "The parameter vector maps one-to-one onto yields and nuisance parameters",
     "The parameter vector lists the process yields in definition order and then, per channel in definition order and per template in order of addition, its nuisance parameters, and the names follow the same order and are consistent with it in length. "
     "Updating the model with a vector sets each template's yield to its process yield times its efficiency and its nuisance parameters to its own slice; reading the vector back returns the nuisance parameters unchanged and for every process the sum of its template yields. "
     "Setting a process yield sets all its templates to yield times efficiency and no other template, reading a yield or its error combines all channels, and resetting restores the initial vector.",
     ["inputs", "histories"], "all models with several channels (1d and 2d, different numbers of bins), processes missing from some channels or added in different orders, arbitrary efficiencies and parameter vectors, and all sequences of update, set_yield and reset",
     "Tests use one channel or identical channels with the same processes in the same order, so permuted or missing processes and unequal bin numbers are not distinguished.",
     [MC, CH], [("generate_per_channel_parameters/update_parameters", MC), ("Channel.process_indices/update_parameters", CH), ("NegLogLikelihood.x0/param_names", MC), ("set_yield/process_yields", MC)],
     [("template parameters", "yield*efficiency and nuisance slice", TA)])

prop("P09", "The likelihood value equals its defining formula",
     "For every model, data and parameter vector the negative log likelihood equals the sum over channels and bins of nu - n - n*log(nu/n) (nu alone for empty data bins), with nu the sum over processes of process yield times efficiency times bin fraction, plus half the quadratic form of every template's nuisance parameters with its inverse correlation matrix, plus half the squared pull of every constrained yield. "
     "A constraint given again for the same process replaces the earlier one.",
     ["inputs"], "all models of 1-3 channels (1d and 2d) and 1-4 processes with missing processes, arbitrary efficiencies, systematics with correlations, yield constraints, arbitrary non-negative data (including empty bins and non-integer counts) and parameter vectors with positive expectation",
     "Tests compare one or two fixed single-channel configurations; multi-channel sums, correlations, constraints and empty bins in combination are not evaluated against an independent formula.",
     [MC, CH, UT, TA], [("NegLogLikelihood.__call__", MC), ("Channel.nll_contribution", CH), ("xlogyx", UT)])

prop("P10", "The likelihood always reflects the current model",
     "After any sequence of model changes (adding channels, processes, templates, variations, constraints, data, or setting parameters) interleaved with likelihood evaluations, fits or generated datasets, the likelihood, the parameter vector and names, the generated data and the expected bin counts are the same as for a model built directly in its current state. "
     "Evaluating never changes later results, and models that share no parts never influence each other.",
     ["histories"], "all interleavings of model construction steps with evaluations over one or more models, including systematics added and data replaced after an evaluation",
     "Tests build a model once and evaluate it once, so results remembered from an earlier state of the model can never show.",
     [CH, MC, TA], [("process_indices, efficiency and inverse correlation lookup", CH), ("NegLogLikelihood", MC)],
     [("derived lookups", "must follow the templates of the channel", CH)])

prop("P11", "x*log(y/x) is accurate for all non-negative x and positive y",
     "The x*log(y/x) function used by the likelihood returns zero for x = 0 (and for missing x), is accurate to floating-point precision (absolutely to 1e-97) for all positive x and y including nearly equal, very small and very large values as long as their ratio is representable, is never above y - x, and works element-wise on scalars and arrays without modifying them.",
     ["inputs"], "all pairs x >= 0, y > 0 over the whole double range, with emphasis on y close to x, scalar and array arguments of any shape",
     "Tests evaluate a few points; cancellation for y close to x and extreme ratios need a search over pairs against high-precision arithmetic.",
     [UT, CH], [("xlogyx", UT)])

prop("P12", "Asimov data equal the expectation and toy data are Poisson draws of it",
     "An Asimov dataset holds, for every channel, the sum of the current template values (rounded to the nearest integer on request) with square-root errors and the channel's binning, and it is accepted as data by its own model. "
     "A toy dataset has independent Poisson distributed non-negative integer counts with that sum as mean (zero where it is zero), differs between draws and follows the current parameters. "
     "Generating data changes neither the templates nor the data of the model.",
     ["inputs", "histories"], "all models (1d and 2d, several channels) and parameter settings with non-negative expectation; toys are judged by distribution-free bounds on mean, variance and correlation over many draws",
     "Tests check the type of the generated dataset at most; the distribution, dependence on current parameters and freedom from side effects are statements over many draws and states.",
     [CH, MC], [("generate_asimov_dataset/generate_toy_dataset", CH + ", " + MC)])

prop("P13", "A successful fit is at the minimum of the likelihood",
     "When a fit reports success, the reported minimum is the likelihood at the reported parameters, no worse than at the starting point, and no other allowed parameter vector has a likelihood lower by more than the minimizer's tolerance, for both minimizers, which agree with each other. "
     "Fitting the Asimov data of a model starting from other parameters returns the true parameters with likelihood zero. "
     "The templates hold the fitted parameters afterwards if an update was requested and are unchanged otherwise.",
     ["inputs", "configurations"], "all well-posed models (1-3 processes with distinguishable shapes, 1-2 channels, 1d and 2d, with and without systematics and yield constraints), toy or Asimov data, starting values, and both minimizers",
     "The tests contain no fit at all.",
     [FI, MI, MC], [("TemplateFitter.do_fit", FI), ("IMinuitMinimizer/ScipyMinimizer.minimize", MI), ("update_parameters", MC)])

prop("P14", "Fixed and bounded parameters are respected by every fit",
     "Parameters fixed by name or index, one or many or repeatedly, keep exactly their starting values in fits, significances and profiles, the remaining parameters are at the constrained minimum, and fixing all nuisance parameters by either interface fixes exactly those. "
     "Bounded parameters, including common limits for nuisance parameters, stay within their bounds, and bounds that the unconstrained optimum satisfies do not change the result; a result with an active bound is no worse than any point inside the bounds, and a fixed parameter keeps its value even where it violates its bounds. Of several bounds set for one parameter the last ones count. "
     "Restrictions of one fitter do not leak into another fitter of the same model.",
     ["inputs", "histories", "configurations"], "all subsets of fixed parameters, active and inactive bounds, nuisance parameter limits, both minimizers, several fitters on one model",
     "The tests contain no fit at all.",
     [FI, MI], [("set_parameter_fixed/set_parameter_bounds/fix_nui_params", FI), ("set_param_fixed/set_param_bounds/_create_constraints", MI)],
     [("fixed and bound parameter lists", "restrictions applied to every minimization", FI)])

prop("P15", "Fit uncertainties are the inverse curvature of the likelihood",
     "At a successful fit without active bounds the covariance matrix is the inverse of the second-derivative matrix of the likelihood with respect to the free parameters at the minimum, for both minimizers and any start value; it is symmetric and has one row and column per parameter in the order of the names, zero for fixed parameters. "
     "Errors are the square roots of its diagonal and the correlation matrix is the covariance divided by the errors, and name, index and array access return the same numbers.",
     ["inputs", "configurations"], "all well-posed models and data as for the fit, any subset of fixed parameters, both minimizers, starting at or away from the minimum",
     "The tests contain no fit at all.",
     [MI, FI, UT], [("IMinuitMinimizer.minimize covariance", MI), ("ScipyMinimizer.minimize covariance", MI), ("cov2corr", UT)])

prop("P16", "A likelihood profile is the conditional minimum along the scanned parameter",
     "A profile scan returns equally spaced points covering the requested number of standard deviations on both sides of the fitted value, the likelihood minimised over all other free parameters at every point (minus the minimum if requested; not a number where that minimisation fails), and the parabola with the fitted error. "
     "It is independent of the number of worker processes, respects fixed parameters, nuisance fixing and bounds of the other parameters, touches its minimum at the fitted value, and leaves the model unchanged.",
     ["inputs", "configurations", "schedules"], "all well-posed models, yield and nuisance parameters by name or index, numbers of points and workers, scan widths, both minimizers",
     "The tests contain no profile scan.",
     [FI, MI], [("TemplateFitter.profile/_profile_helper/_get_hesse_approx", FI)])

prop("P17", "The significance is the square root of the profile likelihood ratio",
     "The significance of a process is sqrt(2*(conditional minimum with its yield at zero - global minimum)) with the same nuisance treatment, fixed parameters and bounds in both minimisations, and it is zero if the fitted yield is negative. "
     "It is a non-negative number, grows when signal-like events are added, does not depend on the current value of the yield parameter, and computing it leaves the model unchanged.",
     ["inputs", "configurations"], "all well-posed models with at least two processes, data with positive, vanishing and negative signal, nuisance parameters free or fixed, both minimizers",
     "The tests contain no significance calculation.",
     [FI, MI], [("TemplateFitter.get_significance", FI)])

prop("P18", "Toy studies record one independent fit per experiment",
     "A toy study of n experiments records exactly n fits, each of the current model to its own toy dataset with nuisance parameters fixed; parameter, uncertainty and pull arrays have one row per experiment in the order of the processes, pulls are (fitted - expected)/uncertainty with the model's yield, and running again replaces the results. "
     "Fitted yields are unbiased and pulls have unit width within statistical precision, results are refused before a study has run, and a linearity test returns for each equally spaced yield point the mean and spread of the fits made at that yield. "
     "A fit that raises a runtime error is retried with new toy data, at most the allowed number of times, and is never recorded.",
     ["inputs", "histories", "fault_sequences"], "all well-posed models with known per-bin expectations, numbers of experiments, both minimizers, repeated studies and linearity tests, and injected sequences of fit failures",
     "The tests contain no toy study; unbiasedness and pull widths are statements about ensembles.",
     [TS, FI, MC], [("do_experiments/_experiment", TS), ("do_linearity_test", TS), ("get_toy_results/get_toy_result_pulls", TS)],
     [("toy results", "fitted parameters and uncertainties per experiment", TS)])

prop("P19", "Covariance, correlation and systematic matrices obey their algebra",
     "Converting a covariance to a correlation matrix gives unit diagonal, entries in [-1,1] and zero rows for vanishing variances, converting back with the variances restores it, and rescaling variables does not change the correlation. "
     "The systematic covariance of up/down variations is the outer product of the mean absolute shift signed by whether up exceeds down, hence symmetric, positive semi-definite, unchanged when up and down, differing wherever there is a shift, are exchanged, and zero without shift. "
     "Splitting an array into given sizes returns consecutive pieces of these sizes.",
     ["inputs"], "all positive semi-definite covariance matrices with variances over many orders of magnitude, all nominal/up/down vectors, all arrays and size lists",
     "Tests evaluate two small matrices.",
     [UT], [("cov2corr/corr2cov", UT), ("get_systematic_cov_mat", UT), ("array_split_into", UT)])

prop("P20", "Goodness-of-fit statistics and p-values equal their definitions",
     "The Pearson, uncertainty-weighted and binned-likelihood tests return the defining chi-square sum, that sum per degree of freedom, and the probability of a chi-square variable with that many degrees of freedom to exceed it. "
     "The likelihood statistic counts empty data bins as twice the expectation, all statistics are non-negative and zero exactly when data and expectation agree, and p-values lie in [0,1] and fall with growing chi-square for any number of degrees of freedom.",
     ["inputs"], "all non-negative data, positive expectations and uncertainties, any degrees of freedom from 1 to thousands",
     "No test covers these functions.",
     [ST, UT], [("pearson_chi2_test", ST), ("cowan_binned_likelihood_gof", ST), ("default_chi2_test", ST)])

prop("P21", "Fit parameters are addressed consistently by name and index",
     "Every parameter name and its position address the same value and error in the parameter container, unknown names, out-of-range positions and identifiers of other types are rejected, and arrays of wrong length are rejected without changing the stored ones. "
     "Values, errors, covariance and correlation returned are those last stored, for the container and for a minimizer that restricts parameters by either kind of identifier.",
     ["inputs", "histories"], "all lists of distinct names, all identifiers (valid, unknown, negative, out of range, wrong type), all histories of writes and reads",
     "No test covers the container; identifiers outside the list and rejected writes are not tried.",
     [MI, UT], [("Parameters", MI), ("id_to_index", UT), ("minimizer_factory", MI)])

prop("P22", "Post-fit bin uncertainties propagate the full parameter covariance",
     "The post-fit covariance of the expected bin counts of a channel is J*C*J^T, with J the derivative of the total expected bin counts with respect to the channel's yields and nuisance parameters at the given values and C their covariance, and the post-fit bin uncertainty is the square root of its diagonal. "
     "The expected bin counts for given parameter values are the sum over processes of yield times efficiency times fraction, and none of this changes the model.",
     ["inputs"], "all single-channel models (any number of processes, efficiencies, systematics), parameter values with positive expectation and positive semi-definite covariance matrices, and results of real fits with and without fixed parameters",
     "No test covers the propagation; the derivative of the normalised fractions is nontrivial for general nuisance values.",
     [CH], [("propagate_parameter_uncertainties/get_post_fit_bin_uncertainty", CH), ("bin_counts_from_param_values/split_parameter_array", CH)])

prop("P23", "Plots show the current values, uncertainties and data",
     "Every plot of a template, projection or channel draws exactly the current bin values (stacked in order for a channel) over the bin edges, an uncertainty band from value minus error to value plus error of the current template, stack or fit result, and the data points with their errors if data were added, with the labels and colors of the templates. "
     "It works with and without data, colors and pretty labels, and plotting never changes the model.",
     ["inputs", "configurations"], "all 1d and 2d templates and 1d channels with arbitrary contents, parameters, edges, labels and colors, propagated and scaled post-fit uncertainties",
     "No test plots anything.",
     [T1, T2, CH, TL], [("Template1d.plot_on", T1), ("Template2d.plot_on/plot_*_projection_on", T2), ("plot_stacked_on/plot_post_fit_stacked_on", CH)])

prop("P24", "The legacy stacked-template model follows the same formulas",
     "Legacy histograms, templates and stacked templates obey the same filling, fraction, covariance, Asimov/toy and likelihood formulas as the current classes: the legacy likelihood equals the Poisson plus nuisance terms of the stack, parameter vectors are yields followed by each template's nuisance parameters, and updating, resetting and reading them agree, also for a likelihood created before later changes of the stack. "
     "Templates that differ in variable, number of bins or limits are rejected, and scaling a legacy histogram scales counts linearly and squared errors quadratically.",
     ["inputs", "histories"], "all legacy stacks of 1-4 templates from event tables with weights, added covariance matrices, arbitrary data and parameters, compared with the formulas and with an equivalent current model",
     "No test covers the legacy modules.",
     [TL, HL, NL], [("StackedTemplateNegLogLikelihood", NL), ("Template/StackedTemplate", TL), ("Histogram/Hist1d/Hist2d", HL)])

prop("P25", "The minimizers solve problems with known solutions",
     "For any smooth objective with a unique known minimum both minimizers return the minimum position and value and, for a quadratic objective, its inverse second-derivative matrix, independent of the start point, of earlier minimisations and of previously fixed and released parameters. "
     "A fixed parameter keeps its start value with the others at the conditional minimum, and a bound puts the result on the boundary exactly when the minimum lies outside; additional arguments reach the objective. "
     "A result keeps its numbers when the minimizer is used again and never carries the uncertainties of an earlier minimisation.",
     ["inputs", "histories", "configurations"], "all positive definite quadratic forms (1-6 parameters, condition number up to 1e4) and convex non-quadratic variations, start points, histories of fix/release/bound/minimize on one minimizer object",
     "No test calls a minimizer.",
     [MI], [("IMinuitMinimizer", MI), ("ScipyMinimizer", MI), ("set_param_fixed/release_params/set_param_bounds", MI)],
     [("fixed parameters and bounds of the minimizer", "apply to the next minimisation", MI)])

prop("P26", "Results do not depend on declaration order or equivalent formulation",
     "Defining processes, channels or templates in another order permutes the parameter vector but changes neither the likelihood of corresponding parameters nor any generated expectation nor fitted yields. "
     "Scaling a template's histogram and errors together, reversing the bins of templates and data together, splitting an efficiency off into the yield, or merging a 2d model into a flattened 1d model leaves the likelihood unchanged, and channels are independent: the likelihood of a model is the sum of those of its channels alone.",
     ["inputs", "configurations"], "all models as for the likelihood and all permutations and reformulations of them",
     "A relation between two executions is never tested; the tests use one fixed order.",
     [MC, CH, TA], [("process/channel ordering", MC), ("process_indices", CH), ("fractions", TA)])

prop("P27", "Reading operations never change the model",
     "Evaluating the likelihood, reading parameters, values, errors, names or covariances, generating datasets, fitting without update, scanning profiles, computing significances, propagating uncertainties and plotting leave all template parameters, values, errors, covariances, data, efficiencies and constraints bit-for-bit unchanged, whatever their order. "
     "Operations that do change the model change only what they name: a fit with update and setting parameters change parameters only, adding data changes the data of the named channels only, adding a variation changes the uncertainties of that template only (and its values where they depend on them through nonzero nuisance parameters), resetting changes parameters only.",
     ["histories"], "all sequences of reading and writing operations over models of 1-3 channels, with a full snapshot compared after every step",
     "Tests never compare the state of a model before and after an operation.",
     [MC, CH, TA, FI, TS], [("query methods of templates, channels and models", MC), ("do_fit(update_templates)", FI)],
     [("model state", "parameters, covariances, data, efficiencies, constraints", MC)])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
    print(len(P), "properties")

"""The properties; tools/make_meta.py writes properties.jsonl and MANIFEST.json
from this list."""

P = []


def prop(pid, title, statement, over, quant, tests, files, mech, technique, note):
    P.append(dict(id=pid, title=title, statement=statement, over=over, quant=quant,
                  tests=tests, files=files, mech=mech, technique=technique, note=note))


U = "estimation/utilities/"
D = "estimation/unidimensional/dichotomous/"
Y = "estimation/unidimensional/polytomous/"
MD = "estimation/multidimensional/"
ENUM = "bounded exhaustive enumeration of executions of the real code against an independent reference model"

prop("P01", "Preparing data keeps valid answers and touches nothing else",
     "Tagging keeps exactly the listed valid codes and turns every other cell into the missing marker; reversing a scale "
     "maps v to max+1-v on the chosen items only and leaves missing cells missing. Counting, converting to signs and "
     "trimming treat exactly the codes 0 and 1 as answers, ignore missing cells, and trim exactly the persons whose "
     "answers do not vary. None of these changes its argument, whatever the storage type, memory layout or shape.",
     ["inputs"], "every small response matrix over valid, invalid and missing codes, every set of valid codes, every "
     "reversal mask, all integer, boolean and floating storage types and layouts",
     "the tests use one or two matrices of one type each",
     [U + "utils.py", "common/reverse.py"],
     [("tag_missing_data", U + "utils.py"), ("get_true_false_counts", U + "utils.py"),
      ("convert_responses_to_kernel_sign", U + "utils.py"), ("trim_response_set_and_counts", U + "utils.py"),
      ("mml_approx", U + "utils.py"), ("reverse_score", "common/reverse.py")],
     ENUM, "Complete for the enumerated matrices; larger matrices only through a few fixed ones.")

prop("P02", "Options are validated, completed and never leak between calls",
     "Validating an options dictionary returns every documented option with its documented default except those given, "
     "rejects a value outside its documented range, a wrong type or a non-dictionary, and changes neither the "
     "argument nor what later calls see. Every estimation entry point that takes options applies the same rules before "
     "it computes anything. What one call receives or returns can be modified freely without affecting another call.",
     ["histories", "configurations", "inputs"], "every option with every good and bad value of a menu, all pairs, every "
     "entry point, and all histories of up to 3 (4) option operations",
     "the tests try single bad values once and never look at histories of calls",
     [U + "girth_options.py"],
     [("validate_estimation_options", U + "girth_options.py"), ("default_options", U + "girth_options.py")],
     "explicit-state exploration of call histories on the real code", "State compared after every operation; "
     "deviations need a value outside the menu or a longer history.")

prop("P03", "Recoding ordinal answers gives dense ordered codes",
     "Recoding maps each item's observed categories, in ascending order, onto consecutive codes, with each item's codes "
     "following those of the item before it (or all starting at zero on request), reports the number of categories (at "
     "least two) and a mask of answered cells, and leaves missing cells missing. An item with a single observed category gets the "
     "lower code exactly if that category is the lowest of the whole data set. Trimming removes exactly the persons all "
     "of whose answers equal the lowest or the highest code of the data set, or who have no answer.",
     ["inputs"], "every small matrix over missing and several codes, offsets, storage types, trimming on and off, and "
     "wide matrices with many categories",
     "the tests use a couple of fixed matrices without missing rows or single-category items",
     [U + "polytomous_utils.py"], [("condition_polytomous_response", U + "polytomous_utils.py")],
     ENUM, "Complete for all matrices of the stated shapes.")

prop("P04", "The look-up table inverts the marginal proportion",
     "For every discrimination of the tabulated range, both ends included, and every proportion between the tabulated "
     "ones, the table returns the difficulty at which an item of that discrimination has this marginal proportion under "
     "the requested ability distribution and quadrature, up to the linear interpolation between its nodes. The result decreases "
     "as the proportion grows, works for arrays of proportions, and does not depend on earlier look-ups.",
     ["inputs", "configurations"], "a menu of table shapes x quadrature and distribution options x all nodes and points "
     "between; proportions outside the table are excluded (known findings)",
     "the tests compare a handful of values with a loose tolerance",
     [U + "look_up_table.py"], [("create_beta_LUT", U + "look_up_table.py")],
     ENUM, "Saturation outside the table is a listed finding; interpolation error is computed, not assumed.")

prop("P05", "EAP ability is the posterior mean of each person",
     "The expected a posteriori ability of a person under the two- or three-parameter model is the mean of the "
     "posterior formed by the requested ability distribution on the requested quadrature and that person's answered "
     "items. Missing answers contribute nothing, a scalar discrimination means the same for all items, and the "
     "result does not depend on which other persons are scored with them or on the order.",
     ["inputs", "configurations"], "every response pattern over {0,1,missing} for up to 4 (6) items, parameter and option "
     "menus, long tests, every batch of one or two persons",
     "the tests compare seeded random data with a regression value or a correlation",
     [D + "ability_estimation.py", D + "ability_threepl.py", D + "partial_integrals.py"],
     [("ability_eap", D + "ability_estimation.py"), ("ability_3pl_eap", D + "ability_threepl.py"),
      ("_compute_partial_integral", D + "partial_integrals.py")],
     ENUM, "Patterns complete for short tests; longer tests only through fixed data.")

prop("P06", "MAP and MLE abilities maximise the posterior or likelihood",
     "The maximum a posteriori and maximum likelihood abilities of a person maximise the posterior, respectively the "
     "likelihood of the answered items, on the search interval from -6 to 6. A person for whom the likelihood has no "
     "finite maximum (all answered items right, all wrong, or none answered) gets the documented no-estimate value, with its "
     "sign telling right from wrong. The result does not depend on the other persons in the batch.",
     ["inputs", "configurations"], "every pattern over {0,1,missing} for up to 4 (5) items, parameter, prior and "
     "no-estimate menus, every batch of one or two persons",
     "the tests check correlations on random data and single patterns",
     [D + "ability_estimation.py", D + "ability_threepl.py"],
     [("ability_map", D + "ability_estimation.py"), ("ability_mle", D + "ability_estimation.py"),
      ("ability_3pl_map", D + "ability_threepl.py"), ("ability_3pl_mle", D + "ability_threepl.py")],
     ENUM, "Local maxima of multimodal posteriors are accepted.")

prop("P07", "Multidimensional abilities are posterior means and modes",
     "Multidimensional expected a posteriori abilities are the factor-wise means, and maximum a posteriori abilities the "
     "maximiser, of the posterior formed by independent priors per factor and the answered dichotomous or ordinal items. "
     "Items may differ in their number of categories, missing answers contribute nothing, and fewer than two factors are rejected. "
     "The result does not depend on the order of the persons nor on which persons are added, as long as every item shows all its categories.",
     ["inputs", "configurations"], "every pattern over all categories and missing for small item sets, 2 and 3 factors, "
     "quadrature and prior menus, permutations and leave-outs of the batch",
     "the tests compare correlations on random data",
     [MD + "multidimensional_ability_methods.py", MD + "partial_integral_md.py"],
     [("multidimensional_ability_eap", MD + "multidimensional_ability_methods.py"),
      ("multidimensional_ability_map", MD + "multidimensional_ability_methods.py")],
     ENUM, "Batches in which an item does not show all its categories are a listed finding.")

prop("P08", "Estimates depend only on what was answered, not on how it is listed",
     "For every estimation method, reordering the persons, duplicating every person (for the maximum likelihood methods), or shifting every "
     "ordinal code by a constant leaves the item estimates unchanged within optimiser accuracy; reported abilities follow their persons. "
     "A person without any answer changes nothing, whichever position it is listed at, in methods that accept missing data. "
     "Items with identical answers in an isolated fit get identical estimates when the order of items cannot matter.",
     ["inputs", "configurations"], "all estimators x a menu of base data sets x all transformations of the menu (all "
     "permutations of small data sets)",
     "the tests never relate two runs to each other",
     [D + "rasch_mml.py", D + "jml_methods.py", D + "threepl_mml.py", D + "rasch_conditional.py", Y + "grm_mml.py",
      Y + "grm_mml_eap.py", Y + "pcm_mml.py", Y + "gum_mml.py", Y + "grm_jml.py", Y + "pcm_jml.py"],
     [("condition_polytomous_response", U + "polytomous_utils.py"), ("per-item update loops", Y + "grm_mml.py")],
     ENUM, "Tolerances absorb optimiser noise.")

prop("P09", "Storage type and memory layout of the data do not matter",
     "Every estimation, scoring, correlation and statistics function gives the same result for the same answers stored as "
     "any integer width that holds them, as booleans (two-valued data), as floating point numbers, in C or Fortran "
     "order, as a non-contiguous view, or read-only; so do its numeric parameters stored as integers or in another layout. The data passed in is never modified.",
     ["inputs", "configurations"], "all functions x all storage types x all layouts on a menu of data sets with and "
     "without missing answers", "the tests pass int64 C-ordered arrays only",
     [Y + "grm_mml.py", D + "rasch_mml.py", U + "polytomous_utils.py", "common/polychoric.py", "common/cronbach_alpha.py"],
     [("astype conversions at the entry points", U + "polytomous_utils.py")],
     ENUM, "Every pair of function and representation is run.")

prop("P10", "Rasch and one-parameter marginal estimates solve their equations",
     "Marginal Rasch estimation returns, for the given discrimination, difficulties at which each item's marginal "
     "proportion of right answers under the requested distribution and quadrature equals the observed one. The "
     "one-parameter method returns the common discrimination in [0.25, 10] that maximises the marginal likelihood of "
     "the response patterns along that curve. Missing answers are ignored, and items answered all right or all wrong get the largest "
     "difficulty of the search interval in the right direction.",
     ["inputs", "configurations"], "every count vector of a bound over all response patterns of 2-3 items, pattern sets with missing, "
     "discriminations, quadrature and distribution menus",
     "the tests recover parameters of one random data set within a loose error",
     [D + "rasch_mml.py"], [("rasch_mml", D + "rasch_mml.py"), ("onepl_mml", D + "rasch_mml.py"),
                            ("_mml_abstract", D + "rasch_mml.py")],
     ENUM, "Optimality checked on a grid of the profile likelihood.")

prop("P11", "2PL and graded marginal estimates are optimal and reproduce proportions",
     "For the two-parameter and graded response marginal methods, the thresholds returned reproduce each item's observed "
     "proportions of answers at or above each category, given its discrimination, and the discriminations (within 0.2 to 5) cannot be "
     "improved one at a time in marginal likelihood once converged. Each further iteration allowed does not lower the marginal "
     "likelihood, and more iterations than needed change nothing. Items may differ in their number of "
     "categories, unused threshold cells are NaN, and using the look-up table or not changes estimates only by its interpolation error.",
     ["inputs", "configurations"], "base data sets x all small deviations, items, categories, missing answers, quadrature, distribution, "
     "table use, iteration bounds",
     "the tests recover parameters of random data within loose errors",
     [Y + "grm_mml.py", D + "twopl_mml.py", U + "polytomous_utils.py", U + "look_up_table.py"],
     [("grm_mml", Y + "grm_mml.py"), ("twopl_mml", D + "twopl_mml.py"), ("_solve_for_constants", U + "polytomous_utils.py"),
      ("_solve_integral_equations", U + "polytomous_utils.py"), ("_graded_partial_integral", Y + "partial_integrals_poly.py")],
     ENUM, "Items outside the tabulated proportions are excluded (known findings of P04).")

prop("P12", "Mixed Bayesian 2PL and graded estimates are posterior means",
     "In the mixed expected a posteriori / marginal method, each discrimination returned at convergence is the mean of "
     "its posterior under the shifted Rayleigh prior on [0.25, 5], with all other items at their estimates and its thresholds reproducing the "
     "observed proportions; the reported prior scale is the posterior mean of the scale under its lognormal hyperprior given "
     "the discriminations. The requested quadrature sizes, distribution and iteration bound are honoured.",
     ["inputs", "configurations"], "data sets x hyper quadrature sizes x quadrature options x iteration bounds",
     "the tests pin one random data set",
     [Y + "grm_mml_eap.py", D + "twopl_mml_eap.py"],
     [("grm_mml_eap", Y + "grm_mml_eap.py"), ("twopl_mml_eap", D + "twopl_mml_eap.py")],
     ENUM, "Step-by-step conformance to a reference sweep.")

prop("P13", "Partial credit marginal estimates are locally optimal",
     "The partial credit marginal method returns discriminations within 0.25 to 4 and thresholds within -6 to 6 at which "
     "the marginal likelihood of the answers cannot be improved by changing the parameters of any one item, once converged. "
     "Each further iteration allowed does not lower it. Items may differ in their number of categories, missing answers are ignored, and unused "
     "threshold cells are NaN.",
     ["inputs", "configurations"], "data sets x categories x missing x quadrature and distribution x iteration bounds",
     "the tests recover parameters of random data within loose errors",
     [Y + "pcm_mml.py", Y + "partial_integrals_poly.py"],
     [("pcm_mml", Y + "pcm_mml.py"), ("_credit_partial_integral", Y + "partial_integrals_poly.py")],
     ENUM, "Local optimality with respect to a menu of steps and directions.")

prop("P14", "Graded unfolding estimates are locally optimal and signed as asked",
     "The graded unfolding marginal method returns item locations within -2 to 2, discriminations within 0.25 to 4 and thresholds at which the "
     "marginal likelihood cannot be improved one item at a time, once converged (items still at the symmetric start 0 excepted). The designated item's location has the requested sign and asking for the "
     "other sign mirrors all locations, and abilities under a symmetric distribution; the reported difficulties are the location plus and minus the thresholds, in order. Items may differ in "
     "their number of categories and missing answers are ignored.",
     ["inputs", "configurations"], "data sets x categories x missing x every designated item and sign x options",
     "the tests compare one random data set with a regression bound",
     [Y + "gum_mml.py", Y + "partial_integrals_poly.py"],
     [("gum_mml", Y + "gum_mml.py"), ("_unfold_partial_integral", Y + "partial_integrals_poly.py")],
     ENUM, "Multimodal likelihood: local optimality only.")

prop("P15", "Three-parameter marginal estimates stay legal and reproduce proportions",
     "The three-parameter marginal method returns discriminations within 0.25 to 4 and guessing within 0 to 0.33, with each difficulty reproducing the item's "
     "observed proportion right given its discrimination and guessing under the requested distribution. The marginal likelihood of the result is at least that of its starting point and, when "
     "converged, not noticeably improved by small changes of one item's parameters. Missing answers are ignored.",
     ["inputs", "configurations"], "data sets x missing x quadrature and distribution x iteration bounds",
     "the tests recover parameters of one random data set", [D + "threepl_mml.py", D + "partial_integrals.py"],
     [("threepl_mml", D + "threepl_mml.py"), ("_compute_partial_integral_3pl", D + "partial_integrals.py")],
     ENUM, "Local optimality only; optimiser without derivatives.")

prop("P16", "Reported abilities, AIC and BIC agree with the reported parameters",
     "For every marginal method that reports them, the abilities are the posterior means under the reported item "
     "parameters and the reported ability distribution, one per person in order, and AIC and BIC follow from the marginal likelihood of the "
     "same parameters with the number of persons and the number of free distribution parameters. The null values use the "
     "requested distribution, and each delta is null minus final.",
     ["inputs", "configurations"], "all methods x data sets x missing x quadrature options x distribution estimation on and off",
     "the tests look at the sign of a delta at most",
     [U + "latent_ability_distribution.py", Y + "ability_estimation_poly.py", Y + "grm_mml.py", Y + "pcm_mml.py", Y + "gum_mml.py",
      Y + "grm_mml_eap.py", MD + "multidimensional_mml_methods.py"],
     [("compute_metrics", U + "latent_ability_distribution.py"), ("_ability_eap_abstract", Y + "ability_estimation_poly.py")],
     ENUM, "Recomputed from the returned values alone.")

prop("P17", "Dichotomous joint estimation alternates exact maximisations",
     "Each iteration of the joint Rasch, one- and two-parameter methods first maximises each remaining person's likelihood "
     "on [-6, 6], standardises those abilities over distinct patterns, and then maximises the joint likelihood, weighted by how often each pattern occurs, over the item "
     "parameters within their bounds. Persons whose answers do not vary are left out, missing answers contribute nothing, and it stops at the iteration bound or when difficulties "
     "settle.",
     ["inputs", "configurations", "histories"], "all count vectors of a bound over the patterns of 2-3 items, missing answers, "
     "iteration bounds 1..6 explored as transitions", "the tests look at final values of one random data set",
     [D + "jml_methods.py"], [("_jml_abstract", D + "jml_methods.py"), ("rasch_jml", D + "jml_methods.py"),
                              ("onepl_jml", D + "jml_methods.py"), ("twopl_jml", D + "jml_methods.py")],
     "state-space exploration with step conformance: each transition of the implementation is replayed on the model",
     "States are the outputs under an iteration bound; each successor is compared with the model's successor.")

prop("P18", "Polytomous joint estimation alternates exact maximisations",
     "Each iteration of the joint graded and partial credit methods first maximises each remaining person's likelihood on "
     "[-6, 6], standardises the abilities, and then maximises each item's likelihood over its discrimination and thresholds "
     "within their bounds, keeping graded thresholds in order. Persons at the floor or ceiling of all their answers are left out, missing answers "
     "contribute nothing, and items may differ in their number of categories.",
     ["inputs", "configurations", "histories"], "data sets x categories x missing x iteration bounds explored as transitions",
     "the tests look at final values of one random data set", [Y + "grm_jml.py", Y + "pcm_jml.py"],
     [("grm_jml", Y + "grm_jml.py"), ("pcm_jml", Y + "pcm_jml.py")],
     "state-space exploration with step conformance: each transition of the implementation is replayed on the model",
     "Item steps are checked for local optimality.")

prop("P19", "Conditional Rasch estimates maximise the conditional likelihood",
     "For complete data, conditional Rasch estimation returns difficulties that sum to zero and, before division by the given "
     "discrimination, maximise the likelihood of the answers given each person's number right. Persons with none or all right do not matter, and the estimates depend only on item and score "
     "totals.",
     ["inputs", "configurations"], "every count vector of a bound over the patterns of 2-4 items, menus of long tests, discriminations",
     "the tests recover parameters of one random data set", [D + "rasch_conditional.py"],
     [("rasch_conditional", D + "rasch_conditional.py"), ("_symmetric_functions", D + "rasch_conditional.py")],
     ENUM, "Complete for the count vectors within the bound.")

prop("P20", "Multidimensional marginal estimates obey constraints and are optimal",
     "Multidimensional two-parameter and graded marginal estimation returns loadings that are zero where the model's identification "
     "requires (the last items form a triangle with positive diagonal) and within bounds, thresholds that reproduce the observed proportions given "
     "each item's overall discrimination, and a likelihood that no small change of one item's free loadings improves, once "
     "converged. The reported log likelihood, AIC, BIC and abilities belong to these parameters, and fewer than two factors are rejected. The initial guess "
     "satisfies the same zero and sign constraints, preserves the fitted correlations, and exists also when few persons make the pairwise "
     "correlations contradict each other.",
     ["inputs", "configurations"], "data sets x factors x categories x missing x options x initial guess on and off",
     "the tests check shapes and a loose error on random data",
     [MD + "multidimensional_mml_methods.py", MD + "multidimensional_initial_guess.py"],
     [("multidimensional_grm_mml", MD + "multidimensional_mml_methods.py"), ("initial_guess_md", MD + "multidimensional_initial_guess.py")],
     ENUM, "Small data sets and few quadrature points because of cost.")

prop("P21", "Latent distributions are proper densities with mean 0 and variance 1",
     "An estimated latent ability distribution is non-negative, integrates to one and has mean zero and variance one, and the likelihood "
     "of the answers under it is at least that under its starting point. The spline reproduces its coefficients' cubic B-spline wherever and however it is evaluated, "
     "resampling keeps it a proper density close to the original, and wrong coefficient counts are rejected.",
     ["inputs", "configurations"], "sample counts, symmetric bounds, coefficient vectors over a menu, evaluation points, resamplings",
     "the tests evaluate one distribution", [U + "latent_ability_distribution.py"],
     [("CubicSplinePDF", U + "latent_ability_distribution.py"), ("LatentPDF", U + "latent_ability_distribution.py"),
      ("resample", U + "latent_ability_distribution.py")],
     ENUM, "Symmetric quadrature bounds only, as the spline is documented for.")

prop("P22", "Synthetic dichotomous data follows the model's probabilities exactly",
     "For each person and item independently, synthetic dichotomous data is one with exactly the probability of the "
     "documented model, with guessing, with scalar or per-item parameters, and for multidimensional discriminations; the same seed gives the same data "
     "and different cells use different draws. Parameters are not modified.",
     ["inputs", "fault_sequences", "configurations"], "every value of a uniform draw on a fine grid for every cell, parameter "
     "menus, dimension menus, seeds", "the tests compare means of random draws within loose errors",
     ["synthetic/dichotomous.py"], [("create_synthetic_irt_dichotomous", "synthetic/dichotomous.py")],
     "controlled environment: the random source is replaced and all its answers on a grid are enumerated",
     "Randomness is owned by the harness; probability measured to the grid step.")

prop("P23", "Synthetic polytomous data follows the model's probabilities exactly",
     "For each person and item independently, synthetic graded, partial credit, unfolding and multidimensional graded "
     "data takes each category with exactly the probability of the documented model and lies between 1 and the number of categories. "
     "Graded thresholds out of order, unfolding thresholds that are not symmetric or not odd in number, and single thresholds are rejected, and the same seed gives the same data.",
     ["inputs", "fault_sequences", "configurations"], "every value of a uniform draw on a fine grid for every cell, parameter "
     "menus, models, seeds", "the tests compare a few probabilities at single points",
     ["synthetic/polytomous.py"], [("create_synthetic_irt_polytomous", "synthetic/polytomous.py")],
     "controlled environment: the random source is replaced and all its answers on a grid are enumerated",
     "Randomness is owned by the harness; probability measured to the grid step.")

prop("P24", "Parallel polychoric correlations equal the serial ones on every schedule",
     "The parallel polychoric correlation matrix equals the serial one for every number of items and processors, in whatever order "
     "the workers run and finish. It is symmetric with unit diagonal, shared memory is released on success and on worker "
     "failure, a worker failure reaches the caller, and concurrent calls do not disturb each other.",
     ["schedules", "fault_sequences", "configurations", "inputs"], "all completion orders and failing workers for up to 5 chunks, items x processors "
     "menu, two overlapping calls in every interleaving of their chunks",
     "the test runs one configuration once", ["common/polychoric.py"],
     [("polychoric_correlation", "common/polychoric.py"), ("_polychoric_engine", "common/polychoric.py")],
     "stateless exploration of schedules and faults under a controlled executor", "Workers are atomic between scheduling points: they share read-only memory.")

prop("P25", "Bootstrap errors summarise exactly the requested resamples",
     "Bootstrap standard errors, 95 percent intervals and biases are the sample statistics over exactly the requested number of refits, each on a "
     "resample of persons with replacement of the original size, relative to the given or computed solution. With a seed the result is reproducible for a given "
     "number of processors on every schedule, processors use different random streams, and a failing worker makes the call fail.",
     ["schedules", "fault_sequences", "configurations"], "iterations x processors x models x all worker schedules and failing workers",
     "the tests run one configuration", [U + "bootstrap_errors.py"],
     [("standard_errors_bootstrap", U + "bootstrap_errors.py"), ("_bootstrap_func", U + "bootstrap_errors.py")],
     "stateless exploration of schedules and faults under a controlled process pool", "The pool is replaced by a controlled one; a real spawn run is compared with it.")

prop("P26", "Contingency tables count pairs; polychoric correlation maximises likelihood",
     "A contingency table holds for each pair of codes of the range the number of observations showing it, and validation removes exactly the "
     "empty rows and columns. The polychoric correlation maximises on (-1, 1) the likelihood of that table under a bivariate normal cut at the "
     "observed marginal proportions, is symmetric in its arguments and changes sign when one scale is reversed. Observations with a code outside "
     "the range are ignored.",
     ["inputs"], "every 2x2 and many 2x3 and 3x3 tables of a bound, ranges, missing codes",
     "the tests check a few tables", ["common/polychoric.py"],
     [("contingency_table", "common/polychoric.py"), ("validate_contingency_table", "common/polychoric.py"),
      ("_polychoric_correlation_value", "common/polychoric.py")],
     ENUM, "Reference bivariate normal by independent quadrature.")

prop("P27", "Classical item statistics and reliability equal their definitions",
     "The polyserial correlation maximises, on (-1, 1), the likelihood of the ordinal variable given the standardised continuous one. "
     "Cronbach's alpha equals its definition from item and person variances over the answered cells. The classical item table reports counts, means, standard deviations, "
     "correlations with the mean of the other items, polyserial correlations and alpha without the item, all over answered cells.",
     ["inputs"], "every small data matrix over codes and missing of a bound plus fixed larger ones",
     "the tests compare one data set with formulas, without missing cells",
     ["common/polyserial.py", "common/cronbach_alpha.py", U + "ctt_statistics.py"],
     [("polyserial_correlation", "common/polyserial.py"), ("cronbach_alpha", "common/cronbach_alpha.py"),
      ("classical_test_statistics", U + "ctt_statistics.py")],
     ENUM, "Degenerate matrices (zero variance) excluded.")

prop("P28", "Factor extractions satisfy their defining equations",
     "Principal components reproduce the matrix from the largest eigenpairs in descending order; principal axis factoring "
     "ends at a fixed point of its communalities; maximum likelihood factoring ends at a stationary point with positive unique variances whose implied "
     "diagonal matches; minimum rank factoring keeps the reduced matrix positive semi-definite with a residual no worse than at its start. "
     "Recovered models reproduce an exact factor model's matrix, and reordering the variables reorders the result.",
     ["inputs", "configurations"], "a menu of correlation matrices (all sign and loading patterns of a bound), numbers of factors, starting guesses, permutations",
     "the tests use one or two matrices", ["factoranalysis/pca.py", "factoranalysis/paf.py", "factoranalysis/maximum_likelihood.py", "factoranalysis/minimum_rank.py"],
     [("principal_components_analysis", "factoranalysis/pca.py"), ("principal_axis_factor", "factoranalysis/paf.py"),
      ("maximum_likelihood_factor_analysis", "factoranalysis/maximum_likelihood.py"),
      ("minimum_rank_factor_analysis", "factoranalysis/minimum_rank.py")],
     ENUM, "Exact models within the enumerated loading menu.")

prop("P29", "Rotation tools keep geometry: unit vectors, orthogonality, product",
     "Hyperspherical angles and vectors convert into each other for every direction, with unit length; the Procrustes rotation is orthogonal and no orthogonal matrix fits better; "
     "entropy equals its definition along either axis. Sparsifying loadings returns unit bases whose product with the rotated loadings is the original, "
     "an orthogonal rotation when asked for, a criterion no worse than the starting guess, and the same result for the same seed.",
     ["inputs", "configurations"], "all sign and zero patterns of vectors up to dimension 5, matrices over small alphabets, loadings x alpha x orthogonal x seeds x guesses",
     "the tests use random vectors and matrices, never axis-aligned ones",
     ["common/hypersphere.py", "common/procrustes.py", "common/entropy.py", "factoranalysis/rotation.py"],
     [("hyperspherical_vector", "common/hypersphere.py"), ("hyperspherical_angles", "common/hypersphere.py"),
      ("procrustes_rotation", "common/procrustes.py"), ("entropy", "common/entropy.py"), ("sparsify_loadings", "factoranalysis/rotation.py")],
     ENUM, "Alternatives for optimality come from a grid of rotations.")

prop("P30", "No call leaves a trace: results are independent of earlier calls",
     "Every public function gives the same result, bit for bit, whatever public functions were called before it in the same process, whether they "
     "ended or were interrupted, and whatever was done since with the values they returned or the arguments they were given. It modifies none of its arguments, and does "
     "not touch the global random state, nor any other setting of the process.",
     ["histories"], "all ordered pairs (and chosen triples) of calls from a menu covering every public function, with the returned values overwritten in between, "
     "every reuse of the arguments' objects with other contents, and an interruption at every line",
     "tests run in one fixed order and never inspect arguments afterwards",
     [D + "rasch_mml.py", Y + "grm_mml.py", U + "latent_ability_distribution.py", MD + "multidimensional_mml_methods.py", "common/polychoric.py"],
     [("absence of module level state", U + "girth_options.py")],
     "exhaustive exploration of call histories to depth 2 (3)", "State is observed through results only.")

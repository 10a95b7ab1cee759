#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique="property-based testing", note="", observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=why,
                  anchors={"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                           "observe_at": list(observe) or ["public C API through a shim compiled against the current header"], "hook_needed": None},
                  technique=technique, note=note))


I, H_ = ["inputs"], ["histories", "inputs"]

prop("C01", "Reading and writing data-set elements",
     "Over any history of reads, writes, pointer look-ups and named appends, a data set behaves as a table of cells: an access by number, by row or column name, or by page name reaches exactly the cell so designated (column -1, or column 0 when there is no matrix, is the vector), and nothing else changes. "
     "A set or vector allocated and filled in one call holds the listed numbers row by row, the vector column first. A write reports success and is what a later read returns; an access outside the bounds, or to a name or page that does not exist, yields NaN, a null pointer or an error code and changes nothing.",
     H_, "all data sets with vector, matrix, names (repeated, differing in case) and pages, and all sequences of accesses in and out of bounds",
     "The tests read a few cells of fixed data sets with valid indices; nothing checks the untouched cells, out-of-bounds requests, or name clashes.",
     ["apop_data.m4.c", "apop_name.m4.c"], [("apop_data_get/set/ptr", "apop_data.m4.c"), ("apop_name_find", "apop_name.m4.c")],
     "stateful property-based testing against a table model")

prop("C02", "Copying and transposing data sets",
     "A copy of a data set (into a new one, or into an existing one of the same shape) is equal to the original in every part (vector, matrix, weights, text, all names, further pages) and shares nothing with it: changing or freeing either leaves the other intact. "
     "Transposing moves element (i,j) to (j,i), swaps row and column names, treats text the same way unless told not to, and does the same in place as out of place; transposing twice gives back the matrix, text and names.",
     H_, "all data sets over every combination of parts and sizes, followed by arbitrary modifications of either side",
     "Tests copy one or two numeric data sets; text, names, pages and independence are not compared.",
     ["apop_data.m4.c", "apop_name.m4.c", "apop_conversions.m4.c"], [("apop_data_copy/memcpy/transpose", "apop_data.m4.c"), ("apop_name_copy", "apop_name.m4.c")],
     "property-based testing: copy/mutate/compare and involution")

prop("C03", "Stacking, splitting and resizing lose nothing",
     "Stacking two data sets by rows or columns gives exactly the first's numbers, text, weights and names followed by the second's, leaves the inputs unchanged unless done in place, and a split at the seam gives the two back. "
     "Stacking vectors and matrices concatenates them, and resizing a vector or matrix keeps every element common to the old and the new size; shapes that do not fit together are refused with an error and without damage.",
     I, "all pairs of data sets, vectors and matrices, all orientations and split points, and all resize sequences",
     "Tests stack one fixed pair of data sets; names, text, weights, in-place variants and mismatched shapes are not covered.",
     ["apop_data.m4.c", "apop_linear_algebra.m4.c"], [("apop_data_stack/split", "apop_data.m4.c"), ("apop_vector_stack, apop_matrix_stack, *_realloc", "apop_linear_algebra.m4.c, apop_data.m4.c")],
     "property-based testing: concatenation oracle and stack/split inverse")

prop("C04", "Name look-up is consistent with the name lists",
     "After any history of adding, stacking, copying, transposing, and removing rows or columns, looking up a row, column or text name gives the position of the first element with exactly that name, or failing that the first that differs only in case, or failing that (columns) the vector; a name that is not there is reported as missing. "
     "Adding names appends them in order and stacking appends one list to another, including to itself, without touching the source.",
     H_, "all sequences of operations that change names, with duplicates, case variants and empty names",
     "Tests look up one name in a fixed list; look-up after names were moved or removed is never exercised.",
     ["apop_name.m4.c", "apop_data.m4.c"], [("apop_name_find and the stored hashes", "apop_name.m4.c"), ("apop_name_rm_columns, apop_data_rm_rows", "apop_data.m4.c")],
     "stateful property-based testing against list model")

prop("C05", "Removing rows or columns keeps exactly the survivors",
     "Dropping rows (by list or by predicate), dropping columns (by list or by the names to keep), or deleting rows with missing values leaves exactly the rows or columns that should survive, in their original order, with their own vector elements, matrix elements, weights, text and names. "
     "Dropping everything leaves an empty data set and not a damaged one, and the non-destructive form leaves its input unchanged.",
     I, "all data sets over every combination of parts, and all drop patterns including none and all",
     "Tests drop from one or two numeric data sets; names, weights and text moving with their rows are not checked.",
     ["apop_data.m4.c", "apop_missing_data.m4.c"], [("apop_data_rm_rows/rm_columns/prune_columns", "apop_data.m4.c"), ("apop_data_listwise_delete", "apop_missing_data.m4.c")],
     "property-based testing against list-filter oracle")

prop("C06", "Pages, and packing a data set into a vector",
     "A data set with pages behaves as a list of named pages: adding appends, getting by title (ignoring case, exactly, or by pattern) returns the first match without changing anything, and removing takes out only the first match after the head. "
     "Packing a data set writes vector then matrix row by row then weights for each page, with or without information pages as asked, and unpacking it into a data set of the same shape restores every element and nothing else.",
     H_, "all page lists and page operations; all shapes of data set incl. missing parts and information pages",
     "Tests pack one fixed shape; page operations are exercised only incidentally.",
     ["apop_data.m4.c", "apop_conversions.m4.c"], [("apop_data_add_page/get_page/rm_page", "apop_data.m4.c"), ("apop_data_pack/unpack", "apop_conversions.m4.c")],
     "stateful property-based testing; pack/unpack round trip")

prop("C07", "Sorting is an ordered permutation of whole rows",
     "Sorting a data set reorders whole rows: the result holds the same rows as the input, each with its own vector element, matrix elements, weight, text and name, none lost, duplicated or mixed. "
     "The rows are in ascending (or, if asked, descending) order of the chosen sequence of columns, ties broken by the next column; sorting to a copy leaves the input unchanged and gives what sorting in place gives.",
     I, "all data sets over all combinations of parts with ties, and all sort orders over numeric, text and name columns",
     "Tests sort one data set by a few orders and check only ordering.",
     ["apop_sort.m4.c"], [("apop_data_sort, generate_sort_order, rearrange", "apop_sort.m4.c")],
     "property-based testing: permutation and order predicate")

prop("C08", "Text grids and string tools",
     "A text grid holds exactly the strings written to it, whatever characters they contain, and resizing it keeps every cell common to the old and new size and makes new cells blank, without memory errors. "
     "Joining a grid gives its cells in order with the stated separators, leaving out pruned cells; the unique elements of a text column or vector are its distinct values in sorted order; and pattern matching agrees with the platform's extended regular expressions, returning for each match its sub-matches in order.",
     H_, "all sequences of resizes and writes, all strings incl. printf directives and quotes, all prune predicates, all patterns of a small grammar",
     "Tests use a handful of fixed strings; growth in one direction with shrinkage in the other, or special characters, are not covered.",
     ["apop_data.m4.c", "apop_asst.m4.c", "apop_regression.m4.c"], [("apop_text_alloc, apop_text_set", "apop_data.m4.c"), ("apop_text_paste, apop_regex", "apop_asst.m4.c"), ("apop_text_unique_elements, apop_vector_unique_elements", "apop_regression.m4.c")],
     "stateful property-based testing against grid model")

prop("C09", "Text files survive a write and a read",
     "Printing a data set to a text file and reading it back gives the same shape, the same row and column names, and the same numbers (to the printed precision), including missing and infinite values. "
     "Reading any text file yields the cells a straightforward splitter on the stated delimiters gives, honouring quotes, comments, blank lines, row and column headers and fixed-width fields, and no file content causes memory errors or an endless loop. What is shown on screen holds every name and cell in order, in lines of equal width.",
     I, "all numeric data sets, all delimiter sets, all files over a grammar of fields, quotes, comments and line endings, plus arbitrary bytes",
     "Tests read three fixed files; ragged lines, a missing last newline, quoting, or arbitrary bytes are not covered.",
     ["apop_conversions.m4.c", "apop_output.m4.c"], [("apop_text_to_data, parse_a_line, get_field_names", "apop_conversions.m4.c"), ("apop_data_print", "apop_output.m4.c")],
     "property-based testing: print/read round trip, differential parser; grammar and byte fuzzing")

prop("C10", "A text file read into the database holds the file's cells",
     "Reading a delimited text file into a table creates a table with one column per field (named by the header, or by the given names, plus a row-name column if asked) and one row per data line, whose values are the fields of the file with missing-value markers as NULL. "
     "Appending, overwriting or refusing an existing table follows the stated mode, the returned row count is the number of rows inserted, and the command-line loader gives the same table as the library call.",
     I, "all files over a grammar of headers, fields, quotes and missing markers; all option combinations",
     "Tests load a few fixed files and query one or two values.",
     ["apop_conversions.m4.c", "cmd/apop_text_to_db.c"], [("apop_text_to_db", "apop_conversions.m4.c"), ("apop_text_to_db program", "cmd/apop_text_to_db.c")],
     "property-based testing: differential against Python csv/sqlite3")

prop("C11", "Data sets survive a trip through the database",
     "Writing a data set to a database table and querying it back gives the same numbers, text, weights, row names and column names, with missing values as missing; writing again appends or overwrites as asked. "
     "A table of (row, column, value) triples and its crosstab are inverse to each other: every triple appears in its cell, every other cell is missing or zero as documented, and turning the crosstab back into a table gives the triples.",
     I, "all data sets with vector, matrix, text, weights and names; all sets of triples",
     "Tests write one data set and check a few cells; the crosstab-to-table test aborts on every run.",
     ["apop_db.m4.c", "apop_db_sqlite.c", "apop_output.m4.c", "apop_conversions.m4.c", "cmd/apop_db_to_crosstab.c"], [("apop_data_to_db", "apop_db.m4.c"), ("apop_db_to_crosstab, apop_crosstab_to_db", "apop_conversions.m4.c")],
     "property-based testing: table round trip and crosstab inverse")

prop("C12", "Queries return what the database engine returns",
     "For any query, the numeric, vector, scalar, text and mixed forms return the engine's result cell by cell, with NULL as missing, in the engine's row order, with the engine's column names, and with the row-name column (if set) taken out as row names and nowhere else. "
     "A query with no result, or an invalid one, is reported as documented, and neither it nor opening, closing or checking for tables damages later queries. The plotting program writes the result of its query, or the histogram of its first column, as the library prints them.",
     H_, "all tables over small schemas, all queries from a grammar, all result shapes including empty ones and NULLs, and histories of them",
     "Tests run some dozen fixed queries with well-formed results.",
     ["apop_db.m4.c", "apop_db_sqlite.c"], [("apop_query_to_data/matrix/vector/float/text/mixed_data", "apop_db.m4.c"), ("db_to_table, db_to_chars, names_callback", "apop_db_sqlite.c")],
     "property-based testing: differential against sqlite3")

prop("C13", "Database statistics and maths functions are right",
     "Each aggregate added to the database (variance, standard deviation, skew, kurtosis, with population and sample variants) equals its textbook value on the non-missing values of every group, and each maths function equals the C library's function of the same name, with NULL in giving NULL or missing out. "
     "The distribution functions available in queries agree with the distributions they name.",
     I, "all columns incl. NULLs, constant and very short groups; all arguments in the functions' domains",
     "Tests compute a few aggregates on one table without missing values.",
     ["apop_db_sqlite.c"], [("variance/skew/kurtosis step and finalize, apop_sqlite maths functions", "apop_db_sqlite.c")],
     "property-based testing against closed-form reference")

prop("C14", "Map and apply touch every element once, on any thread count",
     "Mapping or applying a function over a data set, matrix or vector (all elements, rows, columns, vector, or everything; with or without an extra argument and an index; over all pages) calls it exactly once on each intended item with that item's own value and index, and puts each result in its own place. "
     "The result, and the corresponding sum, is the same for any number of threads, and inputs not modified in place stay unchanged.",
     ["inputs", "schedules", "configurations"], "all shapes of data set, all parts, all function forms, and 1 to 8 threads",
     "Tests map over fixed data sets with one thread.",
     ["apop_mapply.m4.c"], [("apop_map, apop_map_sum, apop_matrix_map, apop_vector_map, ...", "apop_mapply.m4.c")],
     "property-based testing: differential against a sequential map, thread count varied")

prop("C15", "Moments and covariances, plain and weighted",
     "Mean, variance, covariance, correlation, skew and kurtosis of a vector or data set equal their definitions. "
     "Giving integer weights is the same as repeating each observation that many times, giving weights all equal to one is the same as giving none, and zero-weight observations do not matter; results do not depend on row order, and shift and scale as they should.",
     I, "all vectors, matrices and weight vectors, including short, constant and zero-weight ones",
     "Tests compare moments of a few fixed vectors.",
     ["apop_stats.m4.c"], [("apop_vector_mean/var/skew/kurtosis/cov, apop_data_covariance/correlation", "apop_stats.m4.c")],
     "property-based testing: metamorphic (replication, scaling) and reference definitions")

prop("C16", "Normalising, percentiles, distances, summaries",
     "Normalising a vector gives the promised sum, range, mean or variance and preserves the relations among elements; percentiles are elements (or averages of elements) of the data in non-decreasing order ending at its minimum and maximum. "
     "Distances equal their definitions and are symmetric, zero only between equal vectors (for metrics), and satisfy the triangle inequality; entropy, summaries, sums, means and bounds checks equal direct computation.",
     I, "all vectors and data sets of finite numbers, all options",
     "Tests check one or two vectors per function.",
     ["apop_stats.m4.c", "apop_linear_algebra.m4.c"], [("apop_vector_normalize/percentiles/distance/entropy, apop_data_summarize", "apop_stats.m4.c")],
     "property-based testing against reference definitions and metric laws")

prop("C17", "Factors and dummies encode categories faithfully",
     "Converting a text or numeric column to factors gives each distinct value one code, numbered in sorted order, equal values and only equal values sharing a code, with a page from which every original value can be recovered. "
     "Converting to dummies gives one 0/1 column per category (less the first unless kept) such that each row has its one in its own category's column; appending or replacing columns leaves all other data and names in place.",
     I, "all text and numeric columns with repetitions, all column positions and options",
     "Tests convert one fixed column each.",
     ["apop_regression.m4.c"], [("apop_data_to_factors, apop_data_to_dummies, apop_data_get_factor_names", "apop_regression.m4.c")],
     "property-based testing: encode/decode bijection")

prop("C18", "Binning, ranking and compressing conserve the data",
     "Binning data puts every observation in exactly the bin whose edges contain it, so bin weights sum to the number of observations (or the total weight); compressing repeated rows merges equal rows and only equal rows, keeping total weight and order of first appearance. "
     "Turning values into ranks counts and back gives the counts again, and a moving average is the average of each window.",
     I, "all data sets with repeated rows, weights and text, all bin counts and bin specifications",
     "Tests bin or compress one data set each.",
     ["apop_hist.m4.c", "apop_conversions.m4.c"], [("apop_data_to_bins, apop_data_pmf_compress, apop_vector_moving_average", "apop_hist.m4.c"), ("apop_data_rank_compress/expand", "apop_conversions.m4.c")],
     "property-based testing: conservation and inverse laws")

prop("C19", "Linear algebra agrees with its definitions",
     "Products of data sets (any mix of matrix, transposed matrix and vector) equal the mathematical product with the right row and column names; the inverse times the matrix is the identity and the determinant is right, also for singular input; shapes that do not conform are refused with an error and no damage. "
     "Principal components are orthonormal directions of decreasing variance; positive-semidefinite tests and projections agree with the eigenvalues; elementwise logs and exponentials are those of each element.",
     I, "all conforming and non-conforming shapes, all forms, well-conditioned and singular matrices",
     "Tests multiply a few fixed matrices.",
     ["apop_linear_algebra.m4.c", "apop_stats.m4.c"], [("apop_dot, apop_det_and_inv, apop_matrix_pca", "apop_linear_algebra.m4.c"), ("apop_matrix_is_positive_semidefinite, apop_matrix_to_positive_semidefinite", "apop_stats.m4.c")],
     "property-based testing: differential against numpy")

prop("C20", "Densities and likelihoods are those of the named distribution",
     "For every built-in distribution the probability and log likelihood of a data set equal the product and sum of the textbook density over its observations (vector, matrix, or rows as documented), so that log of one is the other, order of observations does not matter, and two data sets stacked have the sum of their log likelihoods. "
     "Data outside the support has probability zero.",
     I, "all admissible parameters and data sets for each distribution",
     "Tests evaluate a few points for a few distributions.",
     ["model/", "apop_model.m4.c"], [("*_log_likelihood and *_p functions", "model/*.c"), ("apop_p, apop_log_likelihood", "apop_model.m4.c")],
     "property-based testing: differential against scipy, additivity")

prop("C21", "CDFs and special functions agree with theory",
     "For every built-in distribution the CDF lies in [0,1], does not decrease, and equals the probability that the distribution named puts at or below the point, whether it is computed in closed form or from random draws (to sampling accuracy). "
     "The multivariate gamma, generalized harmonic numbers and the test-statistic helper agree with their definitions over their whole domain, on repeated calls in any order.",
     H_, "all admissible parameters and points; all call orders of cached functions",
     "Tests check a few points.",
     ["model/", "apop_model.m4.c", "apop_asst.m4.c", "apop_stats.m4.c", "apop_tests.m4.c"], [("*_cdf", "model/*.c"), ("apop_cdf", "apop_model.m4.c"), ("apop_generalized_harmonic", "apop_asst.m4.c"), ("apop_test", "apop_tests.m4.c")],
     "property-based testing: differential against scipy")

prop("C22", "Random draws follow the model and the seed",
     "Draws from any model that can be drawn from lie in its support and follow its distribution: their empirical distribution, mean and variance agree with theory within sampling error, for every admissible parameter. "
     "The draws are a function of the parameters and the random number generator's seed alone, and a request for n draws gives n rows.",
     I, "all admissible parameters and seeds for each distribution",
     "Tests draw from fixed parameters and re-estimate loosely.",
     ["model/", "apop_model.m4.c", "apop_arms.c", "apop_asst.m4.c"], [("*_draw", "model/*.c"), ("apop_draw, apop_model_draws", "apop_model.m4.c, apop_asst.m4.c"), ("adaptive rejection sampling", "apop_arms.c")],
     "property-based testing: goodness-of-fit against scipy with fixed false-alarm bound")

prop("C23", "Estimation returns the maximum-likelihood parameters",
     "Estimating a model from data leaves the data and the input model unchanged and returns the documented closed form, or, by a search, admissible parameters whose log likelihood is no lower than the starting point's and, when the search reports success away from constraints, at least that of any nearby parameters; the log likelihood and information criteria reported are those at the parameters returned. "
     "Estimates do not depend on the order of observations.",
     I, "all data sets in the model's support, every estimable distribution, both closed-form and search estimators",
     "Tests estimate from draws and compare loosely with the true parameters.",
     ["apop_mle.m4.c", "apop_model.m4.c", "model/"], [("apop_estimate", "apop_model.m4.c"), ("apop_maximum_likelihood", "apop_mle.m4.c"), ("*_estimate", "model/*.c")],
     "property-based testing: local optimality and closed forms")

prop("C24", "Regressions satisfy the normal equations",
     "Ordinary, weighted and instrumental-variable least squares return coefficients that satisfy their normal equations, with predicted values plus residuals equal to the observed outcomes, the standard covariance matrix, t statistics and p-values, and a coefficient of determination equal to its definition. "
     "Weights act as repeated observations on the coefficients, regressor order does not matter, the caller's data is left as it was unless asked otherwise, and data whose regressors are collinear gives a marked result and no crash. "
     "Logit and probit return parameters maximising their stated likelihood; predictions, draws, the likelihood and the score of a fitted model follow its own coefficients, also after these are changed, and outcome categories.",
     I, "all full-rank designs with more observations than regressors, with and without weights or instruments; all non-separable data of two or more outcome categories",
     "Tests run a handful of fixed data sets.",
     ["model/apop_ols.c", "model/apop_probit.c", "apop_regression.m4.c"], [("ols_prep, apop_estimate_OLS, wls, iv", "model/apop_ols.c"), ("apop_estimate_coefficient_of_determination, apop_estimate_parameter_tests", "apop_regression.m4.c")],
     "property-based testing: differential against numpy")

prop("C25", "Empirical distributions reproduce their data",
     "An empirical distribution built from data gives each observation its relative frequency (or relative weight) as probability, zero elsewhere, and the same after compression of repeated rows. "
     "Draws come only from its rows, reach every row of positive weight and none of zero weight, with frequencies proportional to weights, each returned whole; its CDF accumulates these probabilities to one. "
     "The Kullback-Leibler divergence and the entropy computed from such distributions are those of the relative frequencies, the same for compressed and uncompressed data.",
     I, "all data sets of vectors, matrices and weights, all seeds",
     "Tests draw from one or two weighted data sets.",
     ["model/apop_pmf.c", "apop_hist.m4.c", "apop_stats.m4.c"], [("draw, pmf_p, pmf_cdf", "model/apop_pmf.c"), ("apop_kl_divergence, apop_model_entropy", "apop_stats.m4.c")],
     "property-based testing against counting model")

prop("C26", "Model transformations satisfy their defining identities",
     "Fixing some parameters of a model leaves a model over the remaining ones with the same likelihood at the combined parameters, and its estimates keep the fixed values. "
     "A mixture's CDF is the weighted sum of its components' CDFs, its draws come from the components in proportion to the weights, and its log likelihood, as documented, counts for each observation the most likely component and that component's weight, while weights left free are moved, step by step, to the mean of the observations' odds of each component; a cross product's probability is the product of its parts'; a truncated model is proportional to the original inside the constraint and zero outside; a change of coordinates multiplies the density by the Jacobian. "
     "The identities keep holding on copies of the transformed model and after its parameters or weights are changed.",
     I, "all base models and parameters from a set, all patterns of fixed parameters, weights, cutoffs and maps",
     "Tests run one example of each.",
     ["transform/apop_fix_params.c", "transform/apop_mixture.c", "transform/apop_cross.c", "transform/apop_dconstrain.c", "transform/apop_coordinate_transform.c"], [("log_likelihood, p, draw, estimate of each transform", "transform/*.c")],
     "property-based testing: defining identities")

prop("C27", "Models, settings groups and registries are independent",
     "Over any history of copying, configuring, clearing and freeing models, each model keeps its own parameters, information, private data and settings: what is set on one is what is read from it, settings not given have the documented defaults, a copy starts equal to its source, no change to one shows in another, and asking to change a group a model lacks marks the model's error and nothing else. "
     "A routine registered for a model is the one later found for every model with the same methods, registering again keeps the first, and removing one leaves the others registered, whatever other threads register at the same time. Printing a model shows its name, parameters and information, or calls the routine registered for it, and leaves the model as it was.",
     ["histories"], "all sequences of copy, set, get, add, remove, free operations over several models and settings groups, and of registry operations",
     "Tests configure one model at a time.",
     ["apop_settings.c", "apop_model.m4.c", "apop_vtables.c"], [("settings groups", "apop_settings.c"), ("apop_model_copy/clear/free", "apop_model.m4.c"), ("apop_vtable_add/get/drop", "apop_vtables.c")],
     "stateful property-based testing against dictionary model")

prop("C28", "Bayesian updating gives the posterior",
     "For each conjugate pair of prior and likelihood the posterior's parameters are the closed-form ones, its inputs are left unchanged, and updating on two batches in turn gives what updating on all data at once gives (Normal with Normal apart, whose likelihood variance is given by the model). "
     "A prior given as a list of points, or by draws only, gives those points reweighted by their likelihood. For other pairs the posterior is an empirical distribution of draws from a Markov chain that follows prior times likelihood within sampling error. "
     "In the chain every step goes to the proposed point or stays according to the odds and the random number drawn, points off the constraint are never accepted, blocks of parameters move in turn as asked, and the settings and outputs (periods, burn-in, starting point, acceptance count) are as documented.",
     I, "all conjugate pairs, all parameters and data",
     "Tests compare one parameter set per pair with loose tolerance.",
     ["apop_update.m4.c", "apop_mcmc.m4.c"], [("conjugate updates, apop_update", "apop_update.m4.c"), ("apop_model_metropolis", "apop_mcmc.m4.c")],
     "property-based testing: closed forms, batch associativity, replay of the chain from its log of evaluations, Kolmogorov-Smirnov distance of the posterior draws")

prop("C29", "Hypothesis tests report the right statistics",
     "The t tests, paired t test, F test of linear contrasts, one- and two-way analysis of variance, chi-squared goodness-of-fit and independence tests, Kolmogorov-Smirnov test and Fisher's exact test report the statistic, degrees of freedom and p-value of the textbook test on any data, with confidence equal to one minus p-value. "
     "Swapping samples or permuting or transposing the rows or columns of a table changes them only as theory says, the data, models and contrasts given are left as they were, and input that no test can be made of gives an error mark or NaN p-value and is not fatal.",
     I, "all samples and contingency tables of moderate size",
     "Tests run one example per test.",
     ["apop_tests.m4.c", "apop_fexact.c", "apop_hist.m4.c"], [("apop_t_test, apop_f_test, apop_test_anova_independence", "apop_tests.m4.c"), ("apop_test_fisher_exact", "apop_fexact.c"), ("apop_test_kolmogorov", "apop_hist.m4.c")],
     "property-based testing: differential against scipy and enumeration")

prop("C30", "Raking fits the margins",
     "Raking a table to given margins returns cell counts that are non-negative, reproduce every requested margin to the tolerance, are zero at structural zeros, and follow the initial table's interactions: the result equals iterative proportional fitting of the initial table. "
     "Cells outside every requested margin are zero. A fit that has not converged within the allowed iterations carries an error mark, as does wrong input. "
     "The database tables it reads are left unchanged, the working tables it makes are removed, and several threads may rake at once.",
     I, "all margin tables over several categorical variables, contrast lists, initial tables and structural zeros",
     "Tests rake two fixed tables.",
     ["apop_rake.m4.c"], [("apop_rake, rake_main, scale_a_margin", "apop_rake.m4.c")],
     "property-based testing: differential against iterative proportional fitting")

prop("C31", "Resampled covariances, and filling in missing data",
     "The jackknife covariance is the covariance of the pseudovalues over the number of observations, computed from the leave-one-out estimates, and the bootstrap covariance is the covariance of the replicate estimates it can return, each replicate drawn from the data's own rows, with the stated number of iterations, replicates with NaNs being dropped or kept as asked. "
     "Neither changes its inputs, a failure is marked in the result, and separate threads give the results they give alone. "
     "The model of the parameters has the estimates as its mean and their variance as its spread. "
     "Imputation fills in exactly the missing cells, at values that maximise the likelihood given the rest.",
     I, "all data sets and estimators from a set; all seeds; all missing patterns",
     "Tests compare one bootstrap with a known variance, loosely.",
     ["apop_bootstrap.m4.c", "apop_missing_data.m4.c"], [("apop_jackknife_cov, apop_bootstrap_cov", "apop_bootstrap.m4.c"), ("apop_ml_impute", "apop_missing_data.m4.c")],
     "property-based testing against leave-one-out and replicate recomputation")

prop("C32", "Derivatives and constraints",
     "A model's score, analytic or numerical, is the gradient of its log likelihood at the given parameters and its Hessian the matrix of second derivatives; computing them leaves the model as it was. "
     "This holds for parameters spread over vectors, matrices and pages. "
     "The linear-constraint check returns zero and changes nothing when all constraints hold, and otherwise, for up to two constraints or mutually perpendicular ones, the distance to, and coordinates of, the nearest point that satisfies them by the margin asked for, whatever was checked before and in whichever thread. Each distribution admits exactly the parameters it is defined for (but for a small margin), and moves others to the nearest it admits.",
     H_, "all models with scores, all interior parameters; all feasible sets of linear constraints, histories of calls",
     "Tests check a few constraints and compare scores at single points.",
     ["apop_mle.m4.c", "apop_linear_constraint.m4.c", "model/"], [("apop_score, apop_numerical_gradient, apop_model_hessian", "apop_mle.m4.c, apop_model.m4.c"), ("apop_linear_constraint", "apop_linear_constraint.m4.c")],
     "property-based testing: finite differences and projection oracle")

prop("C33", "Views show exactly the part asked for",
     "A view of a row, several rows, a column, several columns, or a sub-block of a data set or matrix shows exactly those elements, with their weights, text and names, and writing through it changes exactly those elements of the original. "
     "Asking for a part that is not there gives no view, and views of views behave the same way.",
     I, "all data sets and all positions and extents, inside and outside the bounds",
     "Tests take a few views of fixed data sets.",
     ["apop.m4.h"], [("Apop_r, Apop_rs, Apop_c, Apop_cs, Apop_rv, Apop_cv, Apop_subm", "apop.m4.h")],
     "property-based testing against slicing oracle")

prop("C34", "Local regression (loess) fits, predicts and reports what it documents",
     "An apop_loess fit at every point is the local linear or quadratic least-squares fit with tricube weights over the neighbourhood set by the span, times the data's weights, and for the symmetric family reweighted by residuals as often as set; predictors are normalised, conditionally parametric, or without their squares as set. "
     "With interpolation, the surface has those values and slopes at the vertices of the k-d tree and blends them by cubics in between, so that it is continuous for one and two predictors and reproduces polynomials of the local degree in each predictor. The trace, deltas, residual scale and equivalent parameters are those of the operator (or near them when approximate). "
     "The <Predicted> page has observed, predicted and residual values; predictions at new points come with standard errors and t limits at the level set, agree with the fit at the data, and leave the model as it was. "
     "The data is never changed, and models and copies of them can be used and freed in any order.",
     I, "all data sets of one to three predictors with neighbourhoods large enough for the local polynomial, all settings",
     "No test runs this model at all, and its behaviour ranges over data and many interacting settings.",
     ["model/apop_loess.c"], [("apop_loess, apop_loess_settings", "model/apop_loess.c")],
     "property-based testing against local least squares and operator recovery")

REASONS = {}


def main():
    with open(os.path.join(H, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: p[k] for k in ("id", "title", "statement", "quantifier", "why_tests_cant", "anchors")}) + "\n")
    have = [p for p in P if os.path.exists(os.path.join(H, "props", p["id"] + ".py"))]
    m = {"version": 1,
         "setup_cmd": "python3 lib/build.py",
         "hooks": {"guard": "VERIF_HOOKS (unused: no hook was needed)", "enable": "nothing to enable; the checks build /repo's sources as they are, with AddressSanitizer", "source_commits": []},
         "checks": [{"property": p["id"],
                     "quick_cmd": "python3 check.py " + p["id"],
                     "thorough_cmd": "env VERIF_TIER=thorough python3 check.py " + p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"],
                     "technique": p["technique"],
                     "level": "exploration",
                     "level_note": p["note"] or ("Hypothesis-generated cases run on the library built from the current tree with AddressSanitizer, judged by an explicit oracle in Python; "
                                                 "a failure is shrunk and replayed three times in fresh processes. Searches, does not prove: sizes are small and the case count bounded. Trusts gcc, Hypothesis, numpy/scipy, SQLite.")}
                    for p in have],
         "not_applicable": [{"property": p["id"], "reason": REASONS.get(p["id"], "check not built yet")} for p in P if p not in have]}
    with open(os.path.join(H, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties,", len(have), "claimed")


main()

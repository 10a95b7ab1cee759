HEAD = r"""
# Deciding Apophenia's properties by generated-input search

This file is written by `doc/design.py` from `doc/texts.py`, `properties.jsonl`, the property modules and `seeded/`.

## Approach

Every one of the 34 properties is decided by property-based testing: cases are generated as JSON values by Hypothesis, run on the
real library built from `/repo`'s working tree, and judged by an oracle written in Python (a reference model, an inverse, a
differential comparison with sqlite3, numpy, scipy or exact rational arithmetic, or an invariant over a logged history). Nothing is
listed under not_applicable. The level is "exploration": a search, not a proof.

## Machinery

* `lib/build.py` stages `/repo`'s sources through m4 as `/repo/configure` does and compiles all of the library plus
  `lib/shim.c` with gcc, AddressSanitizer and OpenMP into one shared object (objects cached by content hash in
  `/verif/.cache`; a full build takes about 4 s, a check after a one-file change well under that). Nothing of `/repo/_build` is used.
* `lib/engine.py`: Hypothesis generates each case as a JSON value (all random choices inside Hypothesis, seeded from
  VERIF_SEED, property, facet and shard). Each case runs in a forked worker under ASan, so a memory error, an abort from GSL or a
  hang (25 CPU seconds for a case that takes milliseconds) is a failing case like any other and is shrunk like any other.
  After every case the worker checks that the library did not leave its own GSL error handler installed.
* A failing case is re-run in a fresh worker; if it fails only after its predecessors the sequence is kept. Before VIOLATION is
  printed the replay file is executed three times in new processes, without Hypothesis.
* `lib/ap.py`: ctypes access, building data sets from and dumping them to JSON. `lib/shim.c` only makes macros callable.
  It includes `/repo`'s current header, so that changed macros (views, settings) are what is tested.
* `props/Cxx.py`: per property a few *facets*, each a strategy plus a `run(case)` holding the oracle. `run` returns labels; "nt"
  marks a non-trivial case by the rule stated under "Generated" below, and evidence counts distinct ones.
* Facets called "large ..." repeat a property's run with sizes of tens to hundreds of elements (`gens.LARGE`), filled from a small drawn
  pool by drawn permutations, so that limits in size, growth of buffers and second branches of sorts and sums are reached while cases stay short.
* 8 shards run in parallel, bounded by case counts, never by time. `python3 check.py Cxx --replay FILE` replays a case.
* `known_findings.json`: genuine defects that are recorded and not repaired (replayed each run, said as KNOWN-FINDING) and those
  repaired by `fix:` commits in /repo (status "fixed"; suppress nothing).
* What the family cannot do here: interleavings are not enumerated. Threaded facets run the real OpenMP and pthread schedules under
  repetition; a race that needs one particular interleaving may be missed. ThreadSanitizer was tried and is no use: libgomp is not instrumented.
* Sound tolerances: numeric comparisons are set from the conditioning of the case (never from observed errors alone), and statistical
  comparisons from a bound with a false-alarm probability of 1e-9 or below per comparison.
* All files a case writes are in a scratch directory of its worker; databases are in memory or in that directory.
"""
ORACLE = {
"C01": ("A Python table (cells, names, pages) that executes the same history; after each step the whole real data set is dumped and compared, as are the value or pointer offset and the error status of each access. Name look-up order is the model's: first exact match, else first match ignoring case, else the vector.",
        "The comparison of all cells after each step sees stray writes, and histories reach look-ups after growth by named elements."),
"C02": ("The dump of the copy equals the dump of the source; then one side is overwritten in every part and freed (ASan watches sharing) and the other is dumped again. Transposition is compared with the transposed Python lists, and with itself applied twice.",
        "Ownership bugs show only after the other side is changed or freed."),
"C03": ("Concatenation of Python lists, slice for splits, and stack(split(x)) = x; inputs dumped before and after. Resizing keeps the common block.",
        "Mismatched shapes, self-stacking and in-place variants are generated for every combination of parts."),
"C04": ("A Python list model of every name list and of the three-tier look-up rule; all names of a pool are looked up in all lists after each operation, and the stored hashes are read and compared with hashes of the names.",
        "Look-up after moves is where stored hashes go stale; fixed tests never look up afterwards."),
"C05": ("Python list filtering of rows or columns over every part; the input is compared before and after for the copying form.",
        "All drop patterns by every route on all part combinations."),
"C06": ("A Python list of pages with the three matching rules (pattern matching by the platform's regcomp); packed vectors are compared with a flattened model, and unpacking into scribbled sets of the same shape must restore all.",
        "Pages with clashing, bracketed or missing titles in any order of operations."),
"C07": ("The result's rows are a permutation of the input's whole rows (multiset equality of row tuples), ordered by the key the sort-order row asks for, and the same in place and copied.",
        "Rows scrambled across parts are invisible in tests that look only at the key."),
"C08": ("A Python grid; joins recomputed; Python's sorted set for unique elements; regcomp/regexec called directly through ctypes for the patterns.",
        "Histories of resizes under ASan reach row and column bookkeeping that a single allocation does not."),
"C09": ("Files are built from known cells, so the expected cells are known without parsing; token soups are compared with a plain splitter written from the documentation; printing and reading back must give the same data; what is shown on screen is taken from standard output and must hold the cells in order, in aligned lines.",
        "Buffer boundaries, quoting and ragged files are generated; files longer than the read buffer are built around its edge."),
"C10": ("The table read directly with Python's sqlite3 from a database file, against the known cells with SQLite's affinity applied by SQLite itself; modes by a model of the table; the name of the table from that of the file; the program run as a process.",
        "All combinations of options; tables wider than SQLite's variable limit."),
"C11": ("What Python's sqlite3 reads from the file, and what the library's own queries give, against the data set; triples against the crosstab and back.",
        "Every combination of parts with odd names and missing values."),
"C12": ("Python's sqlite3 runs the same statement on the same file; each result form is derived from its rows; the plotting program runs as a process and must write what the library prints.",
        "Queries and result specifications come from a grammar, incl. specifications that do not fit."),
"C13": ("Exact rational arithmetic (fractions) for the moments; the C library's function through ctypes for maths; unbiasedness is checked by enumerating every sample of a small distribution.",
        "The exact enumeration decides unbiasedness, which no sampling test can."),
"C14": ("A logging callback: the multiset of (item, index, parameter) calls equals the sequential expectation, and outputs are in their places; the same for every number of threads.",
        "Thread counts that do not divide the work, and pages with missing parts."),
"C15": ("Exact rational arithmetic; weighted results against repetition of rows; enumeration of samples for unbiasedness.",
        "Metamorphic relations hold over all data; tests compare one value."),
"C16": ("Definitions evaluated in Python (sorted lists for percentiles, exact sums), metric axioms incl. the triangle inequality, invariance under stride.",
        "Edges: ties, single elements, strided views, percentile counts above and below 100."),
"C17": ("A Python encoder: sorted distinct categories, codes by position, dummies as indicators, inserted and removed columns by list surgery; a second set is encoded with the first's categories.",
        "All routes (where written, kept, appended, inserted) in combination with names."),
"C18": ("Python binning with stated tolerance at edges, counting of equal rows, expansion of counts, direct windows.",
        "Edge rules, reuse of a bin page on other data, merged rows with weights."),
"C19": ("Exact rational linear algebra for products, determinants and inverses; numpy for eigenvalues; projection results must be semidefinite and leave semidefinite input alone.",
        "Views with a stride, shapes that do not fit, singular and non-symmetric matrices."),
"C20": ("scipy.stats log densities (mixtures of kernels by logsumexp), agreement of log likelihood and likelihood, sums over rows.",
        "Parameters at extremes, observations at and outside the edge of the support, every way of keeping the data."),
"C21": ("scipy.stats CDFs and exact sums; CDFs from draws within seven standard errors, and exactly where the draws are known; the p-value helper against the CDF identities for each tail.",
        "Histories of cached values (harmonic numbers, stored draws) and threads."),
"C22": ("Dvoretzky-Kiefer-Wolfowitz bound of the empirical CDF against scipy's, per coordinate and per random projection; same seed, same draws; copies draw the same; row requests fill exactly their rows.",
        "Goodness of fit at a fixed false-alarm bound over the parameter space instead of one point."),
"C23": ("Closed forms recomputed; for searches: the reported log likelihood equals the reference one at the reported parameters, is no lower than at the start and, on success, no lower than at neighbours; quadratic targets have a known optimum, parameter covariance and parameter tests; annealing is held to lattices whose top is known; invariance under permutation; the data and the input model dumped before and after.",
        "All methods and starting points, with and without constraints."),
"C24": ("numpy least squares, normal equations, covariance, t distribution by scipy; weights against repetition; logit/probit gradient at the returned parameters against the reference likelihood; draws by moments, and the noise around the drawn inputs against its distribution; likelihood and score at parameters other than the estimate against the formula and its differences.",
        "Data left as it was, weights, instruments by name or position, singular designs."),
"C25": ("Counting in Python; draws must be whole rows with frequencies in a DKW-type bound; KL and entropy from frequencies.",
        "Repeated rows, zero weights, text rows."),
"C26": ("The identity that defines each transform, evaluated through reference densities, on the transform, its copy, and after changes of parameters, in several orders of evaluation; mixture weights against one EM step.",
        "All patterns of fixed parameters over pages, mixture weights, truncation intervals."),
"C27": ("Python dictionaries per model; after each operation every model is read back in full; registries as a list model; stand-in models sharing methods; what is printed of a model against its name, parameters and information printed alone, or the form of its own.",
        "Cross-talk between models appears only in histories."),
"C28": ("Closed-form posteriors; a replay of the Markov chain from the log of its own likelihood evaluations (every accept/refuse decision against the odds, positions, blocks, constraint); moments of posterior samples against closed forms.",
        "The chain's internal decisions are checked step by step rather than by its final mean."),
"C29": ("scipy.stats, enumeration of all tables with the same margins for Fisher's test, one-way and two-way sums of squares recomputed; swaps and permutations.",
        "Unequal sample sizes, ties, empty cells, contrasts in every form."),
"C30": ("Iterative proportional fitting of the full array in numpy, cell by cell, plus margins and zeros; tables in the database dumped before and after.",
        "Overlapping contrasts, many variables, starting tables, nudges, limits."),
"C31": ("The estimated model is the harness's own function, which logs each replicate it is handed; replicates must be rows of the data and the covariance is recomputed from the logged estimates; leave-one-out by the library's own models; conditional modes of the multivariate Normal for imputation and for predictions made by it.",
        "The log shows what each replicate was, which the final matrix hides."),
"C32": ("Richardson differences of the reference likelihood, polynomials with exact derivatives, enumeration of active sets for the nearest admissible point; the textbook parameter space of each distribution.",
        "Parameters over pages, histories of constraint calls (its static cache), threads."),
"C33": ("Slices of Python lists; each view is read, written through, and the whole original compared; chains of up to four views ending in rows, columns, or sub-blocks.",
        "All positions and extents inside and outside, views of views."),
"C34": ("Local regression written anew in numpy: nearest neighbours, tricube weights, least squares by SVD at each point; for interpolation the same fits (values and slopes) at the vertices of a k-d tree built by the reference, then cubic blending, whose linear operator is compared with the fits of all unit vectors. "
        "From the operators follow traces, deltas, standard errors, t limits, robust passes and pseudovalues. Designs with a local condition number over 1e4 and hanging vertices of three predictors (inherent to the published algorithm) are left out.",
        "Any design, span, degree, weights, conditionally parametric predictors, settings built on other data, copies, repeated prediction."),
}

FIXES = [
    ('dda2b4e', 'C01', 'apop_data_get/set/ptr report out-of-bounds requests as documented'),
    ('0c28bb5', 'C02', 'apop_data_copy/memcpy copy the vector name and leave a missing title missing'),
    ('a352dce', 'C33', 'view macros handle several row names and expression arguments'),
    ('21045a6', 'C02', "apop_data_memcpy checks the destination's text grid size"),
    ('b17fd94', 'C03', 'apop_data_stack reports mismatched sizes as documented and pads names to full height'),
    ('f7f1986', 'C03', 'apop_data_split handles vector-only and text data'),
    ('c002736', 'C04 C05', 'column removal keeps name hashes in step and sizes its list by columns'),
    ('4b28cbb', 'C08', 'apop_text_alloc allocates full rows when adding rows and dropping columns at once'),
    ('02d2c23', 'C02', 'apop_data_transpose gives text and matrix names their documented places'),
    ('033a659', 'C06', 'apop_data_rm_page handles untitled pages and frees the page'),
    ('7501951', 'C04', 'apop_name_copy leaves a missing title missing'),
    ('0e66360', 'C33', 'Apop_cs returns NULL for a negative column'),
    ('e36e06c', 'C05', 'in-place listwise deletion of every row empties the input'),
    ('3a3d64b', 'C08', 'text unique elements are data, not a format'),
    ('cbad706', 'C07', 'sort order keeps ties, skips blanks, and applies descending order to every key'),
    ('c850249', 'C03', 'stacking a vector by columns names the added column'),
    ('886d948', 'C08', 'text_paste prunes what the prune function selects'),
    ('21f563f', 'C08', 'apop_regex moves past empty matches'),
    ('7e8646d', 'C08', 'text_fill uses strings verbatim and stops when they run out'),
    ('7450d77', 'C06', 'pack and unpack treat info pages alike'),
    ('de21414', 'C08', 'apop_text_set rejects any out-of-range position'),
    ('9645d76', 'C08', 'apop_regex takes the number of groups from the compiled expression'),
    ('b3815ef', 'C03', 'error-returning macro reports the error given'),
    ('b6199cc', 'C09', 'multi-page printing to a file, and unopenable output files'),
    ('c710870', 'C09', 'text reading handles missing final newlines, short or empty files, quoted blanks, and row names without column names'),
    ('c304c6d', 'C10', 'a NaN read into a database is NULL, not the text 0.0/0.0'),
    ('7c33ff6', 'C10', 'text lines with quotes or missing fields go into tables too wide for prepared statements'),
    ('29b8274', 'C09', 'refuse a text file that holds only row names'),
    ('04cac5c', 'C12', 'text from a query is not a format string'),
    ('0606e10', 'C11', 'printing a vector to the database writes a table'),
    ('f3b6428', 'C11', 'data sets with row names, short parts, blanks, or very many columns are written whole to the database'),
    ('6f18caf', 'C11', 'crosstabs: restore options and report errors; names and values written exactly'),
    ('e1706ee', 'C12', 'a failed query into a vector returns NULL'),
    ('d39160a', 'C12', 'keep the query text until its error has been reported'),
    ('1bdeda1', 'C12', 'NULL row names, and mixed queries with too many or too few types'),
    ('131476b', 'C12', 'closing a database that was never opened is not an error'),
    ('aac4efd', 'C12', 'a mixed query with text or surplus columns stays within its memory'),
    ('4683172', 'C15', 'an unbiased kurtosis'),
    ('32f6b28', 'C13', 'maths functions in queries give NULL for NULL'),
    ('e19a244', 'C13', 'aggregates in queries skip NULLs, keep their precision, and give the unbiased kurtosis'),
    ('e19b8a9', 'C15', 'weights that sum to one are not divided by the number of observations'),
    ('c69c266', 'C14', "mapping over columns names the output's rows, not the input"),
    ('d13be36', 'C14', 'mapping over all pages without a result'),
    ('233819e', 'C14', 'vectors made by map are the size of what was mapped'),
    ('4059389', 'C04', 'adding the vector name or title of a set of names to itself read freed memory'),
    ('5c72561', 'C17', 'factors and dummies: inserted columns, removal, categories shared between data sets, parts to be allocated, unnamed text columns'),
    ('57076f6', 'C18', 'counting ranks ignored the minimum count of bins, and expanding a vector of counts crashed'),
    ('da76457', 'C18', 'a moving average with a window wider than the vector asked for memory without end'),
    ('7c4a469', 'C18', 'the top bin, bins of constant columns, and the weights of a binned model'),
    ('bdd5735', 'C19', 'the positive semidefinite test tested for positive definiteness'),
    ('69ade70', 'C19', 'determinants of singular and non-square matrices, handlers left by refused products and inverses, vectors of different sizes multiplied'),
    ('61dbc7b', 'C19', 'a matrix that is not symmetric was left as it was by the projection to semidefinite matrices'),
    ('774424f', 'C20', 'densities outside the support: the lognormal, exponential, gamma, beta, Zipf, Yule, multinomial and Dirichlet had NaN or a positive density there, and edges of the beta and gamma were NaN or skipped; the binomial was used for multinomials of n=2'),
    ('748751b', 'C21', 'the CDF of a binomial or lognormal at a negative point'),
    ('d6c5f42', 'C22', 'Zipf and Yule draws overflowed an int'),
    ('85c1c1f', 'C21', 'poles of the multivariate gamma'),
    ('49d93e0', 'C21', 'test p-values: no distribution named, tails of the Normal swapped, two tails of the uniform, default of the lognormal'),
    ('4167ede', 'C21 C22', 'harmonic numbers and per-thread random number generators read from tables another thread could be moving; every thread had the zeroth generator'),
    ('ff6dae8', 'C22', 'adaptive rejection sampling used its default starting points after they were gone, ignored a bound of zero, copies shared the history of the search, and 1,000 rejections were reported as success'),
    ('5556fbb', 'C22', 'error marks of apop_model_draws other than documented; GHgB3 draws overflowed an int'),
    ('21b4133', 'C22 C28', 'a burn-in of a fractional number of steps left a row more or less than the draws; steps added to a chain had no weight'),
    ('da39604', 'C22', 'threads shared the search history of adaptive rejection sampling'),
    ('3ba9d16', 'C22', "draws from a kernel density over a vector were all around a made-up point, and threads moved each other's kernel"),
    ('2a8af26', 'C22', 'a binomial draw wrote two numbers where one was promised; draws and likelihoods changed the parameters while running; draw size after estimation was the count of draws'),
    ('98ba582', 'C25', 'the last row of an unweighted PMF was never drawn; draws of rows with vector and matrix were misplaced'),
    ('cc07fc2', 'C23', 'Normal estimation pools vector and matrix with one n-1 variance; covariance scaled by n'),
    ('e8d264c', 'C23', 'exponential estimation with both vector and matrix'),
    ('8d226c9', 'C23', 'beta estimation uses the second moment documented; no abort outside the parameter space'),
    ('0d1df51', 'C23', 'gamma estimation by the documented moments, reporting a log likelihood'),
    ('36c2f0e', 'C23', 't estimation with vector plus matrix and from an estimated model; log density without aborts'),
    ('9fe3f70', 'C23', 'covariance of the Bernoulli p is over n'),
    ('75a5039', 'C32', 'Poisson score counts vector data'),
    ('5e55394', 'C23', 'multivariate Normal estimation reports the documented covariance, frees prepped parameters'),
    ('bb1d924', 'C23', 'leak in multinomial estimation'),
    ('e84938a', 'C23', "apop_estimate on an estimated model starts without the old data's info and covariance"),
    ('a4fd800', 'C32', 'apop_linear_constraint returns the nearest admissible point, whatever was checked before'),
    ('280426a', 'C23', 'ML searches: report the log likelihood, status, and path at the parameters returned; restart; leaks'),
    ('64f6f6b', 'C32', 'apop_linear_constraint: no stale point from earlier calls, signed shifts along unit vectors'),
    ('e237ac7', 'C24', 'apop_estimate_coefficient_of_determination: weighted SST, adjusted R squared'),
    ('bdbb903', 'C24', 'apop_parameter_model/apop_predict dispatch: hash precedence'),
    ('92b4726', 'C24', "probit/logit: outcome categories looked up by code; multinomial probit's columns; draws"),
    ('4dd44fc', 'C24', 'OLS/WLS/IV: weighted likelihood and residuals, wanted parts honored, IV names and weights'),
    ('62ea726', 'C25', 'apop_kl_divergence: unsynced PMFs give -inf and not NaN; repeated rows; models with no settings'),
    ('0f4ebf6', 'C25', 'apop_pmf: CDF is cumulative once, repeated rows add up, stale CMF after re-estimation, exact entropy'),
    ('93f9a8a', 'C21', 'apop_cdf: redo the draws when the parameters change; copies keep count of their own draws'),
    ('2c59733', 'C26', 'apop_model_fix_params: many-page parameters, constraints keep the fixed ones fixed'),
    ('4a9708b', 'C26', 'apop_model_mixture: weights in the log likelihood, parameters reach draws and constraint, copies'),
    ('4b93e4f', 'C26', 'apop_model_dconstrain: copies and changed parameters reach the base model, failed draws'),
    ('10d7b04', 'C26', 'apop_model_coordinate_transform: changed parameters reach the base model'),
    ('9d582e3', 'C26', 'apop_model_cross: rows of draws, NULL data, one or no models, estimated parts keep their data'),
    ('4eb20df', 'C28', 'apop_update: multi-parameter priors, no constraint, lists of points as priors, conjugates count every observation'),
    ('30877a1', 'C28', 'apop_mcmc: own proposals, starting point, information pages, error mark'),
    ('7277f21', 'C29', 'apop_t_test, apop_f_test, chi-squared and ANOVA: textbook statistics, contrasts left as they were'),
    ('8c41345', 'C29', 'goodness of fit and Kolmogorov-Smirnov: unweighted data, counts, distances of step functions'),
    ('3fa9b39', 'C27', 'vtables: no read past the end on dropping, tables safe to use while another thread adds one'),
    ('7fe32dd', 'C27', 'Apop_settings_set marks the error and does not use the group that is not there'),
    ('5cc50e3', 'C30', 'apop_rake: cells off the margins, nudged starting tables, more than six variables, wrong contrasts, convergence mark, working tables'),
    ('1d4a52e', 'C31', 'apop_parameter_model: standard deviation for the Normal, sizes when the parameters include a matrix'),
    ('bad3090', 'C31', "bootstrap with NaNs, its error return and its column names; jackknife of one observation; input's names untouched while resampling"),
    ('b66b96b', 'C31', 'the jackknife variance is the variance of the pseudovalues over n'),
    ('e1bd503', 'C31', 'the jackknife and bootstrap hand copies of the data to models that rearrange what they are given'),
    ('daf234a', 'C24 C32', "threads no longer leave the library's GSL error handler in place; regressions on singular data are marked, not a crash"),
    ('8c4a3b5', 'C32', 'numerical derivatives of models whose parameters are on more than one page'),
    ('1eaf535', 'C32', 'apop_linear_constraint: a margin moves every border inward by the same distance'),
    ('e126f13', 'C27', 'settings groups whose names share a hash ("ab" and "bA") were taken for one another'),
    ('dcbd53d', 'C34', 'loess: predictors were not sorted before their spread was trimmed: normalisation used the first and last rows of the data in place of the extreme ones'),
    ('3a5d51a', 'C34', 'loess: robustness weights of an even number of observations used one residual for the median of two'),
    ('f6eb488', 'C34', "loess: .normalize='n' did not turn normalisation off"),
    ('1d78957', 'C34', 'loess: the parametric and drop_square settings were ignored'),
    ('b7b60a9', 'C34', 'loess: settings groups shared their data with other groups, and copying and freeing them crashed'),
    ('8a13f55', 'C34', 'loess: prediction changed the estimated model, and applied weights twice'),
    ('a8d2fe0', 'C34', 'loess: standard errors of predictions with weights were wrong, and the operator for many points overflowed its array'),
    ('87fce84', 'C34', 'loess: confidence limits used wrong quantiles of the t distribution'),
    ('17a7623', 'C34', 'loess: prediction for data whose dependent variable is in the vector read the wrong columns'),
    ('5bf9891', 'C34', 'loess: the <Confidence> page held other numbers than its columns were named for'),
    ('0d86bd5', 'C34', 'loess: the log likelihood did not find the residuals of the estimated model'),
    ('4cfb58e', 'C34', 'loess: estimation used the data of its settings in place of the data given'),
    ('67a9811', 'C34', 'loess: the observed column was not named for the dependent variable'),
    ('0ae7e0d', 'C34', 'loess: prediction did not end when the degrees of freedom were not positive'),
    ('90040b9', 'C34', 'loess: blending for two predictors looked for neighbours across cuts of the wrong axis: the surface was discontinuous'),
    ('88c95b3', 'C23', 'asking for parameter tests of a model with its parameters in a matrix (logit) dereferenced a NULL vector'),
 ('2b2e1c7', 'C24', "predictions of a logit model for rows whose score is past 709 were NaN"),
 ('2d666d9', 'C30', "raking lost the rows of the starting table whose first variable was missing"),
 ('50b6621', 'C29', "Fisher's exact test of a table with a negative cell reported uninitialized memory as its probabilities"),
 ('bac4f76', 'C27', "printing a least-squares model moved the page of predictions to the end of its information"),
 ('71e141c', 'C23', "the lognormal model's documented prediction, its mean, was never registered, so predicting gave its mode"),
 ('1ded1fe', 'C24', "the log likelihood of an estimated least-squares model on its own data stayed that of the estimate when its parameters were changed"),
 ('91968e6', 'C22', "drawing from a several-dimensional model with no draw method recursed without end if the model had settings for Markov chains, and clashed with settings added later"),
]

LEFT = r"""
## Recorded, not repaired

* **Known finding (C29, facet f_df).** `apop_f_test` reports rows less contrasts as its second degrees of freedom, where the textbook has rows
  less coefficients. The repository's own `eg/f_test.c`, which the test suite runs, requires the present value, so a repair would fail an existing test.
* Outside the stated properties (documented limits or quirks, not checked): the last of the fixed-width field ends must be given; column names with a `'` in
  `apop_text_to_db`; a row name ".1" read as "0.1" by the database; `apop_model_dcompose` names a model that does not exist; a copy of
  a Metropolis posterior shares its list of draws with the original; models wrapped by transforms are shared with copies; the inner
  gradient of `apop_model_hessian` uses the default step.

## False alarms met and corrected

* C03: which vector survives when columns are stacked (documentation and code differ): both accepted.
* C18: observations within rounding of a bin edge may fall on either side.
* C28: the Normal/Normal update takes the likelihood's spread from each batch, so updates in two batches need not agree with one.
* C31: imputed values compared only as far as the search's default tolerance can tell.
* C32: three or more slanted constraints: the library documents a heuristic, and `tests/test_apop.c` pins its result; only up to two, or perpendicular ones, are held to
  the nearest point. Steps of finite differences are relative to the scale parameter.
"""

SEEDNOTES = {
 "name_hash_only": "caught (at first missed: names with equal hashes were added to C04's pool)",
 "memcpy_stale_blank": "caught (at first missed: C02 now copies blank cells over filled ones)",
 "split_col_edge": "caught (at first missed: C03 now splits at and past both edges)",
 "query_nan_prefix": "caught (at first missed: C12's NaN markers now include the beginnings of numbers)",
 "cross_offset": "caught (at first missed: C26 has a facet of cross products of models with wide draws)",
 "tail_f_upper": "caught (at first missed: C21's p-values now take fractional degrees of freedom)",
 "boot_last_row": "caught (at first missed: C31's check of even draws now goes to 30 rows)",
 "pow_int32": "caught (at first missed: C13's powers now include exponents past 32 bits)",
    "print_hash": "caught (at first missed: C27's stand-in models now often have no or one method)",
 "model_more": "caught (at first missed: C27's histories now also hand parameters to models without declared sizes)",
 "cv_of_view": "caught (at first missed: C33 now has chains of views)",
 "tests_no_cov": "caught (at first missed: C23's quadratics now also ask for parameter tests)",
 "anneal_out": "caught (at first missed: C23 now has facets for annealing)",
 "anneal_zero": "caught (at first missed: C23 now has facets for annealing)",
 "ols_draw_df": "caught (at first missed: C24 now compares the noise of draws with its distribution)",
 "mix_cdf_stale": "caught (at first missed: C26 now varies the order of evaluation)",
 "fix_draw_stale": "caught (at first missed: C26 now varies the order of evaluation)",
 "ks_rescale": "caught (at first missed: C29 now has Kolmogorov-Smirnov tests of up to 1,600 observations)",
 "cdf_atoms": "caught (at first missed: C21 now has draws that are known, of several dimensions)",
 "rake_nan": "caught (at first missed: C30's categories may now be missing)",
 "harmonic_near": "caught (at first missed: C21's exponents are now also nearly equal)",
 "cov_stride": "caught (at first missed: C15 now mixes vectors of different strides)",
}

TAIL = r"""
Planting turned up two more gaps before they were kept: stacking with padded text rows (C03's texts now have unequal heights) and percentile averaging at the top
(the repository's own tests catch that one, so it is not kept).
"""

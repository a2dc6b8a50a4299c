"""Source of /verif/properties.jsonl (run tools/gen.py)."""
U = 'estimation/utilities/'
D = 'estimation/unidimensional/dichotomous/'
P = 'estimation/unidimensional/polytomous/'
M = 'estimation/multidimensional/'

PROPS = []


def p(id, title, statement, over, text, why, files, mech):
    PROPS.append(dict(id=id, title=title, statement=statement,
                      quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech])))


p('C01', 'Missing-data tagging keeps valid responses and marks everything else',
  'Tagging a dataset with a list of valid responses returns, cell by cell, the original value where it is in the list and the missing-response code everywhere else, whatever the storage type of the dataset. The input is left as it was.',
  ['inputs', 'configurations'], 'every dataset (integer widths, signed or not, float, NaN) and every list of valid responses',
  'the tests tag one random int64 dataset; narrow storage types and other value/list combinations are never reached',
  [U + 'utils.py'], [('tag_missing_data', U + 'utils.py')])

p('C02', 'Response coding, right/wrong counts and the starting difficulty are exact',
  'For any dichotomous dataset the kernel sign is -1 for a correct, +1 for an incorrect and 0 for a missing response; the per-item counts are exactly the numbers of incorrect and correct responses. The approximate difficulty is sqrt(1 + a^2/3)/a times the log odds of an incorrect response (or times the supplied log odds).',
  ['inputs'], 'every 0/1/missing dataset, every positive discrimination (scalar or per item) and every supplied scalar',
  'tests compare a few fixed datasets; they cannot cover every missing pattern or discrimination',
  [U + 'utils.py'], [('convert_responses_to_kernel_sign', U + 'utils.py'), ('get_true_false_counts', U + 'utils.py'), ('mml_approx', U + 'utils.py')])

p('C03', 'Trimming removes exactly the uninformative response patterns',
  'Trimming response patterns with counts drops a pattern exactly when all of its observed (non-missing) responses are equal or none is observed, keeps every other pattern unchanged and in order, and keeps each remaining count aligned with its pattern.',
  ['inputs'], 'every set of response patterns with missing cells and every count vector',
  'tests check two hand-made pattern sets; patterns whose missing code disguises a constant column are a combinatorial space',
  [U + 'utils.py'], [('trim_response_set_and_counts', U + 'utils.py')])

p('C04', 'Polytomous responses are recoded to consecutive categories per item',
  'Preparing a polytomous dataset recodes each item\'s observed responses, in increasing order, to consecutive category numbers offset by the categories of the preceding items (or from zero when no offset is requested), reports the number of categories per item (at least two), and reports exactly which cells are observed. With end trimming, exactly the persons without any observed response and those whose observed responses are all at the dataset minimum or all at the dataset maximum are removed; the order of the others is kept.',
  ['inputs', 'configurations'], 'every dataset of integer responses with gaps, unused categories, constant items and missing cells, with and without trimming, both offset modes',
  'tests use a handful of complete datasets; which categories are present in which item is a combinatorial choice',
  [U + 'polytomous_utils.py'], [('condition_polytomous_response', U + 'polytomous_utils.py')])

p('C05', 'Estimation options are defaulted, merged and validated',
  'Validating a partial option set returns the documented defaults overridden by exactly the supplied keys; a value outside its documented domain or an unknown key is rejected with an error instead of being used. Neither the supplied options nor later default option sets are modified by validation.',
  ['inputs', 'configurations', 'histories'], 'every subset of option keys, every value (integers below/at/above each limit, booleans, floats, tuples, lists, callables), any sequence of validation calls',
  'tests try a few bad values per key; limits, type confusions and leakage between calls need every value and call order',
  [U + 'girth_options.py'], [('validate_estimation_options', U + 'girth_options.py'), ('default_options', U + 'girth_options.py')])

p('C06', 'Numerical integration uses the Gauss-Legendre rule on the requested interval',
  'The quadrature locations and weights used by every estimator are the n-point Gauss-Legendre rule affinely mapped to the configured bounds: integrals of polynomials up to degree 2n-1 over the interval are exact, and the weights sum to the interval length.',
  ['inputs', 'configurations'], 'every interval (start < stop, symmetric or not) and every rule',
  'tests use the default symmetric interval, where an offset or scale error cancels',
  [U + 'utils.py', U + 'latent_ability_distribution.py'], [('_get_quadrature_points', U + 'utils.py'), ('LatentPDF', U + 'latent_ability_distribution.py')])

p('C07', 'The difficulty look-up table inverts the marginal response probability',
  'The look-up function built for a discrimination grid and a difficulty grid returns, at grid discriminations, a difficulty whose marginal probability of a correct response (under the configured distribution and quadrature) brackets the requested proportion; between grid discriminations it interpolates linearly, including at the top of the grid. Proportions outside the table give the nearest end of the difficulty grid.',
  ['inputs', 'configurations'], 'every discrimination inside the grid (ends included), every proportion, every grid, distribution and interval',
  'tests query a few interior points on one grid with a loose tolerance',
  [U + 'look_up_table.py'], [('create_beta_LUT', U + 'look_up_table.py'), ('_array_LUT', U + 'look_up_table.py')])

p('C08', 'Dichotomous pattern likelihoods follow the logistic models; missing is neutral',
  'The likelihood of a response pattern at an ability is the product over items of the one/two/three parameter logistic probability of the observed response, correct and incorrect probabilities of an item add to one, and a missing response contributes one positive constant that depends on no parameter and no ability (exactly one for the one/two parameter models).',
  ['inputs'], 'every difficulty, discrimination, guessing value, ability and 0/1/missing response pattern',
  'tests evaluate single points of the formula; the identity has to hold for all real parameters and all response patterns',
  [D + 'partial_integrals.py'], [('_compute_partial_integral', D + 'partial_integrals.py'), ('_compute_partial_integral_3pl', D + 'partial_integrals.py')])

p('C09', 'Graded response likelihoods are differences of cumulative logistic curves',
  'For the unidimensional and multidimensional graded response models the likelihood of each category is the difference of adjacent cumulative logistic curves, the categories of an item are non-negative for ordered thresholds and add to one, and a missing response contributes exactly one.',
  ['inputs'], 'every ordered threshold vector, discrimination (vector), ability (vector), category and missing pattern',
  'tests evaluate one or two parameter sets; category boundaries, last categories and missing masks are only sampled',
  [P + 'partial_integrals_poly.py', M + 'partial_integral_md.py'], [('_graded_partial_integral', P + 'partial_integrals_poly.py'), ('_graded_partial_integral_md', M + 'partial_integral_md.py')])

p('C10', 'Partial credit and unfolding likelihoods follow their models',
  'The partial credit likelihood of category k is proportional to the exponential of the sum of a(theta - b_j) over its first k steps, and the graded unfolding likelihood follows the generalised graded unfolding model; category probabilities add to one for every item (also when items have different numbers of categories) and a missing response contributes exactly one.',
  ['inputs'], 'every step/threshold vector, discrimination, item location, ability, category, category-count mix and missing pattern',
  'tests evaluate a few parameter sets with equal category counts',
  [P + 'partial_integrals_poly.py'], [('_credit_partial_integral', P + 'partial_integrals_poly.py'), ('_unfold_partial_integral', P + 'partial_integrals_poly.py')])

p('C11', 'Simulated data and estimators use the same measurement model',
  'For every model family (dichotomous, graded, multidimensional graded, partial credit, unfolding) the probability with which the data generator produces a response equals the likelihood the corresponding estimator assigns to it under the same parameters.',
  ['inputs'], 'every parameter vector, ability and response category',
  'recovery tests are statistical and loose; sign, ordering or parameterisation drift between generator and estimator needs an identity for all parameters',
  ['synthetic/dichotomous.py', 'synthetic/polytomous.py', D + 'partial_integrals.py', P + 'partial_integrals_poly.py', M + 'partial_integral_md.py'],
  [('create_synthetic_irt_dichotomous', 'synthetic/dichotomous.py'), ('create_synthetic_irt_polytomous', 'synthetic/polytomous.py')])

p('C12', 'Dichotomous generator draws each answer with its model probability',
  'Each simulated answer is 1 exactly when its own uniform draw does not exceed the item\'s logistic probability c + (1-c)/(1+exp(-a(theta-b))) (slope-intercept form for matrix discriminations), else 0; scalar discrimination and guessing apply to every item as given, whatever the number type of the difficulties. The same seed gives the same data.',
  ['inputs', 'configurations'], 'every difficulty, discrimination (scalar, per item, matrix), guessing, ability, storage type and random draw',
  'tests check seeded shapes and means only; a wrong draw-to-cell mapping or parameter truncation is invisible',
  ['synthetic/dichotomous.py'], [('create_synthetic_irt_dichotomous', 'synthetic/dichotomous.py')])

p('C13', 'Polytomous generator draws each category with its model probability',
  'A simulated response is the category whose cumulative model probability interval contains that cell\'s own uniform draw, numbered from 1 up to the number of categories of the model; difficulty parameters that are not ascending (unidimensional graded) or not symmetric/odd (unfolding) are rejected. The same seed gives the same data.',
  ['inputs', 'configurations'], 'every threshold vector, discrimination, ability, model and random draw',
  'tests check seeded shapes and a few hand values; the mapping from draw to category must hold for every draw',
  ['synthetic/polytomous.py'], [('create_synthetic_irt_polytomous', 'synthetic/polytomous.py')])

p('C14', 'Posterior-mean abilities are exact posterior means over the quadrature',
  'Every expected-a-posteriori ability (one/two/three parameter, and per factor for multidimensional models) equals the quadrature-weighted posterior mean of ability given that person\'s observed responses and the configured distribution, and does not depend on the other persons (for datasets in which every item shows all of its categories).',
  ['inputs', 'configurations'], 'every item parameter vector, response pattern with missing cells, distribution, interval and quadrature rule',
  'tests compare against the generating abilities with loose tolerances',
  [D + 'ability_estimation.py', D + 'ability_threepl.py', P + 'ability_estimation_poly.py', M + 'multidimensional_ability_methods.py'],
  [('ability_eap', D + 'ability_estimation.py'), ('ability_3pl_eap', D + 'ability_threepl.py'), ('multidimensional_ability_eap', M + 'multidimensional_ability_methods.py')])

p('C15', 'Mode abilities maximise the person\'s own posterior or likelihood',
  'Each maximum-a-posteriori or maximum-likelihood ability is the result of maximising that person\'s log-likelihood of the observed responses (plus the log prior for MAP) over the documented range ([-6, 6]; [-4, 4] per factor for datasets in which every item shows all of its categories). Maximum likelihood reports the no-estimate value, with negative sign for all-wrong, exactly for persons whose observed responses are all equal or missing, and persons keep their positions.',
  ['inputs', 'configurations'], 'every item parameter vector, response pattern with missing cells, prior, and candidate ability',
  'tests compare a handful of estimates; the objective must be the posterior for all parameters and patterns',
  [D + 'ability_estimation.py', D + 'ability_threepl.py', M + 'multidimensional_ability_methods.py'],
  [('ability_map', D + 'ability_estimation.py'), ('ability_mle', D + 'ability_estimation.py'), ('ability_3pl_map', D + 'ability_threepl.py'), ('multidimensional_ability_map', M + 'multidimensional_ability_methods.py')])

p('C16', 'Rasch/1PL marginal estimation matches margins and maximises the likelihood',
  'For a given discrimination each difficulty minimises the mismatch between the marginal probability of a correct answer and that item\'s observed proportion correct (missing excluded); the one-parameter discrimination maximises the marginal likelihood of all response patterns with their multiplicities at those difficulties, and the returned parameters belong together.',
  ['inputs', 'configurations'], 'every 0/1/missing dataset, discrimination, distribution, interval and quadrature',
  'tests are statistical recovery with loose bounds on a few seeds',
  [D + 'rasch_mml.py'], [('rasch_mml', D + 'rasch_mml.py'), ('onepl_mml', D + 'rasch_mml.py'), ('_mml_abstract', D + 'rasch_mml.py')])

p('C17', 'Conditional Rasch estimation uses the exact conditional likelihood',
  'The elementary symmetric functions are exact for any item parameters, and each item difficulty maximises the conditional likelihood of the observed response patterns given their sum scores, with difficulties kept mean-centred and divided by the discrimination on return.',
  ['inputs'], 'every item parameter vector, complete 0/1 dataset and discrimination',
  'tests check recovery and one symmetric-function example',
  [D + 'rasch_conditional.py'], [('rasch_conditional', D + 'rasch_conditional.py'), ('_symmetric_functions', D + 'rasch_conditional.py')])

p('C18', 'Dichotomous joint estimation alternates exact person and item likelihood steps',
  'In each sweep of Rasch/1PL/2PL joint estimation every ability maximises its pattern\'s likelihood, abilities are standardised, and every item step maximises the count-weighted likelihood of that item\'s responses at those abilities within the documented bounds; missing responses never enter and the returned parameters are the last item step\'s.',
  ['inputs', 'histories'], 'every 0/1/missing dataset and every sequence of optimiser results over the sweeps',
  'recovery tests are loose and run one seed; mis-paired counts, stale parameters and missing handling stay hidden',
  [D + 'jml_methods.py'], [('_jml_abstract', D + 'jml_methods.py'), ('rasch_jml', D + 'jml_methods.py'), ('onepl_jml', D + 'jml_methods.py'), ('twopl_jml', D + 'jml_methods.py')])

p('C19', 'Graded/2PL marginal estimation maximises the marginal likelihood per item',
  'For each item in each sweep, the discrimination search evaluates the marginal log-likelihood of all persons with that item\'s thresholds set to reproduce its observed category proportions and all other items at their current values, and stores the searched value with its thresholds; the returned difficulties, discriminations, abilities and fit indices all come from the final parameters.',
  ['inputs', 'configurations', 'histories'], 'every small dataset with missing cells and uneven categories, look-up table on or off, every sequence of search results',
  'tests are statistical recovery; leaving a stale item factor or mixing item indices moves results less than their tolerance',
  [P + 'grm_mml.py', D + 'twopl_mml.py', U + 'polytomous_utils.py'], [('grm_mml', P + 'grm_mml.py'), ('twopl_mml', D + 'twopl_mml.py'), ('_solve_for_constants', U + 'polytomous_utils.py'), ('_solve_integral_equations', U + 'polytomous_utils.py')])

p('C20', 'Partial credit marginal estimation maximises the marginal likelihood per item',
  'For each item in each sweep the search objective is the marginal log-likelihood of all persons as a function of that item\'s discrimination (in [0.25, 4]) and steps (in [-6, 6]), with all other items at their current values; results are stored for that item only, items may have different category counts, and the returned abilities and fit indices come from the final parameters.',
  ['inputs', 'configurations', 'histories'], 'every small dataset with missing cells and uneven categories and every sequence of search results',
  'tests are statistical recovery on equal category counts with loose tolerance',
  [P + 'pcm_mml.py'], [('pcm_mml', P + 'pcm_mml.py')])

p('C21', 'Unfolding marginal estimation maximises the marginal likelihood per item',
  'For each item in each sweep the search objective is the marginal log-likelihood as a function of that item\'s discrimination (in [0.25, 4]), location (in [-2, 2]) and thresholds (in [-6, 6]) with the other items at their current values; on return the reference item\'s location has the requested sign, every location keeps its magnitude, and the reported difficulties are the location plus the thresholds mirrored about it.',
  ['inputs', 'configurations', 'histories'], 'every small dataset with missing cells, every reference item and sign, and every sequence of search results including zero locations',
  'tests check shapes and one recovery; sign handling and mirrored thresholds are not settled by it',
  [P + 'gum_mml.py'], [('gum_mml', P + 'gum_mml.py')])

p('C22', 'Bayesian graded/2PL estimation returns exact posterior means per item',
  'For each item the stored discrimination is the posterior mean over the discrimination quadrature of the marginal likelihood times the current Rayleigh prior, the prior scale is the posterior mean under its log-normal hyper-prior given the discriminations, and thresholds, abilities and fit indices are those of the stored discriminations.',
  ['inputs', 'configurations', 'histories'], 'every small dataset with missing cells, quadrature values and distribution',
  'tests are statistical recovery only',
  [P + 'grm_mml_eap.py', D + 'twopl_mml_eap.py'], [('grm_mml_eap', P + 'grm_mml_eap.py'), ('twopl_mml_eap', D + 'twopl_mml_eap.py')])

p('C23', 'Three-parameter marginal estimation matches margins and maximises likelihood',
  'For each item in each sweep the search over discrimination and guessing evaluates the marginal log-likelihood of all response patterns with multiplicities, with the difficulty set so that guessing plus the marginal logistic probability reproduces the item\'s proportion correct and all other items at their current values; the returned triple of each item belongs together.',
  ['inputs', 'histories'], 'every small 0/1/missing dataset and every sequence of search results',
  'tests only check loose recovery; an item index or stale difficulty error is within tolerance',
  [D + 'threepl_mml.py'], [('threepl_mml', D + 'threepl_mml.py')])

p('C24', 'Polytomous joint estimation alternates exact person and item likelihood steps',
  'In each sweep of graded and partial-credit joint estimation every ability step maximises that person\'s likelihood of the observed responses, abilities are standardised, and every item step maximises the likelihood of that item\'s observed responses over its discrimination and (ordered, for graded) thresholds; missing cells never enter and results are stored under their item.',
  ['inputs', 'histories'], 'every small dataset with missing cells and uneven categories and every sequence of search results',
  'tests are statistical recovery with loose tolerance',
  [P + 'grm_jml.py', P + 'pcm_jml.py'], [('grm_jml', P + 'grm_jml.py'), ('pcm_jml', P + 'pcm_jml.py')])

p('C25', 'Multidimensional marginal estimation maximises the marginal likelihood per item',
  'For each item in each sweep the search objective is the multidimensional marginal log-likelihood as a function of that item\'s free discriminations (in [-3, 3]; the identified one of each last item in [0.15, 4] after an initial guess, that of the very last in [0.2, 5]), with intercepts set to reproduce its category proportions and the other items at their current values; the identification zeros of the last items are respected, and returned abilities and fit indices come from the final parameters.',
  ['inputs', 'configurations', 'histories'], 'every small dataset with missing cells, with and without look-up table or initial guess, every sequence of search results',
  'tests are statistical recovery with one or two seeds',
  [M + 'multidimensional_mml_methods.py', M + 'multidimensional_initial_guess.py'], [('multidimensional_grm_mml', M + 'multidimensional_mml_methods.py'), ('initial_guess_md', M + 'multidimensional_initial_guess.py')])

p('C26', 'The spline density is the cubic B-spline expansion it claims to be',
  'The latent density spline evaluates, at any location, the sum of its coefficients times unit cubic B-splines centred on its equally spaced knots (padded ends zero), the continuous evaluation agrees with it, the B-splines add to one inside the support, updating coefficients of the wrong length is refused, and resampling chooses the coefficients with the least squared difference to the given density at the new knots.',
  ['inputs', 'configurations'], 'every coefficient vector, location, number of samples and symmetric bound',
  'tests check a few sums and one resample; per-location weights for all coefficients are not',
  [U + 'latent_ability_distribution.py'], [('CubicSplinePDF', U + 'latent_ability_distribution.py'), ('resample', U + 'latent_ability_distribution.py')])

p('C27', 'Latent distribution estimation and AIC/BIC follow their definitions',
  'The first pass weights by the configured distribution; later passes, when requested, use the spline whose coefficients maximise the marginal likelihood subject to unit mass, zero mean and unit variance. AIC is 2k - 2LL and BIC is k ln(n) - 2LL of the marginal likelihood of the given weights.',
  ['inputs', 'configurations', 'histories'], 'every likelihood table, coefficient vector, distribution and number of free parameters',
  'tests look at one fitted example; the objective, constraints and criteria need identities for all values',
  [U + 'latent_ability_distribution.py'], [('LatentPDF', U + 'latent_ability_distribution.py'), ('_parameter_constraints', U + 'latent_ability_distribution.py')])

p('C28', 'Bootstrap errors are the statistics of independent resampled fits',
  'Bootstrapping fits the model exactly the requested number of times to person-resamples (with replacement, same size, from that dataset), for any number of processes, with distinct random streams determined by the seed; the reported intervals, standard errors and biases are the 2.5/97.5 percentiles, sample standard deviations and mean-minus-estimate over those fits in the estimate\'s shape.',
  ['inputs', 'configurations', 'schedules'], 'every split of iterations over processes, every resample and every per-fit result',
  'tests run one seed with small iteration counts; chunking, streams and statistic shapes are not settled',
  [U + 'bootstrap_errors.py'], [('standard_errors_bootstrap', U + 'bootstrap_errors.py')])

p('C29', 'Classical test statistics match their definitions with missing data excluded',
  'Item counts, means, standard deviations, item-rest correlations, polyserial correlations and alpha-if-deleted are computed from observed responses only, each for its own item against the remaining items; Cronbach\'s alpha is k/(k-1)(1 - sum of item variances / variance of person totals).',
  ['inputs'], 'every dataset with missing cells',
  'tests use complete random data or one missing pattern',
  [U + 'ctt_statistics.py', 'common/cronbach_alpha.py'], [('classical_test_statistics', U + 'ctt_statistics.py'), ('cronbach_alpha', 'common/cronbach_alpha.py')])

p('C30', 'Polychoric correlation maximises the bivariate normal likelihood of the table',
  'The contingency table counts every pair of observed categories exactly once (others ignored) for any category range, empty rows/columns are dropped, each pair\'s correlation maximises the multinomial likelihood of its table under a bivariate normal with thresholds from the margins, and the correlation matrix is symmetric with unit diagonal and the same whatever the number of processes.',
  ['inputs', 'configurations', 'schedules'], 'every pair of ordinal vectors with missing or negative codes, every category range and every number of processes',
  'tests compare a few seeded matrices',
  ['common/polychoric.py'], [('contingency_table', 'common/polychoric.py'), ('polychoric_correlation', 'common/polychoric.py'), ('validate_contingency_table', 'common/polychoric.py')])

p('C31', 'Polyserial correlation maximises the conditional normal likelihood',
  'The polyserial correlation maximises the likelihood of the ordinal responses given the standardised continuous variable, with thresholds at the normal quantiles of the cumulative category proportions, for any ordinal coding and invariant to shifting or positively scaling the continuous variable.',
  ['inputs'], 'every continuous vector, ordinal vector with at least two categories and candidate correlation',
  'tests compare seeded examples with loose tolerance',
  ['common/polyserial.py'], [('polyserial_correlation', 'common/polyserial.py')])

p('C32', 'Reverse scoring mirrors exactly the selected items and keeps missing data',
  'Reverse scoring returns max+1-x for every observed cell of the selected items and the original value everywhere else, missing cells stay missing, applying it twice restores the data, mismatched mask lengths are refused, and the input is left as it was.',
  ['inputs', 'configurations'], 'every dataset, item mask and maximum category',
  'tests use one complete dataset',
  ['common/reverse.py'], [('reverse_score', 'common/reverse.py')])

p('C33', 'Angle/vector conversion, entropy and Procrustes rotation are exact',
  'Hyperspherical coordinates map any angles to a unit vector, and converting a vector to angles and back preserves its direction for every sign pattern and zero component; entropy is the row- (or column-) normalised squared-loading entropy and does not depend on a row\'s scale; the Procrustes rotation is the orthogonal polar factor of collected-transpose times target.',
  ['inputs'], 'every angle vector, vector (including zero and negative trailing components) and matrix',
  'tests sample random vectors; zero components and sign patterns are rare',
  ['common/hypersphere.py', 'common/entropy.py', 'common/procrustes.py'], [('hyperspherical_vector', 'common/hypersphere.py'), ('hyperspherical_angles', 'common/hypersphere.py'), ('entropy', 'common/entropy.py'), ('procrustes_rotation', 'common/procrustes.py')])

p('C34', 'Component and principal-axis loadings reproduce the leading eigenstructure',
  'Principal component loadings are the leading eigenvectors in decreasing eigenvalue order scaled by the root eigenvalue, so that their outer product is the best rank-k part of the input; principal axis factoring extracts the same from the input minus the unique variances, which are a fixed point of communality updating.',
  ['inputs', 'configurations'], 'every symmetric matrix, number of factors and starting unique variances',
  'tests use a few random correlation matrices',
  ['factoranalysis/pca.py', 'factoranalysis/paf.py'], [('principal_components_analysis', 'factoranalysis/pca.py'), ('principal_axis_factor', 'factoranalysis/paf.py')])

p('C35', 'Factor extraction and sparsifying rotation preserve the factor model',
  'Maximum-likelihood extraction applies the documented unique-variance update and returns loadings with their column sums of squares; minimum-rank extraction minimises the documented ratio with a gradient that matches it and returns components of the input minus unique variances; sparsifying returns loadings whose product with the returned unit-length bases is the original loading matrix.',
  ['inputs', 'configurations'], 'every correlation matrix, number of factors, starting values, loading matrix and search result',
  'tests use a few random matrices and compare with reference software to a few digits',
  ['factoranalysis/maximum_likelihood.py', 'factoranalysis/minimum_rank.py', 'factoranalysis/rotation.py'], [('maximum_likelihood_factor_analysis', 'factoranalysis/maximum_likelihood.py'), ('minimum_rank_factor_analysis', 'factoranalysis/minimum_rank.py'), ('sparsify_loadings', 'factoranalysis/rotation.py')])

p('C36', 'Estimation never modifies the caller\'s data, parameters or options',
  'No estimator, ability, statistics, correlation, factor or simulation function changes the arrays, option dictionaries or starting values passed to it, and repeating a call with the same inputs gives the same result.',
  ['inputs', 'configurations', 'histories'], 'every public entry point, small dataset, parameter array and option set, called twice',
  'tests use fresh inputs once; in-place updates surface only when the caller reuses data',
  [U + 'utils.py', D + 'ability_estimation.py', P + 'grm_mml.py', 'common/reverse.py', 'factoranalysis/pca.py'], [('dataset copies', U + 'polytomous_utils.py'), ('unique_sets copies', D + 'rasch_mml.py')])

p('C37', 'Missing cells never influence an estimate',
  'For every estimator that accepts missing data, the search objectives, margins and abilities computed for a dataset with missing cells depend only on the observed cells: with the latent distribution given, a person without any observed response leaves every item search unchanged, and permuting persons permutes abilities and leaves item results unchanged.',
  ['inputs', 'configurations'], 'every small dataset, missing pattern and permutation of persons or duplication of patterns',
  'tests compare complete with partly missing data statistically',
  [D + 'rasch_mml.py', P + 'grm_mml.py', P + 'pcm_mml.py', P + 'gum_mml.py', D + 'threepl_mml.py', M + 'multidimensional_mml_methods.py'],
  [('invalid_response_mask', P + 'partial_integrals_poly.py'), ('trim_ends', U + 'polytomous_utils.py')])

p('C38', 'Results depend on the values passed, not on how they are stored',
  'Every public function gives the same result, over the same search objectives, for the same numbers however the arrays holding them are stored: integer responses in any signed width that can hold them (right/wrong responses also as booleans, without missing cells), whole-number parameters as integers or floats, rows or columns contiguous, strided or reversed views, read-only arrays. (entropy may refuse integers.)',
  ['inputs', 'configurations'], 'every public entry point with every small dataset and parameter array, in every storage',
  'tests use one storage per function: 64 bit integers, contiguous rows',
  [U + 'utils.py', U + 'polytomous_utils.py', D + 'partial_integrals.py', P + 'partial_integrals_poly.py', 'common/polychoric.py', 'synthetic/dichotomous.py', 'synthetic/polytomous.py'],
  [('condition_polytomous_response', U + 'polytomous_utils.py'), ('polychoric_correlation', 'common/polychoric.py')])

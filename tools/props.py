P = []
NA = []


def add(id, title, statement, over, text, why, files, mech, at, tech, note=''):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, at=at, tech=tech, note=note))


TM = 'test_models.py'
add('M01', 'Likelihoods are probability tensors over outcomes, models, experiments',
    'For every built-in or derived model, likelihood(outcomes, models, experiments) has shape (outcomes, models, experiments) and its entry [i, j, k] is the probability of outcome i under model j and experiment k alone, whatever else is in the batch and however the arrays are laid out in memory. '
    'For discrete-outcome models the entries over an experiment\'s whole domain lie in [0, 1] and sum to one, and the domain an experiment reports holds exactly the number of outcomes it reports.',
    ['inputs', 'configurations'],
    'every model family and decorator stack; all batches of outcomes, valid parameters and experiments (one or many of each)',
    'Tests evaluate single hand-picked triples or only shapes; batching, broadcasting and normalisation quantify over all batches.',
    ['abstract_model.py', TM, 'derived_models.py', 'rb.py', 'domains.py'],
    [('likelihood of each model', TM), ('decorators', 'derived_models.py'), ('pr0_to_likelihood_array', 'abstract_model.py')],
    ['likelihood()', 'domain()', 'n_outcomes()'],
    'metamorphic batch/permutation relations and normalisation over generated models')
add('M02', 'Models compute the documented outcome probabilities',
    'Each built-in model\'s likelihood is its documented formula (precession, coins, noisy coins, randomized benchmarking, T2 decay, dice, and the binomial, multinomial, poisoned, random-walk and Gaussian-hyperparameter decorators). '
    'The set of parameter vectors reported valid is the documented region, judged row by row.',
    ['inputs', 'configurations'],
    'every model family with its options; all valid parameters, outcomes and experiments, boundaries included',
    'Tests compare a few points; wrong terms for one outcome, option, field or boundary stay unseen.',
    [TM, 'derived_models.py', 'rb.py', 'utils.py'],
    [('likelihood formulas', TM), ('binomial/multinomial pdf', 'utils.py'), ('are_models_valid', TM)],
    ['likelihood()', 'are_models_valid()'],
    'differential testing against independent reference likelihoods')
add('M03', 'Simulated data follow the likelihood',
    'simulate_experiment returns data indexed (repetition, model, experiment) - a scalar for a single datum - each possible in its experiment, with the probabilities that the likelihood assigns to it. '
    'Data are independent across repetitions, models and experiments and are determined by NumPy\'s global random state.',
    ['inputs', 'configurations'],
    'all finite-outcome and continuous models and decorators, repetition counts, numbers of models and experiments',
    'Tests look at shapes for one or two sizes; distributional and indexing mistakes are invisible to them.',
    ['abstract_model.py', TM, 'derived_models.py', 'domains.py'],
    [('simulate_experiment', 'abstract_model.py'), ('overrides', 'derived_models.py')],
    ['simulate_experiment()'],
    'shape/membership oracles and chi-square/KS comparison of generated simulations with the likelihood',
    'Statistical sub-checks reject at per-case probability below 1e-9.')
add('M04', 'Call counters, decorator chains and settings tell the truth',
    'The likelihood counter grows by outcomes x models x experiments per likelihood call and the simulation counter by repetitions x models x experiments per simulation, and nothing else moves them. '
    'A decorated model reports its chain and base and answers for parameter names, validity, outcomes and canonical form as its base does unless documented otherwise; settable options read back what was written.',
    ['inputs', 'configurations', 'histories'],
    'all model families and decorator stacks; all sizes of calls',
    'Tests check a counter once for one model; decorators forward dozens of members, each of which can go astray.',
    ['abstract_model.py', 'derived_models.py', TM],
    [('call_count/sim_count', 'abstract_model.py'), ('DerivedModel delegation', 'derived_models.py')],
    ['call_count', 'sim_count', 'model_chain', 'canonicalize()', 'distance()', 'experiment_cost()'],
    'reference counters and differential testing of decorated against bare models')
add('M06', 'Particles move by the stated dynamics',
    'Between data each model moves its particles by the stated process, per model and per experiment: static models not at all, random walks by one freshly drawn step each, Gaussian walks by noise of the stated (fixed or learned, diagonal or dense, scaled) covariance on the chosen parameters only, and diffusing states by stated-rate noise that leaves them states. '
    'Decorators that do not change the dynamics move particles exactly as the model they decorate.',
    ['inputs', 'configurations'],
    'all walk configurations (subset of parameters, fixed/learned, diagonal/dense, scaling, transformations), particles, batches of experiments',
    'Tests run updates and check shapes; covariance structure and which parameters move are never measured.',
    ['abstract_model.py', 'derived_models.py', 'tomography/models.py'],
    [('update_timestep', 'derived_models.py')], ['update_timestep()', 'are_models_valid()'],
    'reference moments of generated walks; exact bookkeeping of recorded steps')
add('M07', 'Scores and Fisher information are derivatives of the likelihood',
    'The score of a differentiable model, analytic or numerical, is the gradient of the log-likelihood, indexed (parameter, outcome, model, experiment). '
    'Fisher information is the expected outer product of the score over outcomes for each model and experiment, including experiments with different numbers of outcomes and repeated (binomial) experiments.',
    ['inputs', 'configurations'],
    'all differentiable models and decorators, parameters inside the valid region, batches of experiments',
    'Tests compare the score of one model at few points and only shapes of Fisher information.',
    ['abstract_model.py', 'score.py', 'derived_models.py', 'finite_difference.py', TM],
    [('score', TM), ('fisher_information', 'abstract_model.py'), ('ScoreMixin', 'score.py')],
    ['score()', 'fisher_information()', 'FiniteDifference'],
    'differential testing against numerical derivatives of the likelihood')
SMC = 'smc.py'
add('B01', 'Sequential updates implement Bayes\' rule',
    'Updating on a datum multiplies every particle\'s weight by its likelihood and renormalises, and records the evidence, so that a batch of data gives the same posterior and total evidence as the same data one at a time, in any chunking or order (for static models and without resampling). '
    'A hypothetical update gives for each outcome and experiment the weights that datum would produce and changes nothing; for moving models the datum is scored before the particles move.',
    ['inputs', 'histories'],
    'all models, priors, particle numbers and data sequences, with and without impossible outcomes',
    'Tests update one model on one experiment and look at loose estimates; exact weights over arbitrary histories are never compared.',
    [SMC, 'abstract_model.py'],
    [('update', SMC), ('batch_update', SMC), ('hypothetical_update', SMC)],
    ['update()', 'batch_update()', 'hypothetical_update()', 'particle_weights', 'normalization_record', 'log_total_likelihood'],
    'reference Bayes model over generated data histories')
add('B02', 'Weights stay a probability distribution, impossible data follow the policy',
    'Through any history of possible and impossible data, resampling and resets, weights remain finite, non-negative and normalised, one per particle. '
    'When a datum is impossible for all particles the chosen policy (error, skip, warn, ignore, reset) does what it says, and negative approximate likelihoods are clipped with a warning. '
    'Resetting draws fresh prior values for all or only the chosen parameters.',
    ['histories', 'inputs', 'configurations'],
    'all policies and thresholds, all data histories including impossible data',
    'Tests sample two policies on one datum.',
    [SMC, '_exceptions.py'],
    [('zero_weight_policy', SMC), ('reset', SMC), ('clipping', SMC)],
    ['update()', 'reset()', 'particle_weights', 'warnings and errors'],
    'stateful generated histories against an invariant and a policy model')
add('B03', 'Resampling happens exactly when due and keeps the books',
    'The updater resamples exactly when its effective sample size, one over the sum of squared weights, falls below the threshold share of particles at a check (every update, or each interval of a batch), or when asked, and then has the resampler\'s new particles with its weights. '
    'Counters, data records, effective-sample-size records and resampling statistics agree with the history.',
    ['histories', 'configurations'],
    'all sequences of updates, batches with intervals, explicit resamplings and disabled checks; all thresholds',
    'Tests only check that learning works for one threshold.',
    [SMC], [('_maybe_resample/resample', SMC), ('n_ess', 'distributions.py')],
    ['resample_count', 'just_resampled', 'data_record', 'min_n_ess', 'n_ess', 'resampling_divergences'],
    'model-based testing of histories with an instrumented resampler')
add('B04', 'Mixed-approximation updates score the right particles with the right model',
    'The mixture updater scores the heaviest particles, holding at least the requested share of the weight, with the complete model and all others with the approximate one, so that it is the ordinary Bayes update when both models agree.',
    ['inputs', 'configurations'], 'all weights, shares and thresholds, batches of outcomes and experiments',
    'Tests only run it.', [SMC],
    [('MixedApproximateSMCUpdater.update', SMC)], ['update()', 'particle_weights'],
    'reference partition of particles with call-recording models')
add('B05', 'Bayes risk and information gain are posterior averages',
    'The Bayes risk of an experiment is the expected scale-weighted posterior variance over its outcomes, and the expected information gain is the expected divergence of the posterior from the current distribution over its outcomes; each is finite, judged per experiment, and unaffected by the other experiments asked about.',
    ['inputs'], 'all particle clouds (with zero weights), finite-outcome models with constant or varying outcome numbers, scale matrices, batches of experiments',
    'Tests check one analytic case in a loose tolerance.', [SMC],
    [('bayes_risk', SMC), ('expected_information_gain', SMC)], ['bayes_risk()', 'expected_information_gain()'],
    'differential testing against direct enumeration of outcomes')
DI = 'distributions.py'
add('B06', 'Estimates are weighted statistics of the particle cloud',
    'Posterior mean, covariance, correlation and expectations of functions are the weighted sums over particles, those of very small weight included; they follow affine maps of the parameters and do not depend on the order, splitting or zero-weight padding of particles. '
    'Samples are particles drawn independently with probability equal to their weight, given weights are normalised on construction, and the divergence estimate between clouds does not depend on how particles are listed.',
    ['inputs'], 'all clouds, weights (with zeros and peaks), functions, affine maps and permutations',
    'Tests use one random cloud and check shapes or one moment.', [DI, 'utils.py', SMC],
    [('ParticleDistribution', DI), ('particle_meanfn/particle_covariance_mtx', 'utils.py')],
    ['est_mean()', 'est_covariance_mtx()', 'est_meanfn()', 'est_entropy()', 'est_kl_divergence()', 'sample()'],
    'reference sums and metamorphic relations on generated clouds')
add('B07', 'Credible regions hold the mass they claim',
    'The credible set of a level is the smallest set of heaviest particles whose weight reaches it, and the convex-hull and ellipsoid regions contain every particle of that set, with membership tests that agree with them. '
    'The covariance ellipsoid is the Gaussian one of that level, and the minimum-volume ellipsoid is the smallest one around its points.',
    ['inputs'], 'all clouds of 1 to 4 parameters, weights, levels, and tested points',
    'Tests use fixed clouds and look only at sizes.', [DI, 'utils.py'],
    [('est_credible_region', DI), ('region_est_hull/ellipsoid', DI), ('mvee', 'utils.py')],
    ['est_credible_region()', 'region_est_hull()', 'region_est_ellipsoid()', 'in_credible_region()', 'mvee()', 'in_ellipsoid()'],
    'validity predicates and closed-form extremal ellipsoids on generated clouds')
add('B08', 'Posterior marginals, meshes and smoothing represent the particle density',
    'The marginal of a parameter is the density of its weighted particle distribution, of total mass one and mean equal to the estimate, and smoothing adds only the stated variance. '
    'A density mesh gives, at each of its points, the kernel density estimate at that point.',
    ['inputs'], 'all clouds, weights, resolutions, smoothing widths, ranges and pairs of parameters',
    'Tests only check that plotting helpers run.', [SMC], [('posterior_marginal', SMC), ('posterior_mesh', SMC)],
    ['posterior_marginal()', 'posterior_mesh()'],
    'differential testing against direct formulas')
add('B09', 'Bayesian Cramer-Rao tracking sums Fisher information',
    'Bound tracking adds for each performed experiment the mean Fisher information under the prior, and in the adaptive matrix that under the current posterior, both starting from the initial information and never changing the caller\'s arrays. '
    'Apart from that the updater behaves, with all its options, as the ordinary one.',
    ['histories', 'configurations'], 'all differentiable models, priors, updater options and data histories',
    'Tests check one history of one model.', [SMC, 'abstract_model.py'],
    [('SMCUpdaterBCRB', SMC)], ['current_bim', 'adaptive_bim', 'update()'],
    'reference accumulation over generated histories')
add('R01', 'Liu-West resampling keeps mean, covariance and validity',
    'Each new particle is a copy of an old one, drawn with probability equal to its weight, contracted towards the mean and blurred by scaled kernel noise, so that mean and covariance are preserved in expectation and all weights are equal. '
    'Proposals that are invalid are redrawn around the same particle until valid, at most the allowed number of rounds, and remaining invalid ones are warned about. '
    'Resampling commutes with a change of the parameters\' units.',
    ['inputs', 'configurations'], 'all clouds and weights, contraction and width parameters, kernels, requested particle numbers, validity regions',
    'Tests check the rough mean of one cloud.', ['resamplers.py'], [('LiuWestResampler.__call__', 'resamplers.py')],
    ['LiuWestResampler()(...)'],
    'exact reconstruction with recorded kernels, and statistical comparison of moments and frequencies',
    'Statistical sub-checks reject at per-case probability below 1e-9.')
add('M05', 'Poisoned and sampled likelihoods deviate as promised',
    'A poisoned model returns the true likelihood plus independent normal noise of the stated width (the tolerance, or the standard error of the stated number of samples), cut to [0, 1]. '
    'Adaptive likelihood estimation draws the minimum number of samples first and further steps until every estimate is as accurate as asked, and reports the hedged estimate from all of its samples.',
    ['inputs', 'configurations'],
    'all two-outcome models, tolerances, sample numbers, hedging and step settings, batches of outcomes, models and experiments',
    'Tests check shapes only; noise widths, independence and stopping are statistical statements.',
    ['derived_models.py', 'ale.py', 'utils.py'],
    [('PoisonedModel.likelihood', 'derived_models.py'), ('ALEApproximateModel.likelihood', 'ale.py'), ('binom_est_p', 'utils.py')],
    ['likelihood()'],
    'recorded simulators against a reference stopping rule; statistical comparison of the noise',
    'Statistical sub-checks reject at per-case probability below 1e-9.')
add('D01', 'Elementary priors sample the law they name',
    'n samples of a distribution are an array with n rows and one column per random variable; they are independent, follow the named law with the stated parameters (uniform, slanted, constant, normal, multivariate normal, log-normal, beta, gamma, beta-binomial, Dirichlet, discrete uniform, Haar, Ginibre and Hilbert-Schmidt states) and lie in its support. '
    'Alternative parametrisations of a law agree, and the score of a normal law is the gradient of its log-density.',
    ['inputs', 'configurations'],
    'all parameters of every elementary distribution, sample numbers from one on',
    'Tests compare two moments for one choice of parameters, or only shapes.', [DI],
    [('sample() of each distribution', DI), ('grad_log_pdf', DI)], ['sample()', 'n_rvs', 'grad_log_pdf()'],
    'goodness of fit of generated samples against independent densities',
    'Statistical sub-checks reject at per-case probability below 1e-9.')
add('D02', 'Composed priors sample the composition of their parts',
    'A mixture draws each sample from one component, with multinomial component counts in the given proportions; a product concatenates independent factors in order; a postselected prior is the underlying law conditional on validity, failing loudly when it cannot reach it; a constrained sum rescales every sample to the given total; an interpolated prior follows the given density. '
    'Compositions nest, keeping shapes and supports.',
    ['inputs', 'configurations'],
    'all compositions of priors, weights, class arguments, validity regions, rounds and densities',
    'Tests draw from one composition and compare a mean.', [DI],
    [('MixtureDistribution', DI), ('ProductDistribution', DI), ('PostselectedDistribution', DI),
     ('ConstrainedSumDistribution', DI), ('InterpolatedUnivariateDistribution', DI)], ['sample()', 'n_rvs'],
    'recording components, metamorphic relations and goodness of fit',
    'Statistical sub-checks reject at per-case probability below 1e-9.')
add('U01', 'Domains and structured arrays describe their values exactly',
    'A domain\'s listed values are distinct members, as many as it reports; it accepts exactly its members; its example point is one; conversion to and from regular arrays and its stated types and boundaries agree with that, for real, integer, multinomial and product domains. '
    'Joining and separating structured arrays are inverse, field by field, losing no row or field; no answer depends on how arrays are laid out in memory.',
    ['inputs'],
    'all domains with finite or infinite bounds, sizes, nested products, member and non-member points, structured arrays of several fields',
    'Tests enumerate a few small domains.', ['domains.py', 'utils.py'],
    [('Domain classes', 'domains.py'), ('join_struct_arrays/separate_struct_array', 'utils.py')],
    ['values', 'n_members', 'in_domain()', 'example_point', 'to_regular_array()', 'from_regular_array()'],
    'enumeration oracle and round trips over generated domains')
add('U02', 'Numeric helpers compute their documented functions',
    'Simplex coordinates are invertible, multinomial and binomial densities are the exact ones (zero probabilities included), multinomial sampling draws each distribution independently in the stated shape, matrix square roots square back, ellipsoid volumes and membership agree, weighted distances follow their formula, significant-figure assertions accept exactly agreeing numbers, and randomized-benchmarking fidelities and depolarising parameters are inverse.',
    ['inputs'],
    'all dimensions, batches, zero and tiny probabilities, degenerate matrices',
    'Tests evaluate single points; edge probabilities and batched shapes are missed.', ['utils.py', 'metrics.py', 'rb.py'],
    [('numeric helpers', 'utils.py'), ('weighted_pairwise_distances', 'metrics.py'), ('fidelities', 'rb.py')],
    ['to_simplex()', 'from_simplex()', 'multinomial_pdf()', 'binomial_pdf()', 'sample_multinomial()', 'sqrtm_psd()', 'assert_sigfigs_equal()'],
    'round trips and differential testing against exact formulas')
add('F01', 'Displayed numbers are the numbers',
    'Formatted values with uncertainties, exact values, durations and the HTML table of an updater denote the formatted quantity: read back, they equal the value and its uncertainty up to the last displayed digit, and an uncertainty that is not zero is not displayed as zero.',
    ['inputs'],
    'all magnitudes, signs, exponents, zero and infinite uncertainties, durations from fractions of a second to days',
    'Tests compare a handful of strings.', ['utils.py', SMC],
    [('format_uncertainty/pretty_time', 'utils.py'), ('_repr_html_', SMC)], ['format_uncertainty()', 'pretty_time()', '_repr_html_()'],
    'read-back round trip of generated numbers',
    'A displayed number may deviate by half a unit of its last digit.')
add('P01', 'Performance tests record what happened',
    'A performance-test record holds, for each experiment of each trial, the experiment, the simulated outcome, the true parameters when measured, the estimate and scaled quadratic loss after the update, the resample count and elapsed time; many trials equal as many single ones on any engine. '
    'Failing trials propagate or are masked as asked, and timers, progress bars and error policies end with their blocks however these end.',
    ['histories', 'configurations'],
    'models (static, moving, mismatched dimensions), heuristics, priors, particle numbers, failing trials, engines',
    'Tests run one configuration and check shapes.', ['perf_testing.py', 'utils.py'],
    [('perf_test', 'perf_testing.py'), ('perf_test_multiple', 'perf_testing.py'), ('timing/numpy_err_policy', 'perf_testing.py')],
    ['perf_test()', 'perf_test_multiple()', 'timing()', 'numpy_err_policy()'],
    'recording models and heuristics compared with the reported histories')
add('S01', 'One-call estimation solves the inference problem of its data',
    'simple_est_prec and simple_est_rb return, within Monte Carlo error, the posterior mean and covariance of the stated model under the stated prior (frequency range, T2, plain or interleaved benchmarking), for data given as an array, record, text or file; all forms of the same data agree.',
    ['inputs', 'configurations'],
    'all forms of data (arrays, column lists, records, CSV text and files), numbers of rows from one on, ranges, shot counts',
    'Tests run one data set per form in loose tolerances.', ['simple_est.py'],
    [('simple_est_prec', 'simple_est.py'), ('simple_est_rb', 'simple_est.py'), ('load_data_or_txt', 'simple_est.py')],
    ['simple_est_prec()', 'simple_est_rb()'],
    'differential testing against grid or importance-sampling posteriors; agreement of input forms',
    'Estimates are compared within eight Monte Carlo standard errors.')
add('H01', 'Heuristics and the designer propose the experiments they describe',
    'The exponentially sparse heuristic proposes time A b^k after k experiments, including any whose data were impossible; the particle-guess heuristic inverts at one of two distinct particles, drawn by weight, for the inverse of their distance, giving up after the allowed number of coinciding pairs; an ensemble asks one member by its probability. '
    'The designer varies only the named field, is never worse than the guess in Bayes risk combined with cost as asked, keeps the best of the stored guesses of the current experiment, and changes neither guesses nor the updater.',
    ['inputs', 'histories', 'configurations'],
    'all updater histories, particle clouds and weights, field options, algorithms, guesses given as arrays or functions, cost combinations, sequences of designs',
    'Tests only call the heuristics once and check shapes.', ['expdesign.py', 'abstract_model.py'],
    [('ExpSparseHeuristic', 'expdesign.py'), ('PGH', 'expdesign.py'), ('EnsembleHeuristic', 'expdesign.py'),
     ('ExperimentDesigner.design_expparams_field', 'expdesign.py')],
    ['ExpSparseHeuristic()', 'PGH()', 'EnsembleHeuristic()', 'design_expparams_field()', 'new_exp()', 'distance()'],
    'reference formulas, scripted samples and model-based histories of designs against an enumerated objective',
    'Statistical sub-checks reject at per-case probability below 1e-9.')
add('X01', 'A model distributed over engines gives what the serial model gives',
    'For every view, number of engines and batch, the likelihood of DirectViewParallelizedModel equals the serial model\'s, is spread over engines exactly when there are more models than the serial threshold, and is counted once. '
    'Simulated data are indexed by repetition, model and experiment as in the serial model. An updater of the distributed model follows the serial updater. A pickled model loses only its view; clearing the cache clears the serial model\'s and the view\'s results.',
    ['inputs', 'schedules', 'configurations'],
    'numbers of engines (also more than models or experiments), thresholds, batches, repetitions, model families, histories of updates, pickling before or after work',
    'Tests need a running cluster and are skipped; the split and join quantify over all batch sizes.', ['parallel.py'],
    [('DirectViewParallelizedModel.likelihood', 'parallel.py'), ('DirectViewParallelizedModel.simulate_experiment', 'parallel.py')],
    ['likelihood()', 'simulate_experiment()', 'clear_cache()', 'pickle'],
    'differential testing of the distributed against the serial model, over emulated engines which receive pickled arguments',
    'Engines are emulated in-process (ipyparallel is not installed).')
add('C01', 'Clusters of particles and their moments describe the cloud',
    'particle_clusters reports the density-connected clusters of a cloud and its noise, each once, as disjoint index sets covering all particles, weighted if asked. '
    'Clusters come with their weight, their own mean and covariance (equal to moments of the particles in them with renormalised weights); within- and between-cluster covariances add up to the covariance of the clustered cloud, and the clustering metric is the share explained between clusters.',
    ['inputs', 'configurations'],
    'all clouds and weights, one to several parameters, numbers of clusters, noise, clustering radii and counts, weighted or not',
    'No test clusters particles.', ['distributions.py', 'clustering.py'],
    [('particle_clusters', 'clustering.py'), ('ParticleDistribution cluster moments', 'distributions.py')],
    ['particle_clusters()', 'est_cluster_moments()', 'est_cluster_covs()', 'est_cluster_metric()'],
    'reference density clustering and moments over generated clouds',
    'Trusts scikit-learn only where its definition is re-derived by the reference.')
add('T01', 'Tomographic bases, states and canonical forms are exact',
    'Every basis (Pauli, Gell-Mann, tensor product, custom) is an orthonormal set of Hermitian matrices, the first proportional to the identity, the others traceless, with the stated dimensions and labels; operators and parameter vectors convert into each other exactly, one or many at a time. '
    'Canonical forms of tomography models set negative eigenvalues to zero, keep eigenvectors and the diffusion rate, restore unit trace (unless subnormalised states are allowed) and leave states unchanged, row by row; particles are states after resampling.',
    ['inputs', 'configurations'],
    'dimensions two to eight, products, custom bases; all Hermitian operators of positive trace, degenerate spectra included',
    'Tests check qubit bases only and no canonical form.', ['tomography/bases.py', 'tomography/models.py'],
    [('TomographyBasis', 'tomography/bases.py'), ('TomographyModel.canonicalize', 'tomography/models.py')],
    ['pauli_basis()', 'gell_mann_basis()', 'tensor_product_basis()', 'state_to_modelparams()', 'modelparams_to_state()', 'canonicalize()'],
    'algebraic invariants, round trips and reference spectral truncation over generated bases and operators')
add('T02', 'Priors over states and channels have the stated support and moments',
    'Ginibre samples are (real, if asked) states of the stated rank with maximally mixed mean and the ensemble\'s purity; BCSZ samples are Choi states of the stated rank, trace preserving if asked; GADFLI priors have the requested mean and lie between the fiducial samples and their extreme point; tensor products give product states of independent samples of the factors in order. '
    'Samples are parameter vectors in the basis of the prior; bad ranks and bad means are refused.',
    ['inputs', 'configurations'],
    'bases, dimensions, ranks, requested means, factors, sample sizes',
    'Tests check shapes of qubit samples.', ['tomography/distributions.py'],
    [('GinibreDistribution', 'tomography/distributions.py'), ('BCSZChoiDistribution', 'tomography/distributions.py'),
     ('GADFLIDistribution', 'tomography/distributions.py'), ('TensorProductDistribution', 'tomography/distributions.py')],
    ['sample()', '_sample_dm()'],
    'support invariants and moment tests over generated priors',
    'Statistical sub-checks reject at per-case probability below 1e-9.')
add('T03', 'Tomography heuristics choose the measurements they describe',
    'In any basis and under any decorator, RandomPauliHeuristic measures (1 + P)/2 for a uniformly random non-identity Pauli operator P (and refuses dimensions that are not powers of two); RandomStabilizerStateHeuristic measures rank-one projectors onto eigenvectors of uniformly random Heisenberg-Weyl operators; ProductHeuristic combines a preparation of unit trace and a measurement such that the likelihood on the Choi state of a channel is Tr(M channel(rho^T)). '
    'BestOfKMetaheuristic draws exactly k designs and takes one of largest variance under the current posterior. Other fields are set as asked.',
    ['inputs', 'configurations'],
    'bases, dimensions, decorated, static and diffusive models, posteriors, numbers k, other fields',
    'No test calls these heuristics.', ['tomography/expdesign.py'],
    [('RandomPauliHeuristic', 'tomography/expdesign.py'), ('RandomStabilizerStateHeuristic', 'tomography/expdesign.py'),
     ('ProductHeuristic', 'tomography/expdesign.py'), ('BestOfKMetaheuristic', 'tomography/expdesign.py')],
    ['RandomPauliHeuristic()', 'RandomStabilizerStateHeuristic()', 'ProductHeuristic()', 'BestOfKMetaheuristic()'],
    'enumeration of the documented measurements, Choi-state reference and recorded draws over generated setups',
    'Statistical sub-checks reject at per-case probability below 1e-9.')
add('A01', 'Calls leave their arguments, the posterior and the prior unchanged',
    'Questions to models, updaters, distributions and domains (likelihoods, moments, regions, risk, samples, fields, plots\' data) change neither the arrays, lists and dictionaries that they are given, nor the particles, weights and records of an updater, and answer the same when repeated. '
    'Updates, resamplings, resets, simple estimation, performance tests and designers write into no data, experiments, particle clouds, guesses or options they are given, and constructors leave their arguments as given. '
    'Results of different calls share no memory with each other or the object asked, such that writing into a sample or estimate changes no later answer.',
    ['inputs', 'histories', 'configurations'],
    'every model family and decorator, prior family, resampler, heuristic and helper; all arguments, orders of questions, histories of updates',
    'Aliasing only shows when an argument is used again after the call, or results of two calls are kept; tests use each value once.',
    ['smc.py', 'distributions.py', 'abstract_model.py', 'derived_models.py', 'resamplers.py', 'utils.py', 'domains.py', 'simple_est.py', 'perf_testing.py', 'expdesign.py'],
    [('SMCUpdater', 'smc.py'), ('ParticleDistribution and priors', 'distributions.py'), ('model decorators', 'derived_models.py'), ('LiuWestResampler', 'resamplers.py'), ('utilities', 'utils.py')],
    ['likelihood()', 'update()', 'resample()', 'sample()', 'est_*()', 'hypothetical_update()', 'domain.values', 'simple_est_*()', 'perf_test()'],
    'snapshots of arguments and state before and after generated calls, repeated and interleaved questions, scribbling over results')
add('A02', 'Every random result is determined by NumPy\'s global random state',
    'Simulated data, samples of priors, resampling, moving particles, noisy likelihoods, random heuristics, performance tests and simple estimation draw all their randomness from numpy.random\'s global generator, advance it, and never set it: '
    'setting the same seed before any history of calls on objects of the same state gives exactly the same results and leaves the same generator state; different seeds give different random results.',
    ['inputs', 'histories', 'configurations'],
    'every model family, prior family, resampler, heuristic; histories of data, resampling and resets; seeds',
    'Tests fix one seed, or none, and compare within tolerances; a private or re-seeded generator passes them.',
    ['smc.py', 'distributions.py', 'abstract_model.py', 'derived_models.py', 'resamplers.py', 'utils.py', 'perf_testing.py', 'tomography/distributions.py', 'tomography/expdesign.py'],
    [('simulate_experiment', 'abstract_model.py'), ('Distribution.sample', 'distributions.py'), ('LiuWestResampler.__call__', 'resamplers.py'), ('perf_test_multiple', 'perf_testing.py')],
    ['simulate_experiment()', 'sample()', 'resample()', 'update_timestep()', 'perf_test()', 'perf_test_multiple()', 'simple_est_*()'],
    'differential runs of generated histories under equal and different seeds, with the generator\'s final state compared',
    'Results are compared bit for bit within one process on one machine.')
add('V01', 'Plots draw the numbers that they name',
    'For every posterior and option, the curve of plot_posterior_marginal is the posterior marginal of the parameter named on its axis, with the true model marked at its value without changing the scale; plot_posterior_contour draws the contours of the posterior mesh; plot_covariance draws the covariance or correlation matrix of the chosen parameters under their names. '
    'plot_cov_ellipse draws the curve at the given number of standard deviations from the given centre. Plots of qubit priors and posteriors show samples, particles, means, true states and credible regions in Bloch coordinates of the chosen axes, and nothing that was not given.',
    ['inputs', 'configurations'],
    'posteriors, parameters, resolutions, ranges, slices, covariances, qubit bases and axes, optional arguments given or not',
    'No test looks at what is drawn.', ['smc.py', 'tomography/plotting_tools.py'],
    [('SMCUpdater.plot_posterior_marginal', 'smc.py'), ('SMCUpdater.plot_covariance', 'smc.py'), ('plot_cov_ellipse', 'tomography/plotting_tools.py'), ('plot_rebit_posterior', 'tomography/plotting_tools.py')],
    ['plot_posterior_marginal()', 'plot_posterior_contour()', 'plot_covariance()', 'plot_cov_ellipse()', 'plot_rebit_prior()', 'plot_rebit_posterior()'],
    'the artists of generated plots compared with the reference numbers and moments',
    'Matplotlib draws what its artists hold; Hinton diagrams (mpltools, which fails under the installed matplotlib) are replaced by a stand-in that records the matrix.')

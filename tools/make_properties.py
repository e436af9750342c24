"""Regenerates /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
P = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=list(observe), hook_needed=None)))


CORE, TM, OM, PA = ('bayesloop/core.py', 'bayesloop/transitionModels.py', 'bayesloop/observationModels.py',
                    'bayesloop/parser.py')

prop('C01', 'A fit is exact Bayesian inference on the parameter grid',
     'For every data series, parameter grid, prior and transition model that is a Markov chain on the grid (static, '
     'Gaussian random walk, change-point, independent observations, and serial or combined compositions of them), '
     'Study.fit reports exactly what summing over all parameter paths gives: the smoothing distribution of every '
     'time step (the filtering distribution with forwardOnly), the posterior mean values, the local evidence, and '
     'the log-evidence of the data. The log-evidence is the same for full, forwardOnly and evidenceOnly fits, and '
     'evidenceOnly stores no distributions. If no parameter path has positive probability, the log-evidence is minus '
     'infinity and no error is raised.',
     ['inputs', 'configurations'],
     'every sequence of observations over a finite alphabet (including missing and impossible observations), every '
     'grid shape, prior and transition model of the bound, and all three fit modes',
     'The tests compare a few posterior values of two data sets (110 and 5 points) with stored numbers at 1e-2 '
     'tolerance; they fix the grid, use hardly any non-static model in the smoothing pass and never check a normalised '
     'joint quantity.',
     [CORE, TM], [('forward pass, backward pass, evidence accumulation', CORE + ':Study.fit')],
     [('posteriorSequence', 'probability of each grid point per time step', CORE + ':Study'),
      ('logEvidence', 'log of the marginal likelihood', CORE + ':Study')],
     ['Study.fit', 'Study.posteriorSequence', 'Study.logEvidence', 'Study.getParameterMeanValues'])

prop('C02', 'Online analysis equals the forward-only batch analysis of the same data',
     'After every prefix of every data stream, an OnlineStudy with one transition model holds the same current '
     'parameter distribution, mean values and log-evidence as a forward-only fit of a Study to that prefix, for every '
     'observation and transition model, including time-dependent ones. With hyper-parameter values, its current '
     'parameter and hyper-parameter distributions equal those of a forward-only HyperStudy fit to that prefix. With '
     'storeHistory=True the stored entry of every past time step is the one that was current at that step, whatever '
     'queries were made in between.',
     ['histories', 'inputs', 'configurations'],
     'every stream over the data alphabet up to the depth bound, every transition model of the menu, with and without '
     'history, with and without interleaved queries',
     'test_onlinestudy.py steps through one stream of five values with one configuration and only looks at the end '
     'result; no test uses a time-dependent transition model online.',
     [CORE, TM], [('step', CORE + ':OnlineStudy.step')],
     [('parameterPosterior', 'per-hypothesis filtering distribution', CORE + ':OnlineStudy')],
     ['OnlineStudy.step', 'OnlineStudy.getCurrentParameterDistribution', 'OnlineStudy.getParameterDistributions'])

prop('C03', 'A HyperStudy is the exact average over all hyper-parameter combinations',
     'For every data series and every grid of hyper-parameter values with hyper-priors, the result of a HyperStudy is '
     'the average over one Study fit per combination of values, weighted with hyper-prior times evidence: the '
     'hyper-parameter distribution, the posterior sequence and mean values, and the log-evidence (the local evidence is '
     'averaged over the hyper-prior). Marginal and joint '
     'hyper-parameter distributions are the corresponding sums of probabilities, each combination is attributed to '
     'its own values, in any order of names, and all of them sum to one. Combinations with zero evidence get zero '
     'probability and do not contribute.',
     ['configurations', 'inputs'],
     'every combination of hyper-parameter grids (one to three axes, regular, irregular, single-valued), nesting of '
     'transition models, hyper-prior form and data series of the bound',
     'The tests use 2x2 grids of one nested model and compare marginals with stored values at 1e-2.',
     [CORE], [('hyper-grid, hyper-prior, log-space average', CORE + ':HyperStudy.fit'),
              ('marginalisation', CORE + ':HyperStudy.getHyperParameterDistribution')],
     [('hyperParameterDistribution', 'probability density of each combination', CORE + ':HyperStudy')],
     ['HyperStudy.fit', 'HyperStudy.getHPD', 'HyperStudy.getJHPD', 'HyperStudy.logEvidence'])

prop('C04', 'A ChangepointStudy weighs exactly the ordered change-point combinations',
     'A ChangepointStudy considers exactly those combinations of change-/break-point times that are strictly '
     'increasing in the order of the points in the model ("all" means every time stamp but the last), together with all '
     'values of the other hyper-parameters, and averages over them with hyper-prior times evidence; all other '
     'combinations have probability zero. The prior mass of excluded combinations is redistributed proportionally. '
     'The duration distribution of two points is the distribution of the difference of their times under the joint '
     'distribution and sums to one.',
     ['configurations', 'inputs'],
     'every number of change-/break-points (1-3), every value menu including "all", regular and irregular time stamps, '
     'every data series of the bound',
     'Two tests with one model each; no test covers other numbers or orders of points, overlapping value ranges or '
     'duration distributions of three points.',
     [CORE, TM], [('ordering mask', CORE + ':ChangepointStudy.fit'),
                  ('duration', CORE + ':ChangepointStudy.getDurationDistribution')],
     [('mask', 'valid combinations', CORE + ':ChangepointStudy')],
     ['ChangepointStudy.fit', 'ChangepointStudy.getDD', 'ChangepointStudy.getHPD', 'ChangepointStudy.getJHPD'])

prop('C05', 'Online model selection is exact at every step',
     'After every step of an OnlineStudy with several transition models, the hyper-parameter distribution within each '
     'model is proportional to hyper-prior times evidence, the transition model probabilities (for all data so far, '
     'and with local=True for the last data point) follow from the evidence of the models and their prior '
     'probabilities, and the current parameter distribution and log-evidence are the corresponding averages over the '
     'models. Every accessor (current, at time t, all times, mean values, short forms) reports these same numbers '
     'for the named model or hyper-parameter, in the order in which models were added.',
     ['histories', 'configurations'],
     'every data stream up to the depth bound for every menu of transition models, hyper-priors and model priors',
     'The tests check the final values of one five-point stream for two models.',
     [CORE], [('model average', CORE + ':OnlineStudy.step'), ('accessors', CORE + ':OnlineStudy')],
     [('transitionModelDistribution', 'probability of each transition model', CORE + ':OnlineStudy')],
     ['OnlineStudy.getCTMD', 'OnlineStudy.getCTMP', 'OnlineStudy.getTMPs', 'OnlineStudy.getCHPD',
      'OnlineStudy.getHPDs', 'OnlineStudy.getHyperParameterMeanValues'])

prop('C06', 'Parallel fits give the serial result for every number of jobs and schedule',
     'A HyperStudy or ChangepointStudy fit with nJobs > 1 yields the same hyper-parameter distribution, posterior '
     'sequence, mean values and log-evidence as with nJobs = 1, for every number of jobs (also more jobs than '
     'combinations) and whatever the order in which the worker processes run and finish. Every combination of '
     'hyper-parameter values is analysed exactly once, and the study can be fitted again afterwards.',
     ['schedules', 'configurations'],
     'every number of jobs up to more than the number of combinations, every order of execution and of completion of '
     'the jobs, every fit mode',
     'No test uses nJobs > 1.',
     [CORE], [('partition and merge', CORE + ':HyperStudy.fit, HyperStudy._parallelFit')],
     [('hyperGridValues', 'work to distribute', CORE + ':HyperStudy')],
     ['HyperStudy.fit(nJobs)', 'ChangepointStudy.fit(nJobs)'])

prop('C07', 'Missing, multi-dimensional and segmented data are treated correctly',
     'A data point that contains a missing value (NaN) changes no parameter distribution by itself and contributes a '
     'factor of one to the evidence, in batch and online analyses; for multi-dimensional observations of the built-in, '
     'SciPy and SymPy models only the missing dimension is ignored and the likelihoods of the other dimensions are '
     'multiplied. Models with segment length n (auto-regressive models) evaluate every window of n consecutive '
     'observations exactly once, attributed to the time stamp of its last observation.',
     ['inputs', 'configurations'],
     'every pattern of missing values over all positions and dimensions, every built-in observation model, batch and '
     'online',
     'No test contains a missing value or multi-dimensional data for more than one model.',
     [OM, CORE, 'bayesloop/preprocessing.py'],
     [('processedPdf', OM + ':ObservationModel'), ('movingWindow', 'bayesloop/preprocessing.py')],
     [], ['Study.fit', 'OnlineStudy.step', 'Study.formattedTimestamps'])

prop('C08', 'Observation models evaluate their documented likelihood and default prior',
     'For every observation and every parameter value in the support, each built-in observation model evaluates the '
     'density (or mass) of the distribution it is named after in its documented parametrisation, and a NumPy, SciPy '
     'or SymPy model evaluates exactly the function or distribution it was given, with parameters assigned by position '
     '(NumPy) or by name, in whatever order they are listed (SciPy, SymPy). Observations outside the support, and '
     'success probabilities outside [0, 1], have likelihood zero. Default priors (Jeffreys priors where documented, '
     'flat otherwise) and default parameter intervals are the documented ones.',
     ['inputs', 'configurations'],
     'every observation and grid value of finite menus covering the support boundaries, every built-in model, every '
     'order of parameters',
     'One evidence value per model on a fixed five-point series.',
     [OM, 'bayesloop/jeffreys.py', 'bayesloop/helper.py'], [('pdf, jeffreys, estimateParameterValues', OM)],
     [], ['Study.fit', 'ObservationModel.pdf'])

prop('C09', 'Transition models transform distributions as documented, alone and composed',
     'Every transition model maps each normalised distribution to a normalised, non-negative distribution as '
     'documented: convolution along the target parameter only with the stated kernel width in parameter units '
     '(random walks), unchanged (static), reset to the prior at the stated time only (change-point, independent), '
     'floor in probability density (regime-switch), inverted with floor (not-equal), or shift along the deterministic '
     'function. Combined models apply the sub-models one after the other; serial models apply at each time step '
     'exactly the sub-model in charge at that time, with deterministic functions measured from the last break.',
     ['inputs', 'configurations'],
     'every distribution of a menu (point masses, skewed, flat) on every small 1-D/2-D grid, every model with every '
     'hyper-parameter value of a menu, every nesting up to depth 3, every time step',
     'One stored evidence value per model on a five-point series.',
     [TM], [('computeForwardPrior, computeBackwardPrior', TM)],
     [('tOffset', 'time of the last break-point', TM)],
     ['TransitionModel.computeForwardPrior', 'Study.fit'])

prop('C10', 'Priors and other inputs mean the same in every form and are never consumed',
     'A prior given as array, function or SymPy random variable with the same values yields the same results in every '
     'study type, as first prior and at every reset to the prior, irrespective of the normalisation of arrays and '
     'functions (a SymPy density that has mass outside of the grid is used as it is, which rescales the evidence, but '
     'no distribution); the same holds '
     'for hyper-priors (array, function, SymPy) and transition model priors. No analysis changes an object supplied '
     'by the user (data, time stamps, parameter values, prior arrays, hyper-parameter values, model instances), so '
     'repeating an analysis with the same objects gives the same result.',
     ['inputs', 'configurations', 'histories'],
     'every prior form x scaling x study type x transition model of the menu, each fitted repeatedly',
     'The tests set each form once and fit once.',
     [CORE, TM], [('_computePrior', CORE + ':Study'), ('_createHyperGrid', CORE + ':HyperStudy')],
     [('prior', 'prior of the observation model', OM)], ['Study.fit', 'HyperStudy.fit', 'OnlineStudy.step'])

prop('C11', 'Results depend only on the current configuration, not on the history',
     'Whatever sequence of loading data, setting observation or transition models, fitting in any mode, querying and '
     'failing calls was applied to a study (and to other studies that use the same model instances), the next fit '
     'gives the same results as in a newly created study with the current data and models. No result of an earlier '
     'configuration shows up after a fit, and results returned earlier do not change.',
     ['histories'],
     'every sequence of operations from the alphabet up to the depth bound, for every study type',
     'Every test creates one study, configures it once and fits it once.',
     [CORE, TM], [('fit re-initialises all results', CORE + ':Study.fit')],
     [('cached kernels, restored hyper-parameter values', 'transition model state', TM)],
     ['Study.fit', 'HyperStudy.fit', 'ChangepointStudy.fit', 'OnlineStudy.step'])

prop('C12', 'Post-processing reads, never changes, and all accessors agree',
     'Calling any sequence of post-processing, plotting or evaluation methods changes no result, so that every '
     'query gives the same answer whenever it is repeated. Distributions are marginals of the posterior sequence of '
     'the named parameter and time step, sum to one as probabilities and integrate to one as densities, mean values '
     'are the means of these distributions, and short and long forms, single-time, time-average and all-times forms '
     'agree; plots show the same numbers. Unknown names or times raise an error and leave the study usable.',
     ['histories', 'configurations'],
     'every sequence of accessor calls up to the depth bound on every study type with 1-D and 2-D grids',
     'The tests call each accessor once and none of the plot methods.',
     [CORE], [('get*/plot* methods', CORE)], [],
     ['Study.getPD', 'Study.getPDs', 'HyperStudy.getHPD', 'OnlineStudy.get*', '*.plot'])

prop('C13', 'Parsed queries give the probability of the expression as written',
     'For every arithmetic expression over (hyper-)parameters, numbers, functions and time steps, a query with a '
     'relational operator returns the total probability of all parameter combinations for which the relation holds '
     'under the usual precedence rules, using the joint distribution for parameters of one study at one time step and '
     'treating different time steps, different studies, and parameters versus hyper-parameters as independent. '
     'Without relational operator it returns the distribution of the expression with total probability one. A query '
     'with t=... is the same as the query with @... on every parameter, and undefined names, undefined times and malformed expressions are rejected with an error.',
     ['inputs', 'configurations'],
     'every expression of the grammar up to the size bound, every relational operator, one or two studies of every type',
     'Four fixed queries.',
     [PA], [('grammar, evaluation, compound distributions', PA + ':Parser')], [],
     ['Study.eval', 'Parser.__call__'])

prop('C14', 'Saving and loading a study at any point is transparent',
     'A study of any type that is saved at any point of its life and loaded again (in another process) answers all '
     'queries as the original and continues exactly as the original would (further fits, further online steps). '
     'Saving does not alter the study, a failed save leaves an existing file intact, and loading any incomplete file '
     'raises an error instead of returning a study.',
     ['histories', 'crash_points', 'fault_sequences'],
     'every point of every operation history of the bound for all study types, every prefix of a saved file, every '
     'failing write',
     'One test saves and loads one fitted study and compares one value.',
     ['bayesloop/fileIO.py', CORE], [('save, load', 'bayesloop/fileIO.py')], [], ['bl.save', 'bl.load'])

prop('C15', 'Hyper-parameter optimisation never ends up worse and touches only the selection',
     'After Study.optimize, the study holds the complete fit for the hyper-parameter values reported by the study, its '
     'log-evidence is not below that of the initial values, and is at least that of every point of a coarse local '
     'neighbourhood if a single hyper-parameter is optimised (up to the tolerance of the optimiser). Hyper-parameters that were not selected, and change-/'
     'break-points unless selected by name, keep their values; unknown names are rejected and leave the study usable.',
     ['configurations', 'inputs'],
     'every selection of hyper-parameter names of every model of the menu and every start value of the menu',
     'Two tests on one model.',
     [CORE], [('optimize', CORE + ':Study.optimize')], [('selectedHyperParameters', 'names to optimise', CORE)],
     ['Study.optimize', 'Study.getHyperParameterValue'])

prop('C16', 'Inconsistent configurations are rejected before any result is produced',
     'Configurations that cannot be analysed (missing data or models, duplicate hyper-parameter names, break-points '
     'outside of serial models, wrong number or order of break-points, wrong shape or number of priors, '
     'non-overlapping parameter names, change-points at identical times in a HyperStudy, mixed or nested change-/break-points '
     'or none at all in a ChangepointStudy, unsupported operations of a study type) raise a bayesloop '
     'ConfigurationError or the documented NotImplementedError at the latest when the analysis starts. Valid '
     'configurations of the same shape are accepted, and after a rejection the study works once it is corrected.',
     ['configurations', 'histories'],
     'every way of breaking one element of every valid configuration of the menu, in every study type',
     'Almost none of the error paths is tested.',
     [CORE, TM, OM], [('_checkConsistency, constructors', CORE + ', ' + TM + ', ' + OM)], [],
     ['constructors', 'set*', 'fit', 'step'])

prop('C17', 'Simulated data distributions are the posterior predictive distribution',
     'For every fitted study, simulate returns for each value x the likelihood of x averaged over the parameter '
     'distribution of the given time step (or over the time-averaged distribution), normalised over the given values '
     'unless density=True. The result does not depend on the order of the values, and calling it changes nothing. A time '
     'stamp that does not exist, or a study that holds no parameter distributions, raises an error.',
     ['inputs', 'configurations'],
     'every time step and every sequence of values of the menu for every observation model and study type',
     'Two evaluations of one model are tested.',
     [CORE], [('simulate', CORE + ':Study.simulate')], [], ['Study.simulate'])

prop('C18', 'Time stamps label results and locate change-points, nothing else',
     'Shifting all time stamps together with all change- and break-points, or replacing them by any other increasing '
     'time stamps (with change- and break-points at the corresponding positions), changes no distribution, mean '
     'value or evidence of models without explicit time dependence. Every accessor with a time argument returns the '
     'entry of exactly the data point with that time stamp, in models with segment length > 1, too.',
     ['configurations', 'inputs'],
     'every menu of time stamps (default, shifted, scaled, irregular, negative, fractional) x transition model x study type',
     'Only the built-in example data has non-default time stamps in the tests, and no test compares two sets.',
     [CORE, TM], [('formattedTimestamps', CORE), ('break/change-point comparison', TM)], [],
     ['Study.loadData', 'Study.fit', 'Study.getPD'])

prop('C19', 'Inference is numerically stable over the whole range of likelihoods',
     'Multiplying the likelihood of any data points by constants of any magnitude (so that probabilities of the complete '
     'series leave the range of floating-point numbers) changes the log-evidence by exactly the sum of the logarithms '
     'and changes no distribution, mean value or hyper-parameter distribution, in every study type. Results are finite, '
     'non-negative and normalised for every series that has positive probability, and long series do not lose precision.',
     ['inputs', 'histories'],
     'every assignment of scale factors from a menu (1e-250 to 1e250) to the time steps, for every study type and '
     'transition model of the menu',
     'The longest tested series has 110 points with evidence 1e-75.',
     [CORE], [('normalisation of alpha and beta; log-space averages', CORE)], [],
     ['Study.fit', 'HyperStudy.fit', 'ChangepointStudy.fit', 'OnlineStudy.step'])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for p in P:
            assert len(p['title']) <= 80, p['title']
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')

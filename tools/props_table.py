"""The properties, one entry each."""

TESTS = ('The repository\'s stable tests exercise the neural-network blocks and '
         'the token error rate only')


def P(id, title, statement, all, why, files, mech, over=('inputs',), **kw):
    d = dict(id=id, title=title, statement=statement, all=all, why=why,
             files=files, mech=mech, over=list(over))
    d.update(kw)
    return d


D = 'beer/dists/'
M = 'beer/models/'
I = 'beer/inference/'
C = 'beer/cli/subcommands/'

PROPS = [
P('P01', 'Natural and standard parameters describe the same distribution',
  'For every exponential-family distribution (normal with full or diagonal '
  'covariance, Gamma, Dirichlet, normal-gamma in isotropic and diagonal form, '
  'normal-Wishart), converting the standard parameters to natural parameters '
  'and back yields the same parameters, including for batches of '
  'distributions. Updating a distribution from natural parameters changes its '
  'standard parameters to the ones those natural parameters denote, and '
  'selecting a member of a batch selects that member\'s parameters.',
  'All parameter values, dimensions and batch sizes.',
  TESTS + '; a conversion is wrong for a family, a batch shape or an '
  'off-diagonal entry that no sampled case needs.',
  [D + f for f in ('basedist.py', 'normal.py', 'normaldiag.py', 'gamma.py',
                   'dirichlet.py', 'isonormalgamma.py', 'normalgamma.py',
                   'normalwishart.py')],
  [('natural_parameters / from_natural_parameters of each family',
    D + '*.py'), ('update_from_natural_parameters', D + '*.py')]),
P('P02', 'Likelihoods, sufficient statistics and pdf vectors agree',
  'For every likelihood function and its conjugate prior, the inner product '
  'of the sufficient statistics of an observation with the distribution\'s pdf '
  'vector is the log density of that observation, for single distributions '
  'and for sets. The statistics have the length the likelihood announces, '
  'the pdf vector built from real-valued vectors or from expected statistics '
  'uses the same layout, and the parameters recovered from a pdf vector are '
  'those it was built from.',
  'All observations, dimensions, batch sizes and parameter values.',
  TESTS + '; the layouts only disagree for particular dimensions or for '
  'batches.',
  [D + f for f in ('normal.py', 'normaldiag.py', 'gamma.py', 'dirichlet.py',
                   'isonormalgamma.py', 'normalgamma.py', 'normalwishart.py')],
  [('conjugate / sufficient_statistics / pdfvectors_from_rvectors / '
    'parameters_from_pdfvector / __call__', D + '*.py')]),
P('P03', 'Log-normalisers, expected statistics, KL divergence and entropy',
  'For every exponential-family distribution the log-normaliser is that of '
  'the family and the expected sufficient statistics are its gradient with '
  'respect to the natural parameters. The KL divergence between two members '
  'of a family and the entropy follow from these quantities, and the KL '
  'divergence of a model is the sum over its Bayesian parameters of the '
  'divergence from the posterior to the prior.',
  'All parameter values, dimensions and batch sizes; all models.',
  TESTS + '; a wrong constant or a missing term leaves every value plausible.',
  [D + 'basedist.py', D + 'normal.py', D + 'normaldiag.py', D + 'gamma.py',
   D + 'dirichlet.py', D + 'isonormalgamma.py', D + 'normalgamma.py',
   D + 'normalwishart.py', M + 'parameters.py', M + 'basemodel.py'],
  [('log_norm / expected_sufficient_statistics', D + '*.py'),
   ('kl_div / entropy', D + 'basedist.py'),
   ('kl_div_posterior_prior', M + 'parameters.py')]),
P('P04', 'Densities, expected values and samples are those of the distribution',
  'The log density, the expected value and the samples a distribution or a '
  'Bayesian parameter reports are those of the distribution its parameters '
  'denote, for single distributions and for batches.',
  'All parameter values, dimensions, batch sizes and numbers of samples.',
  TESTS + '; a density wrong for one member of a batch, or a sample scaled by '
  'a variance instead of a deviation, passes any smoke test.',
  [D + f for f in ('normal.py', 'normaldiag.py', 'gamma.py', 'dirichlet.py',
                   'isonormalgamma.py', 'normalgamma.py', 'normalwishart.py')]
  + [M + 'parameters.py'],
  [('expected_value / forward / sample', D + '*.py')]),
P('P05', 'Training never changes priors, and posteriors do not alias them',
  'Creating a model, computing statistics, likelihoods and divergences, and '
  'applying updates never modify a prior unless the model explicitly ties '
  'that prior to another random variable, nor any input tensor. The '
  'posterior of a new parameter shares no storage with its prior, and '
  'selecting a member of a parameter set keeps the pairing of prior, '
  'posterior and likelihood.',
  'All models, histories of evaluation and update steps, and inputs.',
  TESTS + '; the corruption only shows after several updates, as a slowly '
  'drifting prior.',
  [M + 'parameters.py', M + '*.py', D + '*.py'],
  [('separate prior and posterior objects', M + 'parameters.py'),
   ('_default_param builders', M + '*.py')],
  over=('inputs', 'histories'), rule='effect (write-set) analysis'),
P('P06', 'Variational updates are natural-gradient steps that notify listeners',
  'Updating a conjugate parameter with learning rate r moves the posterior\'s '
  'natural parameters to old + r times (prior + accumulated statistics - old), '
  'so that r = 1 is the exact coordinate-ascent step. The hooks registered '
  'before and after an update run exactly once per update, each on the '
  'proper side of it, so that quantities derived from the '
  'parameter (transition weights, stick orderings, tied priors) match it '
  'afterwards.',
  'All models, learning rates, statistics and sequences of updates.',
  TESTS + '; a step is wrong only for rates other than one or stale after a '
  'second update.',
  [M + 'parameters.py', I + 'objectives.py', M + 'categorical.py',
   M + 'categoricalset.py', M + 'phoneloop.py', D + 'basedist.py'],
  [('natural_grad_update, register_callback, dispatch', M + 'parameters.py'),
   ('update callbacks', M + 'categorical.py, categoricalset.py, phoneloop.py')],
  over=('inputs', 'histories')),
P('P07', 'ELBO and accumulated statistics add, scale and store linearly',
  'Adding two ELBO instances adds their values and, parameter by parameter, '
  'their statistics, a parameter present in only one of them keeping its '
  'statistics; adding instances of corpora of different sizes, or anything '
  'that is not an instance, is refused. Statistics are '
  'stored in the parameter they were computed for, scaled once by the ratio '
  'of the corpus size to the number of observations, replacing earlier ones, '
  'and an instance restored in another process can be re-linked to the '
  'parameters of that process.',
  'All sequences of additions of instances computed on any mini-batches, in '
  'any order and process.',
  TESTS + '; mistakes only show with several batches, disjoint parameter sets '
  'or processes.',
  [I + 'objectives.py', M + 'parameters.py'],
  [('add_acc_stats, scale_acc_stats', I + 'objectives.py'),
   ('EvidenceLowerBoundInstance', I + 'objectives.py'),
   ('store_stats, zero_stats', M + 'parameters.py')],
  over=('inputs', 'histories')),
P('P08', 'The evidence lower bound is corpus-scaled likelihood minus divergence',
  'One evaluation of the lower bound equals the expected log-likelihood of '
  'the data, summed over observations and scaled by the ratio of corpus size '
  'to batch size, minus the local divergences of latent variables, minus '
  'the divergence of every Bayesian parameter from its prior counted once. '
  'The statistics it returns come from the same data and the same latent '
  'posteriors as the likelihood, and no gradient flows through the '
  'statistics.',
  'All models, batches, corpus sizes and latent-variable configurations.',
  TESTS + '; no stable test evaluates a lower bound, and a wrong scale is '
  'invisible with a full batch.',
  [I + 'objectives.py', M + 'basemodel.py', M + '*.py'],
  [('evidence_lower_bound', I + 'objectives.py'),
   ('expected_log_likelihood / kl_div_posterior_prior', M + '*.py')],
  over=('inputs', 'configurations')),
P('P09', 'Latent posteriors used in accumulation belong to the current batch',
  'What a model keeps from a likelihood evaluation for the accumulation that '
  'follows (responsibilities, transition posteriors, orderings, scales, '
  'sampled models) is written by that evaluation on every path on which the '
  'accumulation reads it. It is discarded before the next evaluation, so no '
  'quantity of an earlier batch or utterance ever enters the statistics.',
  'All models and all sequences of evaluations with differing options, '
  'alignments or inference graphs.',
  TESTS + '; stale values need two evaluations with different options.',
  [M + 'basemodel.py', M + 'mixture.py', M + 'mixtureset.py', M + 'hmm.py',
   M + 'phoneloop.py', M + 'modelset.py', M + 'gsm.py', M + 'vae.py',
   I + 'objectives.py'],
  [('Model.cache, clear_cache', M + 'basemodel.py')],
  over=('inputs', 'histories'),
  rule='definite-assignment analysis of cache keys'),
P('P10', 'Every learnable parameter is in one mean-field factor and gets its statistics',
  'The mean-field factorisation of a model lists each of its conjugate '
  'Bayesian parameters, including those of its sub-models, exactly once. '
  'The accumulated statistics of a model are keyed by exactly the parameters '
  'they update, with the layout of that parameter\'s natural parameters.',
  'All models and compositions of models.',
  TESTS + '; a dropped factor only means that a parameter silently stops '
  'learning.',
  [M + 'basemodel.py', M + '*.py'],
  [('mean_field_factorization', M + '*.py'), ('accumulate', M + '*.py'),
   ('bayesian_parameters / conjugate_bayesian_parameters / '
    'accumulated_statistics', M + 'basemodel.py')],
  over=('inputs', 'configurations'), rule='parameter coverage analysis'),
P('P11', 'Optimisers update each factor in turn with the configured rate',
  'An optimisation step updates every conjugate parameter of exactly one '
  'mean-field factor, cycling through the factors in order over successive '
  'steps, with the configured learning rate, and applies the gradient '
  'optimiser once when there is one. Beginning a step clears the statistics '
  'and gradients of all parameters, and saving then restoring the optimiser '
  'state resumes the same schedule.',
  'All groupings, learning rates and sequences of steps, saves and restores.',
  TESTS + '; needs several steps and a resume.',
  [I + 'optimizers.py', M + 'parameters.py', M + 'basemodel.py'],
  [('VBConjugateOptimizer, VBOptimizer', I + 'optimizers.py')],
  over=('inputs', 'histories')),
P('P12', 'Graph edits and compilation preserve the weighted paths',
  'Adding states and arcs, normalising, replacing a state by a sub-graph and '
  'compiling keep exactly the paths the graph describes: the weights of the '
  'arcs leaving a state sum to one after normalisation, and the compiled '
  'initial, transition and final probabilities are the total weights of the '
  'paths between emitting states through non-emitting ones. The compiled '
  'states keep the identity of the densities attached to them.',
  'All graphs, including self-loops, chains of non-emitting states and '
  'repeated replacement.',
  TESTS + '; topologies matter and the sampled ones are left-to-right.',
  ['beer/graph.py'],
  [('Graph.normalize, replace_state, compile', 'beer/graph.py')],
  over=('inputs', 'programs')),
P('P13', 'Graph inference is exact forward-backward and Viterbi',
  'On a compiled graph the state and transition posteriors and the total '
  'log-likelihood are those of the forward-backward recursions over the '
  'initial, transition and final probabilities. The best path starts, moves '
  'and ends according to the Viterbi recursion on the same probabilities.',
  'All graphs, numbers of frames and per-frame log-likelihoods.',
  TESTS + '; off-by-one frames and missing final weights keep outputs '
  'normalised.',
  ['beer/graph.py'],
  [('CompiledGraph.posteriors, best_path, forward and backward recursions',
    'beer/graph.py')]),
P('P14', 'HMMs and phone loops use their graph, posteriors and phone weights',
  'An HMM\'s likelihood, state posteriors, decoded path and statistics come '
  'from inference on its graph, or on the alignment graph or state path given '
  'for the utterance, with each frame\'s statistics going to the density '
  'attached to the state. In phone loops the transitions between units carry '
  'the expected unit weights (given the previous unit for bigrams), are '
  'refreshed after each update of these weights, and the weights receive the '
  'expected number of entries in each unit, also when an alignment is given.',
  'All graphs, alignments, unit inventories and options.',
  TESTS + '; needs multi-state units, tied densities or several updates.',
  [M + 'hmm.py', M + 'phoneloop.py', M + 'modelset.py', M + 'basemodel.py'],
  [('HMM', M + 'hmm.py'), ('PhoneLoop, BigramPhoneLoop', M + 'phoneloop.py'),
   ('DynamicallyOrderedModelSet', M + 'modelset.py')],
  over=('inputs', 'histories')),
P('P15', 'Mixtures and mixture sets weight, normalise and dispatch per component',
  'The likelihood of a mixture is the log of the weighted sum of its '
  'components\' likelihoods under the expected log weights, its '
  'responsibilities are normalised over components, and the statistics of the '
  'weights and of each component are those responsibilities. In a set of '
  'mixtures this holds for each mixture separately, and slicing keeps the '
  'weights and the components of the selected mixtures together.',
  'All numbers of components, mixtures and frames, with or without given '
  'labels.',
  TESTS + '; a wrong axis is invisible for square shapes.',
  [M + 'mixture.py', M + 'mixtureset.py', M + 'basemodel.py'],
  [('Mixture', M + 'mixture.py'), ('MixtureSet', M + 'mixtureset.py')]),
P('P16', 'Categorical and stick-breaking weights follow their definition',
  'Categorical models use the expected log-probabilities of their Dirichlet '
  'posterior. Stick-breaking models use, per stick, the expected log of the '
  'stick and of what the previous sticks left, in decreasing order of usage, '
  'with statistics converted into per-stick counts, and hierarchical variants '
  'use the root weights and the concentration parameter as prior of the '
  'sticks. Mean weights are the expected values of the same process.',
  'All truncations, statistics, orderings and updates.',
  TESTS + '; orderings only matter after the usage changes.',
  [M + 'categorical.py', M + 'categoricalset.py'],
  [('Categorical, SBCategorical, SBCategoricalHyperPrior',
    M + 'categorical.py'),
   ('CategoricalSet, SBCategoricalSet', M + 'categoricalset.py')],
  over=('inputs', 'histories')),
P('P17', 'Autoregressive networks only look at earlier variables',
  'Each output of a masked autoregressive network depends only on the inputs '
  'that precede it in the ordering and on nothing at or after it, whatever '
  'the depth and the connectivity. Conditioning variables reach every output, '
  'and several outputs per variable share that variable\'s mask.',
  'All dimensions, depths, orderings and random connectivity draws.',
  'Tests check a few sizes; a mask wrong for some degree assignments needs '
  'the right draw to show.',
  ['beer/nnet/arnet.py'],
  [('mask construction and masked linear layer', 'beer/nnet/arnet.py')],
  over=('inputs', 'configurations')),
P('P18', 'Results live on the type and device of the data and parameters',
  'Tensors a model or distribution allocates (statistics, responsibilities, '
  'one-hot paths, transition matrices, samples, default parameters) have the '
  'numeric type and device of the data or parameters they are combined with.',
  'All tensor types and devices, including models moved after creation.',
  'The stable tests cover both float types for the neural-network blocks '
  'only; no test has a second device.',
  [D + '*.py', M + '*.py', 'beer/utils.py'],
  [('explicit dtype/device at each allocation', D + '*.py, ' + M + '*.py')],
  over=('inputs', 'configurations'), rule='allocation rule'),
P('P19', 'Every declared command-line option exists, and is consumed',
  'Each subcommand uses only options that it declares, under the name it '
  'declares, and each declared option influences what the subcommand does. '
  'Every command and subcommand offers a parser set-up and an entry point '
  'that the launcher can call, positional arguments are read as declared and '
  'defaults are legal values of their option.',
  'All subcommands and argument combinations.',
  'No test runs a subcommand; a misspelt option only fails at its use.',
  ['beer/cli/beer', C + '*/*.py', 'beer/cli/*.py'],
  [('setup / main of each subcommand', C + '*/*.py')],
  over=('inputs', 'configurations'),
  rule='declared/consumed option analysis'),
P('P20', 'Training commands accumulate, combine and update exactly once',
  'Accumulating evaluates the lower bound of every listed utterance with its '
  'own features (and alignment graph when given) and the whole corpus size, '
  'skips only unknown utterances, and stores the sum with the number of '
  'utterances. Updating sums all stored parts, re-links them to the loaded '
  'model, makes one update with the given rate restoring and saving the '
  'optimiser state, and writes the updated model; batch training does both '
  'for every epoch.',
  'All utterance lists, numbers of jobs, epochs and resumptions.',
  'No test runs a training command; mistakes appear only with several jobs '
  'or epochs.',
  [C + 'hmm/accumulate.py', C + 'hmm/update.py', C + 'hmm/train.py'],
  [('main', C + 'hmm/accumulate.py'), ('main', C + 'hmm/update.py'),
   ('main', C + 'hmm/train.py')],
  over=('inputs', 'histories')),
P('P21', 'A given seed makes a run reproducible',
  'With a non-negative seed every source of randomness is seeded before any '
  'command runs, and library code never reseeds or draws from an unseeded '
  'source. Results that depend on iteration order use a deterministic order.',
  'All commands and seeds.',
  'A test compares one run; a stray generator needs a second run to show.',
  ['beer/cli/beer', 'beer/**/*.py'],
  [('seeding in the launcher', 'beer/cli/beer')],
  over=('inputs', 'configurations'), rule='who-may-call rule'),
P('P22', 'Every name and attribute used by the library exists',
  'No code path of the library refers to an undefined name, a module member '
  'that does not exist, a parameter view attribute its family does not have, '
  'or calls an in-library function with arguments it does not accept.',
  'All code paths.',
  'An undefined name fails only when its path runs; most paths are never run '
  'by a test.',
  ['beer/**/*.py'],
  [('imports and class definitions', 'beer/**/*.py')],
  over=('inputs', 'programs'), rule='name/attribute/arity resolution'),
P('P23', 'Invalid arguments are rejected and every path returns its value',
  'Unknown covariance types, priors, activations and transforms are refused '
  'with the error documented for them before anything is built. An operation '
  'that yields a value does so on every path that does not fail.',
  'All argument values and paths.',
  'A vacuous guard behaves normally for valid input.',
  ['beer/**/*.py'],
  [('guards of factory functions', M + '*.py, beer/nnet/*.py')],
  over=('inputs',), rule='vacuous-guard and return-path analysis'),
P('P24', 'Acoustic features follow the configured analysis',
  'The filter bank, short-term spectra, cepstra, deltas and normalisation '
  'are computed from the signal as configured: '
  'window and frame rate in seconds times the sampling rate, triangular '
  'filters on the mel scale between the cut-off frequencies, the requested '
  'number of coefficients, energy and derivative orders. Configuration keys '
  'outside the known set are refused and each known key takes effect.',
  'All signals, sampling rates and configurations.',
  'No test computes a feature.',
  ['beer/features.py', C + 'features/extract.py'],
  [('feature functions', 'beer/features.py'),
   ('main', C + 'features/extract.py')],
  over=('inputs', 'configurations')),
P('P25', 'Indexing and joining model sets selects the right members',
  'Indexing or slicing a model set, parameter set or distribution set gives '
  'the members at those positions with their own parameters, statistics and '
  'posteriors; length is the number of members. Joint, repeated and '
  'dynamically ordered sets evaluate and accumulate each member on its own '
  'columns, in the order of the set.',
  'All index forms (integers, negative, slices) and compositions.',
  TESTS + '; needs unequal sets or non-trivial orders.',
  [M + 'modelset.py', M + 'normalset.py', M + 'mixtureset.py',
   M + 'categoricalset.py', M + 'parameters.py', D + 'basedist.py'],
  [('__getitem__, __len__', M + '*set.py'),
   ('JointModelSet, RepeatedModelSet, DynamicallyOrderedModelSet',
    M + 'modelset.py')]),
P('P26', 'Subspace models map latent points to the right model parameters',
  'A subspace model generates, for each sampled latent vector, models whose '
  'every parameter is the affine transform of that vector mapped to a valid '
  'pdf vector of the parameter\'s likelihood, each parameter reading its own '
  'slice of the transform. Its likelihood is the expectation over these '
  'samples of the models\' expected statistics, minus the divergence of the '
  'latent posterior, with gradients reaching the transform and the latent '
  'posterior, hierarchical variants drawing the transform from theirs.',
  'All models, latent dimensions, numbers of samples and units.',
  TESTS + '; slices only overlap for particular parameter dimensions.',
  [M + 'gsm.py', M + 'basemodel.py', D + '*.py'],
  [('AffineTransform, GSM, GSMSet, HierarchicalAffineTransform, '
    'HierarchicalGSM', M + 'gsm.py'), ('replace_parameters',
                                       M + 'basemodel.py')],
  over=('inputs', 'configurations')),
P('P27', 'Neural blocks and variational autoencoders compute what they declare',
  'Network builders create the described layers with the described sizes and '
  'reject unknown ones, residual, identity and merging blocks combine their '
  'inputs without modifying them, and probabilistic output layers return the '
  'parameters of the declared density, keeping variances positive. A '
  'variational autoencoder\'s lower bound is the sampled reconstruction '
  'likelihood minus the divergence of each frame\'s latent posterior from '
  'the prior model, whose statistics are those of the latent posterior.',
  'All configurations, inputs and numbers of samples.',
  'Tests build a few networks; per-frame quantities only differ with more '
  'than one frame and one sample.',
  ['beer/nnet/neuralnetwork.py', 'beer/nnet/problayers.py',
   'beer/nnet/residual.py', M + 'vae.py'],
  [('create, load_value, MergeTransform', 'beer/nnet/neuralnetwork.py'),
   ('NormalLayer and friends', 'beer/nnet/problayers.py'),
   ('VAE', M + 'vae.py')], over=('inputs', 'configurations')),
P('P28', 'Recipe scores are the published metrics',
  'Token error rate is the minimum edit distance over reference tokens summed '
  'over utterances; boundary recall, precision and F-score use each reference '
  'and hypothesised boundary at most once within the tolerance; normalised '
  'mutual information and mappings use the joint counts of aligned labels. '
  'Label mapping '
  'and duplicate or ignored token removal apply before scoring.',
  'All transcripts and options.',
  'The doctest and one test score a handful of toy strings.',
  ['recipes/aud/utils/*.py'],
  [('wer, score', 'recipes/aud/utils/ter.py'),
   ('boundary matching', 'recipes/aud/utils/score_boundaries.py'),
   ('main', 'recipes/aud/utils/nmi.py')]),
P('P29', 'Normal and Gamma models expose their posterior consistently',
  'Creation from a mean and covariance puts the prior\'s mode at these '
  'values with the given strength, for each covariance type; the reported '
  'mean and covariance are those of the current posterior. Likelihoods are '
  'the expectations of the log density under the posterior and the '
  'statistics are sums over frames, weighted by the responsibilities in sets.',
  'All dimensions, covariance types, data and numbers of members.',
  TESTS + '; full and isotropic covariance coincide in one dimension.',
  [M + 'normal.py', M + 'normalset.py', M + 'gamma.py', M + 'parameters.py'],
  [('Normal', M + 'normal.py'), ('NormalSet', M + 'normalset.py'),
   ('Gamma', M + 'gamma.py')]),
P('P30', 'Decoding, posterior and graph commands describe the trained model',
  'The graph commands build unit HMMs, alignment graphs and decoding graphs '
  'with the configured topology, the units of the transcription in order, and '
  'the loop over all units. Decoding and posterior commands emit for each '
  'utterance, on each requested level, the labels or probabilities of the '
  'units of the model in use, collapsing the states of a unit and no other.',
  'All unit inventories, transcriptions, options and utterances.',
  'No test runs these commands.',
  [C + 'hmm/%s.py' % x for x in ('mkphones', 'mkphoneloop',
                                  'mkphoneloopgraph', 'mkphoneloopbigram',
                                  'mkaligraph', 'mkdecodegraph', 'decode',
                                  'posteriors', 'phonelist')],
  [('main', C + 'hmm/*.py')], over=('inputs', 'configurations')),
P('P31', 'Subspace HMM commands train and reuse the same latent posteriors',
  'The subspace commands build the subspace model of the units of the '
  'configured group with the requested latent dimensions, train it on these '
  'units with one latent posterior per unit, leaving frozen what the options '
  'freeze, and set the units to the parameters the posteriors generate. They '
  'save the model, posteriors and phone-loop in the layout the other commands '
  'read, with the same number of units and states, and restore and save the '
  'optimiser state when asked.',
  'All unit inventories, groups, epochs and options.',
  'No test runs these commands.',
  [C + 'shmm/*.py', C + 'hshmm/*.py'],
  [('main', C + 'shmm/*.py'), ('main', C + 'hshmm/*.py')],
  over=('inputs', 'configurations')),
P('P32', 'Datasets and utilities return what was archived',
  'A dataset yields for each listed utterance the archived features under '
  'its identifier, iterating over each utterance once in sorted or shuffled '
  'order, with the corpus size, mean and variance computed over all frames. '
  'Log-sum-exp, one-hot, symmetric packing and Jacobian helpers compute '
  'the functions they are named after for all shapes.',
  'All archives, utterance lists, batch sizes and tensor shapes.',
  'No stable test opens an archive; helpers are sampled at a few shapes.',
  ['beer/cli/dataset.py', C + 'dataset/create.py', C + 'features/archive.py',
   'beer/utils.py'],
  [('Dataset', 'beer/cli/dataset.py'), ('logsumexp, onehot, symmetrize_vec, '
                                        'jacobians', 'beer/utils.py')]),
]

NOT_APPLICABLE = [
dict(P('N01', 'The lower bound never decreases under coordinate ascent',
  'With full batches and learning rate one, each update of a mean-field '
  'factor leaves the evidence lower bound unchanged or increased.',
  'All models, data and histories of updates.',
  'Tests would sample a few runs.', [I + 'objectives.py'],
  [('natural_grad_update', M + 'parameters.py')],
  over=('inputs', 'histories')),
  reason='An inequality between runtime values along a history; no static '
         'argument in reach bounds it. Its structural ingredients are decided '
         'as P03, P06, P07, P08 and P10.'),
dict(P('N02', 'Divergences are non-negative and finite in floating point',
  'Reported KL divergences are non-negative and no operation overflows or '
  'yields NaN for parameters in a documented range.',
  'All parameter values.', 'Tests sample a few values.', [D + 'basedist.py'],
  [('kl_div', D + 'basedist.py')]),
  reason='Quantifies over floating-point results of special functions; the '
         'formulas are decided (P03) but their rounding is not a static fact.'),
dict(P('N03', 'Training converges to the generating parameters',
  'Given enough data drawn from a model of the family, training recovers its '
  'parameters up to permutation.',
  'All models and data.', 'Tests sample a few runs.', [I + 'optimizers.py'],
  [('VBOptimizer.step', I + 'optimizers.py')], over=('inputs', 'histories')),
  reason='A statistical statement about runs; not a property of the source.'),
dict(P('N04', 'Sampled estimates have the advertised statistical accuracy',
  'Monte-Carlo estimates (reconstruction likelihoods, expected subspace '
  'parameters) are unbiased and their error shrinks with the sample count.',
  'All models and sample counts.', 'Tests sample a few draws.', [M + 'vae.py'],
  [('sampling', M + 'vae.py')]),
  reason='Distributional property of runtime values; the estimator formulas '
         'are decided as P26 and P27.'),
]

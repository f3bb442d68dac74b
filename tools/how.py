HOW = {
'P01': 'each family: `natural_parameters`, `from_natural_parameters`, `update_from_natural_parameters`, views and `__getitem__`, single and batched contexts, against the closed-form maps',
'P02': 'statistics, `pdfvectors_from_rvectors`, `parameters_from_pdfvector`, `__call__`, announced dimensions; one reference layout per family',
'P03': 'log-normaliser, expected statistics, KL, entropy against the textbook expressions, normalised as polynomials over digamma/lgamma/logdet atoms',
'P04': '`forward`, `expected_value`, `sample` (the generator call is an atom, its scale and shift are not) against the density of the family',
'P05': 'memory component: every constructor, statistic, likelihood, update and command is compared on the set of locations written; a constructor that stores an alias, or any extra write under `.prior`, differs. Operations owned by other properties are looked at through a writes-only view',
'P06': '`natural_grad_update`, callbacks (before/after order), statistics stored; ordered effects of `dispatch` relative to the write of the posterior',
'P07': 'ELBO arithmetic (`__add__`, `__radd__`, `__mul__`, …, sums from 0), statistics dictionaries: result terms plus absence of writes to operands',
'P08': 'objective functions: scaling by corpus/minibatch size, KL term, per-parameter statistics, `backward` and update of statistics',
'P09': 'cache locations are part of the memory component: which call writes which cache entry, from which data, and who reads it; `clear_cache` coverage',
'P10': '`mean_field_factorization`, `bayesian_parameters`, `conjugate_bayesian_parameters` and the keys of every `accumulate`, composed through submodels',
'P11': 'optimiser stepping: group selection, update counter, learning rate, order of standard and conjugate parts, saved state',
'P12': 'graph edits as set/dict updates, epsilon elimination and `compile` as loops over state pairs, with arc weights',
'P13': 'forward, backward, posteriors, best path: recursions as `fold`s; log-domain algebra of logsumexp is normalised',
'P14': 'HMM / phone loop likelihood, posteriors, accumulation and the transition refresh after a weights update',
'P15': 'mixtures: log-weights, responsibilities, likelihood and accumulation, labels',
'P16': 'categorical / stick-breaking: expected log weights, means, statistics transforms and their ordering, optimised hyper-prior',
'P17': 'mask construction (degree comparison, strict at the output), masked product, ordering composition, contexts per flag',
'P18': 'every allocation (zeros/ones/eye/tensor/randn …) carries its dtype/device arguments as part of the term; every obligation that allocates is tagged',
'P19': 'parser declarations as ordered effects (name, aliases, type, default, action, nargs, required) and the options `main` reads',
'P20': 'training commands as ordered effects: objective, accumulation across files, update once, write-out',
'P21': 'generator effects are ordered; the launcher seeds all generators before dispatch; every use of randomness is tagged',
'P22': 'whole-program name resolution (structural rule), see 1.2',
'P23': 'conditions and classes of raised exceptions are part of the result term; plus the return-path rule',
'P24': 'feature commands: option table to pipeline parameters, framing, filter bank, DCT, deltas, mean normalisation',
'P25': 'model sets: `__getitem__` for integers/slices/masks, joint, repeated and dynamically ordered sets, offset arithmetic',
'P26': 'subspace models: affine transform, latent samples, real-vector to pdf-vector maps, statistics and parameter write-back',
'P27': 'network blocks, string-described architectures, problayers and VAE bounds',
'P28': 'token error rate, boundary scores, and the other scoring utilities: edit-distance recursion and the printed output',
'P29': 'Normal/Gamma models: statistics, likelihood, accumulate, mean/cov views, default parameters per covariance type',
'P30': 'decode, posteriors, alignment graph and decoding graph commands as ordered effects',
'P31': 'subspace HMM commands, heavy model operations opaque, data flow between them compared',
'P32': 'dataset creation and iteration, feature archives, utilities',
}

"""Which further properties an obligation decides, by the role of its target.

Specs name the properties they were written for; the roles below add the
cross-cutting ones (e.g. every mean-field grouping and every statistics
dictionary is part of P10)."""
import ast
import re

ROLES = [
    # mean-field factorisation / keys of the accumulated statistics
    (r'^beer\.models\..*\.(mean_field_factorization|accumulate|natural_form)$',
     'P10'),
    # latent posteriors kept between likelihood and accumulation
    (r'^beer\.models\.(mixture|mixtureset|hmm|phoneloop|vae|gsm):.*\.'
     r'(expected_log_likelihood|accumulate|local_kl_div_posterior_prior|'
     r'_local_kl_divergence)$', 'P09'),
    (r'^beer\.models\.modelset:DynamicallyOrderedModelSet\.'
     r'(expected_log_likelihood|accumulate)$', 'P09'),
    # priors are never learnt, posteriors start as separate objects
    (r'^beer\.models\..*:(_default.*|.*\.create)$', 'P05'),
    (r'^beer\.dists\..*\.(update_from_natural_parameters|conjugate|'
     r'from_std_parameters|__getitem__)$', 'P05'),
    # what an update writes, and who is told
    (r'^beer\.models\..*\._on_.*$', 'P06'),
    (r'^beer\.models\.parameters:.*$', 'P06'),
    # selection of members of a set
    (r'^beer\.models\..*\.(__getitem__|__len__)$', 'P25'),
    # data-dependent likelihoods are part of one ELBO evaluation
    (r'^beer\.models\..*\.(expected_log_likelihood|sufficient_statistics|'
     r'local_kl_div_posterior_prior|kl_div_posterior_prior)$', 'P08'),
    # discrete latent variable models
    (r'^beer\.models\.basemodel:DiscreteLatentModel.*$', 'P14 P15'),
    # inference on a compiled graph is what an HMM's likelihood is made of
    (r'^beer\.graph:CompiledGraph\..*$', 'P14'),
    (r'^beer\.utils:onehot$', 'P14'),
    (r'^beer\.models\.modelset:DynamicallyOrderedModelSet.*$', 'P14'),
    # layouts shared by a prior and its likelihood
    (r'^beer\.dists\..*\.(natural_parameters|expected_sufficient_statistics)$',
     'P02'),
    (r'^beer\.dists\..*\.(pdfvectors_from_rvectors|parameters_from_pdfvector|'
     r'sufficient_statistics_dim)$', 'P26'),
    (r'^beer\.dists\..*\.(__getitem__|__len__)$', 'P25'),
    # nothing but an update writes to parameters or inputs
    (r'^beer\.(models|dists)\.', 'P05!effects'),
    (r'^beer\.inference\.objectives:evidence_lower_bound$', 'P05!effects'),
    # the standard parameters a distribution is built from
    (r'^beer\.dists\..*StdParams\.__init__$', 'P01 P25'),
    (r'^beer\.dists\.basedist:(ParametersView|ExponentialFamily)\..*$', 'P01'),
    (r'^beer\.dists\..*\.dim$', 'P01 P02'),
    # divergences are computed from natural parameters
    (r'^beer\.dists\..*\.(natural_parameters|sufficient_statistics)$', 'P03 P04'),
    # densities are read through the conjugate pair and its normaliser
    (r'^beer\.dists\..*\.(__call__|log_norm|conjugate|forward)$', 'P04'),
    (r'^beer\.dists\..*\.(forward|from_natural_parameters)$', 'P02'),
    (r'^beer\.models\.parameters:ConjugateBayesianParameter\.'
     r'(likelihood_fn|__init__|__getitem__)$', 'P25 P10'),
    # the statistics of an evaluation are part of the lower bound
    (r'^beer\.inference\.objectives:', 'P08'),
    (r'^beer\.models\..*\.accumulate$', 'P08'),
    (r'^beer\.models\.basemodel:Model\.(bayesian_parameters|'
     r'conjugate_bayesian_parameters)$', 'P08 P11'),
    (r'^beer\.models\.basemodel:Model\.accumulated_statistics$', 'P07'),
    (r'^beer\.models\.parameters:.*\.(natural_grad_update|store_stats)$',
     'P11'),
    # layout and keys of the statistics
    (r'^beer\.models\..*\.(accumulate_from_jointresps|_transform_stats|'
     r'__init__)$', 'P10'),
    # what the training commands are made of
    (r'^beer\.inference\.objectives:', 'P20'),
    (r'^beer\.inference\.optimizers:', 'P20'),
    (r'^beer\.graph:Graph\.', 'P30'),
    # command line
    (r'^beer\.cli\..*:(setup|main)$', 'P19'),
    (r'^beer\.cli\.dataset:', 'P21 P20'),
]

ALLOC = {'zeros', 'ones', 'eye', 'empty', 'full', 'tensor', 'arange', 'linspace',
         'zeros_like', 'ones_like', 'empty_like', 'full_like', 'randn_like',
         'rand_like', 'from_numpy', 'as_tensor', 'new_zeros', 'new_ones',
         'new_full', 'new_tensor', 'new_empty', 'randn', 'rand', 'type',
         'float', 'double', 'long', 'to', 'onehot', 'FloatTensor'}
RANDOM = {'randn', 'rand', 'randint', 'randperm', 'shuffle', 'permutation',
          'multinomial', 'normal_', 'uniform_', 'choice', 'randn_like',
          'rand_like', 'rsample', 'sorted', 'sort', 'manual_seed', 'seed',
          'xavier_uniform_', 'bernoulli', 'normal', 'uniform', 'Gamma',
          'Dirichlet', 'MultivariateNormal', 'sample'}


def called(x):
    f = x.func
    return f.attr if isinstance(f, ast.Attribute) else getattr(f, 'id', '')


def extra(target, node):
    """-> {property: what of a difference counts for it (None: anything)}"""
    out = {}

    def add(p, view=None):
        if p not in out or view is None:
            out[p] = view

    for pat, props in ROLES:
        if re.match(pat, target):
            for p in props.split():
                p, _, view = p.partition('!')
                add(p, ('mem',) if view == 'effects' else None)
    lib = target.startswith('beer.') and not target.startswith('beer.cli')
    for x in ast.walk(node):
        if lib and (isinstance(x, ast.Attribute) and x.attr in ('dtype', 'device')
                    or isinstance(x, ast.keyword) and
                    x.arg in ('dtype', 'device')):
            add('P18')
        if isinstance(x, ast.Call):
            n = called(x)
            if lib and n in ALLOC:
                add('P18')
            if target.startswith('beer.') and n in RANDOM:
                add('P21')
            # who is told about an update
            if lib and n in ('register_callback', 'dispatch'):
                add('P06')
        # what is kept between a likelihood and its accumulation
        if lib and isinstance(x, ast.Attribute) and \
                x.attr in ('cache', 'clear_cache', '_cache'):
            add('P09')
        if isinstance(x, (ast.Raise, ast.Assert)):
            add('P23')
    return out

import copy
import math
import torch
from beer.dists import NormalDiagonalCovariance
from beer.dists import NormalFullCovariance
from beer.inference.objectives import evidence_lower_bound
from beer.models.gsm import AffineTransform
from beer.models.gsm import GSM
from beer.models.gsm import GSMSetMeansParameter
from beer.models.gsm import LinearTransform
from beer.models.gsm import NoSubspaceBayesianParameters
from beer.models.gsm import SubspaceBayesianParameter
from beer.models.gsm import SubspaceBayesianParameterView
from beer.models.gsm import _MeanLogDiagCov
from beer.models.gsm import _MeanLogDiagLL
from beer.models.gsm import _entropy
from beer.models.gsm import _pdfvecs
from beer.models.gsm import _pdfvecs_from_rvecs
from beer.models.gsm import _rvecs_from_samples
from beer.models.gsm import _subspace_params
from beer.models.gsm import _svec_dim
from beer.models.gsm import _update_models
from beer.models.gsm import _update_params
from beer.models.gsm import _xentropy
from beer.models.normal import UnknownCovarianceType
from beer.models.parameters import BayesianParameter
from beer.models.parameters import ConjugateBayesianParameter


@spec('P26', 'beer.models.gsm:_MeanLogDiagCov.__init__')
def _(self, mean, log_diag_cov):
    super().__init__()
    if mean.requires_grad:
        self.register_parameter('mean', torch.nn.Parameter(mean))
    else:
        self.register_buffer('mean', mean)
    if log_diag_cov.requires_grad:
        self.register_parameter('log_diag_cov', torch.nn.Parameter(log_diag_cov))
    else:
        self.register_buffer('log_diag_cov', log_diag_cov)


@spec('P26', 'beer.models.gsm:_MeanLogDiagCov.diag_cov')
def _(self):
    return 0.0001 + self.log_diag_cov.exp()


@spec('P26', 'beer.models.gsm:_MeanLogDiagLL.__init__')
def _(self, mean, log_diag_L, L_offdiag):
    super().__init__()
    if mean.requires_grad:
        self.register_parameter('mean', torch.nn.Parameter(mean))
    else:
        self.register_buffer('mean', mean)
    if log_diag_L.requires_grad:
        self.register_parameter('log_diag_L', torch.nn.Parameter(log_diag_L))
    else:
        self.register_buffer('log_diag_L', log_diag_L)
    if L_offdiag.requires_grad:
        self.register_parameter('L_offdiag', torch.nn.Parameter(L_offdiag))
    else:
        self.register_buffer('L_offdiag', L_offdiag)


@spec('P26', 'beer.models.gsm:_MeanLogDiagLL.cov')
def _(self):
    diag_L = 0.001 + self.log_diag_L.exp()
    L_offdiag = self.L_offdiag
    size = len(self.mean.shape)
    ncomps = len(self.mean) if size > 1 else 1
    dim = self.mean.shape[-1]
    dtype = diag_L.dtype
    device = diag_L.device
    tril_indices = torch.ones(dim, dim, dtype=torch.long, device=device).tril(diagonal=-1).nonzero()
    L = torch.zeros(ncomps, dim, dim, dtype=dtype, device=device)
    L[:, range(dim), range(dim)] = diag_L
    L[:, tril_indices[:, 0], tril_indices[:, 1]] = L_offdiag
    cov = torch.matmul(L, L.permute(0, 2, 1))
    return cov


@spec('P26', 'beer.models.gsm:AffineTransform.create')
def _(cls, in_dim, out_dim, prior_strength=1.0):
    log_strength = -math.log(prior_strength)
    prior_bias = NormalDiagonalCovariance(_MeanLogDiagCov(mean=torch.zeros(out_dim, requires_grad=False), log_diag_cov=torch.zeros(out_dim, requires_grad=False) + log_strength))
    posterior_bias = NormalDiagonalCovariance(_MeanLogDiagCov(mean=torch.zeros(out_dim, requires_grad=True), log_diag_cov=torch.zeros(out_dim, requires_grad=True)))
    prior_weights = NormalDiagonalCovariance(_MeanLogDiagCov(mean=torch.zeros(in_dim * out_dim, requires_grad=False), log_diag_cov=torch.zeros(in_dim * out_dim, requires_grad=False) + log_strength))
    posterior_weights = NormalDiagonalCovariance(_MeanLogDiagCov(mean=torch.zeros(in_dim * out_dim, requires_grad=True), log_diag_cov=torch.zeros(in_dim * out_dim, requires_grad=True)))
    return cls(prior_weights, posterior_weights, prior_bias, posterior_bias)


@spec('P26', 'beer.models.gsm:AffineTransform.__init__')
def _(self, prior_weights, posterior_weights, prior_bias, posterior_bias):
    super().__init__()
    self.weights = BayesianParameter(prior_weights, posterior_weights)
    self.bias = BayesianParameter(prior_bias, posterior_bias)
    self._out_dim = self.bias.prior.dim
    self._in_dim = self.weights.prior.dim // self._out_dim


@spec('P26', 'beer.models.gsm:AffineTransform.in_dim')
def _(self):
    return self._in_dim


@spec('P26', 'beer.models.gsm:AffineTransform.out_dim')
def _(self):
    return self._out_dim


@spec('P26', 'beer.models.gsm:AffineTransform.forward')
def _(self, X, nsamples=1):
    s_b = self.bias.posterior.sample(nsamples)
    s_W = self.weights.posterior.sample(nsamples)
    s_W = s_W.reshape(-1, self.in_dim, self.out_dim)
    res = torch.matmul(X[None], s_W) + s_b[:, None, :]
    return res.permute(1, 0, 2)


@spec('P26', 'beer.models.gsm:AffineTransform.mean_field_factorization')
def _(self):
    return [[self.weights, self.bias]]


@spec('P26', 'beer.models.gsm:AffineTransform.sufficient_statistics')
def _(self, data):
    return data


@spec('P26', 'beer.models.gsm:AffineTransform.expected_log_likelihood')
def _(self, stats, **kwargs):
    raise NotImplementedError


@spec('P26', 'beer.models.gsm:AffineTransform.accumulate')
def _(self, stats):
    raise NotImplementedError


@spec('P26', 'beer.models.gsm:HierarchicalAffineTransform.create')
def _(cls, latent_prior, in_dim, out_dim, transform, cov_type='diagonal', latent_posterior=None):
    if latent_posterior is None:
        latent_posterior = cls.new_latent_posteriors(transform, 1, cov_type)
    return cls(latent_prior, latent_posterior, in_dim, out_dim, transform)


@spec('P26', 'beer.models.gsm:HierarchicalAffineTransform.__init__')
def _(self, latent_prior, latent_posterior, in_dim, out_dim, transform):
    super(AffineTransform, self).__init__()
    self._in_dim = in_dim
    self._out_dim = out_dim
    self.root_transform = transform
    self.latent_prior = latent_prior
    self.weights = self.root_transform.weights
    self.bias = self.root_transform.bias
    self.latent_posterior = latent_posterior


@spec('P26', 'beer.models.gsm:HierarchicalAffineTransform.new_latent_posteriors')
def _(transform, nposts, cov_type='diagonal'):
    if cov_type not in ['full', 'diagonal']:
        raise UnknownCovarianceType(f'{cov_type}')
    tensor = transform.bias.prior.params.mean
    dim = transform.in_dim
    dtype, device = (tensor.dtype, tensor.device)
    tensorconf = {'dtype': dtype, 'device': device, 'requires_grad': True}
    init_means = torch.zeros(nposts, dim, **tensorconf)
    init_log_diag_covs = torch.zeros(nposts, dim, **tensorconf) - math.log(dim)
    if cov_type == 'full':
        init_corrs = torch.zeros(nposts, int(0.5 * dim * (dim - 1)), **tensorconf)
        params = _MeanLogDiagLL(init_means, init_log_diag_covs, init_corrs)
        return NormalFullCovariance(params)
    params = _MeanLogDiagCov(init_means, init_log_diag_covs)
    return NormalDiagonalCovariance(params)


@spec('P26', 'beer.models.gsm:HierarchicalAffineTransform.forward')
def _(self, X, nsamples=5, params_nsamples=5):
    posts = self.latent_posterior.sample(nsamples)
    rvec = _rvecs_from_samples(posts, self.root_transform, params_nsamples)
    rvec_ndim = rvec.size(-1)
    weight_indim = self._in_dim
    weight_outdim = self._out_dim
    weight_mat_size = weight_indim * weight_outdim
    assert rvec_ndim == (weight_indim + 1) * weight_outdim
    s_W = rvec[:, :, :weight_mat_size]
    s_b = rvec[:, :, weight_mat_size:]
    s_W = s_W.reshape(-1, self.in_dim, self.out_dim)
    s_b = s_b.reshape(-1, self.out_dim)
    res = torch.matmul(X[None], s_W) + s_b[:, None, :]
    return res.permute(1, 0, 2)


@spec('P26', 'beer.models.gsm:HierarchicalAffineTransform.mean_field_factorization')
def _(self):
    return []


@spec('P26', 'beer.models.gsm:LinearTransform.create')
def _(cls, in_dim, out_dim, prior_strength=1.0):
    log_strength = -math.log(prior_strength)
    prior_weights = NormalDiagonalCovariance(_MeanLogDiagCov(mean=torch.zeros(in_dim * out_dim, requires_grad=False), log_diag_cov=torch.zeros(in_dim * out_dim, requires_grad=False) + log_strength))
    posterior_weights = NormalDiagonalCovariance(_MeanLogDiagCov(mean=torch.zeros(in_dim * out_dim, requires_grad=True), log_diag_cov=torch.zeros(in_dim * out_dim, requires_grad=True)))
    return cls(prior_weights, posterior_weights, out_dim)


@spec('P26', 'beer.models.gsm:LinearTransform.__init__')
def _(self, prior_weights, posterior_weights, out_dim):
    super().__init__()
    self.weights = BayesianParameter(prior_weights, posterior_weights)
    self._out_dim = out_dim
    self._in_dim = self.weights.prior.dim // self._out_dim


@spec('P26', 'beer.models.gsm:LinearTransform.in_dim')
def _(self):
    return self._in_dim


@spec('P26', 'beer.models.gsm:LinearTransform.out_dim')
def _(self):
    return self._out_dim


@spec('P26', 'beer.models.gsm:LinearTransform.forward')
def _(self, X, nsamples=1):
    s_W = self.weights.posterior.sample(nsamples)
    s_W = s_W.reshape(-1, self.in_dim, self.out_dim)
    res = torch.matmul(X[None], s_W)
    return res.permute(1, 0, 2)


@spec('P26', 'beer.models.gsm:LinearTransform.mean_field_factorization')
def _(self):
    return [[self.weights]]


@spec('P26', 'beer.models.gsm:LinearTransform.sufficient_statistics')
def _(self, data):
    return data


@spec('P26', 'beer.models.gsm:LinearTransform.expected_log_likelihood')
def _(self, stats, **kwargs):
    raise NotImplementedError


@spec('P26', 'beer.models.gsm:LinearTransform.accumulate')
def _(self, stats):
    raise NotImplementedError


@spec('P26', 'beer.models.gsm:SubspaceBayesianParameter.from_parameter')
def _(cls, parameter, prior):
    init_stats = parameter.stats.clone().detach()
    lhf = parameter.prior.conjugate()
    return cls(prior, init_stats=init_stats, likelihood_fn=lhf)


@spec('P26', 'beer.models.gsm:SubspaceBayesianParameter.__init__')
def _(self, prior, posterior=None, init_stats=None, likelihood_fn=None, pdfvec=None):
    super().__init__(prior, posterior, init_stats, likelihood_fn)
    pdfvec = pdfvec if pdfvec is not None else torch.zeros_like(self.stats)
    self.pdfvec = pdfvec


@spec('P26', 'beer.models.gsm:SubspaceBayesianParameter.value')
def _(self):
    return self.likelihood_fn.parameters_from_pdfvector(self.pdfvec)


@spec('P26', 'beer.models.gsm:SubspaceBayesianParameter.natural_form')
def _(self):
    return self.pdfvec


@spec('P26', 'beer.models.gsm:SubspaceBayesianParameter.kl_div_posterior_prior')
def _(self):
    dtype, device = (self.pdfvec.dtype, self.pdfvec.device)
    return torch.tensor(0.0, dtype=dtype, device=device, requires_grad=False)


@spec('P26', 'beer.models.gsm:SubspaceBayesianParameter.__getitem__')
def _(self, key):
    return SubspaceBayesianParameterView(key, self)


@spec('P26', 'beer.models.gsm:SubspaceBayesianParameterView.__init__')
def _(self, key, param):
    ConjugateBayesianParameter.__init__(self, param.prior, param.posterior, param.stats, param.likelihood_fn)
    del self.stats
    self.key = key
    self.param = param


@spec('P26', 'beer.models.gsm:SubspaceBayesianParameterView.stats')
def _(self):
    return self.param.stats[self.key]


@spec('P26', 'beer.models.gsm:SubspaceBayesianParameterView.stats=')
def _(self, value):
    self.param.stats[self.key] = value


@spec('P26', 'beer.models.gsm:SubspaceBayesianParameterView.pdfvec=')
def _(self, value):
    self.param.pdfvec[self.key] = value


@spec('P26', 'beer.models.gsm:SubspaceBayesianParameterView.pdfvec')
def _(self):
    return self.param.pdfvec[self.key]


@spec('P26', 'beer.models.gsm:SubspaceBayesianParameterView.pdfvec=')
def _(self, value):
    self.param.pdfvec[self.key] = value


@spec('P26', 'beer.models.gsm:SubspaceBayesianParameterView.value')
def _(self):
    return self.likelihood_fn.parameters_from_pdfvector(self.pdfvec)


@spec('P26', 'beer.models.gsm:SubspaceBayesianParameterView.natural_form')
def _(self):
    return self.pdfvec


@spec('P26', 'beer.models.gsm:SubspaceBayesianParameterView.kl_div_posterior_prior')
def _(self):
    return self.param.kl_div_posterior_prior()


@spec('P26', 'beer.models.gsm:SubspaceBayesianParameterView.__getitem__')
def _(self, key):
    return SubspaceBayesianParameterView(key, self.param)


@spec('P26', 'beer.models.gsm:_subspace_params')
def _(model):
    sbp_classes = (SubspaceBayesianParameter, SubspaceBayesianParameterView)
    pfilter = lambda param: isinstance(param, sbp_classes)
    for param in model.bayesian_parameters(paramfilter=pfilter):
        yield param


@spec('P26', 'beer.models.gsm:_svec_dim')
def _(model):

    def get_dim(param):
        lhf = param.likelihood_fn
        s_stats_dim = lhf.sufficient_statistics_dim(zero_stats=False)
        return s_stats_dim * len(param)
    return sum([get_dim(param) for param in _subspace_params(model)])


@spec('P26', 'beer.models.gsm:_pdfvecs')
def _(params, rvecs):
    idx = 0
    for param in params:
        lhf = param.likelihood_fn
        dim = lhf.sufficient_statistics_dim(zero_stats=False)
        npdfs = len(param)
        totdim = dim * npdfs
        param_rvecs = rvecs[:, idx:idx + totdim].reshape(-1, dim)
        pdfvec = lhf.pdfvectors_from_rvectors(param_rvecs)
        totdim_with_zerostats = npdfs * pdfvec.shape[-1]
        idx += totdim
        yield pdfvec.reshape(-1, totdim_with_zerostats)


@spec('P26', 'beer.models.gsm:_update_params')
def _(params, pdfvecs):
    idx = 0
    for param in params:
        totdim = param.stats.numel()
        shape = param.stats.shape
        param.pdfvec = pdfvecs[idx:idx + totdim].reshape(shape).detach()
        idx += totdim


@spec('P26', 'beer.models.gsm:_update_models')
def _(models, pdfvecs):
    for model, model_pdfvecs in zip(models, pdfvecs):
        params = _subspace_params(model)
        _update_params(params, model_pdfvecs)


@spec('P26', 'beer.models.gsm:_xentropy')
def _(s_h, model, **kwargs):
    shape = s_h.shape
    s_h = s_h.reshape(-1, s_h.shape[-1])
    stats = model.sufficient_statistics(s_h)
    stats = stats.reshape(shape[0], shape[1], -1).mean(dim=1)
    llh = model.expected_log_likelihood(stats, **kwargs)
    return (-llh.reshape(-1), stats.detach())


@spec('P26', 'beer.models.gsm:_entropy')
def _(s_h, dists):
    length, nsamples, dim = s_h.shape
    s_h = s_h.reshape(-1, s_h.shape[-1])
    stats = dists.sufficient_statistics(s_h)
    stats = stats.reshape(length, nsamples, -1).mean(dim=1)
    return -dists(stats, pdfwise=True)


@spec('P26', 'beer.models.gsm:_rvecs_from_samples')
def _(samples, transform, params_nsamples):
    shape = samples.shape
    samples = samples.reshape(-1, shape[-1])
    rvecs = transform(samples, params_nsamples)
    return rvecs.reshape(shape[0], -1, rvecs.shape[-1])


@spec('P26', 'beer.models.gsm:_pdfvecs_from_rvecs')
def _(rvecs, model):
    shape = rvecs.shape
    rvecs = rvecs.reshape(-1, rvecs.shape[-1])
    params = _subspace_params(model)
    list_pdfvecs = [pdfvecs for pdfvecs in _pdfvecs(params, rvecs)]
    pdfvecs = torch.cat(list_pdfvecs, dim=-1)
    return pdfvecs.reshape(shape[0], -1, pdfvecs.shape[-1])


@spec('P26', 'beer.models.gsm:GSM.create')
def _(cls, model, latent_dim, latent_prior, prior_strength=1.0):
    svec_dim = _svec_dim(model)
    if svec_dim == 0:
        raise NoSubspaceBayesianParameters('The model has to have at least one SubspaceBayesianParameter.')
    trans = AffineTransform.create(latent_dim, svec_dim, prior_strength=prior_strength)
    return cls(model, trans, latent_prior)


@spec('P26', 'beer.models.gsm:GSM.__init__')
def _(self, model, transform, latent_prior):
    super().__init__()
    self.model = model
    self.transform = transform
    self.latent_prior = latent_prior


@spec('P26', 'beer.models.gsm:GSM.new_models')
def _(self, nmodels, cov_type='diagonal', latent_nsamples=1, params_nsamples=1):
    latent_posteriors = self.new_latent_posteriors(nmodels, cov_type)
    models = [copy.deepcopy(self.model) for _ in range(nmodels)]
    for model in models:
        params = _subspace_params(model)
        for param in params:
            param.posterior = latent_posteriors
            param.pdfvec = torch.zeros_like(param.stats)
    samples = latent_posteriors.sample(latent_nsamples)
    rvecs = _rvecs_from_samples(samples, self.transform, params_nsamples)
    pdfvecs = _pdfvecs_from_rvecs(rvecs, self.model).mean(dim=1)
    _update_models(models, pdfvecs)
    return (models, latent_posteriors)


@spec('P26', 'beer.models.gsm:GSM.new_latent_posteriors')
def _(self, nposts, cov_type='diagonal'):
    if cov_type not in ['full', 'diagonal']:
        raise UnknownCovarianceType(f'{cov_type}')
    tensor = self.transform.bias.prior.params.mean
    dim = self.transform.in_dim
    dtype, device = (tensor.dtype, tensor.device)
    tensorconf = {'dtype': dtype, 'device': device, 'requires_grad': True}
    init_means = torch.zeros(nposts, dim, **tensorconf)
    init_log_diag_covs = torch.zeros(nposts, dim, **tensorconf) - math.log(dim)
    if cov_type == 'full':
        init_corrs = torch.zeros(nposts, int(0.5 * dim * (dim - 1)), **tensorconf)
        params = _MeanLogDiagLL(init_means, init_log_diag_covs, init_corrs)
        return NormalFullCovariance(params)
    params = _MeanLogDiagCov(init_means, init_log_diag_covs)
    return NormalDiagonalCovariance(params)


@spec('P26', 'beer.models.gsm:GSM.expected_pdfvecs')
def _(self, latent_posteriors, latent_nsamples=1, params_nsamples=1):
    s_h = latent_posteriors.sample(latent_nsamples)
    rvecs = _rvecs_from_samples(s_h, self.transform, params_nsamples)
    return _pdfvecs_from_rvecs(rvecs, self.model).mean(dim=1)


@spec('P26', 'beer.models.gsm:GSM.update_models')
def _(self, models, pdfvecs):
    return _update_models(models, pdfvecs)


@spec('P26', 'beer.models.gsm:GSM.mean_field_factorization')
def _(self):
    return [*self.latent_prior.mean_field_factorization(), *self.transform.mean_field_factorization()]


@spec('P26', 'beer.models.gsm:GSM.sufficient_statistics')
def _(self, models):
    self.cache['models'] = models
    stats = []
    for model in models:
        params = _subspace_params(model)
        stats.append(torch.cat([param.stats.view(1, -1) for param in params], dim=-1))
    return torch.cat(stats, dim=0)


@spec('P26', 'beer.models.gsm:GSM.expected_log_likelihood')
def _(self, stats, latent_posts, latent_nsamples=1, params_nsamples=1, update_models=True, **kwargs):
    nsamples = latent_nsamples * params_nsamples
    s_h = latent_posts.sample(latent_nsamples)
    xent, self.cache['lp_stats'] = _xentropy(s_h, self.latent_prior, **kwargs)
    ent = _entropy(s_h, latent_posts)
    local_kl_div = xent - ent
    rvecs = _rvecs_from_samples(s_h, self.transform, params_nsamples)
    pdfvecs = _pdfvecs_from_rvecs(rvecs, self.model).mean(dim=1)
    llh = (pdfvecs * stats).sum(dim=-1)
    if update_models:
        _update_models(self.cache['models'], pdfvecs)
    return llh - local_kl_div


@spec('P26', 'beer.models.gsm:GSM.accumulate')
def _(self, stats):
    return self.latent_prior.accumulate(self.cache['lp_stats'])


@spec('P26', 'beer.models.gsm:GSMSetMeansParameter.__init__')
def _(self, prior, posterior):
    super().__init__(prior, posterior)
    tensor = posterior.sample(1)
    dtype, device = (tensor.dtype, tensor.device)
    val = torch.tensor(0.0, dtype=dtype, device=device)
    self.register_buffer('kl_div', val)


@spec('P26', 'beer.models.gsm:GSMSetMeansParameter.kl_div_posterior_prior')
def _(self):
    return self.kl_div


@spec('P26', 'beer.models.gsm:GSMSet.create')
def _(cls, model, size, latent_dim, dlatent_dim, latent_prior, dlatent_prior, prior_strength=1.0):
    svec_dim = _svec_dim(model)
    if svec_dim == 0:
        raise NoSubspaceBayesianParameters('The model has to have at least one SubspaceBayesianParameter.')
    trans = AffineTransform.create(latent_dim, svec_dim, prior_strength=prior_strength)
    disc_trans = LinearTransform.create(dlatent_dim, svec_dim, prior_strength=prior_strength)
    dim = disc_trans.in_dim
    tensor = disc_trans.weights.prior.params.mean
    dtype, device = (tensor.dtype, tensor.device)
    tensorconf = {'dtype': dtype, 'device': device, 'requires_grad': True}
    means = torch.zeros(size, dim, **tensorconf)
    log_diag_covs = torch.zeros(size, dim, **tensorconf) - math.log(dim)
    params = _MeanLogDiagCov(means, log_diag_covs)
    means = GSMSetMeansParameter(dlatent_prior, NormalDiagonalCovariance(params))
    return cls(model, trans, disc_trans, means, latent_prior)


@spec('P26', 'beer.models.gsm:GSMSet.__init__')
def _(self, model, transform, disc_transform, means, latent_prior):
    super().__init__()
    self.model = model
    self.transform = transform
    self.means = means
    self.disc_transform = disc_transform
    self.latent_prior = latent_prior


@spec('P26', 'beer.models.gsm:GSMSet.new_models')
def _(self, nmodels, cov_type='diagonal', latent_nsamples=1, params_nsamples=1):
    return GSM.new_models(self, nmodels, cov_type, latent_nsamples, params_nsamples)


@spec('P26', 'beer.models.gsm:GSMSet.new_latent_posteriors')
def _(self, nposts, cov_type='diagonal'):
    return GSM.new_latent_posteriors(self, nposts, cov_type)


@spec('P26', 'beer.models.gsm:GSMSet.expected_pdfvecs')
def _(self, latent_posteriors, latent_nsamples=1, params_nsamples=1):
    return GSM.expected_pdfvecs(self, latent_posteriors, latent_nsamples, params_nsamples)


@spec('P26', 'beer.models.gsm:GSMSet.update_models')
def _(self, models, pdfvecs):
    return _update_models(models, pdfvecs)


@spec('P26', 'beer.models.gsm:GSMSet.mean_field_factorization')
def _(self):
    return [*self.latent_prior.mean_field_factorization(), [self.means], *self.means.prior.mean_field_factorization(), *self.transform.mean_field_factorization(), *self.disc_transform.mean_field_factorization()]


@spec('P26', 'beer.models.gsm:GSMSet.sufficient_statistics')
def _(self, models):
    self.cache['models'] = models
    stats = []
    for model in models:
        params = _subspace_params(model)
        stats.append(torch.cat([param.stats.view(1, -1) for param in params], dim=-1))
    return torch.cat(stats, dim=0)


@spec('P26', 'beer.models.gsm:GSMSet.expected_log_likelihood')
def _(self, stats, latent_posts, latent_nsamples=1, params_nsamples=1, update_models=True, **kwargs):
    nsamples = latent_nsamples * params_nsamples
    s_h = latent_posts.sample(latent_nsamples)
    s_means = self.means.posterior.sample(latent_nsamples)
    xent, self.cache['lp_stats'] = _xentropy(s_h, self.latent_prior, **kwargs)
    ent = _entropy(s_h, latent_posts)
    local_kl_div = xent - ent
    dxent, self.cache['dlp_stats'] = _xentropy(s_means, self.means.prior, **kwargs)
    dent = _entropy(s_means, self.means.posterior)
    dlocal_kl_div = (dxent - dent).sum()
    self.means.kl_div = dlocal_kl_div
    rvecs = _rvecs_from_samples(s_h, self.transform, params_nsamples)
    means_rvecs = _rvecs_from_samples(s_means, self.disc_transform, params_nsamples)
    frvecs = rvecs[None, :, :] + means_rvecs[:, None, :, :]
    frvecs = frvecs.reshape(-1, *frvecs.shape[2:])
    pdfvecs = _pdfvecs_from_rvecs(frvecs, self.model).mean(dim=1)
    pdfvecs = pdfvecs.reshape(len(self), len(latent_posts), -1)
    llh = (pdfvecs * stats).sum(dim=-1)
    if update_models:
        self.cache['pdfvecs'] = pdfvecs.detach()
    return (llh - local_kl_div).t()


@spec('P26', 'beer.models.gsm:GSMSet.accumulate')
def _(self, stats, resps):
    try:
        pdfvecs = self.cache['pdfvecs']
        pdfvecs = (resps.t()[:, :, None] * pdfvecs).sum(dim=0)
        _update_models(self.cache['models'], pdfvecs)
    except KeyError:
        pass
    return {**self.means.prior.accumulate(self.cache['dlp_stats']), **self.latent_prior.accumulate(self.cache['lp_stats'])}


@spec('P26', 'beer.models.gsm:GSMSet.__getitem__')
def _(self, key):
    pass


@spec('P26', 'beer.models.gsm:GSMSet.__len__')
def _(self):
    return len(self.means.posterior)


@spec('P26', 'beer.models.gsm:HierarchicalGSM.__init__')
def _(self, shared_transform, latent_prior):
    super().__init__()
    self.shared_transform = shared_transform
    self.latent_prior = latent_prior


@spec('P26', 'beer.models.gsm:HierarchicalGSM.sufficient_statistics')
def _(self, models_and_submodels):
    return models_and_submodels


@spec('P26', 'beer.models.gsm:HierarchicalGSM.expected_log_likelihood')
def _(self, stats, latent_posts, univ_latent_nsamples=1, **kwargs):
    sub_elbos = []
    self.cache['lp_stats'] = 0
    for (model, sub_model), latent_post in zip(stats, latent_posts):
        llh = evidence_lower_bound(model, sub_model, latent_posts=latent_post, **kwargs)
        s_h = model.transform.latent_posterior.sample(univ_latent_nsamples)
        xent, _stats = _xentropy(s_h, self.latent_prior)
        ent = _entropy(s_h, model.transform.latent_posterior)
        local_kl_div = xent - ent
        sub_elbos.append(llh.value - local_kl_div)
        self.cache['lp_stats'] += _stats
    return torch.stack(sub_elbos)


@spec('P26', 'beer.models.gsm:HierarchicalGSM.accumulate')
def _(self, stats):
    return self.latent_prior.accumulate(self.cache['lp_stats'])


@spec('P26', 'beer.models.gsm:HierarchicalGSM.mean_field_factorization')
def _(self):
    return [*self.latent_prior.mean_field_factorization(), *self.shared_transform.mean_field_factorization()]

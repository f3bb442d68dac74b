import torch
from beer.dists import IsotropicNormalGamma
from beer.dists import NormalGamma
from beer.dists import NormalWishart
from beer.models.normal import Normal
from beer.models.normal import UnknownCovarianceType
from beer.models.normal import _full_cov
from beer.models.normalset import _default_param
from beer.models.parameters import ConjugateBayesianParameter


@spec('P29', 'beer.models.normalset:_default_fullcov_param')
def _(mean, cov, size, prior_strength, noise_std, tensorconf):
    cov = _full_cov(cov, mean.shape[-1], tensorconf)
    means = mean.repeat(size, 1)
    noise = torch.randn(size, len(mean), **tensorconf) * noise_std * cov.diag().sqrt()[None, :]
    scale = torch.tensor(prior_strength, **tensorconf).repeat(size, 1)
    dof = torch.tensor(prior_strength + len(mean) - 1, **tensorconf).repeat(size, 1)
    scale_matrix = cov.inverse() / dof[:, :, None]
    prior = NormalWishart.from_std_parameters(means, scale, scale_matrix, dof)
    posterior = NormalWishart.from_std_parameters(means + noise, scale, scale_matrix, dof)
    return ConjugateBayesianParameter(prior, posterior)


@spec('P29', 'beer.models.normalset:_default_diagcov_param')
def _(mean, cov, size, prior_strength, noise_std, tensorconf):
    cov = _full_cov(cov, mean.shape[-1], tensorconf)
    means = mean.repeat(size, 1)
    noise = torch.randn(size, len(mean), **tensorconf) * noise_std * cov.diag().sqrt()[None, :]
    scale = torch.tensor(prior_strength, **tensorconf).repeat(size, 1)
    shape = torch.tensor(prior_strength, **tensorconf).repeat(size, 1)
    rates = prior_strength * cov.diag().repeat(size, 1)
    prior = NormalGamma.from_std_parameters(means, scale, shape, rates)
    posterior = NormalGamma.from_std_parameters(means + noise, scale, shape, rates)
    return ConjugateBayesianParameter(prior, posterior)


@spec('P29', 'beer.models.normalset:_default_isocov_param')
def _(mean, cov, size, prior_strength, noise_std, tensorconf):
    cov = _full_cov(cov, mean.shape[-1], tensorconf)
    variance = cov.diag().max()
    means = mean.repeat(size, 1)
    noise = torch.randn(size, len(mean), **tensorconf) * noise_std * cov.diag().sqrt()[None, :]
    scale = torch.tensor(prior_strength, **tensorconf).repeat(size, 1)
    shape = torch.tensor(prior_strength, **tensorconf).repeat(size, 1)
    rate = prior_strength * variance.repeat(size, 1)
    prior = IsotropicNormalGamma.from_std_parameters(means, scale, shape, rate)
    posterior = IsotropicNormalGamma.from_std_parameters(means + noise, scale, shape, rate)
    return ConjugateBayesianParameter(prior, posterior)


@spec('P29', 'beer.models.normalset:NormalSet.create')
def _(cls, mean, cov, size, prior_strength=1, noise_std=1.0, cov_type='full', shared_cov=False):
    if shared_cov:
        import warnings
        warnings.warn('The "NormalSet" with shared covariance is not supported anymore. The argument will be ignored.', DeprecationWarning, stacklevel=2)
    if cov_type not in _default_param:
        raise UnknownCovarianceType(f'Unknown covariance type: "{cov_type}"')
    tensorconf = {'dtype': mean.dtype, 'device': mean.device, 'requires_grad': False}
    mean = mean.detach()
    cov = cov.detach()
    makeparam = _default_param[cov_type]
    return cls(makeparam(mean, cov, size, prior_strength, noise_std, tensorconf))


@spec('P29', 'beer.models.normalset:NormalSet.__init__')
def _(self, means_precisions):
    super().__init__()
    self.means_precisions = means_precisions


@spec('P29', 'beer.models.normalset:NormalSet.sufficient_statistics')
def _(self, data):
    return self.means_precisions.likelihood_fn.sufficient_statistics(data)


@spec('P29', 'beer.models.normalset:NormalSet.mean_field_factorization')
def _(self):
    return [[self.means_precisions]]


@spec('P29', 'beer.models.normalset:NormalSet.expected_log_likelihood')
def _(self, stats):
    nparams = self.means_precisions.natural_form()
    return self.means_precisions.likelihood_fn(nparams, stats)


@spec('P29', 'beer.models.normalset:NormalSet.accumulate')
def _(self, stats, resps):
    w_stats = resps.t() @ stats
    return {self.means_precisions: w_stats}


@spec('P29', 'beer.models.normalset:NormalSet.__len__')
def _(self):
    return len(self.means_precisions)


@spec('P29', 'beer.models.normalset:NormalSet.__getitem__')
def _(self, key):
    if isinstance(key, slice):
        return self.__class__(self.means_precisions[key])
    return Normal(self.means_precisions[key])

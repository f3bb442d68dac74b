import torch
from beer.dists import IsotropicNormalGamma
from beer.dists import NormalGamma
from beer.dists import NormalWishart
from beer.models.normal import UnknownCovarianceType
from beer.models.normal import _default_param
from beer.models.normal import _full_cov
from beer.models.parameters import ConjugateBayesianParameter


@spec('P29', 'beer.models.normal:_full_cov')
def _(cov, dim, tensorconf):
    if len(cov.shape) == 1 and cov.shape[0] == 1:
        return cov * torch.eye(dim, **tensorconf)
    elif len(cov.shape) == 1:
        return cov.diag()
    return cov


@spec('P29', 'beer.models.normal:_default_fullcov_param')
def _(mean, cov, prior_strength, tensorconf):
    cov = _full_cov(cov, mean.shape[-1], tensorconf)
    scale = torch.tensor(prior_strength, **tensorconf)
    dof = torch.tensor(prior_strength + len(mean) - 1, **tensorconf)
    scale_matrix = cov.inverse() / dof
    prior = NormalWishart.from_std_parameters(mean, scale, scale_matrix, dof)
    posterior = NormalWishart.from_std_parameters(mean, scale, scale_matrix, dof)
    return ConjugateBayesianParameter(prior, posterior)


@spec('P29', 'beer.models.normal:_default_diagcov_param')
def _(mean, cov, prior_strength, tensorconf):
    cov = _full_cov(cov, mean.shape[-1], tensorconf)
    variance = cov.diag()
    scale = torch.tensor(prior_strength, **tensorconf)
    shape = torch.tensor(prior_strength, **tensorconf)
    rates = prior_strength * variance
    prior = NormalGamma.from_std_parameters(mean, scale, shape, rates)
    posterior = NormalGamma.from_std_parameters(mean, scale, shape, rates)
    return ConjugateBayesianParameter(prior, posterior)


@spec('P29', 'beer.models.normal:_default_isocov_param')
def _(mean, cov, prior_strength, tensorconf):
    cov = _full_cov(cov, mean.shape[-1], tensorconf)
    variance = cov.diag().max()
    scale = torch.tensor(prior_strength, **tensorconf)
    shape = torch.tensor(prior_strength, **tensorconf)
    rate = prior_strength * variance
    prior = IsotropicNormalGamma.from_std_parameters(mean, scale, shape, rate)
    posterior = IsotropicNormalGamma.from_std_parameters(mean, scale, shape, rate)
    return ConjugateBayesianParameter(prior, posterior)


@spec('P29', 'beer.models.normal:Normal.create')
def _(cls, mean, cov, prior_strength=1.0, cov_type='full'):
    if cov_type not in _default_param:
        raise UnknownCovarianceType(f'Unknown covariance type: "{cov_type}"')
    tensorconf = {'dtype': mean.dtype, 'device': mean.device, 'requires_grad': False}
    mean = mean.detach()
    cov = cov.detach()
    makeparam = _default_param[cov_type]
    return cls(makeparam(mean, cov, prior_strength, tensorconf))


@spec('P29', 'beer.models.normal:Normal.__init__')
def _(self, mean_precision):
    super().__init__()
    self.mean_precision = mean_precision


@spec('P29', 'beer.models.normal:Normal.mean')
def _(self):
    return self.mean_precision.value()[0]


@spec('P29', 'beer.models.normal:Normal.cov')
def _(self):
    precision = self.mean_precision.value()[1]
    if len(precision.shape) == 2:
        return precision.inverse()
    elif len(precision.shape) == 1 and precision.shape[0] > 1:
        return (1.0 / precision).diag()
    dim = len(self.mean)
    I = torch.eye(dim, dtype=precision.dtype, device=precision.device)
    return 1.0 / precision * I


@spec('P29', 'beer.models.normal:Normal.sufficient_statistics')
def _(self, data):
    return self.mean_precision.likelihood_fn.sufficient_statistics(data)


@spec('P29', 'beer.models.normal:Normal.mean_field_factorization')
def _(self):
    return [[self.mean_precision]]


@spec('P29', 'beer.models.normal:Normal.expected_log_likelihood')
def _(self, stats):
    nparams = self.mean_precision.natural_form()
    return self.mean_precision.likelihood_fn(nparams, stats)


@spec('P29', 'beer.models.normal:Normal.accumulate')
def _(self, stats, parent_msg=None):
    return {self.mean_precision: stats.sum(dim=0)}

import torch
from beer.dists import Gamma as GammaPdf
from beer.models.gamma import _default_param
from beer.models.parameters import ConjugateBayesianParameter


@spec('P29', 'beer.models.gamma:_default_param')
def _(mean, prior_strength):
    shape = torch.ones_like(mean) * prior_strength
    rate = prior_strength / mean
    prior = GammaPdf.from_std_parameters(shape, rate)
    posterior = GammaPdf.from_std_parameters(shape.clone(), rate.clone())
    return ConjugateBayesianParameter(prior, posterior)


@spec('P29', 'beer.models.gamma:Gamma.create')
def _(cls, mean, shape, prior_strength=1.0):
    tensorconf = {'dtype': mean.dtype, 'device': mean.device, 'requires_grad': False}
    shape = torch.tensor(shape, **tensorconf)
    mean = mean.detach()
    return cls(shape, _default_param(shape / mean, prior_strength))


@spec('P29', 'beer.models.gamma:Gamma.__init__')
def _(self, shape, rate):
    super().__init__()
    self.register_buffer('shape', shape)
    self.rate = rate


@spec('P29', 'beer.models.gamma:Gamma.mean')
def _(self):
    return self.shape / self.rate.value()


@spec('P29', 'beer.models.gamma:Gamma.sufficient_statistics')
def _(self, data):
    return self.rate.likelihood_fn.sufficient_statistics(data)


@spec('P29', 'beer.models.gamma:Gamma.mean_field_factorization')
def _(self):
    return [[self.rate]]


@spec('P29', 'beer.models.gamma:Gamma.expected_log_likelihood')
def _(self, stats):
    nparams = self.rate.natural_form()
    dim = nparams.shape[-1] // 2
    rate = nparams[:dim]
    log_rate = nparams[dim:]
    lnorm = torch.lgamma(self.shape) - self.shape * log_rate
    lnorm = lnorm.sum(dim=-1, keepdims=True)
    final_nparams = torch.cat([-rate, self.shape - 1, -lnorm], dim=-1)
    return self.rate.likelihood_fn(final_nparams, stats)


@spec('P29', 'beer.models.gamma:Gamma.accumulate')
def _(self, stats):
    dim = stats.shape[-1] // 2
    new_stats = torch.cat([-stats[:, :dim], torch.ones_like(stats[:, :dim]) * self.shape], dim=-1)
    return {self.rate: new_stats.sum(dim=0)}

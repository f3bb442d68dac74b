import torch
from beer.dists import Dirichlet
from beer.dists import Gamma
from beer.models.categorical import _default_concentration_param
from beer.models.categorical import _default_param
from beer.models.categorical import _default_sb_param
from beer.models.parameters import ConjugateBayesianParameter


@spec('P16', 'beer.models.categorical:_default_param')
def _(weights, prior_strength):
    prior = Dirichlet.from_std_parameters(weights * prior_strength)
    posterior = Dirichlet.from_std_parameters(weights * prior_strength)
    return ConjugateBayesianParameter(prior, posterior)


@spec('P16', 'beer.models.categorical:_default_sb_param')
def _(truncation, prior_strength):
    params = torch.ones(truncation, 2)
    params[:, 1] = prior_strength
    prior = Dirichlet.from_std_parameters(params)
    posterior = Dirichlet.from_std_parameters(params.clone())
    return ConjugateBayesianParameter(prior, posterior)


@spec('P16', 'beer.models.categorical:_default_concentration_param')
def _(mean, prior_strength):
    shape = torch.ones_like(mean) * prior_strength
    rate = prior_strength / mean
    prior = Gamma.from_std_parameters(shape, rate)
    posterior = Gamma.from_std_parameters(shape.clone(), rate.clone())
    return ConjugateBayesianParameter(prior, posterior)


@spec('P16', 'beer.models.categorical:Categorical.create')
def _(cls, weights, prior_strength=1.0):
    return cls(_default_param(weights.detach(), prior_strength))


@spec('P16', 'beer.models.categorical:Categorical.__init__')
def _(self, weights):
    super().__init__()
    self.weights = weights


@spec('P16', 'beer.models.categorical:Categorical.mean')
def _(self):
    return self.weights.value()


@spec('P16', 'beer.models.categorical:Categorical.sufficient_statistics')
def _(self, data):
    return self.weights.likelihood_fn.sufficient_statistics(data)


@spec('P16', 'beer.models.categorical:Categorical.mean_field_factorization')
def _(self):
    return [[self.weights]]


@spec('P16', 'beer.models.categorical:Categorical.expected_log_likelihood')
def _(self, stats):
    log_odds = self.weights.natural_form()
    return self.weights.likelihood_fn(log_odds, stats)


@spec('P16', 'beer.models.categorical:Categorical.accumulate')
def _(self, stats):
    return {self.weights: stats.sum(dim=0)}


@spec('P16', 'beer.models.categorical:SBCategorical.create')
def _(cls, truncation, prior_strength=1.0):
    return cls(_default_sb_param(truncation, prior_strength))


@spec('P16', 'beer.models.categorical:SBCategorical.__init__')
def _(self, stickbreaking):
    super().__init__()
    self.stickbreaking = stickbreaking
    device = self.stickbreaking.posterior.params.concentrations.device
    self.ordering = torch.arange(stickbreaking.posterior.dim[0], device=device)
    self.stickbreaking.register_callback(self._transform_stats, notify_before_update=True)


@spec('P16', 'beer.models.categorical:SBCategorical._transform_stats')
def _(self):
    stats = self.stickbreaking.stats
    self.ordering = stats.sort(descending=True)[1]
    stats = stats[self.ordering]
    s2 = torch.zeros_like(stats)
    s2[:-1] = stats[1:]
    s2 = torch.flip(torch.flip(s2, dims=(0,)).cumsum(dim=0), dims=(0,))
    new_stats = torch.cat([stats[:, None], s2[:, None]], dim=-1)
    new_stats[:, -1] += new_stats[:, :-1].sum(dim=-1)
    self.stickbreaking.stats = new_stats[self.reverse_ordering, :]


@spec('P16', 'beer.models.categorical:SBCategorical._log_v')
def _(self):
    c = self.stickbreaking.posterior.params.concentrations[self.ordering]
    s_dig = torch.digamma(c.sum(dim=-1))
    log_v = torch.digamma(c[:, 0]) - s_dig
    log_1_v = torch.digamma(c[:, 1]) - s_dig
    return (log_v, log_1_v)


@spec('P16', 'beer.models.categorical:SBCategorical._log_prob')
def _(self):
    log_v, log_1_v = self._log_v()
    log_prob = log_v
    log_prob[1:] += log_1_v[:-1].cumsum(dim=0)
    return (log_prob, log_1_v)


@spec('P16', 'beer.models.categorical:SBCategorical.reverse_ordering')
def _(self):
    reverse_ordering = torch.zeros_like(self.ordering)
    for i, j in enumerate(self.ordering):
        reverse_ordering[j] = i
    return reverse_ordering


@spec('P16', 'beer.models.categorical:SBCategorical.mean')
def _(self):
    c = self.stickbreaking.posterior.params.concentrations[self.ordering]
    norm = c.sum(dim=-1) + torch.finfo(c.dtype).eps
    weights = c[:, 0] / norm
    residual = (c[:, 1] / norm).cumprod(dim=0)
    weights[1:] *= residual[:-1]
    return weights[self.reverse_ordering]


@spec('P16', 'beer.models.categorical:SBCategorical.sufficient_statistics')
def _(self, data):
    return data


@spec('P16', 'beer.models.categorical:SBCategorical.mean_field_factorization')
def _(self):
    return [[self.stickbreaking]]


@spec('P16', 'beer.models.categorical:SBCategorical.expected_log_likelihood')
def _(self, stats):
    log_prob, _ = self._log_prob()
    return stats @ log_prob[self.reverse_ordering]


@spec('P16', 'beer.models.categorical:SBCategorical.accumulate')
def _(self, stats):
    return {self.stickbreaking: stats.sum(dim=0)}


@spec('P16', 'beer.models.categorical:SBCategoricalHyperPrior.create')
def _(cls, truncation, prior_strength=1.0, hyper_prior_strength=1.0):
    concentration = _default_concentration_param(torch.ones(1) * prior_strength, hyper_prior_strength)
    sb = _default_sb_param(truncation, prior_strength)
    return cls(sb, concentration)


@spec('P16', 'beer.models.categorical:SBCategoricalHyperPrior.__init__')
def _(self, stickbreaking, concentration):
    super().__init__(stickbreaking)
    self.concentration = concentration
    self.stickbreaking.register_callback(self._on_stickbreaking_update)
    self.concentration.register_callback(self._on_concentration_update)
    self._on_concentration_update()


@spec('P16', 'beer.models.categorical:SBCategoricalHyperPrior._on_concentration_update')
def _(self):
    self.stickbreaking.prior.params.concentrations[:, 1] = self.concentration.value()


@spec('P16', 'beer.models.categorical:SBCategoricalHyperPrior._on_stickbreaking_update')
def _(self):
    _, log_1_v = self._log_prob()
    pad = torch.ones_like(log_1_v)
    sb_stats = torch.cat([log_1_v[:, None], pad[:, None]], dim=-1)
    self.concentration.stats = sb_stats.sum(dim=0)
    self.concentration.natural_grad_update(lrate=1.0)

import torch
from beer.models.categorical import Categorical
from beer.utils import onehot


@spec('P15', 'beer.models.mixture:Mixture.create')
def _(cls, modelset, categorical=None, prior_strength=1.0):
    mf_groups = modelset.mean_field_factorization()
    tensor = mf_groups[0][0].prior.natural_parameters()
    tensorconf = {'dtype': tensor.dtype, 'device': tensor.device, 'requires_grad': False}
    if categorical is None:
        weights = torch.ones(len(modelset), **tensorconf)
        weights /= len(modelset)
        categorical = Categorical.create(weights, prior_strength)
    return cls(categorical, modelset)


@spec('P15', 'beer.models.mixture:Mixture.__init__')
def _(self, categorical, modelset):
    super().__init__(modelset)
    self.categorical = categorical


@spec('P15', 'beer.models.mixture:Mixture._log_weights')
def _(self, tensorconf):
    data = torch.eye(len(self.modelset), **tensorconf)
    stats = self.categorical.sufficient_statistics(data)
    return self.categorical.expected_log_likelihood(stats)


@spec('P15', 'beer.models.mixture:Mixture._local_kl_divergence')
def _(self, log_resps, log_weights):
    retval = torch.sum(log_resps.exp() * (log_resps - log_weights), dim=-1)
    return retval


@spec('P15', 'beer.models.mixture:Mixture.mean_field_factorization')
def _(self):
    l1 = self.modelset.mean_field_factorization()
    l2 = self.categorical.mean_field_factorization()
    diff = len(l1) - len(l2)
    if diff > 0:
        l2 += [[] for _ in range(abs(diff))]
    else:
        l1 += [[] for _ in range(abs(diff))]
    return [u + v for u, v in zip(l1, l2)]


@spec('P15', 'beer.models.mixture:Mixture.sufficient_statistics')
def _(self, data):
    return self.modelset.sufficient_statistics(data)


@spec('P15', 'beer.models.mixture:Mixture.expected_log_likelihood')
def _(self, stats, labels=None, **kwargs):
    tensorconf = {'dtype': stats.dtype, 'device': stats.device}
    log_weights = self._log_weights(tensorconf)[None]
    per_component_exp_llh = self.modelset.expected_log_likelihood(stats, **kwargs)
    if labels is None:
        w_per_component_exp_llh = (per_component_exp_llh + log_weights).detach()
        lnorm = torch.logsumexp(w_per_component_exp_llh, dim=1).view(-1, 1)
        log_resps = w_per_component_exp_llh - lnorm
        resps = log_resps.exp()
        local_kl_div = self._local_kl_divergence(log_resps, log_weights)
    else:
        resps = onehot(labels, len(self.modelset), dtype=log_weights.dtype, device=log_weights.device)
        local_kl_div = 0.0
    self.cache['resps'] = resps
    exp_llh = (per_component_exp_llh * resps).sum(dim=-1)
    return exp_llh - local_kl_div


@spec('P15', 'beer.models.mixture:Mixture.accumulate')
def _(self, stats):
    resps = self.cache['resps']
    resps_stats = self.categorical.sufficient_statistics(resps)
    retval = {**self.categorical.accumulate(resps_stats), **self.modelset.accumulate(stats, resps)}
    return retval


@spec('P15', 'beer.models.mixture:Mixture.posteriors')
def _(self, data):
    stats = self.modelset.sufficient_statistics(data)
    tensorconf = {'dtype': stats.dtype, 'device': stats.device}
    log_weights = self._log_weights(tensorconf).view(1, -1)
    per_component_exp_llh = self.modelset.expected_log_likelihood(stats)
    per_component_exp_llh += log_weights
    lognorm = torch.logsumexp(per_component_exp_llh, dim=1).view(-1)
    return torch.exp(per_component_exp_llh - lognorm.view(-1, 1))

import torch
from beer.dists import Dirichlet
from beer.models.categoricalset import CategoricalSet
from beer.models.mixture import Mixture
from beer.models.parameters import ConjugateBayesianParameter
from beer.utils import logsumexp


@spec('P15', 'beer.models.mixtureset:_default_param')
def _(weights, prior_strength):
    prior = Dirichlet.from_std_parameters(prior_strength * weights)
    posterior = Dirichlet.from_std_parameters(prior_strength * weights)
    return ConjugateBayesianParameter(prior, posterior)


@spec('P15', 'beer.models.mixtureset:MixtureSet.create')
def _(cls, size, modelset, prior_strength=1.0):
    bayes_param = modelset.mean_field_factorization()[0][0]
    tensor = bayes_param.prior.natural_parameters()
    dtype, device = (tensor.dtype, tensor.device)
    ncomp_per_mixture = len(modelset) // size
    weights = torch.ones(size, ncomp_per_mixture, dtype=dtype, device=device) / ncomp_per_mixture
    categoricalset = CategoricalSet.create(weights, prior_strength)
    return cls(categoricalset, modelset)


@spec('P15', 'beer.models.mixtureset:MixtureSet.__init__')
def _(self, categoricalset, modelset):
    super().__init__()
    self.categoricalset = categoricalset
    self.modelset = modelset


@spec('P15', 'beer.models.mixtureset:MixtureSet.n_comp_per_mixture')
def _(self):
    return len(self.modelset) // len(self)


@spec('P15', 'beer.models.mixtureset:MixtureSet._log_weights')
def _(self, tensorconf):
    data = torch.eye(self.n_comp_per_mixture, **tensorconf)
    stats = self.categoricalset.sufficient_statistics(data)
    return self.categoricalset.expected_log_likelihood(stats).t()


@spec('P15', 'beer.models.mixtureset:MixtureSet.mean_field_factorization')
def _(self):
    l1 = self.modelset.mean_field_factorization()
    l2 = self.categoricalset.mean_field_factorization()
    diff = len(l1) - len(l2)
    if diff > 0:
        l2 += [[] for _ in range(abs(diff))]
    else:
        l1 += [[] for _ in range(abs(diff))]
    return [u + v for u, v in zip(l1, l2)]


@spec('P15', 'beer.models.mixtureset:MixtureSet.sufficient_statistics')
def _(self, data):
    return self.modelset.sufficient_statistics(data)


@spec('P15', 'beer.models.mixtureset:MixtureSet.expected_log_likelihood')
def _(self, stats):
    tensorconf = {'dtype': stats.dtype, 'device': stats.device}
    log_weights = self._log_weights(tensorconf)
    pc_exp_llhs = self.modelset.expected_log_likelihood(stats)
    pc_exp_llhs = pc_exp_llhs.reshape(-1, len(self), self.n_comp_per_mixture)
    w_pc_exp_llhs = pc_exp_llhs + log_weights[None]
    log_norm = logsumexp(w_pc_exp_llhs.detach(), dim=-1)
    log_resps = w_pc_exp_llhs.detach() - log_norm[:, :, None]
    resps = log_resps.exp()
    self.cache['resps'] = resps
    return log_norm


@spec('P15', 'beer.models.mixtureset:MixtureSet.accumulate')
def _(self, stats, resps):
    m_resps = self.cache['resps']
    jointresps = m_resps * resps[:, :, None]
    totalresps = jointresps.reshape(-1, len(self) * self.n_comp_per_mixture)
    shape = jointresps.shape
    jointresps = jointresps.reshape(-1, shape[-1])
    jointresps = self.categoricalset.sufficient_statistics(jointresps)
    jointresps = jointresps.reshape(shape)
    retval = {**self.categoricalset.accumulate_from_jointresps(jointresps), **self.modelset.accumulate(stats, totalresps)}
    return retval


@spec('P15', 'beer.models.mixtureset:MixtureSet.__len__')
def _(self):
    return len(self.categoricalset)


@spec('P15', 'beer.models.mixtureset:MixtureSet.__getitem__')
def _(self, key):
    ncpm = self.n_comp_per_mixture
    if isinstance(key, int):
        if key < 0:
            key += len(self)
        s = slice(key * ncpm, (key + 1) * ncpm)
        return Mixture(self.categoricalset[key], self.modelset[s])
    if isinstance(key, slice):
        start, stop, step = key.indices(len(self))
        if step != 1:
            raise IndexError(f'Unsupported index: {key}')
        new_s = slice(start * ncpm, stop * ncpm)
        return self.__class__(self.categoricalset[key], self.modelset[new_s])
    raise IndexError(f'Unsupported index: {key}')

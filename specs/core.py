"""Parameters, model base class, objective and optimisers."""
import pickle
import torch
import uuid
from beer.dists import kl_div
from beer.models.basemodel import Model
from beer.models.parameters import ConjugateBayesianParameter
from beer.inference.objectives import EvidenceLowerBoundInstance
from beer.inference.objectives import add_acc_stats

BP = 'beer.models.parameters:BayesianParameter'


# ---------------------------------------------------------------- parameters
@spec('P05 P06', 'beer.models.parameters:BayesianParameter.__init__')
def _(self, prior, posterior=None):
    super().__init__()
    self.prior = prior
    self.posterior = posterior
    self.uuid = uuid.uuid4()
    self._callbacks = set()


@spec('P07 P10', 'beer.models.parameters:BayesianParameter.__hash__')
def _(self):
    return hash(self.uuid)


@spec('P07 P10', 'beer.models.parameters:BayesianParameter.__eq__')
def _(self, other):
    return hash(self) == hash(other)


@spec('P25', 'beer.models.parameters:BayesianParameter.__len__')
def _(self):
    return len(self.prior)


@spec('P25 P05', 'beer.models.parameters:BayesianParameter.__getitem__')
def _(self, key):
    return self.__class__(prior=self.prior[key], posterior=self.posterior[key])


@spec('P06', 'beer.models.parameters:BayesianParameter.register_callback')
def _(self, callback, notify_before_update=False):
    self._callbacks.add((callback, notify_before_update))


@spec('P06', 'beer.models.parameters:BayesianParameter.dispatch')
def _(self, before_update=False):
    for f, before in self._callbacks:
        if before == before_update:
            f()


@spec('P04', 'beer.models.parameters:BayesianParameter.value')
def _(self):
    return self.posterior.expected_value()


@spec('P03 P08', 'beer.models.parameters:BayesianParameter.kl_div_posterior_prior')
def _(self):
    return kl_div(self.posterior, self.prior)


@spec('P05 P07', 'beer.models.parameters:ConjugateBayesianParameter.__init__')
def _(self, prior, posterior, init_stats=None, likelihood_fn=None):
    super().__init__(prior, posterior)
    stats = init_stats
    if stats is None:
        stats = torch.zeros_like(prior.natural_parameters())
    self.register_buffer('stats', stats.clone().detach())
    self.likelihood_fn = likelihood_fn if likelihood_fn is not None \
        else prior.conjugate()


@spec('P25', 'beer.models.parameters:ConjugateBayesianParameter.__len__',
      contexts=[{'self.stats': 1}, {'self.stats': 2}])
def _(self):
    return len(self.stats) if len(self.stats.shape) > 1 else 1


@spec('P25 P05', 'beer.models.parameters:ConjugateBayesianParameter.__getitem__')
def _(self, key):
    return self.__class__(prior=self.prior[key], posterior=self.posterior[key],
                          init_stats=self.stats[key],
                          likelihood_fn=self.likelihood_fn)


@spec('P07 P11', 'beer.models.parameters:ConjugateBayesianParameter.zero_stats')
def _(self):
    self.stats.zero_()


@spec('P07', 'beer.models.parameters:ConjugateBayesianParameter.store_stats')
def _(self, acc_stats):
    # stored, not added, and never attached to the computation graph
    if acc_stats.requires_grad:
        self.stats = acc_stats.clone().detach()
    else:
        self.stats = acc_stats


@spec('P06 P29', 'beer.models.parameters:ConjugateBayesianParameter.natural_form')
def _(self):
    return self.posterior.expected_sufficient_statistics()


@spec('P05 P06', 'beer.models.parameters:ConjugateBayesianParameter.natural_grad_update')
def _(self, lrate):
    self.dispatch(before_update=True)
    prior = self.prior.natural_parameters()
    post = self.posterior.natural_parameters()
    grad = prior + self.stats - post
    self.posterior.update_from_natural_parameters(post + lrate * grad)
    self.dispatch(before_update=False)


# ---------------------------------------------------------------- base model
@spec('P09', 'beer.models.basemodel:Model.__init__')
def _(self):
    super().__init__()
    self._cache = {}


@spec('P09', 'beer.models.basemodel:Model.cache')
def _(self):
    return self._cache


@spec('P09', 'beer.models.basemodel:Model.clear_cache')
def _(self):
    # the model's own cache and that of every model nested in it
    self._cache = {}
    for m in self.modules():
        if m is not self and isinstance(m, Model):
            m.clear_cache()


@spec('P10', 'beer.models.basemodel:Model.bayesian_parameters')
def _(self, paramtype=None, paramfilter=None, keepgroups=False):
    def keep(p):
        return (paramtype is None or type(p) == paramtype) and \
            (paramfilter is None or paramfilter(p))
    for group in self.mean_field_factorization():
        if keepgroups:
            kept = [p for p in group if keep(p)]
            if len(kept) > 0:
                yield kept
        else:
            for p in group:
                if keep(p):
                    yield p


@spec('P10 P11', 'beer.models.basemodel:Model.conjugate_bayesian_parameters')
def _(self, keepgroups=False):
    return self.bayesian_parameters(paramtype=ConjugateBayesianParameter,
                                    keepgroups=keepgroups)


@spec('P08 P03', 'beer.models.basemodel:Model.kl_div_posterior_prior')
def _(self):
    return sum([p.kl_div_posterior_prior().sum()
                for p in self.bayesian_parameters()])


@spec('P10', 'beer.models.basemodel:Model.accumulated_statistics')
def _(self):
    return torch.cat([p.posterior.natural_parameters()
                      - p.prior.natural_parameters()
                      for p in self.bayesian_parameters()])


@spec('P26', 'beer.models.basemodel:Model.replace_parameters')
def _(self, paramsmap):
    Model._replace_params(self, paramsmap)


@spec('P14 P15', 'beer.models.basemodel:DiscreteLatentModel.__init__')
def _(self, modelset):
    super().__init__()
    self.modelset = modelset


# ---------------------------------------------------------------- objective
@spec('P07', 'beer.inference.objectives:add_acc_stats')
def _(acc_stats1, acc_stats2):
    k1, k2 = set(acc_stats1.keys()), set(acc_stats2.keys())
    out = {}
    for k in k1.intersection(k2):
        out[k] = acc_stats1[k] + acc_stats2[k]
    for k in k1.difference(k2):
        out[k] = acc_stats1[k]
    for k in k2.difference(k1):
        out[k] = acc_stats2[k]
    return out


@spec('P07', 'beer.inference.objectives:scale_acc_stats')
def _(acc_stats, scale):
    return {k: scale * v for k, v in acc_stats.items()}


@spec('P07', 'beer.inference.objectives:EvidenceLowerBoundInstance.__init__')
def _(self, value, acc_stats, model_parameters, minibatchsize, datasize):
    self.value = value
    self._acc_stats = acc_stats
    self._model_parameters = set(model_parameters)
    self._minibatchsize = minibatchsize
    self._datasize = datasize


@spec('P07', 'beer.inference.objectives:EvidenceLowerBoundInstance.__float__')
def _(self):
    return float(self.value)


@spec('P07', 'beer.inference.objectives:EvidenceLowerBoundInstance.__add__',
      opaque=('beer.inference.objectives:add_acc_stats',))
def _(self, other):
    if not isinstance(other, EvidenceLowerBoundInstance):
        raise ValueError('')
    if self._datasize != other._datasize:
        raise ValueError('')
    return EvidenceLowerBoundInstance(
        self.value + other.value,
        add_acc_stats(self._acc_stats, other._acc_stats),
        self._model_parameters.union(other._model_parameters),
        self._minibatchsize + other._minibatchsize, self._datasize)


@spec('P07 P06', 'beer.inference.objectives:EvidenceLowerBoundInstance.backward')
def _(self, std_params=True):
    if std_params and self.value.requires_grad:
        (-self.value).backward()
    scale = self._datasize / self._minibatchsize
    for p in self._model_parameters:
        try:
            p.store_stats(scale * self._acc_stats[p])
        except KeyError:
            pass


@spec('P07', 'beer.inference.objectives:EvidenceLowerBoundInstance.sync')
def _(self, model):
    self._model_parameters = set(model.bayesian_parameters())


@spec('P07 P08 P09', 'beer.inference.objectives:evidence_lower_bound')
def _(model=None, minibatch_data=None, datasize=-1, **kwargs):
    if model is None and minibatch_data is None and datasize > 0:
        return EvidenceLowerBoundInstance(0., {}, [], 0, datasize)
    if model is None or minibatch_data is None:
        raise ValueError('')
    n = len(minibatch_data)
    total = datasize if datasize > 0 else n
    stats = model.sufficient_statistics(minibatch_data)
    llh = model.expected_log_likelihood(stats, **kwargs)
    kl = model.kl_div_posterior_prior().sum()
    # the likelihood is scaled to the data set, the divergence is counted once
    value = float(total / float(n)) * llh.sum() - kl
    acc = model.accumulate(stats)
    # nothing computed for this batch survives it
    model.clear_cache()
    return EvidenceLowerBoundInstance(value, acc, model.bayesian_parameters(),
                                      n, total)


# ---------------------------------------------------------------- optimisers
@spec('P11', 'beer.inference.optimizers:VBConjugateOptimizer.__init__')
def _(self, groups, lrate=1.):
    # generators are expanded: they must survive the first pass
    self.groups = [list(g) for g in groups]
    self.lrate = lrate
    self.update_count = 0


@spec('P11', 'beer.inference.optimizers:VBConjugateOptimizer.state_dict')
def _(self):
    return {'lrate': self.lrate, 'update_count': self.update_count}


@spec('P11', 'beer.inference.optimizers:VBConjugateOptimizer.load_state_dict')
def _(self, state_dict):
    self.lrate = state_dict['lrate']
    self.update_count = state_dict['update_count']


@spec('P11', 'beer.inference.optimizers:VBConjugateOptimizer.init_step')
def _(self):
    for g in self.groups:
        for p in g:
            p.zero_stats()


@spec('P11', 'beer.inference.optimizers:VBConjugateOptimizer.step')
def _(self):
    # one mean-field group per step, in turn
    if len(self.groups) > 0:
        for p in self.groups[self.update_count % len(self.groups)]:
            p.natural_grad_update(self.lrate)
    self.update_count += 1


@spec('P11', 'beer.inference.optimizers:VBOptimizer.__init__')
def _(self, cjg_optim=None, std_optim=None):
    self.cjg_optim = cjg_optim
    self.std_optim = std_optim


@spec('P11', 'beer.inference.optimizers:VBOptimizer.state_dict')
def _(self):
    s = {}
    if self.cjg_optim is not None:
        s['cjg_optim'] = self.cjg_optim.state_dict()
    if self.std_optim is not None:
        s['std_optim'] = self.std_optim.state_dict()
    return s


@spec('P11', 'beer.inference.optimizers:VBOptimizer.load_state_dict')
def _(self, state_dict):
    if self.cjg_optim is not None:
        self.cjg_optim.load_state_dict(state_dict['cjg_optim'])
    if self.std_optim is not None:
        self.std_optim.load_state_dict(state_dict['std_optim'])


@spec('P11', 'beer.inference.optimizers:VBOptimizer.init_step')
def _(self):
    if self.cjg_optim is not None:
        self.cjg_optim.init_step()
    if self.std_optim is not None:
        self.std_optim.zero_grad()


@spec('P11', 'beer.inference.optimizers:VBOptimizer.step')
def _(self):
    if self.std_optim is not None:
        self.std_optim.step()
    if self.cjg_optim is not None:
        self.cjg_optim.step()


@spec('P26 P25', 'beer.models.basemodel:Model._replace_params')
def _(module, paramsmap):
    for name, child in module.named_children():
        if child in paramsmap:
            module.add_module(name, paramsmap[child])
        elif isinstance(child, (Model, torch.nn.ModuleList)):
            Model._replace_params(child, paramsmap)


@spec('P11', 'beer.inference.optimizers:VBOptimizer.load_state')
def _(self, path):
    with open(path, 'rb') as f:
        self.lrate, self.update_count = pickle.load(f)

import torch
from beer.dists import Dirichlet
from beer.dists import DirichletStdParams
from beer.models.categorical import Categorical
from beer.models.categorical import _default_param
from beer.models.categoricalset import DirichletLogParams
from beer.models.categoricalset import _default_set_sb_param
from beer.models.categoricalset import _lower_bound
from beer.models.parameters import ConjugateBayesianParameter


@spec('P16', 'beer.models.categoricalset:CategoricalSet.create')
def _(cls, weights, prior_strength=1.0):
    return cls(_default_param(weights.detach(), prior_strength))


@spec('P16', 'beer.models.categoricalset:CategoricalSet.__init__')
def _(self, weights):
    super().__init__()
    self.weights = weights


@spec('P16', 'beer.models.categoricalset:CategoricalSet.mean')
def _(self):
    return self.weights.value()


@spec('P16', 'beer.models.categoricalset:CategoricalSet.sufficient_statistics')
def _(self, data):
    return self.weights.likelihood_fn.sufficient_statistics(data)


@spec('P16', 'beer.models.categoricalset:CategoricalSet.mean_field_factorization')
def _(self):
    return [[self.weights]]


@spec('P16', 'beer.models.categoricalset:CategoricalSet.expected_log_likelihood')
def _(self, stats):
    nparams = self.weights.natural_form()
    return self.weights.likelihood_fn(nparams, stats)


@spec('P16', 'beer.models.categoricalset:CategoricalSet.accumulate')
def _(self, stats, resps):
    w_stats = resps.t() @ stats
    return {self.weights: w_stats}


@spec('P16', 'beer.models.categoricalset:CategoricalSet.accumulate_from_jointresps')
def _(self, jointresps_stats):
    return {self.weights: jointresps_stats.sum(dim=0)}


@spec('P16', 'beer.models.categoricalset:CategoricalSet.__len__')
def _(self):
    return len(self.weights)


@spec('P16', 'beer.models.categoricalset:CategoricalSet.__getitem__')
def _(self, key):
    if isinstance(key, slice):
        return self.__class__(self.weights[key])
    return Categorical(self.weights[key])


@spec('P16', 'beer.models.categoricalset:DirichletLogParams.__init__')
def _(self, log_concentrations):
    super().__init__()
    if log_concentrations.requires_grad:
        self.register_parameter('log_concentrations', torch.nn.Parameter(log_concentrations))
    else:
        self.register_buffer('log_concentrations', log_concentrations)


@spec('P16', 'beer.models.categoricalset:DirichletLogParams.concentrations')
def _(self):
    return self.log_concentrations.exp()


@spec('P16', 'beer.models.categoricalset:_lower_bound')
def _(sb_set, root_sbc, concentration):
    prob1 = root_sbc.mean[root_sbc.ordering]
    mean_prob = root_sbc.stickbreaking.value()[root_sbc.ordering, 0]
    log_prob1, log_1_v1 = root_sbc._log_prob()
    log_v2, log_1_v2 = sb_set._log_v()
    r_cumsum = log_1_v1.cumsum(dim=0)
    llh = 0 * log_v2.shape[0] * log_prob1.sum() + 0 * log_v2.shape[0] * r_cumsum.sum() + (log_v2 @ (concentration * prob1)).sum() + (log_1_v2 @ (concentration * (1 - mean_prob).cumprod(dim=0))).sum()
    lbound = llh - root_sbc.stickbreaking.kl_div_posterior_prior().sum()
    return lbound


@spec('P16', 'beer.models.categoricalset:_optimize_root_sb')
def _(sb_set, concentration, epochs, optim_cls, optim_args):
    root_sb = sb_set.root_sb_categorical.stickbreaking
    params_data = root_sb.posterior.params.concentrations.log().clone()
    root_sb.posterior.params = DirichletLogParams(params_data.requires_grad_(True))
    optim = optim_cls(root_sb.parameters(), **optim_args)
    elbos = []
    for i in range(epochs):
        optim.zero_grad()
        L = _lower_bound(sb_set, sb_set.root_sb_categorical, concentration)
        (-L).backward()
        elbos.append(float(L))
        optim.step()
    params_data = root_sb.posterior.params.concentrations.detach().clone()
    root_sb.posterior.params = DirichletStdParams(params_data.requires_grad_(False))
    sb_set.root_sb_categorical.stickbreaking.dispatch()
    return elbos


@spec('P16', 'beer.models.categoricalset:_default_set_sb_param')
def _(n_components, root_sb_categorical, prior_strength):
    mean = root_sb_categorical.mean
    tensorconf = {'dtype': mean.dtype, 'device': mean.device}
    params = torch.ones(n_components, len(root_sb_categorical.stickbreaking), 2, **tensorconf)
    params[:, :, 0] = prior_strength * mean
    residual = 1 - mean[root_sb_categorical.ordering].cumsum(dim=0)
    params[:, :, 1] = prior_strength * residual[root_sb_categorical.reverse_ordering]
    params = params.reshape(-1, 2)
    prior = Dirichlet.from_std_parameters(params)
    post = root_sb_categorical.stickbreaking.posterior
    params = post.params.concentrations.repeat(n_components, 1)
    posterior = Dirichlet.from_std_parameters(params.clone())
    return ConjugateBayesianParameter(prior, posterior)


@spec('P16', 'beer.models.categoricalset:SBCategoricalSet.create')
def _(cls, n_components, root_sb_categorical, prior_strength=1.0, optim_cls=torch.optim.Adam, optim_args=None, epochs=15000):
    if optim_args is None:
        optim_args = {'lr': 0.001}
    param = _default_set_sb_param(n_components, root_sb_categorical, prior_strength)
    return cls(n_components, param, root_sb_categorical, prior_strength, optim_cls, optim_args, epochs)


@spec('P16', 'beer.models.categoricalset:SBCategoricalSet.__init__')
def _(self, n_components, stickbreaking, root_sb_categorical, concentration, optim_cls, optim_args, epochs):
    super().__init__()
    self.n_components = n_components
    self.stickbreaking = stickbreaking
    self.root_sb_categorical = root_sb_categorical
    self.concentration = concentration
    self.optim_cls = optim_cls
    self.optim_args = optim_args
    self.epochs = epochs
    self.stickbreaking.register_callback(self._transform_stats, notify_before_update=True)


@spec('P16', 'beer.models.categoricalset:SBCategoricalSet._transform_stats')
def _(self):
    stats = self.stickbreaking.stats
    stats = stats[:, self.ordering]
    s2 = torch.zeros_like(stats)
    s2[:, :-1] = stats[:, 1:]
    s2 = torch.flip(torch.flip(s2, dims=(1,)).cumsum(dim=1), dims=(1,))
    new_stats = torch.cat([stats[:, :, None], s2[:, :, None]], dim=-1)
    new_stats[:, :, -1] += new_stats[:, :, :-1].sum(dim=-1)
    self.stickbreaking.stats = new_stats[:, self.reverse_ordering, :].reshape(-1, 2)


@spec('P16', 'beer.models.categoricalset:SBCategoricalSet._update_root_sb')
def _(self):
    mean = self.root_sb_categorical.mean
    tensorconf = {'dtype': mean.dtype, 'device': mean.device}
    params = torch.ones(self.n_components, len(self.root_sb_categorical.stickbreaking), 2, **tensorconf)
    params[:, :, 0] = self.concentration * mean
    residual = 1 - mean[self.ordering].cumsum(dim=0)
    params[:, :, 1] = self.concentration * residual[self.reverse_ordering]
    params = params.reshape(-1, 2)
    self.stickbreaking.prior = Dirichlet.from_std_parameters(params)


@spec('P16', 'beer.models.categoricalset:SBCategoricalSet.ordering')
def _(self):
    return self.root_sb_categorical.ordering


@spec('P16', 'beer.models.categoricalset:SBCategoricalSet.reverse_ordering')
def _(self):
    return self.root_sb_categorical.reverse_ordering


@spec('P16', 'beer.models.categoricalset:SBCategoricalSet._log_v')
def _(self):
    c = self.stickbreaking.posterior.params.concentrations
    c = c.reshape(self.n_components, -1, 2)[:, self.ordering, :]
    s_dig = torch.digamma(c.sum(dim=-1))
    log_v = torch.digamma(c[:, :, 0]) - s_dig
    log_1_v = torch.digamma(c[:, :, 1]) - s_dig
    return (log_v, log_1_v)


@spec('P16', 'beer.models.categoricalset:SBCategoricalSet._log_prob')
def _(self):
    log_v, log_1_v = self._log_v()
    log_prob = log_v
    log_prob[:, 1:] += log_1_v[:, :-1].cumsum(dim=1)
    return (log_prob, log_1_v)


@spec('P16', 'beer.models.categoricalset:SBCategoricalSet.mean')
def _(self):
    c = self.stickbreaking.posterior.params.concentrations
    c = c.reshape(self.n_components, -1, 2)[:, self.ordering, :]
    norm = c.sum(dim=-1) + torch.finfo(c.dtype).eps
    weights = c[:, :, 0] / norm
    residual = (c[:, :, 1] / norm).cumprod(dim=1)
    weights[:, 1:] *= residual[:, :-1]
    return weights[:, self.reverse_ordering]


@spec('P16', 'beer.models.categoricalset:SBCategoricalSet.sufficient_statistics')
def _(self, data):
    return data


@spec('P16', 'beer.models.categoricalset:SBCategoricalSet.mean_field_factorization')
def _(self):
    return [[self.stickbreaking]]


@spec('P16', 'beer.models.categoricalset:SBCategoricalSet.expected_log_likelihood')
def _(self, stats):
    log_prob, _ = self._log_prob()
    return stats @ log_prob[:, self.reverse_ordering].t()


@spec('P16', 'beer.models.categoricalset:SBCategoricalSet.accumulate')
def _(self, stats):
    raise NotImplementedError


@spec('P16', 'beer.models.categoricalset:SBCategoricalSet.accumulate_from_jointresps')
def _(self, stats):
    return {self.stickbreaking: stats.sum(dim=0)}

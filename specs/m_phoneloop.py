import torch
from beer.models.categorical import Categorical
from beer.models.categoricalset import CategoricalSet


@spec('P14', 'beer.models.phoneloop:PhoneLoop.create')
def _(cls, graph, start_pdf, end_pdf, modelset, categorical=None, prior_strength=1.0):
    bayes_param = modelset.mean_field_factorization()[0][0]
    tensor = bayes_param.prior.natural_parameters()
    dtype, device = (tensor.dtype, tensor.device)
    if categorical is None:
        weights = torch.ones(len(start_pdf), dtype=dtype, device=device)
        weights /= len(start_pdf)
        categorical = Categorical.create(weights, prior_strength)
    return cls(graph, modelset, start_pdf, end_pdf, categorical)


@spec('P14', 'beer.models.phoneloop:PhoneLoop.__init__')
def _(self, graph, modelset, start_pdf, end_pdf, categorical):
    super().__init__(graph, modelset)
    self.start_pdf = start_pdf
    self.end_pdf = end_pdf
    self.categorical = categorical
    param = self.categorical.mean_field_factorization()[0][0]
    param.register_callback(self._on_weights_update)
    self._on_weights_update()


@spec('P14', 'beer.models.phoneloop:PhoneLoop._on_weights_update')
def _(self):
    mean = self.categorical.mean
    tensorconf = {'dtype': mean.dtype, 'device': mean.device, 'requires_grad': False}
    data = torch.eye(len(self.start_pdf), **tensorconf)
    stats = self.categorical.sufficient_statistics(data)
    log_weights = self.categorical.expected_log_likelihood(stats)
    start_idxs = [value for value in self.start_pdf.values()]
    for end_idx in self.end_pdf.values():
        loop_prob = self.graph.trans_log_probs[end_idx, end_idx].exp()
        residual_log_prob = (1 - loop_prob).log()
        self.graph.trans_log_probs[end_idx, start_idxs] = residual_log_prob + log_weights


@spec('P14', 'beer.models.phoneloop:PhoneLoop.mean_field_factorization')
def _(self):
    l1 = self.modelset.mean_field_factorization()
    l2 = self.categorical.mean_field_factorization()
    diff = len(l1) - len(l2)
    if diff > 0:
        l2 += [[] for _ in range(abs(diff))]
    else:
        l1 += [[] for _ in range(abs(diff))]
    return [u + v for u, v in zip(l1, l2)]


@spec('P14', 'beer.models.phoneloop:PhoneLoop.expected_log_likelihood', label='keywords')
def _(self, *args, **kwargs):
    return super().expected_log_likelihood(*args, **kwargs)


@spec('P14', 'beer.models.phoneloop:PhoneLoop.expected_log_likelihood')
def _(self, stats, inference_graph, viterbi, state_path, scale):
    return super().expected_log_likelihood(stats, inference_graph, viterbi,
                                           state_path, scale)


@spec('P14', 'beer.models.phoneloop:PhoneLoop.accumulate')
def _(self, stats, parent_msg=None):
    retval = super().accumulate(stats, parent_msg)
    if 'trans_resps' in self.cache:
        trans_resps = self.cache['trans_resps'].sum(dim=0)
        start_idxs = [value for value in self.start_pdf.values()]
        end_idxs = [value for value in self.end_pdf.values()]
        phone_resps = trans_resps[:, start_idxs]
        phone_resps = phone_resps[end_idxs, :].sum(dim=0)
        phone_resps += self.cache['resps'][0][start_idxs]
        resps_stats = self.categorical.sufficient_statistics(phone_resps.view(1, -1))
        retval.update(self.categorical.accumulate(resps_stats))
    else:
        fake_stats = torch.zeros_like(self.categorical.mean, requires_grad=False)
        retval.update(self.categorical.accumulate(fake_stats[None, :]))
    return retval


@spec('P14', 'beer.models.phoneloop:BigramPhoneLoop.create')
def _(cls, graph, start_pdf, end_pdf, modelset, categoricalset=None, prior_strength=1.0):
    bayes_param = modelset.mean_field_factorization()[0][0]
    tensor = bayes_param.prior.natural_parameters()
    dtype, device = (tensor.dtype, tensor.device)
    if categoricalset is None:
        weights = torch.ones(len(start_pdf), len(start_pdf), dtype=dtype, device=device)
        weights /= len(start_pdf)
        categoricalset = CategoricalSet.create(weights, prior_strength)
    return cls(graph, modelset, start_pdf, end_pdf, categoricalset)


@spec('P14', 'beer.models.phoneloop:BigramPhoneLoop.__init__')
def _(self, graph, modelset, start_pdf, end_pdf, categoricalset):
    super().__init__(graph, modelset)
    self.start_pdf = start_pdf
    self.end_pdf = end_pdf
    self.categoricalset = categoricalset
    param = self.categoricalset.mean_field_factorization()[0][0]
    param.register_callback(self._on_weights_update)
    self._on_weights_update()


@spec('P14', 'beer.models.phoneloop:BigramPhoneLoop._on_weights_update')
def _(self):
    mean = self.categoricalset.mean
    tensorconf = {'dtype': mean.dtype, 'device': mean.device, 'requires_grad': False}
    data = torch.eye(len(self.start_pdf), **tensorconf)
    stats = self.categoricalset.sufficient_statistics(data)
    log_weights = self.categoricalset.expected_log_likelihood(stats)
    start_idxs = [value for value in self.start_pdf.values()]
    for i, end_idx in enumerate(self.end_pdf.values()):
        loop_prob = self.graph.trans_log_probs[end_idx, end_idx].exp()
        residual_log_prob = (1 - loop_prob).log()
        self.graph.trans_log_probs[end_idx, start_idxs] = residual_log_prob + log_weights[:, i]


@spec('P14', 'beer.models.phoneloop:BigramPhoneLoop.mean_field_factorization')
def _(self):
    l1 = self.modelset.mean_field_factorization()
    l2 = self.categoricalset.mean_field_factorization()
    diff = len(l1) - len(l2)
    if diff > 0:
        l2 += [[] for _ in range(abs(diff))]
    else:
        l1 += [[] for _ in range(abs(diff))]
    return [u + v for u, v in zip(l1, l2)]


@spec('P14', 'beer.models.phoneloop:BigramPhoneLoop.expected_log_likelihood', label='keywords')
def _(self, *args, **kwargs):
    return super().expected_log_likelihood(*args, **kwargs)


@spec('P14', 'beer.models.phoneloop:BigramPhoneLoop.expected_log_likelihood')
def _(self, stats, inference_graph, viterbi, state_path, scale):
    return super().expected_log_likelihood(stats, inference_graph, viterbi,
                                           state_path, scale)


@spec('P14', 'beer.models.phoneloop:BigramPhoneLoop.accumulate')
def _(self, stats, parent_msg=None):
    retval = super().accumulate(stats, parent_msg)
    if 'trans_resps' in self.cache:
        trans_resps = self.cache['trans_resps']
        start_idxs = [value for value in self.start_pdf.values()]
        end_idxs = [value for value in self.end_pdf.values()]
        phone_resps = trans_resps[:, :, start_idxs]
        phone_resps = phone_resps[:, end_idxs, :]
        resps_stats = self.categoricalset.sufficient_statistics(phone_resps)
        retval.update(self.categoricalset.accumulate_from_jointresps(resps_stats))
    else:
        fake_stats = torch.zeros_like(self.categoricalset.mean, requires_grad=False)
        retval.update(self.categoricalset.accumulate_from_jointresps(fake_stats[None, :]))
    return retval

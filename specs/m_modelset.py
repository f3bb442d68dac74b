import torch


@spec('P25', 'beer.models.modelset:JointModelSet.__init__')
def _(self, modelsets):
    super().__init__()
    self.modelsets = torch.nn.ModuleList(modelsets)


@spec('P25', 'beer.models.modelset:JointModelSet.mean_field_factorization')
def _(self):
    param_groups = []
    for modelset in self.modelsets:
        m_param_groups = modelset.mean_field_factorization()
        if len(m_param_groups) > 1:
            raise ValueError('Invalid model set: more than 1 mean field group')
        param_groups += m_param_groups[0]
    return [param_groups]


@spec('P25', 'beer.models.modelset:JointModelSet.sufficient_statistics')
def _(self, data):
    return self.modelsets[0].sufficient_statistics(data)


@spec('P25', 'beer.models.modelset:JointModelSet.expected_log_likelihood')
def _(self, stats):
    return torch.cat([modelset.expected_log_likelihood(stats) for modelset in self.modelsets], dim=-1)


@spec('P25', 'beer.models.modelset:JointModelSet.accumulate')
def _(self, stats, resps):
    acc_stats = {}
    start_idx = 0
    for modelset in self.modelsets:
        length = len(modelset)
        modelset_resps = resps[:, start_idx:start_idx + length]
        acc_stats.update(modelset.accumulate(stats, modelset_resps))
        start_idx += length
    return acc_stats


@spec('P25', 'beer.models.modelset:JointModelSet.__getitem__')
def _(self, key):
    if key < 0:
        raise ValueError('Unsupported negative index')
    total_length = 0
    for modelset in self.modelsets:
        if key < total_length + len(modelset):
            return modelset[key - total_length]
        total_length += len(modelset)
    raise IndexError('index out of range')


@spec('P25', 'beer.models.modelset:JointModelSet.__len__')
def _(self):
    length = 0
    for model in self.modelsets:
        length += len(model)
    return length


@spec('P25', 'beer.models.modelset:DynamicallyOrderedModelSet.__init__')
def _(self, original_modelset):
    super().__init__()
    self.original_modelset = original_modelset


@spec('P25', 'beer.models.modelset:DynamicallyOrderedModelSet.mean_field_factorization')
def _(self):
    return self.original_modelset.mean_field_factorization()


@spec('P25', 'beer.models.modelset:DynamicallyOrderedModelSet.sufficient_statistics')
def _(self, data):
    return self.original_modelset.sufficient_statistics(data)


@spec('P25', 'beer.models.modelset:DynamicallyOrderedModelSet.expected_log_likelihood')
def _(self, stats, order=None):
    if order is None:
        order = list(range(len(self.original_modelset)))
    dtype, device = (stats.dtype, stats.device)
    pc_exp_llh = self.original_modelset.expected_log_likelihood(stats)
    self.cache['order'] = order
    return pc_exp_llh[:, order]


@spec('P25', 'beer.models.modelset:DynamicallyOrderedModelSet.accumulate')
def _(self, stats, resps):
    order = self.cache['order']
    new_resps = torch.zeros((len(stats), len(self.original_modelset)), dtype=resps.dtype, device=resps.device)
    for i, val in enumerate(resps.t()):
        new_resps[:, order[i]] += val
    return self.original_modelset.accumulate(stats, new_resps)


@spec('P25', 'beer.models.modelset:DynamicallyOrderedModelSet.__getitem__')
def _(self, key):
    return self.original_modelset[key]


@spec('P25', 'beer.models.modelset:DynamicallyOrderedModelSet.__len__')
def _(self):
    return len(self.original_modelset)


@spec('P25', 'beer.models.modelset:RepeatedModelSet.__init__')
def _(self, modelset, repeat):
    super().__init__()
    self.modelset = modelset
    self.repeat = repeat


@spec('P25', 'beer.models.modelset:RepeatedModelSet.mean_field_factorization')
def _(self):
    return self.modelset.mean_field_factorization()


@spec('P25', 'beer.models.modelset:RepeatedModelSet.sufficient_statistics')
def _(self, data):
    return self.modelset.sufficient_statistics(data)


@spec('P25', 'beer.models.modelset:RepeatedModelSet.expected_log_likelihood')
def _(self, stats):
    llhs = self.modelset.expected_log_likelihood(stats)
    rep_llhs = llhs[:, None, :].repeat(1, self.repeat, 1)
    return rep_llhs.view(len(stats), -1)


@spec('P25', 'beer.models.modelset:RepeatedModelSet.accumulate')
def _(self, stats, resps):
    new_resps = resps.reshape(len(stats), self.repeat, -1).sum(dim=1)
    return self.modelset.accumulate(stats, new_resps)


@spec('P25', 'beer.models.modelset:RepeatedModelSet.__getitem__')
def _(self, key):
    return self.modelset[key % len(self.modelset)]


@spec('P25', 'beer.models.modelset:RepeatedModelSet.__len__')
def _(self):
    return len(self.modelset) * self.repeat

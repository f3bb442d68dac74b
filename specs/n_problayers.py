import math
import torch


@spec('P27', 'beer.nnet.problayers:NormalDiagonalCovarianceLayer.__init__')
def _(self, dim_in, dim_out, variance_nonlinearity=None):
    super().__init__()
    self.mean = torch.nn.Linear(dim_in, dim_out)
    self.logvar = torch.nn.Linear(dim_in, dim_out)
    if variance_nonlinearity is None:
        variance_nonlinearity = torch.nn.Softplus()
    self.variance_nonlinearity = variance_nonlinearity


@spec('P27', 'beer.nnet.problayers:NormalDiagonalCovarianceLayer.forward')
def _(self, inputs):
    return (self.mean(inputs), self.variance_nonlinearity(self.logvar(inputs)))


@spec('P27', 'beer.nnet.problayers:NormalDiagonalCovarianceLayer.samples_and_llh')
def _(self, params, use_mean=False):
    means, variances = params
    if use_mean:
        samples = means
    else:
        dtype, device = (means.dtype, means.device)
        noise = torch.randn(*means.shape, dtype=dtype, device=device)
        std_dev = variances.sqrt()
        samples = means + std_dev * noise
    llhs = self.log_likelihood(samples, params)
    return (samples, llhs)


@spec('P27', 'beer.nnet.problayers:NormalDiagonalCovarianceLayer.log_likelihood')
def _(self, data, params):
    means, variances = params
    dim = means.shape[-1]
    delta = torch.sum((data - means).pow(2) / variances, dim=-1)
    return -0.5 * (variances.log().sum(dim=-1) + delta + dim * math.log(2 * math.pi))


@spec('P27', 'beer.nnet.problayers:NormalIsotropicCovarianceLayer.__init__')
def _(self, dim_in, dim_out, variance_nonlinearity=None):
    super().__init__(dim_in, dim_out)
    self.mean = torch.nn.Linear(dim_in, dim_out)
    self.logvar = torch.nn.Linear(dim_in, 1)
    if variance_nonlinearity is None:
        variance_nonlinearity = torch.nn.Softplus()
    self.variance_nonlinearity = variance_nonlinearity


@spec('P27', 'beer.nnet.problayers:NormalIsotropicCovarianceLayer.forward')
def _(self, inputs):
    means = self.mean(inputs)
    padding = torch.ones_like(means)
    variances = self.variance_nonlinearity(self.logvar(inputs)) * padding
    return (means, variances)


@spec('P27', 'beer.nnet.problayers:NormalIdentityCovarianceLayer.__init__')
def _(self, dim_in, dim_out):
    super().__init__()
    self.mean = torch.nn.Linear(dim_in, dim_out)


@spec('P27', 'beer.nnet.problayers:NormalIdentityCovarianceLayer.forward')
def _(self, inputs):
    return self.mean(inputs)


@spec('P27', 'beer.nnet.problayers:NormalIdentityCovarianceLayer.samples_and_llh')
def _(self, params, use_mean=False):
    means = params
    if use_mean:
        samples = means
    else:
        dtype, device = (means.dtype, means.device)
        noise = torch.randn(*means.shape, dtype=dtype, device=device)
        samples = means + noise
    llhs = self.log_likelihood(samples, params)
    return (samples, llhs)


@spec('P27', 'beer.nnet.problayers:NormalIdentityCovarianceLayer.log_likelihood')
def _(self, data, params):
    means = params
    dim = means.shape[-1]
    delta = torch.sum((data - means).pow(2), dim=-1)
    return -0.5 * (delta + dim * math.log(2 * math.pi))


@spec('P27', 'beer.nnet.problayers:BernoulliLayer.__init__')
def _(self, dim_in, dim_out):
    super().__init__()
    self.mean = torch.nn.Linear(dim_in, dim_out)
    self.sigmoid = torch.nn.Sigmoid()


@spec('P27', 'beer.nnet.problayers:BernoulliLayer.forward')
def _(self, inputs):
    return self.sigmoid(self.mean(inputs))


@spec('P27', 'beer.nnet.problayers:BernoulliLayer.samples_and_llh')
def _(self, params, use_mean=False):
    raise NotImplementedError


@spec('P27', 'beer.nnet.problayers:BernoulliLayer.log_likelihood')
def _(self, data, params):
    means = params
    epsilon = 1e-06
    per_pixel_bce = data * torch.log(epsilon + means) + (1.0 - data) * torch.log(epsilon + 1 - means)
    return per_pixel_bce.sum(dim=-1)


@spec('P27', 'beer.nnet.problayers:InverseAutoRegressiveFlow.__init__')
def _(self, dim_in, flow_params_dim, normal_layer, nnet_flow):
    super().__init__()
    self.normal_layer = normal_layer
    self.flow_params = torch.nn.Linear(dim_in, flow_params_dim)
    self.nnet_flow = nnet_flow


@spec('P27', 'beer.nnet.problayers:InverseAutoRegressiveFlow.forward')
def _(self, inputs):
    flow_params = self.flow_params(inputs)
    normal_params = self.normal_layer(inputs)
    return (normal_params, flow_params)


@spec('P27', 'beer.nnet.problayers:InverseAutoRegressiveFlow.samples_and_llh')
def _(self, params, use_mean=False):
    normal_params, flow_params = params
    means, variances = normal_params
    dim = means.shape[-1]
    if use_mean:
        flow = means
        llhs = torch.zeros_like(means[:, 0]) - 0.5 * dim * math.log(2 * math.pi)
    else:
        dtype, device = (means.dtype, means.device)
        noise = torch.randn(*means.shape, dtype=dtype, device=device)
        std_dev = variances.sqrt()
        flow = means + std_dev * noise
        llhs = -0.5 * ((noise ** 2).sum(dim=-1) + dim * math.log(2 * math.pi))
    llhs -= 0.5 * torch.log(variances).sum(dim=-1)
    for flow_step in self.nnet_flow:
        new_means, new_variances = flow_step(flow, flow_params)
        flow = new_means + new_variances.sqrt() * flow
        llhs += -0.5 * new_variances.log().sum(dim=-1)
    return (flow, llhs)


@spec('P27', 'beer.nnet.problayers:InverseAutoRegressiveFlow.log_likelihood')
def _(self, data, params):
    raise NotImplementedError

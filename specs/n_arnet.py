import random
import torch
from beer.nnet.arnet import ARNetNormalDiagonalCovarianceLayer
from beer.nnet.arnet import MaskedLinear
from beer.nnet.arnet import SequentialMultipleInput
from beer.nnet.arnet import create_final_mask
from beer.nnet.arnet import create_mask
from beer.nnet.neuralnetwork import MergeTransform


@spec('P17', 'beer.nnet.arnet:create_mask')
def _(ordering, max_connections):
    in_dim, out_dim = (len(ordering), len(max_connections))
    retval = torch.zeros(out_dim, in_dim)
    for i, m_i in enumerate(max_connections):
        for j, order in enumerate(ordering):
            if m_i + 1 >= order + 1:
                retval[i, j] = 1
    return retval


@spec('P17', 'beer.nnet.arnet:create_final_mask')
def _(ordering, max_connections):
    out_dim, in_dim = (len(ordering), len(max_connections))
    retval = torch.zeros(out_dim, in_dim)
    for i, order in enumerate(ordering):
        for j, m_j in enumerate(max_connections):
            if order + 1 > m_j + 1:
                retval[i, j] = 1
    return retval


@spec('P17', 'beer.nnet.arnet:MaskedLinear.__init__')
def _(self, mask, linear_transform):
    super().__init__()
    self.register_buffer('_mask', mask)
    self._linear_transform = linear_transform


@spec('P17', 'beer.nnet.arnet:MaskedLinear.forward')
def _(self, data):
    return torch.nn.functional.linear(data, self._linear_transform.weight * self._mask, self._linear_transform.bias)


@spec('P17', 'beer.nnet.arnet:ARNetNormalDiagonalCovarianceLayer.__init__')
def _(self, mask, dim_in, dim_out):
    super().__init__()
    h2mean = torch.nn.Linear(dim_in, dim_out)
    self.h2mean = MaskedLinear(mask, h2mean)
    h2logvar = torch.nn.Linear(dim_in, dim_out)
    self.h2logvar = MaskedLinear(mask, h2logvar)


@spec('P17', 'beer.nnet.arnet:ARNetNormalDiagonalCovarianceLayer.forward')
def _(self, data):
    mean = self.h2mean(data)
    logvar = self.h2logvar(data)
    variance = 0.01 + torch.sigmoid(logvar)
    return ((1 - variance) * mean, variance)


@spec('P17', 'beer.nnet.arnet:SequentialMultipleInput.forward')
def _(self, *inputs):
    new_input = self[0](*inputs)
    if len(self) > 1:
        for module in self[1:]:
            new_input = module(new_input)
    return new_input


@spec('P17', 'beer.nnet.arnet:AutoRegressiveNetwork')
def _(dim_in, flow_params_dim, depth, width, activation):
    ordering = range(dim_in)
    layer_connections = []
    for i in range(depth):
        layer_connections.append(random.choices(range(0, dim_in - 1), k=width))
    arch = []
    previous_ordering = ordering
    previous_dim = dim_in
    for i in range(depth):
        ltrans = torch.nn.Linear(previous_dim, width)
        mask = create_mask(previous_ordering, layer_connections[i])
        if i > 0 or flow_params_dim == 0:
            arch.append(MaskedLinear(mask, ltrans))
        else:
            arch.append(MergeTransform(MaskedLinear(mask, ltrans), torch.nn.Linear(flow_params_dim, width)))
        arch.append(activation)
        previous_dim = width
        previous_ordering = layer_connections[i]
    mask = create_final_mask(ordering, layer_connections[-1])
    arch.append(ARNetNormalDiagonalCovarianceLayer(mask, width, dim_in))
    return SequentialMultipleInput(*arch)

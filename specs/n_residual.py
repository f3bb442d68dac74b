import torch
from beer.nnet.residual import ResidualFeedFowardBlock


@spec('P27', 'beer.nnet.residual:ResidualFeedFowardBlock.__init__')
def _(self, dim_in, width, activation_fn=torch.nn.Tanh):
    super().__init__()
    self.layer1 = torch.nn.Linear(dim_in, width)
    self.layer2 = torch.nn.Linear(width, dim_in)
    self.activation_fn = activation_fn()


@spec('P27', 'beer.nnet.residual:ResidualFeedFowardBlock.forward')
def _(self, x):
    h1 = self.activation_fn(self.layer1(x))
    h2 = self.activation_fn(self.layer2(h1))
    return h2 + x


@spec('P27', 'beer.nnet.residual:ResidualFeedForwardNet.__init__')
def _(self, dim_in, nblocks=1, block_width=10):
    super().__init__()
    self._dim_in = dim_in
    self.blocks = torch.nn.Sequential(*[ResidualFeedFowardBlock(dim_in, block_width) for i in range(nblocks)])


@spec('P27', 'beer.nnet.residual:ResidualFeedForwardNet.dim_in')
def _(self):
    return self._dim_in


@spec('P27', 'beer.nnet.residual:ResidualFeedForwardNet.dim_out')
def _(self):
    return self._dim_in


@spec('P27', 'beer.nnet.residual:ResidualFeedForwardNet.forward')
def _(self, X):
    return self.blocks(X)

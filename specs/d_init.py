import torch


@spec('P18 P04', 'beer.dists.normal:NormalFullCovarianceStdParams.__init__')
def _(self, mean, cov):
    super().__init__()
    self.register_buffer('mean', mean)
    self.register_buffer('cov', cov)


@spec('P18 P04', 'beer.dists.normaldiag:NormalDiagonalCovarianceStdParams.__init__')
def _(self, mean, diag_cov):
    super().__init__()
    self.register_buffer('mean', mean)
    self.register_buffer('diag_cov', diag_cov)


@spec('P18 P04', 'beer.dists.gamma:GammaStdParams.__init__')
def _(self, shape, rate):
    super().__init__()
    self.register_buffer('shape', shape)
    self.register_buffer('rate', rate)


@spec('P18 P04', 'beer.dists.dirichlet:DirichletStdParams.__init__')
def _(self, concentrations):
    super().__init__()
    self.register_buffer('concentrations', concentrations)


@spec('P18 P04', 'beer.dists.isonormalgamma:IsotropicNormalGammaStdParams.__init__')
def _(self, mean, scale, shape, rate):
    super().__init__()
    self.register_buffer('mean', mean)
    self.register_buffer('scale', scale)
    self.register_buffer('shape', shape)
    self.register_buffer('rate', rate)


@spec('P18 P04', 'beer.dists.normalgamma:NormalGammaStdParams.__init__')
def _(self, mean, scale, shape, rates):
    super().__init__()
    self.register_buffer('mean', mean)
    self.register_buffer('scale', scale)
    self.register_buffer('shape', shape)
    self.register_buffer('rates', rates)


@spec('P18 P04', 'beer.dists.normalwishart:NormalWishartStdParams.__init__')
def _(self, mean, scale, scale_matrix, dof):
    super().__init__()
    self.register_buffer('mean', mean)
    self.register_buffer('scale', scale)
    self.register_buffer('scale_matrix', scale_matrix)
    self.register_buffer('dof', dof)


@spec('P18 P04', 'beer.dists.basedist:ExponentialFamily.__init__')
def _(self, params):
    super().__init__()
    self.params = params


@spec('P25 P04 P01', 'beer.dists.basedist:ParametersView.__init__')
def _(self, ref, names, idx):
    super().__init__()
    self.ref = ref
    self.idx = idx
    for name in names:
        def getter(self, name=name):
            return getattr(self.ref, name)[self.idx]
        setattr(self.__class__, name, property(fget=getter))
    self.names = names

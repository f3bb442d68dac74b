"""Exponential-family distributions and their conjugate likelihoods."""
import math
import torch
from beer.dists.basedist import kl_div, entropy
from beer.dists.basedist import DistributionTypeMismatch
from beer.dists.basedist import SupportDimensionMismatch
from beer.dists.basedist import ParametersView
from beer.dists.basedist import MissingParameterAttribute
from beer.dists.normaldiag import NormalDiagonalCovarianceStdParams
from beer.dists.normaldiag import NormalFixedDiagonalCovarianceLikelihood
from beer.dists.normal import NormalFullCovarianceStdParams
from beer.dists.gamma import GammaLikelihood
from beer.dists.dirichlet import CategoricalLikelihood
from beer.dists.isonormalgamma import IsotropicNormalLikelihood
from beer.dists.normalgamma import NormalDiagonalLikelihood
from beer.dists.normalwishart import NormalLikelihood

LOG2PI = math.log(2 * math.pi)


# ---------------------------------------------------------------- generic
@spec('P03', 'beer.dists.basedist:kl_div')
def _(pdf1, pdf2):
    # KL(p1||p2) = A2 - A1 - E_p1[s] . (n2 - n1), same family, same support
    if pdf1.__class__ is not pdf2.__class__:
        raise DistributionTypeMismatch('')
    if pdf1.dim != pdf2.dim:
        raise SupportDimensionMismatch('')
    diff = pdf2.natural_parameters() - pdf1.natural_parameters()
    inner = (pdf1.expected_sufficient_statistics() * diff).sum(dim=-1)
    return pdf2.log_norm() - pdf1.log_norm() - inner


@spec('P03', 'beer.dists.basedist:entropy')
def _(pdf):
    # H = A - E[s] . n
    n, s = pdf.natural_parameters(), pdf.expected_sufficient_statistics()
    return pdf.log_norm() - (s * n).sum(dim=-1)


@spec('P01 P25', 'beer.dists.basedist:ExponentialFamily.__getitem__')
def _(self, idx):
    return self.__class__(ParametersView(
        self.params, tuple(self._std_params_def.keys()), idx))


@spec('P01', 'beer.dists.basedist:ParametersView.from_natural_parameters')
def _(self, natural_parameters):
    return self.ref.from_natural_parameters(natural_parameters)


@spec('P01', 'beer.dists.basedist:ExponentialFamily.from_std_parameters')
def _(cls, *args, **kwargs):
    return cls(cls._std_params_cls(*args, **kwargs))


@spec('P01 P06', ['beer.dists.normaldiag:NormalDiagonalCovariance.update_from_natural_parameters',
              'beer.dists.normal:NormalFullCovariance.update_from_natural_parameters',
              'beer.dists.gamma:Gamma.update_from_natural_parameters',
              'beer.dists.dirichlet:Dirichlet.update_from_natural_parameters',
              'beer.dists.isonormalgamma:IsotropicNormalGamma.update_from_natural_parameters',
              'beer.dists.normalgamma:NormalGamma.update_from_natural_parameters',
              'beer.dists.normalwishart:NormalWishart.update_from_natural_parameters'])
def _(self, natural_params):
    self.params = self.params.from_natural_parameters(natural_params)


@spec('P01 P25', ['beer.dists.normaldiag:NormalDiagonalCovariance.__len__',
                  'beer.dists.normal:NormalFullCovariance.__len__',
                  'beer.dists.isonormalgamma:IsotropicNormalGamma.__len__',
                  'beer.dists.normalgamma:NormalGamma.__len__',
                  'beer.dists.normalwishart:NormalWishart.__len__'],
      contexts=[{'self.params.mean': 1}, {'self.params.mean': 2}])
def _(self):
    return len(self.params.mean) if len(self.params.mean.shape) > 1 else 1


@spec('P01 P25', 'beer.dists.gamma:Gamma.__len__',
      contexts=[{'self.params.shape': 1}, {'self.params.shape': 2}])
def _(self):
    return len(self.params.shape) if len(self.params.shape.shape) > 1 else 1


@spec('P01 P25', 'beer.dists.dirichlet:Dirichlet.__len__',
      contexts=[{'self.params.concentrations': 1},
                {'self.params.concentrations': 2}])
def _(self):
    c = self.params.concentrations
    return len(c) if len(c.shape) > 1 else 1


# ------------------------------------------------- Normal, diagonal covariance
@spec('P01', 'beer.dists.normaldiag:NormalDiagonalCovariance.natural_parameters',
      contexts=[{'self.params.mean': 1, 'self.params.diag_cov': 1},
                {'self.params.mean': 2, 'self.params.diag_cov': 2}])
def _(self):
    m, v = self.params.mean, self.params.diag_cov
    return torch.cat([m / v, 1 / v], dim=-1)


@spec('P01', 'beer.dists.normaldiag:NormalDiagonalCovarianceStdParams.from_natural_parameters',
      contexts=[{'natural_params': 1}, {'natural_params': 2}])
def _(cls, natural_params):
    d = natural_params.shape[-1] // 2
    prec = natural_params[..., d:2 * d]
    return cls(natural_params[..., :d] / prec, 1 / prec)


@spec('P02', 'beer.dists.normaldiag:NormalDiagonalCovariance.sufficient_statistics')
def _(self, data):
    return torch.cat([data, -data ** 2 / 2], dim=-1)


@spec('P03', 'beer.dists.normaldiag:NormalDiagonalCovariance.expected_sufficient_statistics')
def _(self):
    m, v = self.params.mean, self.params.diag_cov
    return torch.cat([m, -(v + m ** 2) / 2], dim=-1)


@spec('P03', 'beer.dists.normaldiag:NormalDiagonalCovariance.log_norm')
def _(self):
    m, v = self.params.mean, self.params.diag_cov
    d = m.shape[-1]
    return ((m ** 2 / v).sum(dim=-1) + v.log().sum(dim=-1) + d * LOG2PI) / 2


@spec('P03', ['beer.dists.normaldiag:NormalDiagonalCovariance.dim',
              'beer.dists.normal:NormalFullCovariance.dim'])
def _(self):
    return self.params.mean.shape[-1]


@spec('P04', ['beer.dists.normaldiag:NormalDiagonalCovariance.expected_value',
              'beer.dists.normal:NormalFullCovariance.expected_value'])
def _(self):
    return self.params.mean


@spec('P04', 'beer.dists.normaldiag:NormalDiagonalCovariance.forward',
      contexts=[{'self.params.mean': 1, 'self.params.diag_cov': 1},
                {'self.params.mean': 2, 'self.params.diag_cov': 2}])
def _(self, stats, pdfwise=False):
    # log N(x; m, v) for every distribution and every row of statistics
    m, v = self.params.mean, self.params.diag_cov
    base = -self.dim * LOG2PI / 2
    single = len(m.shape) == 1
    n = self.natural_parameters()
    if single:
        n = n.view(1, -1)
        m = m.view(1, -1)
    A = (v.log().sum(dim=-1, keepdim=True)
         + (m ** 2 / v).sum(dim=-1, keepdim=True)).reshape(-1) / 2
    if pdfwise:
        return (n * stats).sum(dim=-1) - A + base
    llh = n @ stats.t() - A[:, None] + base
    return llh.reshape(-1) if single else llh


@spec('P04 P18', 'beer.dists.normaldiag:NormalDiagonalCovariance.sample',
      contexts=[{'self.params.mean': 1, 'self.params.diag_cov': 1},
                {'self.params.mean': 2, 'self.params.diag_cov': 2}])
def _(self, nsamples):
    m, v = self.params.mean, self.params.diag_cov
    single = len(m.shape) == 1
    if single:
        m, v = m.view(1, -1), v.view(1, -1)
    eps = torch.randn(m.shape[0], nsamples, m.shape[-1], dtype=m.dtype,
                      device=m.device)
    x = m[:, None, :] + v.sqrt()[:, None, :] * eps
    return x.view(-1, m.shape[-1]) if single else x


@spec('P02', 'beer.dists.normaldiag:NormalDiagonalCovariance.conjugate')
def _(self):
    return NormalFixedDiagonalCovarianceLikelihood(self.dim)


@spec('P02', 'beer.dists.normaldiag:NormalFixedDiagonalCovarianceLikelihood.sufficient_statistics')
def _(data):
    return torch.cat([data, torch.ones_like(
        data, dtype=data.dtype, device=data.device) * -.5], dim=-1)


@spec('P02', 'beer.dists.normaldiag:NormalFixedDiagonalCovarianceLikelihood.parameters_from_pdfvector')
def _(self, pdfvec):
    return pdfvec[:self.dim]


@spec('P02', 'beer.dists.normaldiag:NormalFixedDiagonalCovarianceLikelihood.pdfvectors_from_rvectors')
def _(self, rvecs):
    return torch.cat([rvecs, rvecs ** 2], dim=-1)


@spec('P02', ['beer.dists.normaldiag:NormalFixedDiagonalCovarianceLikelihood.__call__',
              'beer.dists.isonormalgamma:IsotropicNormalLikelihood.__call__',
              'beer.dists.normalgamma:NormalDiagonalLikelihood.__call__',
              'beer.dists.normalwishart:NormalLikelihood.__call__'],
      contexts=[{'pdfvecs': 1}, {'pdfvecs': 2}])
def _(self, pdfvecs, stats):
    if len(pdfvecs.shape) == 1:
        pdfvecs = pdfvecs.view(1, -1)
    return stats @ pdfvecs.t() - self.dim * LOG2PI / 2


# ------------------------------------------------- Normal, full covariance
def _as_set(m, c):
    d = m.shape[-1]
    if len(m.shape) == 1:
        return m.view(1, -1), c.view(1, d, d)
    return m, c


FULL = [{'self.params.mean': 1, 'self.params.cov': 2},
        {'self.params.mean': 2, 'self.params.cov': 3}]


def _logdet(mat, d):
    L = torch.linalg.cholesky(mat)
    return 2 * L[:, range(d), range(d)].log().sum(dim=-1)


@spec('P01', 'beer.dists.normal:NormalFullCovariance.natural_parameters',
      contexts=[{'self.params.mean': 1, 'self.params.cov': 2},
                {'self.params.mean': 2, 'self.params.cov': 3}])
def _(self):
    m, c = _as_set(self.params.mean, self.params.cov)
    d = self.params.mean.shape[-1]
    P = c.inverse()
    n = torch.cat([torch.matmul(P, m[:, :, None]).view(-1, d),
                   P.reshape(len(m), -1)], dim=-1)
    return n.view(-1) if len(self.params.mean.shape) == 1 else n


@spec('P01', 'beer.dists.normal:NormalFullCovarianceStdParams.from_natural_parameters',
      contexts=[{'natural_params': 1}, {'natural_params': 2}])
def _(cls, natural_params):
    n = natural_params
    single = len(n.shape) == 1
    if single:
        n = n.view(1, -1)
    # D + D^2 coefficients
    d = int((math.sqrt(1 + 4 * n.shape[-1]) - 1) / 2)
    cov = n[:, d:d + d * d].reshape(-1, d, d).inverse()
    mean = torch.matmul(cov, n[:, :d][:, :, None])
    if single:
        return cls(mean.view(-1), cov.view(d, d))
    return cls(mean.view(-1, d), cov.view(-1, d, d))


@spec('P02', 'beer.dists.normal:NormalFullCovariance.sufficient_statistics')
def _(self, data):
    q = data[:, :, None] * data[:, None, :]
    return torch.cat([data, q.reshape(len(data), -1) * -.5], dim=-1)


@spec('P03', 'beer.dists.normal:NormalFullCovariance.expected_sufficient_statistics',
      contexts=[{'self.params.mean': 1, 'self.params.cov': 2},
                {'self.params.mean': 2, 'self.params.cov': 3}])
def _(self):
    m, c = _as_set(self.params.mean, self.params.cov)
    q = m[:, :, None] * m[:, None, :] + c
    s = torch.cat([m, q.reshape(len(m), -1) * -.5], dim=-1)
    return s.view(-1) if len(self.params.mean.shape) == 1 else s


@spec('P03', 'beer.dists.normal:NormalFullCovariance.log_norm',
      contexts=[{'self.params.mean': 1, 'self.params.cov': 2},
                {'self.params.mean': 2, 'self.params.cov': 3}])
def _(self):
    m, c = _as_set(self.params.mean, self.params.cov)
    d = self.params.mean.shape[-1]
    quad = (torch.matmul(c.inverse(), m[:, :, None]).view(-1, d) * m).sum(dim=-1)
    return (_logdet(c, d) + quad + d * LOG2PI) / 2


@spec('P04', 'beer.dists.normal:NormalFullCovariance.forward',
      contexts=[{'self.params.mean': 1, 'self.params.cov': 2},
                {'self.params.mean': 2, 'self.params.cov': 3}])
def _(self, stats, pdfwise=False):
    single = len(self.params.mean.shape) == 1
    m, c = _as_set(self.params.mean, self.params.cov)
    n = self.natural_parameters()
    if single:
        n = n.view(1, -1)
    d = self.dim
    A = (_logdet(c, d) + (n[:, :d] * m).sum(dim=-1)) / 2
    base = -d * LOG2PI / 2
    if pdfwise:
        return (n * stats).sum(dim=-1) - A + base
    llh = n @ stats.t() - A[:, None] + base
    return llh.reshape(-1) if single else llh


@spec('P04 P18', 'beer.dists.normal:NormalFullCovariance.sample',
      contexts=[{'self.params.mean': 1, 'self.params.cov': 2},
                {'self.params.mean': 2, 'self.params.cov': 3}])
def _(self, nsamples):
    single = len(self.params.mean.shape) == 1
    m, c = _as_set(self.params.mean, self.params.cov)
    L = torch.linalg.cholesky(c)
    eps = torch.randn(m.shape[0], nsamples, m.shape[1], dtype=m.dtype,
                      device=m.device)
    x = m[:, None, :] + torch.matmul(eps, L.permute(0, 2, 1))
    return x.reshape(nsamples, -1) if single else x


# ---------------------------------------------------------------- Gamma
@spec('P01', 'beer.dists.gamma:Gamma.natural_parameters')
def _(self):
    return torch.cat([-self.params.rate, self.params.shape - 1], dim=-1)


@spec('P01', 'beer.dists.gamma:GammaStdParams.from_natural_parameters',
      contexts=[{'natural_params': 1}, {'natural_params': 2}])
def _(cls, natural_params):
    n = natural_params
    if len(n.shape) == 1:
        n = n.view(1, -1)
    d = n.shape[-1] // 2
    shape, rate = n[:, d:] + 1, -n[:, :d]
    if len(natural_params.shape) == 1:
        return cls(shape.view(-1), rate.view(-1))
    return cls(shape, rate)


@spec('P03', 'beer.dists.gamma:Gamma.expected_sufficient_statistics')
def _(self):
    a, b = self.params.shape, self.params.rate
    return torch.cat([a / b, a.digamma() - b.log()], dim=-1)


@spec('P03', 'beer.dists.gamma:Gamma.log_norm')
def _(self):
    a, b = self.params.shape, self.params.rate
    return (a.lgamma() - a * b.log()).sum(dim=-1)


@spec('P04', 'beer.dists.gamma:Gamma.expected_value')
def _(self):
    return self.params.shape / self.params.rate


@spec('P03', 'beer.dists.gamma:Gamma.dim',
      contexts=[{'self.params.shape': 1}, {'self.params.shape': 2}])
def _(self):
    if len(self.params.shape.shape) == 1:
        return len(self.params.shape)
    return tuple(self.params.shape.shape)


@spec('P02', 'beer.dists.gamma:Gamma.conjugate')
def _(self):
    return GammaLikelihood(self.params.shape.shape[-1])


@spec('P02', 'beer.dists.gamma:GammaLikelihood.sufficient_statistics_dim')
def _(self, zero_stats=True):
    return 2 * self.dim + (1 if zero_stats else 0)


@spec('P02 P18', 'beer.dists.gamma:GammaLikelihood.sufficient_statistics')
def _(data):
    one = torch.ones(len(data), 1, dtype=data.dtype, device=data.device)
    return torch.cat([data, data.log(), one], dim=-1)


@spec('P02', 'beer.dists.gamma:GammaLikelihood.pdfvectors_from_rvectors')
def _(self, rvecs):
    d = rvecs.shape[-1] // 2
    a, b = (1e-6 + rvecs[:, :d]).exp(), (1e-6 + rvecs[:, d:]).exp()
    A = (a.lgamma() - a * b.log()).sum(dim=-1, keepdim=True)
    return torch.cat([-b, a - 1, -A], dim=-1)


@spec('P02', 'beer.dists.gamma:GammaLikelihood.parameters_from_pdfvector',
      contexts=[{'pdfvec': 1}, {'pdfvec': 2}])
def _(self, pdfvec):
    v = pdfvec
    if len(v.shape) == 1:
        v = v.view(1, -1)
    d = self.dim
    a, b = v[:, d:2 * d] + 1, -v[:, :d]
    if len(pdfvec.shape) == 1:
        return a.view(-1), b.view(-1)
    return a.view(-1, d), b.view(-1, d)


@spec('P02', 'beer.dists.gamma:GammaLikelihood.__call__',
      contexts=[{'pdfvecs': 1}, {'pdfvecs': 2}])
def _(self, pdfvecs, stats):
    if len(pdfvecs.shape) == 1:
        pdfvecs = pdfvecs.view(1, -1)
    return stats @ pdfvecs.t()


# ---------------------------------------------------------------- Dirichlet
@spec('P01', 'beer.dists.dirichlet:Dirichlet.natural_parameters',
      contexts=[{'self.params.concentrations': 1},
                {'self.params.concentrations': 2}])
def _(self):
    c = self.params.concentrations
    if len(c.shape) == 1:
        c = c.view(1, -1)
    n = c - 1
    n[:, -1] = (c - 1).sum(dim=-1)
    return n.view(-1) if len(self.params.concentrations.shape) == 1 else n


@spec('P01', 'beer.dists.dirichlet:DirichletStdParams.from_natural_parameters',
      contexts=[{'natural_params': 1}, {'natural_params': 2}])
def _(cls, natural_params):
    n = natural_params
    if len(n.shape) == 1:
        n = n.view(1, -1)
    c = n + 1
    # a_D - 1 = n_D - sum of the other (a_i - 1)
    c[:, -1] = n[:, -1] - (c - 1)[:, :-1].sum(dim=-1) + 1
    return cls(c.view(-1)) if len(natural_params.shape) == 1 else cls(c)


@spec('P03', 'beer.dists.dirichlet:Dirichlet.expected_sufficient_statistics',
      contexts=[{'self.params.concentrations': 1},
                {'self.params.concentrations': 2}])
def _(self):
    c = self.params.concentrations
    if len(c.shape) == 1:
        c = c.view(1, -1)
    s = torch.zeros_like(c)
    s[:, :-1] = c[:, :-1].digamma() - c[:, -1].digamma()[:, None]
    s[:, -1] = c[:, -1].digamma() - c.sum(dim=-1).digamma()
    return s.view(-1) if len(self.params.concentrations.shape) == 1 else s


@spec('P03', 'beer.dists.dirichlet:Dirichlet.log_norm')
def _(self):
    c = self.params.concentrations
    return c.lgamma().sum(dim=-1) - c.sum(dim=-1).lgamma()


@spec('P04', 'beer.dists.dirichlet:Dirichlet.expected_value')
def _(self):
    c = self.params.concentrations
    return c / c.sum(dim=-1, keepdim=True)


@spec('P03', 'beer.dists.dirichlet:Dirichlet.dim',
      contexts=[{'self.params.concentrations': 1},
                {'self.params.concentrations': 2}])
def _(self):
    c = self.params.concentrations
    return len(c) if len(c.shape) == 1 else tuple(c.shape)


@spec('P02', 'beer.dists.dirichlet:Dirichlet.conjugate')
def _(self):
    return CategoricalLikelihood(self.params.concentrations.shape[-1])


@spec('P02', 'beer.dists.dirichlet:CategoricalLikelihood.sufficient_statistics_dim')
def _(self, zero_stats=True):
    return self.dim - 1 + (1 if zero_stats else 0)


@spec('P02 P05', 'beer.dists.dirichlet:CategoricalLikelihood.sufficient_statistics')
def _(self, data):
    # (x_1 ... x_{D-1}, sum x), in a copy of the caller's data
    s = data.clone().reshape(-1, data.shape[-1])
    s[:, -1] = s.sum(dim=-1)
    return s.reshape(*data.shape)


@spec('P02', 'beer.dists.dirichlet:CategoricalLikelihood.log_norm')
def _(nparams):
    return torch.nn.functional.softplus(torch.logsumexp(nparams, dim=-1))


@spec('P02', 'beer.dists.dirichlet:CategoricalLikelihood.parameters_from_pdfvector',
      contexts=[{'pdfvec': 1}, {'pdfvec': 2}])
def _(self, pdfvec):
    v = pdfvec
    if len(v.shape) == 1:
        v = v.view(1, -1)
    last = (-torch.nn.functional.softplus(
        torch.logsumexp(v[:, :-1], dim=-1))).exp()
    p = torch.zeros_like(v)
    p[:, :-1] = v[:, :-1].exp() * last[:, None]
    p[:, -1] = last
    return p.view(-1) if len(pdfvec.shape) == 1 else p.view(-1, self.dim)


@spec('P02', 'beer.dists.dirichlet:CategoricalLikelihood.pdfvectors_from_rvectors')
def _(rvecs):
    A = torch.nn.functional.softplus(torch.logsumexp(rvecs, dim=-1))
    return torch.cat([rvecs, -A.view(-1, 1)], dim=-1)


@spec('P02', 'beer.dists.dirichlet:CategoricalLikelihood.__call__',
      contexts=[{'pdfvecs': 1}, {'pdfvecs': 2}])
def _(self, pdfvecs, stats):
    if len(pdfvecs.shape) > 1:
        return stats @ pdfvecs.t()
    return stats @ pdfvecs


# ---------------------------------------------------- isotropic Normal-Gamma
@spec('P01', 'beer.dists.isonormalgamma:IsotropicNormalGamma.natural_parameters',
      contexts=[{'self.params.mean': 1, 'self.params.shape': 1},
                {'self.params.mean': 2, 'self.params.shape': 2}])
def _(self):
    m, k = self.params.mean, self.params.scale
    a, b = self.params.shape, self.params.rate
    return torch.cat([
        k * m, -.5 * k * (m ** 2).sum(dim=-1, keepdim=True) - b,
        -.5 * k.view(a.shape), a.view(a.shape) - 1 + .5 * m.shape[-1]], dim=-1)


@spec('P01', 'beer.dists.isonormalgamma:IsotropicNormalGammaStdParams.from_natural_parameters',
      contexts=[{'natural_params': 1}, {'natural_params': 2}])
def _(cls, natural_params):
    n = natural_params
    single = len(n.shape) == 1
    if single:
        n = n.view(1, -1)
    d = n.shape[-1] - 3
    k = -2 * n[:, -2].view(-1, 1)
    a = n[:, -1].view(-1, 1) + 1 - .5 * d
    m = n[:, :d] / k
    b = -n[:, d:d + 1] - .5 * k * (m * m).sum(dim=-1, keepdim=True)
    if single:
        return cls(m.view(-1), k.view(-1), a.view(-1), b.view(-1))
    return cls(m, k.view(-1, 1), a.view(-1, 1), b.view(-1, 1))


@spec('P03', 'beer.dists.isonormalgamma:IsotropicNormalGamma.expected_sufficient_statistics',
      contexts=[{'self.params.mean': 1, 'self.params.shape': 1},
                {'self.params.mean': 2, 'self.params.shape': 2}])
def _(self):
    m, k = self.params.mean, self.params.scale
    a, b = self.params.shape, self.params.rate
    prec = a / b
    return torch.cat([
        prec * m, prec.reshape(a.shape),
        m.shape[-1] / k + prec * (m ** 2).sum(dim=-1, keepdim=True),
        (a.digamma() - b.log()).reshape(a.shape)], dim=-1)


@spec('P04', 'beer.dists.isonormalgamma:IsotropicNormalGamma.expected_value')
def _(self):
    return self.params.mean, self.params.shape / self.params.rate


@spec('P03', 'beer.dists.isonormalgamma:IsotropicNormalGamma.log_norm')
def _(self):
    m, k = self.params.mean, self.params.scale
    a, b = self.params.shape, self.params.rate
    return (a.lgamma() - a * b.log() - .5 * m.shape[-1] * k.log()).sum(dim=-1)


@spec('P03', 'beer.dists.isonormalgamma:IsotropicNormalGamma.dim')
def _(self):
    return (*self.params.mean.shape, 1)


@spec('P02', 'beer.dists.isonormalgamma:IsotropicNormalGamma.conjugate')
def _(self):
    return IsotropicNormalLikelihood(self.params.mean.shape[-1])


@spec('P02 P26', 'beer.dists.isonormalgamma:IsotropicNormalLikelihood.sufficient_statistics_dim')
def _(self, zero_stats=True):
    return self.dim + 1 + (2 if zero_stats else 0)


@spec('P02 P18', 'beer.dists.isonormalgamma:IsotropicNormalLikelihood.sufficient_statistics')
def _(data):
    n, d = len(data), data.shape[-1]
    return torch.cat([
        data, -.5 * (data ** 2).sum(dim=-1).view(-1, 1),
        -.5 * torch.ones(n, 1, dtype=data.dtype, device=data.device),
        .5 * d * torch.ones(n, 1, dtype=data.dtype, device=data.device)], dim=-1)


@spec('P02 P26', 'beer.dists.isonormalgamma:IsotropicNormalLikelihood.pdfvectors_from_rvectors')
def _(rvecs):
    d = rvecs.shape[-1] - 1
    m, logp = rvecs[:, :d], rvecs[:, -2:-1]
    p = logp.exp()
    return torch.cat([p * m, p, (p * m ** 2).sum(dim=-1)[:, None],
                      logp.sum(dim=-1)[:, None]], dim=-1)


@spec('P02', 'beer.dists.isonormalgamma:IsotropicNormalLikelihood.parameters_from_pdfvector',
      contexts=[{'pdfvec': 1}, {'pdfvec': 2}])
def _(pdfvec):
    v = pdfvec
    if len(v.shape) == 1:
        v = v.view(1, -1)
    d = v.shape[-1] - 3
    p = v[:, d:d + 1]
    m = v[:, :-3] / p
    if len(pdfvec.shape) == 1:
        return m.view(-1), p.view(-1)
    return m.view(-1, d), p.view(-1, 1)


# ------------------------------------------------------------- Normal-Gamma
@spec('P01', 'beer.dists.normalgamma:NormalGamma.natural_parameters',
      contexts=[{'self.params.mean': 1, 'self.params.shape': 1},
                {'self.params.mean': 2, 'self.params.shape': 2}])
def _(self):
    m, k = self.params.mean, self.params.scale
    a, b = self.params.shape, self.params.rates
    return torch.cat([k * m, -.5 * k * m ** 2 - b, -.5 * k.view(a.shape),
                      a.view(a.shape) - .5], dim=-1)


@spec('P01', 'beer.dists.normalgamma:NormalGammaStdParams.from_natural_parameters',
      contexts=[{'natural_params': 1}, {'natural_params': 2}])
def _(cls, natural_params):
    n = natural_params
    single = len(n.shape) == 1
    if single:
        n = n.view(1, -1)
    d = (n.shape[-1] - 2) // 2
    k, a = -2 * n[:, -2], n[:, -1] + .5
    m = n[:, :d] / k[:, None]
    b = -n[:, d:2 * d] - .5 * k[:, None] * m ** 2
    if single:
        return cls(m.view(-1), k.view(-1), a.view(-1), b.view(-1))
    return cls(m, k.view(-1, 1), a.view(-1, 1), b)


@spec('P03', 'beer.dists.normalgamma:NormalGamma.expected_sufficient_statistics',
      contexts=[{'self.params.mean': 1, 'self.params.shape': 1},
                {'self.params.mean': 2, 'self.params.shape': 2}])
def _(self):
    m, k = self.params.mean, self.params.scale
    a, b = self.params.shape, self.params.rates
    P = a / b
    return torch.cat([
        P * m, P,
        (m.shape[-1] / k + (P * m ** 2).sum(dim=-1, keepdim=True)).reshape(a.shape),
        (a.digamma() - b.log()).sum(dim=-1).reshape(a.shape)], dim=-1)


@spec('P04', 'beer.dists.normalgamma:NormalGamma.expected_value')
def _(self):
    return self.params.mean, self.params.shape / self.params.rates


@spec('P03', 'beer.dists.normalgamma:NormalGamma.log_norm')
def _(self):
    k, a, b = self.params.scale, self.params.shape, self.params.rates
    d = b.shape[-1]
    return (d * a.lgamma() - a * b.log().sum(dim=-1, keepdim=True)
            - .5 * d * k.log()).sum(dim=-1)


@spec('P03', 'beer.dists.normalgamma:NormalGamma.dim')
def _(self):
    return (*self.params.mean.shape, self.params.rates.shape[-1])


@spec('P02', 'beer.dists.normalgamma:NormalGamma.conjugate')
def _(self):
    return NormalDiagonalLikelihood(self.params.mean.shape[-1])


@spec('P02 P26', 'beer.dists.normalgamma:NormalDiagonalLikelihood.sufficient_statistics_dim')
def _(self, zero_stats=True):
    return 2 * self.dim + (2 if zero_stats else 0)


@spec('P02 P18', 'beer.dists.normalgamma:NormalDiagonalLikelihood.sufficient_statistics')
def _(data):
    one = torch.ones(len(data), 1, dtype=data.dtype, device=data.device)
    return torch.cat([data, -.5 * data ** 2, -.5 * one, .5 * torch.ones(
        len(data), 1, dtype=data.dtype, device=data.device)], dim=-1)


@spec('P02 P26', 'beer.dists.normalgamma:NormalDiagonalLikelihood.pdfvectors_from_rvectors')
def _(self, rvecs):
    d = rvecs.shape[-1] // 2
    m, logp = rvecs[:, :d], rvecs[:, d:2 * d]
    p = logp.exp()
    return torch.cat([p * m, p, (p * m ** 2).sum(dim=-1)[:, None],
                      logp.sum(dim=-1)[:, None]], dim=-1)


@spec('P02', 'beer.dists.normalgamma:NormalDiagonalLikelihood.parameters_from_pdfvector',
      contexts=[{'pdfvec': 1}, {'pdfvec': 2}])
def _(self, pdfvec):
    v = pdfvec
    if len(v.shape) == 1:
        v = v.view(1, -1)
    d = self.dim
    p = v[:, d:2 * d]
    m = v[:, :d] / p
    if len(pdfvec.shape) == 1:
        return m.view(-1), p.view(-1)
    return m.view(-1, d), p.view(-1, d)


# ------------------------------------------------------------- Normal-Wishart
def _nw(self):
    p = self.params
    d = p.mean.shape[-1]
    if len(p.mean.shape) == 1:
        return (d, p.mean.view(1, -1), p.scale.view(1, 1),
                p.scale_matrix.view(1, d, d), p.dof.view(1, 1))
    return d, p.mean, p.scale, p.scale_matrix, p.dof


@spec('P01', 'beer.dists.normalwishart:NormalWishart.natural_parameters',
      contexts=[{'self.params.mean': 1, 'self.params.scale': 1,
                 'self.params.dof': 1, 'self.params.scale_matrix': 2},
                {'self.params.mean': 2, 'self.params.scale': 2,
                 'self.params.dof': 2, 'self.params.scale_matrix': 3}])
def _(self):
    d, m, k, W, v = _nw(self)
    quad = W.inverse() + k[:, :, None] * (m[:, :, None] * m[:, None, :])
    n = torch.cat([k * m, -.5 * quad.reshape(-1, d ** 2),
                   -.5 * k.reshape(-1, 1), .5 * (v - d).reshape(-1, 1)], dim=-1)
    return n.view(-1) if len(self.params.mean.shape) == 1 else n


@spec('P01', 'beer.dists.normalwishart:NormalWishartStdParams.from_natural_parameters',
      contexts=[{'natural_params': 1}, {'natural_params': 2}])
def _(cls, natural_params):
    n = natural_params
    single = len(n.shape) == 1
    if single:
        n = n.view(1, -1)
    # D + D^2 + 2 coefficients
    d = int((math.sqrt(1 + 4 * (n.shape[-1] - 2)) - 1) / 2)
    k = -2 * n[:, -2]
    m = n[:, :d] / k[:, None]
    W = (-2 * n[:, d:d + d * d].reshape(-1, d, d)
         - k[:, None, None] * (m[:, :, None] * m[:, None, :])).inverse()
    v = 2 * n[:, -1] + d
    if single:
        return cls(m.view(-1), k.view(1), W.view(d, d), v.view(1))
    return cls(m, k.view(-1, 1), W.view(-1, d, d), v.view(-1, 1))


@spec('P03', 'beer.dists.normalwishart:NormalWishart.expected_sufficient_statistics',
      contexts=[{'self.params.mean': 1, 'self.params.scale': 1,
                 'self.params.dof': 1, 'self.params.scale_matrix': 2},
                {'self.params.mean': 2, 'self.params.scale': 2,
                 'self.params.dof': 2, 'self.params.scale_matrix': 3}])
def _(self):
    d, m, k, W, v = _nw(self)
    i = torch.arange(1, d + 1, dtype=m.dtype, device=m.device)
    P = v[:, :, None] * W
    mm = m[:, :, None] * m[:, None, :]
    L = torch.linalg.cholesky(W)
    logdet = 2 * L[:, range(d), range(d)].log().sum(dim=-1, keepdim=True)
    tr = (P.reshape(len(P), -1) * mm.reshape(len(P), -1)).sum(dim=-1, keepdim=True)
    s = torch.cat([
        torch.matmul(P, m[:, :, None]).reshape(-1, d), P.reshape(-1, d ** 2),
        d / k + tr,
        (.5 * (v + 1 - i)).digamma().sum(dim=-1, keepdim=True)
        + d * math.log(2) + logdet], dim=-1)
    return s.view(-1) if len(self.params.mean.shape) == 1 else s


@spec('P04', 'beer.dists.normalwishart:NormalWishart.expected_value',
      contexts=[{'self.params.mean': 1, 'self.params.scale': 1,
                 'self.params.dof': 1, 'self.params.scale_matrix': 2},
                {'self.params.mean': 2, 'self.params.scale': 2,
                 'self.params.dof': 2, 'self.params.scale_matrix': 3}])
def _(self):
    p = self.params
    if len(p.mean.shape) == 1:
        return p.mean, p.dof * p.scale_matrix
    return p.mean, p.dof[:, :, None] * p.scale_matrix


@spec('P03', 'beer.dists.normalwishart:NormalWishart.log_norm',
      contexts=[{'self.params.mean': 1, 'self.params.scale': 1,
                 'self.params.dof': 1, 'self.params.scale_matrix': 2},
                {'self.params.mean': 2, 'self.params.scale': 2,
                 'self.params.dof': 2, 'self.params.scale_matrix': 3}])
def _(self):
    d, m, k, W, v = _nw(self)
    i = torch.arange(1, d + 1, dtype=m.dtype, device=m.device)
    L = torch.linalg.cholesky(W)
    logdet = 2 * L[:, range(d), range(d)].log().sum(dim=-1, keepdim=True)
    gamma = (.5 * (v + 1 - i)).lgamma().sum(dim=-1, keepdim=True) \
        + .25 * d * (d - 1) * math.log(math.pi)
    return (.5 * v * logdet + .5 * v * d * math.log(2) + gamma
            - .5 * d * k.log() + .5 * d * LOG2PI).sum(dim=-1)


@spec('P03', 'beer.dists.normalwishart:NormalWishart.dim')
def _(self):
    d = self.params.mean.shape[-1]
    return (*self.params.mean.shape, (d, d))


@spec('P02', 'beer.dists.normalwishart:NormalWishart.conjugate')
def _(self):
    return NormalLikelihood(self.params.mean.shape[-1])


@spec('P02 P26', 'beer.dists.normalwishart:NormalLikelihood.sufficient_statistics_dim',
      contexts=[{'=zero_stats': False}])
def _(self, zero_stats=True):
    # mean, log-diagonal and strictly lower triangle of the factor
    return 2 * self.dim + self.dim * (self.dim - 1) // 2


@spec('P02 P18', 'beer.dists.normalwishart:NormalLikelihood.sufficient_statistics')
def _(data):
    q = data[:, :, None] * data[:, None, :]
    return torch.cat([
        data, -.5 * q.reshape(len(data), -1),
        -.5 * torch.ones(data.shape[0], 1, dtype=data.dtype, device=data.device),
        .5 * torch.ones(data.shape[0], 1, dtype=data.dtype, device=data.device)],
        dim=-1)


@spec('P02', 'beer.dists.normalwishart:NormalLikelihood.parameters_from_pdfvector',
      contexts=[{'pdfvec': 1}, {'pdfvec': 2}])
def _(self, pdfvec):
    v = pdfvec
    if len(v.shape) == 1:
        v = v.view(1, -1)
    d = self.dim
    P = v[:, d:d + d ** 2].reshape(-1, d, d)
    m = torch.matmul(P.inverse(), v[:, :d, None])
    if len(pdfvec.shape) == 1:
        return m.view(-1), P.view(d, d)
    return m.view(-1, d), P.view(-1, d, d)


@spec('P02 P26', 'beer.dists.normalwishart:NormalLikelihood.pdfvectors_from_rvectors')
def _(self, rvecs):
    d = self.dim
    m, logdiag = rvecs[:, :d], rvecs[:, d:2 * d]
    L = torch.zeros(len(rvecs), d, d, dtype=rvecs.dtype, device=rvecs.device)
    low = torch.arange(1, d ** 2 + 1).view(d, d).tril(diagonal=-1).nonzero().t()
    L[:, low[0], low[1]] = rvecs[:, 2 * d:]
    L[:, torch.arange(d), torch.arange(d)] = (.5 * logdiag).exp()
    P = torch.matmul(L, L.permute(0, 2, 1))
    Lm = torch.matmul(L.permute(0, 2, 1), m[:, :, None]).reshape(-1, d)
    quad = torch.matmul(Lm[:, None, :], Lm[:, :, None])
    return torch.cat([
        torch.matmul(P, m[:, :, None]).reshape(-1, d), P.reshape(-1, d ** 2),
        quad.reshape(-1, 1), logdiag.sum(dim=-1).view(-1, 1)], dim=-1)

import torch
from beer.dists.normaldiag import NormalDiagonalCovariance
from beer.models.vae import MeanLogDiagCov


@spec('P27', 'beer.models.vae:MeanLogDiagCov.__init__')
def _(self, mean, log_diag_cov):
    super().__init__()
    self.mean = mean
    self.log_diag_cov = log_diag_cov


@spec('P27', 'beer.models.vae:MeanLogDiagCov.diag_cov')
def _(self):
    return 1e-05 + self.log_diag_cov.exp()


@spec('P27', 'beer.models.vae:VAE.__init__')
def _(self, prior, encoder, decoder):
    super().__init__()
    self.prior = prior
    self.encoder = encoder
    self.decoder = decoder
    self.enc_mean_layer = torch.nn.Linear(encoder.dim_out, decoder.dim_in)
    self.enc_var_layer = torch.nn.Linear(encoder.dim_out, decoder.dim_in)
    self.dec_mean_layer = torch.nn.Linear(decoder.dim_out, encoder.dim_in)
    self.dec_var_layer = torch.nn.Linear(decoder.dim_out, encoder.dim_in)


@spec('P27', 'beer.models.vae:VAE.posteriors')
def _(self, X):
    H = self.encoder(X)
    return NormalDiagonalCovariance(MeanLogDiagCov(self.enc_mean_layer(H), self.enc_var_layer(H)))


@spec('P27', 'beer.models.vae:VAE.pdfs')
def _(self, Z):
    Z1 = self.decoder(Z)
    return NormalDiagonalCovariance(MeanLogDiagCov(self.dec_mean_layer(Z1), self.dec_var_layer(Z1)))


@spec('P27', 'beer.models.vae:VAE.mean_field_factorization')
def _(self):
    return self.prior.mean_field_factorization()


@spec('P27', 'beer.models.vae:VAE.sufficient_statistics')
def _(self, data):
    return data


@spec('P27', 'beer.models.vae:VAE.expected_log_likelihood')
def _(self, data, nsamples=1, llh_weight=1.0, kl_weight=1.0, **kwargs):
    posts = self.posteriors(data)
    samples = posts.sample(nsamples)
    s_samples = posts.sufficient_statistics(samples).mean(dim=1)
    ent = -posts(s_samples, pdfwise=True)
    s_samples = self.prior.sufficient_statistics(samples.view(-1, samples.shape[-1]))
    s_samples = s_samples.reshape(len(samples), -1, s_samples.shape[-1]).mean(dim=1)
    self.cache['prior_stats'] = s_samples
    xent = -self.prior.expected_log_likelihood(s_samples).reshape(-1)
    local_kl_div = xent - ent
    pdfs = self.pdfs(samples.view(-1, samples.shape[-1]))
    r_data = data[:, None, :].repeat(1, nsamples, 1).view(-1, data.shape[-1])
    llh = pdfs(pdfs.sufficient_statistics(r_data), pdfwise=True)
    llh = llh.reshape(len(data), nsamples).mean(dim=1)
    return llh_weight * llh - kl_weight * local_kl_div


@spec('P27', 'beer.models.vae:VAE.accumulate')
def _(self, stats, parent_msg=None):
    return self.prior.accumulate(self.cache['prior_stats'])

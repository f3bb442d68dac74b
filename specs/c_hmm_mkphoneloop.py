import beer
import pickle
import torch
from beer.cli.subcommands.hmm.mkphoneloop import bigram_prior
from beer.cli.subcommands.hmm.mkphoneloop import priors


@spec('P30', 'beer.cli.subcommands.hmm.mkphoneloop:build_categorical')
def _(size, concentration=1):
    mean = torch.ones(size) / size
    return beer.Categorical.create(mean, prior_strength=concentration)


@spec('P30', 'beer.cli.subcommands.hmm.mkphoneloop:build_categorical_2g')
def _(size, concentration=1):
    mean = torch.ones(size, size) / size
    return beer.CategoricalSet.create(mean, prior_strength=concentration)


@spec('P30', 'beer.cli.subcommands.hmm.mkphoneloop:build_sb')
def _(size, concentration=1):
    return beer.SBCategorical.create(truncation=size, prior_strength=concentration)


@spec('P30', 'beer.cli.subcommands.hmm.mkphoneloop:build_hsb')
def _(size, concentration=1):
    root_sb = beer.SBCategorical.create(truncation=size, prior_strength=concentration)
    return beer.SBCategoricalSet.create(size, root_sb, prior_strength=concentration)


@spec('P30', 'beer.cli.subcommands.hmm.mkphoneloop:build_sbhp')
def _(size, concentration=1):
    return beer.SBCategoricalHyperPrior.create(truncation=size, prior_strength=concentration, hyper_prior_strength=1.0)


@spec('P30', 'beer.cli.subcommands.hmm.mkphoneloop:setup')
def _(parser):
    parser.add_argument('-c', '--concentration', type=float, help='concentration of the Dirichlet Process')
    parser.add_argument('--weights-prior', default='gamma_dirichlet_process', choices=[key for key in priors], help='type of prior over the phone weights')
    parser.add_argument('decode_graph', help='decoding graph')
    parser.add_argument('hmms', help="phones' hmm")
    parser.add_argument('out', help='phone loop model')


@spec('P30', 'beer.cli.subcommands.hmm.mkphoneloop:main')
def _(args, logger):
    logger.debug('load the decoding graph...')
    with open(args.decode_graph, 'rb') as f:
        graph, start_pdf, end_pdf = pickle.load(f)
    logger.debug('load the hmms...')
    with open(args.hmms, 'rb') as f:
        hmms, emissions = pickle.load(f)
    logger.debug('compiling the graph...')
    cgraph = graph.compile()
    concentration = len(start_pdf) / 2
    if args.concentration:
        concentration = args.concentration
    categorical = priors[args.weights_prior](len(start_pdf), concentration)
    logger.debug('create the phone-loop model...')
    model_cls = beer.BigramPhoneLoop if args.weights_prior in bigram_prior else beer.PhoneLoop
    ploop = model_cls.create(cgraph, start_pdf, end_pdf, emissions, categorical)
    logger.debug('saving the model on disk...')
    with open(args.out, 'wb') as f:
        pickle.dump(ploop, f)
    logger.info(f'successfully created a phone-loop model with {len(start_pdf)} phones')

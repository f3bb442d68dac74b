import beer
import pickle
import torch
from beer.cli.subcommands.hmm.mkphoneloopbigram import priors


@spec('P30', 'beer.cli.subcommands.hmm.mkphoneloopbigram:build_categorical_2g')
def _(size, unigram):
    mean = torch.ones(size, size) / size
    return beer.CategoricalSet.create(mean, prior_strength=1)


@spec('P30', 'beer.cli.subcommands.hmm.mkphoneloopbigram:build_hsb')
def _(size, unigram):
    return beer.SBCategoricalSet.create(size, unigram, prior_strength=size / 2)


@spec('P30', 'beer.cli.subcommands.hmm.mkphoneloopbigram:setup')
def _(parser):
    parser.add_argument('--weights-prior', default='hierarchical_dirichlet_process', choices=[key for key in priors], help='type of prior over the phone weights')
    parser.add_argument('phoneloop', help='unigram phone loop')
    parser.add_argument('out', help='bigram phone loop (out)')


@spec('P30', 'beer.cli.subcommands.hmm.mkphoneloopbigram:main')
def _(args, logger):
    logger.debug('load the unigram phone-loop...')
    with open(args.phoneloop, 'rb') as f:
        ploop = pickle.load(f)
    categoricalset = priors[args.weights_prior](len(ploop.start_pdf), ploop.categorical)
    logger.debug('create the bigram phone-loop model...')
    ploop2 = beer.BigramPhoneLoop.create(ploop.graph, ploop.start_pdf, ploop.end_pdf, ploop.modelset, categoricalset)
    logger.debug('saving the model on disk...')
    with open(args.out, 'wb') as f:
        pickle.dump(ploop2, f)
    logger.info(f'successfully created a bigram phone-loop model with {len(ploop.start_pdf)} phones')

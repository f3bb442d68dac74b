import pickle
from beer.cli.subcommands.shmm.init import iterate_units


@spec('P31', 'beer.cli.subcommands.shmm.init:iterate_units')
def _(modelset, nunits, nstates):
    for idx in range(nunits):
        start, end = (idx * nstates, (idx + 1) * nstates)
        yield modelset[start:end]


@spec('P31', 'beer.cli.subcommands.shmm.init:setup')
def _(parser):
    parser.add_argument('gsm', help='gsm of which to set the prior')
    parser.add_argument('posts', help='input latent posteriors')
    parser.add_argument('sploop', help='input subspace phone-loop')
    parser.add_argument('out_sploop', help='output subspace phone-loop')


@spec('P31', 'beer.cli.subcommands.shmm.init:main')
def _(args, logger):
    logger.debug('loading the GSM')
    with open(args.gsm, 'rb') as f:
        gsm = pickle.load(f)
    logger.debug('loading the units posterior')
    with open(args.posts, 'rb') as f:
        latent_posts, nunits, nstates, groupidx = pickle.load(f)
    logger.debug('loading the subspace phoneloop')
    with open(args.sploop, 'rb') as f:
        sploop = pickle.load(f)
    logger.debug('loading the units')
    units_emissions = sploop.modelset.original_modelset.modelsets[groupidx]
    units = [unit for unit in iterate_units(units_emissions, nunits, nstates)]
    logger.info(f'initializing the phone loop')
    pdfvecs = gsm.expected_pdfvecs(latent_posts)
    gsm.update_models(units, pdfvecs)
    logger.debug('saving the subspace phoneloop')
    with open(args.out_sploop, 'wb') as f:
        pickle.dump(sploop, f)

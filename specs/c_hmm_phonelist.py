import pickle
from natsort import natsorted


@spec('P30', 'beer.cli.subcommands.hmm.phonelist:setup')
def _(parser):
    parser.add_argument('hmms', help="phones' hmms")


@spec('P30', 'beer.cli.subcommands.hmm.phonelist:main',
      keep_print=True)
def _(args, logger):
    logger.debug('loading the HMMs...')
    with open(args.hmms, 'rb') as f:
        units, _ = pickle.load(f)
    for key in natsorted(units.keys(), key=lambda x: x.lower()):
        print(key)

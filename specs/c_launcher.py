import argparse
import beer.cli.subcommands as subcommands
import logging
import numpy as np
import random
import torch
from beer.cli.beer_script import logger


@spec('P19 P21', 'beer.cli.beer_script:main')
def _():
    parser = argparse.ArgumentParser(description=__doc__)
    parser.add_argument('-d', '--debug', action='store_true', help='show debug messages')
    parser.add_argument('-s', '--seed', type=int, default=-1, help='seed the RNG')
    subparsers = parser.add_subparsers(title='possible commands', metavar='<cmd>')
    subparsers.required = True
    for cmd_name in ['dataset', 'features', 'hmm', 'shmm', 'hshmm']:
        cmd = getattr(subcommands, cmd_name)
        subparser = subparsers.add_parser(cmd_name, help=cmd.__doc__)
        cmd.setup(subparser)
        subparser.set_defaults(func=cmd.main)
    args = parser.parse_args()
    if args.seed >= 0:
        torch.manual_seed(args.seed)
        np.random.seed(args.seed)
        random.seed(args.seed)
    if args.debug:
        logger.setLevel(logging.DEBUG)
    args.func(args, logger)

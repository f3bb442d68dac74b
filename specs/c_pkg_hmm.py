from beer.cli.subcommands.hmm import accumulate
from beer.cli.subcommands.hmm import decode
from beer.cli.subcommands.hmm import mkaligraph
from beer.cli.subcommands.hmm import mkdecodegraph
from beer.cli.subcommands.hmm import mkphoneloop
from beer.cli.subcommands.hmm import mkphoneloopbigram
from beer.cli.subcommands.hmm import mkphoneloopgraph
from beer.cli.subcommands.hmm import mkphones
from beer.cli.subcommands.hmm import posteriors
from beer.cli.subcommands.hmm import phonelist
from beer.cli.subcommands.hmm import train
from beer.cli.subcommands.hmm import update

cmds = [accumulate, decode, mkaligraph, mkdecodegraph, mkphoneloop, mkphoneloopbigram, mkphoneloopgraph, mkphones, posteriors, phonelist, train, update]


@spec('P19', 'beer.cli.subcommands.hmm:setup')
def _(parser):
    subparsers = parser.add_subparsers(title='possible commands', metavar='<cmd>')
    subparsers.required = True
    for cmd in cmds:
        cmd_name = cmd.__name__.split('.')[-1]
        subparser = subparsers.add_parser(cmd_name, help=cmd.__doc__)
        cmd.setup(subparser)
        subparser.set_defaults(func=cmd.main)


@spec('P19', 'beer.cli.subcommands.hmm:main')
def _(args, logger):
    pass

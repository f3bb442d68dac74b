from beer.cli.subcommands.dataset import create

cmds = [create]


@spec('P19', 'beer.cli.subcommands.dataset:setup')
def _(parser):
    subparsers = parser.add_subparsers(title='possible commands', metavar='<cmd>')
    subparsers.required = True
    for cmd in cmds:
        cmd_name = cmd.__name__.split('.')[-1]
        subparser = subparsers.add_parser(cmd_name, help=cmd.__doc__)
        cmd.setup(subparser)
        subparser.set_defaults(func=cmd.main)


@spec('P19', 'beer.cli.subcommands.dataset:main')
def _(args, logger):
    pass

@spec('P19 P20', 'beer.cli.subcommands.hmm.accumulate:setup')
def _(parser):
    parser.add_argument('-a', '--alis', help='alignment graphs in a "npz" archive')
    parser.add_argument('-s', '--acoustic-scale', default=1.0, type=float, help='scaling factor of the acoutsic model')
    parser.add_argument('model', help='hmm based model')
    parser.add_argument('dataset', help='training data set')
    parser.add_argument('out', help='output accumulated ELBO')


@spec('P19 P20', 'beer.cli.subcommands.hmm.train:setup')
def _(parser):
    parser.add_argument('-b', '--batch-size', type=int, default=-1, help='batch size in number of utterance (-1 means all the utterances as one batch)')
    parser.add_argument('-e', '--epochs', type=int, default=1, help='number of epochs')
    parser.add_argument('-l', '--lrate', type=float, default=1.0, help='learning rate')
    parser.add_argument('model', help='hmm based model')
    parser.add_argument('dataset', help='training data set')
    parser.add_argument('out', help='phone loop model')


@spec('P19 P20', 'beer.cli.subcommands.hmm.update:setup')
def _(parser):
    parser.add_argument('-l', '--learning-rate', default=1.0, type=float, help='learning rate')
    parser.add_argument('-o', '--optim-state', help='optimizer state')
    parser.add_argument('model', help='model to update')
    parser.add_argument('out_model', help='updated model')



import glob
import os
from zipfile import ZipFile


@spec('P32', 'beer.cli.subcommands.features.archive:setup')
def _(parser):
    parser.add_argument('-e', '--extension', default='npy', help='extension of the features file (default: npy)')
    parser.add_argument('feadir', help='features directory')
    parser.add_argument('out', help='output zip archived')


@spec('P32', 'beer.cli.subcommands.features.archive:main')
def _(args, logger):
    counts = 0
    with ZipFile(args.out, 'w') as f:
        for path in glob.glob(os.path.join(args.feadir, '*' + args.extension)):
            logger.debug(f'adding {path} to the archive')
            arcname = os.path.basename(path).replace('.' + args.extension, '')
            f.write(path, arcname=arcname)
            counts += 1
    logger.info(f'created archive from {counts} features files')

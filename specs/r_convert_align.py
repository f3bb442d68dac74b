import argparse
import os
import sys


@spec('P28', 'recipes.aud.utils.convert_align:run', keep_print=True)
def _():
    parser = argparse.ArgumentParser(description=__doc__)
    parser.add_argument('alidir', help='directory containing the alignment')
    args = parser.parse_args()
    for line in sys.stdin:
        uttid = line.strip()
        with open(os.path.join(args.alidir, uttid + '.algn')) as f:
            alis = []
            for line in f:
                tokens = line.strip().split()
                start, end, unit = (int(tokens[0]), int(tokens[1]), 'au' + tokens[2])
                alis += [unit] * (end - start + 1)
            print(uttid, ' '.join(alis))

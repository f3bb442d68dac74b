import argparse
import sys
from itertools import groupby


@spec('P28', 'recipes.aud.utils.ali2trans:run', keep_print=True)
def _():
    parser = argparse.ArgumentParser(description=__doc__)
    parser.add_argument('ali', help='time alignment')
    args = parser.parse_args()
    with open(args.ali, 'r') as f:
        for line in f:
            seq = [x[0] for x in groupby(line.strip().split())]
            print(' '.join(seq), file=sys.stdout)

import argparse
import numpy as np
from collections import defaultdict
from itertools import groupby
from recipes.aud.utils.entropy_rate import load_transcript


@spec('P28', 'recipes.aud.utils.entropy_rate:load_transcript')
def _(path):
    with open(path, 'r') as f:
        trans = {}
        for line in f:
            tokens = line.strip().split()
            trans[tokens[0]] = [x[0] for x in groupby(tokens[1:])]
    return trans


@spec('P28', 'recipes.aud.utils.entropy_rate:main', keep_print=True)
def _():
    parser = argparse.ArgumentParser()
    parser.add_argument('trans', help='transcription')
    args = parser.parse_args()
    trans = load_transcript(args.trans)
    counts = defaultdict(int)
    for utt, utt_trans in trans.items():
        for token in utt_trans:
            counts[token] += 1
    prob = np.array([c for _, c in counts.items()], dtype=float)
    prob /= prob.sum()
    entropy = -prob @ np.log2(prob)
    print('entropy rate (bits), perplexity')
    print(f'{entropy:.2f}, {2 ** entropy:.2f}')

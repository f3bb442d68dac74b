"""(Re)generate vocabulary.json from the pinned tree: the external operations
and attributes the engine has met in the analysed code.  A mismatch that uses
an operation outside this vocabulary is reported as undecided, because the
engine has no equations for it."""
import json
import multiprocessing as mp
import os
import signal
import sys
import warnings
import ast

warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
from sa.check import REPO, EXTRA                        # noqa: E402
from sa.program import Program                          # noqa: E402
from sa import spec as sp, compare as cmp               # noqa: E402


def targets(P):
    out = []
    for q, c in P.classes.items():
        for n, m in c.methods.items():
            out.append(q + '.' + n)
    for mn, m in P.modules.items():
        for s in m.tree.body:
            if isinstance(s, ast.FunctionDef):
                out.append(mn + ':' + s.name)
    return out


def one(t):
    P = G
    def boom(*a):
        raise TimeoutError
    signal.signal(signal.SIGALRM, boom)
    signal.alarm(400)
    try:
        r = sp.find_target(P, t)
        if r is None:
            return t, None
        kind, node, mod, owner, rcls = r
        S = sp.run(P, kind, node, mod, owner, rcls, {}, sp.params_of(node), {})
        return t, sorted(cmp.vocabulary(S))
    except (Exception, RecursionError) as e:
        return t, type(e).__name__ + str(e)[:80]
    finally:
        signal.alarm(0)


if __name__ == '__main__':
    G = Program(REPO, ('beer',), EXTRA)
    voc = set()
    with mp.Pool(8) as pool:
        for t, v in pool.imap_unordered(one, targets(G)):
            if isinstance(v, list):
                voc |= set(v)
            else:
                print(t, v)
    with open(os.path.join(HERE, 'vocabulary.json'), 'w') as f:
        json.dump(sorted(voc), f, indent=0)
    print(len(voc))

"""When is a difference that involves an operation without equations decided?

An operation outside the vocabulary usually leaves a difference undecided,
because a rewriting may use any library function.  Three arguments decide it
nevertheless:

* *new state*: see below;
* *support*: the reference value depends on an input (an access path from the
  parameters) that the code's value does not mention at all, so no meaning of
  the unknown operation makes them equal;
* *unrelated operations*: the operation cannot be expressed by any operation
  the reference uses (`DISTINCT`: e.g. `roll` when nothing is concatenated).

New attributes.  A term of the code may read an attribute the pinned tree
does not have.  It may be a renaming, or a constant computed once in the
constructor; then the difference is not decided.  State that other operations
write (a cache, a memo, a flag) is new observable state: a difference that
involves it is a difference."""
import ast
import json
import os
import sys
if __package__ in (None, ""):
    sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa import terms as tm      # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
INIT = ('__init__', '__post_init__', '__new__', 'setup')
SAFE_ATTR = {'shape', 'dtype', 'device', 'dim', 'ndim', 'size'}
SAFE_CALL = {'len', 'int', 'float', 'str', 'bool', 'tuple', 'list', 'dict',
             'set', 'range', 'size', 'dim', 'math', 'log', 'sqrt'}


def attributes(P):
    """name -> [(function is a constructor, value node or None)], and every
    attribute name that occurs"""
    if hasattr(P, '_attr_writes'):
        return P._attr_writes
    writes, seen, defs = {}, set(), set()

    def store(t, fn, value):
        if isinstance(t, ast.Attribute):
            writes.setdefault(t.attr, []).append((fn in INIT, value))
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and \
                len(value.elts) == len(t.elts) else [None] * len(t.elts)
            for x, v in zip(t.elts, vs):
                store(x, fn, v)
        elif isinstance(t, ast.Starred):
            store(t.value, fn, None)

    def visit(n, fn):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            seen.add(n.name)
            defs.add(n.name)
            fn = n.name
        elif isinstance(n, ast.ClassDef):
            for s in n.body:
                for t in getattr(s, 'targets', [getattr(s, 'target', None)]):
                    if isinstance(t, ast.Name):
                        seen.add(t.id)
                        if isinstance(s, ast.Assign):
                            writes.setdefault(t.id, []).append((True, s.value))
        elif isinstance(n, ast.Attribute):
            seen.add(n.attr)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                store(t, fn, n.value)
        elif isinstance(n, ast.AnnAssign) and n.value is not None:
            store(n.target, fn, n.value)
        elif isinstance(n, ast.AugAssign):
            store(n.target, None, None)
        elif isinstance(n, (ast.For, ast.AsyncFor)):
            store(n.target, fn, None)
        elif isinstance(n, ast.Call):
            f = n.func
            name = f.attr if isinstance(f, ast.Attribute) else \
                getattr(f, 'id', '')
            k = {'setattr': 1, 'register_buffer': 0, 'register_parameter': 0,
                 '__setattr__': 0, 'add_module': 0, 'getattr': 1,
                 'hasattr': 1}.get(name)
            if k is not None and len(n.args) > k and \
                    isinstance(n.args[k], ast.Constant) and \
                    isinstance(n.args[k].value, str):
                seen.add(n.args[k].value)
                if name not in ('getattr', 'hasattr'):
                    v = n.args[k + 1] if len(n.args) > k + 1 else None
                    writes.setdefault(n.args[k].value, []).append(
                        (fn in INIT, v))
        for c in ast.iter_child_nodes(n):
            visit(c, fn)

    for m in P.modules.values():
        visit(m.tree, None)
    P._attr_writes = writes, seen
    P._defs = defs
    return P._attr_writes


def pinned():
    with open(os.path.join(HERE, 'attributes.json')) as f:
        return set(json.load(f))


def constant(v):
    """is the value fixed once the object exists?"""
    if v is None:
        return False
    for x in ast.walk(v):
        if isinstance(x, ast.Call):
            f = x.func
            n = f.attr if isinstance(f, ast.Attribute) else \
                getattr(f, 'id', '')
            if n not in SAFE_CALL:
                return False
        elif isinstance(x, ast.Attribute) and x.attr not in SAFE_ATTR and \
                not (isinstance(x.value, ast.Name)):
            return False
        elif isinstance(x, (ast.Lambda, ast.Yield, ast.Await)):
            return False
    return True


def state(P, name):
    """does this (new) attribute hold state written after construction?"""
    if not hasattr(P, '_attr_vanished'):
        P._attr_vanished = pinned() - attributes(P)[1]
    writes, _ = attributes(P)
    if P._attr_vanished or name not in writes:
        return False
    return not all(init and constant(v) for init, v in writes[name])


# operation (last component of its name) -> operations of the reference that a
# rewriting with it could stand for
DISTINCT = {
    'nan_to_num': 'where ne isnan masked_fill',
    'unique': 'set sort sorted', 'unique_consecutive': 'groupby',
    'roll': 'cat concatenate concat', 'rot90': 'flip transpose permute t',
    'fliplr': 'flip', 'flipud': 'flip',
    'median': 'sort sorted', 'mode': '', 'quantile': 'sort sorted',
    'percentile': 'sort sorted', 'kthvalue': 'sort sorted',
    'nanmean': 'isnan where', 'nansum': 'isnan where',
    'count_nonzero': 'sum sumloop count', 'dropout': '', 'gumbel_softmax': '',
    'threshold': 'where max maximum clamp', 'hardtanh': 'clamp where',
    'logaddexp': 'logsumexp', 'logaddexp2': 'logsumexp', 'gelu': '', 'elu': '', 'selu': '', 'leaky_relu': '', 'celu': '',
    'isclose': '', 'allclose': '', 'trunc': 'int m:long floor',
    'fmod': 'mod floordiv', 'remainder': 'mod floordiv', 'renorm': 'norm',
    'cummax': '', 'cummin': '', 'multinomial': '', 'poisson': '',
    'bernoulli': '', 'uniform': '', 'normal_': '', 'uniform_': '',
    'randperm': 'shuffle', 'sample': 'sample', 'choice': '', 'choices': '',
    'permutation': 'shuffle', 'randint': '', 'betavariate': '', 'gauss': '',
    'WeakSet': '', 'WeakKeyDictionary': '', 'WeakValueDictionary': '',
    'ref': '', 'proxy': '', 'time': '', 'perf_counter': '', 'getpid': '',
    'urandom': '', 'getenv': 'environ os.environ', 'id': 'id',
    'cycle': '', 'takewhile': 'while loop fold', 'dropwhile': 'fold loop',
    'permutations': '', 'combinations': '',
    'heappush': 'sort sorted', 'heappop': 'sort sorted min',
    'bisect': 'sort sorted', 'lower': '', 'upper': '', 'casefold': '',
    'capitalize': '', 'title': '', 'swapcase': '', 'zfill': 'fmt format',
    'startswith': 'slice', 'endswith': 'slice', 'isdigit': '', 'isalpha': '',
    'isnumeric': '', 'get_close_matches': '', 'fnmatch': '',
    'quantize_per_tensor': '', 'half': '', 'bfloat16': '',
    'pinv': 'inverse', 'pinverse': 'inverse', 'svd': '', 'eigvals': '',
    'normalize': 'norm sum div', 'lru_cache': '', 'cache': '',
    'argwhere': 'nonzero where', 'cdist': 'norm', 'interp': '',
    'argpartition': 'sort argsort', 'partition': 'sort split',
    'tanhshrink': '', 'softshrink': '', 'softsign': 'abs', 'mish': '',
    'silu': 'sigmoid', 'relu6': 'clamp', 'logit': 'log', 'nextafter': '',
    'heaviside': 'where', 'sinc': 'sin', 'kaiser': '', 'blackman': '',
    'hanning': 'cos', 'hann': 'cos', 'bartlett': '',
}


def summary_terms(S, what):
    if what == 'result':
        return [S.result]
    if what == 'events':
        return [x for g, t, _ in S.events for x in (g, t)]
    return [x for p in S.mem for x in p]


def ops_of(S):
    out = set()
    for what in ('result', 'mem', 'events'):
        for t in summary_terms(S, what):
            for x in tm.walk(t):
                out.add(x.op)
                if x.op == 'extcall':
                    out.add(x.args[0].args[0].split('.')[-1])
                elif x.op == 'call':
                    out.add(x.args[1])
    return out


CONFIG = {'dtype', 'device', 'shape', 'ndim'}


def paths(ts):
    """access paths (from parameters) the terms mention; those used only for
    their type, device or size are prefixed with '#'"""
    out, seen = set(), set()

    def chain(t):
        names = []
        while t.op == 'attr':
            names.append(t.args[1])
            t = t.args[0]
        if t.op != 'sym':
            return None, t
        return '.'.join([t.args[0]] + names[::-1]), t

    def go(t, conf):
        if (t.key, conf) in seen:
            return
        seen.add((t.key, conf))
        if t.op in ('attr', 'sym'):
            p, root = chain(t)
            if t.op == 'attr' and t.args[1] in CONFIG:
                return go(t.args[0], True)
            if p is not None:
                if not p.startswith('<'):
                    out.add('#' + p if conf else p)
                return
            conf = False
        elif t.op == 'len':
            conf = True
        elif t.op in ('ext', 'deps'):
            return
        else:
            conf = False
        for a in t.args:
            sub(a, conf)

    def sub(a, conf):
        if isinstance(a, tm.T):
            go(a, conf)
        elif isinstance(a, tuple):
            for x in a:
                sub(x, conf)

    for t in ts:
        go(t, False)
    return out


def covered(p, qs):
    return any(q == p or p.startswith(q + '.') or q.startswith(p + '.')
               for q in qs)


def unsupported(code, ref, observe):
    """an input the reference's value needs and the code's does not mention"""
    for what in observe:
        if what == 'mem':
            cm = dict(code.mem)
            pairs = [([cm[p]], [v]) for p, v in ref.mem if p in cm
                     and cm[p] is not v]
        else:
            pairs = [(summary_terms(code, what), summary_terms(ref, what))]
        for c, r in pairs:
            have = {p.lstrip('#') for p in paths(c)}
            for p in sorted(paths(r)):
                if not p.startswith('#') and not covered(p, have):
                    return p
    return None


def unexcused(P, code, ref, newv, observe):
    """the operations of newv that still leave a difference undecided"""
    if not newv:
        return newv
    rest, rops = set(), None
    for v in newv:
        kind, name = v.split(' ', 1)
        if kind == 'attr' and state(P, name):
            continue
        last = name.split('.')[-1].split(':')[-1]
        if kind in ('ext', 'call', 'm') and last in DISTINCT and \
                attributes(P) and last not in P._defs:
            rops = ops_of(ref) if rops is None else rops
            if not set(DISTINCT[last].split()) & rops:
                continue
        rest.add(v)
    if rest and not any(v.startswith('m ') or v.endswith('_') for v in rest) \
            and unsupported(code, ref, observe):
        return set()
    return rest


if __name__ == '__main__':
    import sys
    sys.path.insert(0, os.path.dirname(HERE))
    from sa.check import REPO, EXTRA
    from sa.program import Program
    P = Program(REPO, ('beer',), EXTRA)
    w, seen = attributes(P)
    with open(os.path.join(HERE, 'attributes.json'), 'w') as f:
        json.dump(sorted(a for a in w if a in seen), f, indent=0)

"""Canonical vocabulary of external operations (torch / numpy / builtins).

`torch.f(x, ...)`, `x.f(...)` and aliases get the same term.  Operations that
are not in the tables keep their dotted name and count as *unknown
vocabulary*: a mismatch that involves one is reported as undecided."""
from .terms import *
from . import terms as tm

N = NONE

# method/function name -> (canonical op, [(param, default)...])
# the first operand is always the tensor
_T = {}


def _def(names, op, *params):
    for n in names.split():
        _T[n] = (op, params)


M1 = num(-1)
for n in ('exp', 'log', 'sqrt', 'abs', 'lgamma', 'digamma', 'sigmoid', 'tanh',
          'log1p', 'expm1', 'erf', 'sign', 'floor', 'ceil', 'round', 'isnan',
          'isfinite', 'isinf', 'sin', 'cos', 'relu', 'reciprocal', 'square',
          'log2', 'log10', 'rsqrt', 'logsigmoid'):
    _def(n, n)
_def('neg negative', 'neg')
_def('absolute', 'abs')
_def('sum', 'sum', ('dim', N), ('keepdim', FALSE))
_def('mean', 'mean', ('dim', N), ('keepdim', FALSE))
_def('prod', 'prod', ('dim', N), ('keepdim', FALSE))
_def('var', 'var', ('dim', N), ('unbiased', TRUE), ('keepdim', FALSE))
_def('std', 'std', ('dim', N), ('unbiased', TRUE), ('keepdim', FALSE))
_def('logsumexp', 'logsumexp', ('dim', N), ('keepdim', FALSE))
_def('softmax', 'softmax', ('dim', N))
_def('log_softmax', 'log_softmax', ('dim', N))
_def('max', 'max', ('dim', N), ('keepdim', FALSE))
_def('min', 'min', ('dim', N), ('keepdim', FALSE))
_def('argmax', 'argmax', ('dim', N), ('keepdim', FALSE))
_def('argmin', 'argmin', ('dim', N), ('keepdim', FALSE))
_def('sort', 'sort', ('dim', M1), ('descending', FALSE))
_def('argsort', 'argsort', ('dim', M1), ('descending', FALSE))
_def('topk', 'topk', ('k', N), ('dim', M1))
_def('cumsum', 'cumsum', ('dim', N))
_def('cumprod', 'cumprod', ('dim', N))
_def('flip', 'flip', ('dims', N))
_def('t', 't')
_def('transpose swapaxes', 'transpose', ('dim0', N), ('dim1', N))
_def('diag', 'diag', ('diagonal', ZERO))
_def('diagonal', 'diagonal', ('offset', ZERO), ('dim1', ZERO), ('dim2', ONE))
_def('trace', 'trace')
_def('inverse', 'inverse')
_def('cholesky', 'cholesky')
_def('det', 'det')
_def('logdet', 'logdet')
_def('slogdet', 'slogdet')
_def('triu', 'triu', ('diagonal', ZERO))
_def('tril', 'tril', ('diagonal', ZERO))
_def('matmul mm mv', 'matmul', ('other', N))
_def('bmm', 'bmm', ('other', N))
_def('dot', 'dot', ('other', N))
_def('ger outer', 'outer', ('other', N))
_def('add', 'add', ('other', N))
_def('sub subtract', 'sub', ('other', N))
_def('mul multiply', 'mul', ('other', N))
_def('div divide true_divide', 'div', ('other', N))
_def('pow', 'pow', ('exponent', N))
_def('unsqueeze', 'unsqueeze', ('dim', N))
_def('squeeze', 'squeeze', ('dim', N))
_def('clone', 'clone')
_def('contiguous', 'contiguous')
_def('detach', 'detach')
_def('float', 'm:float')
_def('double', 'm:double')
_def('long', 'm:long')
_def('int', 'm:int')
_def('byte', 'm:byte')
_def('bool', 'm:bool')
_def('cpu', 'm:cpu')
_def('item', 'item')
_def('tolist', 'tolist')
_def('numpy', 'numpy')
_def('clamp', 'clamp', ('min', N), ('max', N))
_def('index_select', 'index_select', ('dim', N), ('index', N))
_def('gather', 'gather', ('dim', N), ('index', N))
_def('index_add', 'index_add', ('dim', N), ('index', N), ('source', N))
_def('masked_fill', 'masked_fill', ('mask', N), ('value', N))
_def('gt', 'gt', ('other', N))
_def('lt', 'tlt', ('other', N))
_def('eq', 'teq', ('other', N))
_def('norm', 'norm', ('p', num(2)), ('dim', N))
_def('numel', 'numel')
_def('nelement', 'numel')
_def('dim', 'ndim')
_def('ndimension', 'ndim')
_def('flatten', 'flatten', ('start_dim', ZERO), ('end_dim', M1))
_def('any', 't_any', ('dim', N))
_def('all', 't_all', ('dim', N))
_def('chunk', 'chunk', ('chunks', N), ('dim', ZERO))
_def('split', 'split', ('size', N), ('dim', ZERO))
_def('astype', 'astype', ('dtype', N))
_def('copy', 'copy')
_def('ravel', 'ravel')

ALIAS_KW = {'axis': 'dim', 'keepdims': 'keepdim', 'exponent': 'exponent',
            'mat2': 'other', 'vec2': 'other', 'tensor2': 'other', 'input2': 'other'}

VARSHAPE = {'view': 'reshape', 'reshape': 'reshape', 'expand': 'expand',
            'repeat': 'repeat', 'permute': 'permute'}

CREATE = {'zeros', 'ones', 'empty', 'randn', 'rand', 'eye', 'full', 'arange',
          'tensor', 'zeros_like', 'ones_like', 'empty_like', 'randn_like',
          'from_numpy', 'linspace', 'randint', 'randperm', 'full_like'}
RANDOM = {'randn', 'rand', 'randn_like', 'rand_like', 'randint', 'randperm',
          'multinomial', 'bernoulli', 'normal'}

METHODS = set(_T) | set(VARSHAPE) | {'size', 'type', 'to'}


def shape_args(args):
    if len(args) == 1 and args[0].op in ('tuple', 'list'):
        args = list(args[0].args)
    return raw('tuple', *args)


def tensor_op(name, x, args, kwargs):
    """term for x.name(*args, **kwargs), or None when not in the vocabulary"""
    if name in VARSHAPE:
        if kwargs:
            return None
        op = VARSHAPE[name]
        sh = shape_args(args)
        if op == 'reshape':
            return mk_reshape(x, sh)
        return mk(op, x, sh)
    if name in ('amax', 'amin'):
        d = tensor_op(name[1:], x, args, kwargs)
        if d is not None and (args or 'dim' in kwargs or 'axis' in kwargs):
            d = mk('index', d, ZERO)
        return d
    if name == 'size':
        if args:
            return shape_index(x, args[0])
        return mk('attr_shape', x)
    if name == 'type':
        return mk('to', x, *args)
    if name == 'to':
        kw = dict(kwargs)
        xs = list(args)
        for a in xs:
            pass
        items = tuple(sorted(((k, v) for k, v in kw.items()),
                             key=lambda kv: kv[0]))
        return mk('to', x, *xs, raw('kw', *items)) if items else mk('to', x, *xs)
    d = _T.get(name)
    if d is None:
        return None
    op, params = d
    vals = [p[1] for p in params]
    if len(args) > len(params):
        if name in ('flip',):
            vals = [shape_args(args)]
            args = []
        else:
            return None
    for i, a in enumerate(args):
        vals[i] = a
    for k, v in kwargs.items():
        k = ALIAS_KW.get(k, k)
        names = [p[0] for p in params]
        if k not in names:
            if k == 'dtype' and v is not NONE:
                return None
            return None
        vals[names.index(k)] = v
    if name in ('max', 'min') and args and op in ('max', 'min'):
        # torch.max(x, y) elementwise is told apart by a non-scalar operand
        if vals[0] is not NONE and tm.as_int(vals[0]) is None and \
                vals[0].op not in ('sym',):
            op = 't' + op
    return build(op, x, *vals)


def build(op, x, *vals):
    if op == 'neg':
        return mk('neg', x)
    if op == 'reciprocal':
        return mk('div', ONE, x)
    if op == 'square':
        return mk('pow', x, num(2))
    if op == 'rsqrt':
        return mk('div', ONE, mk('sqrt', x))
    if op in ('add', 'sub', 'mul', 'div', 'pow'):
        return mk(op, x, vals[0])
    if op == 'transpose':
        a, b = tm.as_int(vals[0]) if vals[0] is not NONE else None, \
            tm.as_int(vals[1]) if vals[1] is not NONE else None
        if {a, b} == {0, 1}:
            return mk('t', x)
        if a is not None and b is not None and a > b:
            vals = (vals[1], vals[0])
    if op == 'unsqueeze':
        k = tm.as_int(vals[0])
        full = raw('slice', NONE, NONE, NONE)
        if k is not None and 0 <= k <= 4:
            return mk('index', x, tup(*([full] * k + [NONE])))
        if k == -1:
            return mk('index', x, tup(const(Ellipsis), NONE))
    if op == 'ndim':
        return mk('len', shape(x))
    if op == 'contiguous':
        return x
    if op == 'dot':
        return mk('matmul', x, vals[0])
    if op in ('sum', 'mean') and x.op == 'num' and False:
        return x
    if op == 'flatten' and vals[0] is ZERO:
        return mk_reshape(x, tup(M1))
    if op == 'ravel':
        return mk_reshape(x, tup(M1))
    if op == 'masked_fill':
        return mk('where', vals[0], vals[1], x)
    return mk(op, x, *vals)


def mk_reshape(x, sh):
    if x.op == 'reshape':
        x = x.args[0]
    return mk('reshape', x, sh)


def shape(x):
    return mk('attr_shape', x)


def shape_index(x, i):
    k = tm.as_int(i)
    if k == 0:
        return mk('len', x)
    return mk('index', mk('attr_shape', x), i)


@tm.simp('attr_shape')
def _attr_shape(op, x):
    # shape-preserving unary operations
    if x.op in ('exp', 'log', 'lgamma', 'digamma', 'detach', 'clone') :
        return mk('attr_shape', x.args[0])
    if x.op == 'poly' and len(x.args) == 1 and len(x.args[0][1]) == 1:
        return mk('attr_shape', x.args[0][1][0][0])
    return raw('attr', x, 'shape')


# ------------------------------------------------------------------ functions
CATS = {'cat': 'cat', 'concat': 'cat', 'concatenate': 'cat', 'stack': 'stack',
        'vstack': 'vstack', 'hstack': 'hstack'}

PURE_PREFIX = ('torch.', 'numpy.', 'math.', 'os.path.', 'scipy.', 'itertools.',
               'functools.', 'copy.', 'collections.', 'random.', 'uuid.', 're.',
               'sys.', 'argparse.', 'yaml.', 'pickle.', 'glob.', 'zipfile.',
               'ast.', 'string.', 'operator.')


def ext_call(name, args, kwargs):
    """canonical term for an external pure call; None -> generic"""
    parts = name.split('.')
    rootn = parts[0]
    leaf = parts[-1]
    if rootn == 'torch' and (len(parts) == 2 or parts[1] in
                             ('nn', 'linalg', 'special')) or rootn == 'numpy' \
            and len(parts) == 2:
        if rootn == 'torch' and 'nn' in parts and parts[-2] != 'functional':
            return None
        if leaf in CATS and args:
            xs = args[0]
            dim = args[1] if len(args) > 1 else \
                kwargs.get('dim', kwargs.get('axis', ZERO))
            if xs.op == 'tuple':
                xs = raw('list', *xs.args)
            return mk(CATS[leaf], xs, dim)
        if leaf in ('zeros', 'ones', 'empty', 'randn', 'rand', 'eye'):
            kw = dict(kwargs)
            if kw.get('requires_grad') is FALSE:
                kw.pop('requires_grad')
            if 'size' in kw:
                args = [kw.pop('size')]
            sh = shape_args(args)
            return mk(leaf, sh, kwterm(kw))
        if leaf in ('zeros_like', 'ones_like', 'empty_like', 'randn_like') and args:
            kw = dict(kwargs)
            if kw.get('requires_grad') is FALSE:
                kw.pop('requires_grad')
            for k in ('dtype', 'device'):
                if k in kw and kw[k] is raw('attr', args[0], k):
                    kw.pop(k)
            return mk(leaf, args[0], kwterm(kw))
        if leaf == 'full_like' and len(args) == 2:
            kw = dict(kwargs)
            if kw.get('requires_grad') is FALSE:
                kw.pop('requires_grad')
            for k in ('dtype', 'device'):
                if k in kw and kw[k] is raw('attr', args[0], k):
                    kw.pop(k)
            return mk(leaf, *args, kwterm(kw))
        if leaf in ('tensor', 'arange', 'full', 'linspace'):
            kw = dict(kwargs)
            if kw.get('requires_grad') is FALSE:
                kw.pop('requires_grad')
            return mk(leaf, raw('tuple', *args), kwterm(kw))
        if leaf == 'einsum':
            return None
        if leaf in ('transpose',) and rootn == 'numpy':
            return mk('t', args[0]) if len(args) == 1 else None
        if leaf in ('cholesky', 'inv', 'det', 'slogdet'):
            return mk({'inv': 'inverse'}.get(leaf, leaf), *args) \
                if not kwargs else None
        if leaf == 'where' and len(args) == 3:
            return mk('where', *args)
        if args and (leaf in _T or leaf in VARSHAPE or
                     leaf in ('amax', 'amin') and rootn == 'torch'):
            if rootn == 'numpy' and leaf in ('int', 'float', 'bool'):
                return None
            return tensor_op(leaf, args[0], list(args[1:]), kwargs)
        return None
    if rootn == 'math' and len(args) == 1 and leaf in (
            'log', 'exp', 'sqrt', 'lgamma', 'floor', 'ceil'):
        return mk(leaf, args[0])
    if name == 'math.pow':
        return mk('pow', *args)
    return None


def kwterm(kw):
    return raw('kw', *sorted(((k, v) for k, v in kw.items()),
                             key=lambda kv: kv[0]))

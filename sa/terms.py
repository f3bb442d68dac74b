"""Hash-consed value-number terms with algebraic normalisation.

A term is the value number the abstract interpreter assigns to an
expression: two expressions with the same term compute the same value.
Terms are kept in a normal form, so that re-ordered, factored or renamed
code gets the same number:

* element-wise arithmetic is kept as a polynomial with rational
  coefficients over (positive or negative) rational powers of atoms;
* merges of control flow are decision diagrams (`ite`) over condition
  atoms, ordered, reduced and lifted to the top of every operation;
* bound variables of loops are numbered by nesting height.
"""
import hashlib
import math
from fractions import Fraction

_intern = {}


class T:
    __slots__ = ('op', 'args', 'key', 'free', 'flags', '__weakref__')

    def __repr__(self):
        return show(self)


def _akey(a):
    if isinstance(a, T):
        return a.key
    if isinstance(a, tuple):
        return '(' + ','.join(_akey(x) for x in a) + ')'
    return type(a).__name__[0] + repr(a)


def _collect(a, free, flags):
    if isinstance(a, T):
        return free | a.free, flags | a.flags
    if isinstance(a, tuple):
        for x in a:
            free, flags = _collect(x, free, flags)
    return free, flags


class Budget(Exception):
    """the analysis of one obligation grew beyond reason"""


WORK = [0, 1 << 60]


def budget(n):
    WORK[0], WORK[1] = 0, n


NOFREE = frozenset()
EMPTY = frozenset()


def raw(op, *args):
    WORK[0] += 1
    if WORK[0] > WORK[1]:
        raise Budget(f'more than {WORK[1]} terms')
    sig = op + ':' + ','.join(_akey(a) for a in args)
    key = hashlib.blake2b(sig.encode(), digest_size=10).hexdigest()
    t = _intern.get(key)
    if t is not None:
        return t
    t = T()
    t.op, t.args, t.key = op, args, key
    free, flags = NOFREE, EMPTY
    for a in args:
        free, flags = _collect(a, free, flags)
    if op in ('K', 'mu', 'ref'):
        free = free | {t}
    if op in ('top', 'ite', 'skip'):
        flags = flags | {op}
    t.free, t.flags = free, flags
    _intern[key] = t
    return t


# ---------------------------------------------------------------- constants
def num(x):
    if isinstance(x, float):
        x = Fraction(repr(x))
    return raw('num', Fraction(x))


def const(x):
    if isinstance(x, bool) or x is None or x is Ellipsis:
        return raw('const', 'Ellipsis' if x is Ellipsis else x)
    if isinstance(x, (int, float)):
        if isinstance(x, float) and (x != x or x in (float('inf'), float('-inf'))):
            return raw('const', repr(x))
        return num(x)
    return raw('str', x) if isinstance(x, str) else raw('const', repr(x))


TRUE, FALSE, NONE = const(True), const(False), const(None)
ZERO, ONE = num(0), num(1)
UNDEF = raw('undef')


def sym(name):
    return raw('sym', name)


def top(reason):
    return raw('top', reason)


def tup(*xs):
    return mk('tuple', *xs)


# ---------------------------------------------------------------- ite (BDD)
# A merge of values is a decision diagram: `ite(c, a, b)` nodes whose first
# argument is a condition atom, ordered along every path by the atoms' keys.
# A condition used as a value is the diagram with leaves True and False.
_ite_memo = {}
_restrict_memo = {}


def atom(op, *args):
    """a condition atom, as a diagram"""
    return raw('ite', raw(op, *args), TRUE, FALSE)


def _ite(c, a, b):
    if a is b:
        return a
    k = (c, a, b)
    r = _ite_memo.get(k)
    if r is None:
        WORK[0] += 1
        m = c
        for x in (a, b):
            if x.op == 'ite' and x.args[0].key < m.key:
                m = x.args[0]
        if m is c:
            a1, b1 = restrict(a, c, True), restrict(b, c, False)
            r = a1 if a1 is b1 else raw('ite', c, a1, b1)
        else:
            r = _ite(m, _ite(c, restrict(a, m, True), restrict(b, m, True)),
                     _ite(c, restrict(a, m, False), restrict(b, m, False)))
        _ite_memo[k] = r
    return r


def restrict(t, c, v):
    """the diagram t where the atom c has the value v"""
    if t.op == 'ite':
        if t.args[0] is c:
            return t.args[1] if v else t.args[2]
        if t.args[0].key < c.key:
            k = (t, c, v)
            r = _restrict_memo.get(k)
            if r is None:
                WORK[0] += 1
                r = _restrict_memo[k] = _ite(
                    t.args[0], restrict(t.args[1], c, v),
                    restrict(t.args[2], c, v))
            return r
    return t


_brestrict = restrict


def ite(c, a, b):
    """c: condition diagram; a, b: values (or diagrams)"""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return _ite(c.args[0], ite(c.args[1], a, b), ite(c.args[2], a, b))


_constrain_memo = {}


def constrain(f, c):
    """the condition f where only the cases c matter: the same for every f
    that agrees on c"""
    if c is TRUE or c is FALSE or f is TRUE or f is FALSE:
        return f
    k = (f, c)
    r = _constrain_memo.get(k)
    if r is not None:
        return r
    WORK[0] += 1
    v = f.args[0] if c.op != 'ite' or f.args[0].key <= c.args[0].key else \
        c.args[0]
    c1, c0 = _brestrict(c, v, True), _brestrict(c, v, False)
    if c1 is FALSE:
        r = constrain(_brestrict(f, v, False), c0)
    elif c0 is FALSE:
        r = constrain(_brestrict(f, v, True), c1)
    else:
        r = _ite(v, constrain(_brestrict(f, v, True), c1),
                 constrain(_brestrict(f, v, False), c0))
    _constrain_memo[k] = r
    return r


def c_not(c):
    return ite(c, FALSE, TRUE)


def c_and(a, b):
    return ite(a, b, FALSE)


def c_or(a, b):
    return ite(a, TRUE, b)


def conds_of(t, acc=None):
    acc = set() if acc is None else acc
    for x in _nodes(t):
        if x.op == 'ite':
            acc.add(x.args[0])
    return acc


def _nodes(t):
    """inner nodes and leaves of a diagram"""
    if t.op != 'ite':
        return (t,)
    seen, todo = {t}, [t]
    while todo:
        x = todo.pop()
        if x.op == 'ite':
            for y in x.args[1:]:
                if y not in seen:
                    seen.add(y)
                    todo.append(y)
    return seen


def leaves(t):
    return {x for x in _nodes(t) if x.op != 'ite'}


# ---------------------------------------------------------------- polynomials
MAXTERMS = 80


def to_poly(t):
    if t.op == 'num':
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == 'poly':
        return {m: c for c, m in t.args}
    if t is TRUE:
        return {(): Fraction(1)}
    return {((t, Fraction(1)),): Fraction(1)}


def from_poly(p):
    p = {m: c for m, c in p.items() if c != 0}
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ():
            return raw('num', c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    items = sorted(p.items(), key=lambda mc: tuple((a.key, e) for a, e in mc[0]))
    return raw('poly', *[(c, m) for m, c in items])


def _mono_mul(m1, m2):
    d = {}
    for a, e in m1 + m2:
        d[a] = d.get(a, Fraction(0)) + e
    return tuple(sorted(((a, e) for a, e in d.items() if e != 0),
                        key=lambda x: x[0].key))


def p_add(a, b, sb=1):
    p = dict(to_poly(a))
    for m, c in to_poly(b).items():
        p[m] = p.get(m, Fraction(0)) + sb * c
    return from_poly(p)


def p_mul(a, b):
    pa, pb = to_poly(a), to_poly(b)
    if len(pa) * len(pb) > MAXTERMS:
        return raw('bigmul', *sorted((a, b), key=lambda t: t.key))
    p = {}
    for m1, c1 in pa.items():
        for m2, c2 in pb.items():
            m = _mono_mul(m1, m2)
            p[m] = p.get(m, Fraction(0)) + c1 * c2
    # products may re-create a power of an atom that is itself a polynomial
    return from_poly(p)


def p_pow(a, e):
    """a ** e with e a rational constant"""
    e = Fraction(e)
    if e == 0:
        return ONE
    if e == 1:
        return a
    p = to_poly(a)
    if a.op == 'num':
        v = a.args[0]
        if e.denominator == 1:
            if v == 0 and e < 0:
                return raw('pow', a, num(e))
            return raw('num', v ** int(e))
        return raw('pow', a, num(e))
    if len(p) == 1:
        (m, c), = p.items()
        if e.denominator == 1 and c != 0:
            m2 = tuple((x, k * e) for x, k in m)
            return from_poly({m2: c ** int(e)})
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return from_poly({((m[0][0], e),): Fraction(1)})
        if c == 1 and len(m) == 1 and m[0][1].denominator > 1:
            return from_poly({((m[0][0], e * m[0][1]),): Fraction(1)})
        if c == 1 and len(m) == 1 and m[0][1] == -1:
            return from_poly({((m[0][0], -e),): Fraction(1)})
        return raw('pow', a, num(e))
    if e.denominator == 1 and 2 <= e <= 3 and len(p) <= 4:
        r = a
        for _ in range(int(e) - 1):
            r = p_mul(r, a)
        return r
    if e.denominator == 1:
        c, body = content(a)
        # a common factor of all the terms
        low = dict(next(iter(p)))
        for m in p:
            m = dict(m)
            low = {x: min(k, m[x]) for x, k in low.items() if x in m and
                   (k < 0) == (m[x] < 0)}
        if low and e < 0:
            inv = tuple((x, -k) for x, k in low.items())
            r = p_pow(from_poly({_mono_mul(m, inv): c for m, c in p.items()}),
                      e)
            for x, k in sorted(low.items(), key=lambda y: y[0].key):
                r = p_mul(p_pow(x, k * e), r)
            return r
        return p_mul(raw('num', c ** int(e)),
                     from_poly({((body, e),): Fraction(1)}))
    return raw('pow', a, num(e))


def content(t):
    """t = c * body, with body's leading coefficient 1"""
    if t.op == 'num':
        return (t.args[0], ONE) if t.args[0] != 0 else (Fraction(1), t)
    if t.op == 'poly':
        c = t.args[0][0]
        if c == 1:
            return Fraction(1), t
        return c, from_poly({m: k / c for k, m in t.args})
    return Fraction(1), t


CONDOPS = {'eq', 'is', 'lt', 'in', 'truth', 'isinstance', 'exists', 'raises',
           'hasattr', 'issubclass'}


def is_num(t):
    return t.op == 'num'


def as_int(t):
    if t.op == 'num' and t.args[0].denominator == 1:
        return int(t.args[0])
    return None


# ---------------------------------------------------------------- mk
SIMP = {}
# operations whose arguments (by position) are under a binder
BINDERS = {'map': (1,), 'flatmap': (1,), 'sumloop': (1,), 'storeloop': (2, 3),
           'fold': (2,), 'pmap': (0,), 'last': (1,), 'lam': (1,), 'exists': (1,),
           'first': (1, 2), 'foreach': (1,), 'space': (), 'until': (1,),
           'whilesp': (0,), 'at': (0,), 'K': (), 'mu': (), 'bv': ()}
MAXCONDS = 6


def simp(*names):
    def deco(f):
        for n in names:
            SIMP[n] = f
        return f
    return deco


STRUCT = {'list', 'tuple', 'kw', 'slice', 'concat', 'kwarg', 'star'}
_lift_memo = {}


def lift(t):
    """lift merges out of argument structures: [ite(c, a, b)] is
    ite(c, [a], [b])"""
    r = _lift_memo.get(t)
    if r is None:
        cs = set()
        _struct_conds(t, cs)
        r = t
        if cs and len(cs) <= MAXCONDS:
            c = min(cs, key=lambda x: x.key)
            r = _ite(c, lift(_struct_restrict(t, c, True)),
                     lift(_struct_restrict(t, c, False)))
        _lift_memo[t] = r
    return r


def lift_all(t, memo=None):
    """the cases of a value outermost"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        if t.op == 'ite':
            r = _ite(t.args[0], lift_all(t.args[1], memo),
                     lift_all(t.args[2], memo))
        elif t.op in STRUCT and 'ite' in t.flags:
            r = lift(t)
        else:
            r = t
        memo[t] = r
    return r


def _struct_conds(t, acc):
    if isinstance(t, tuple):
        for x in t:
            _struct_conds(x, acc)
    elif isinstance(t, T) and 'ite' in t.flags:
        if t.op == 'ite':
            conds_of(t, acc)
        elif t.op in STRUCT:
            _struct_conds(t.args, acc)


def _struct_restrict(t, c, v):
    if isinstance(t, tuple):
        return tuple(_struct_restrict(x, c, v) for x in t)
    if isinstance(t, T) and 'ite' in t.flags:
        if t.op == 'ite':
            return _ite(t.args[0], restrict(t.args[1], c, v),
                        restrict(t.args[2], c, v)) if t.args[0] is not c else \
                (t.args[1] if v else t.args[2])
        if t.op in STRUCT:
            return raw(t.op, *_struct_restrict(t.args, c, v))
    return t


def mk(op, *args):
    if op == 'ite':
        return ite(*args)
    bind = BINDERS.get(op, ())
    cs = None
    if any(isinstance(a, T) and a.op in STRUCT and 'ite' in a.flags
           for a in args):
        args = tuple(lift(a) if isinstance(a, T) and a.op in STRUCT and
                     'ite' in a.flags else a for a in args)
    for i, a in enumerate(args):
        if isinstance(a, T) and a.op == 'ite' and i not in bind:
            c = a.args[0]
            if cs is None or c.key < cs.key:
                cs = c
    if cs is not None:
        allc = set()
        for i, a in enumerate(args):
            if isinstance(a, T) and i not in bind:
                conds_of(a, allc)
        if len(allc) <= MAXCONDS:
            def br(v):
                return [_brestrict(a, cs, v) if isinstance(a, T) and i not in bind
                        else a for i, a in enumerate(args)]
            return _ite(cs, mk(op, *br(True)), mk(op, *br(False)))
    f = SIMP.get(op)
    if f is not None:
        return f(op, *args)
    return raw(op, *args)


@simp('add')
def _add(op, a, b):
    if a.op in LISTS or b.op in LISTS:
        return mk('concat', a, b)
    if a.op in STRS or b.op in STRS:
        return mk('fmt', a, b)
    return p_add(a, b)


@simp('sub')
def _sub(op, a, b):
    return p_add(a, b, -1)


@simp('mul')
def _mul(op, a, b):
    for x, y in ((a, b), (b, a)):
        if x.op in ('list', 'tuple', 'str'):
            n = as_int(y)
            if x.op == 'list' and n is not None and 0 <= n <= 8:
                return raw('list', *(x.args * n))
            return raw('seqrepeat', x, y)
    return p_mul(a, b)


@simp('div')
def _div(op, a, b):
    return p_mul(a, p_pow(b, -1))


@simp('neg')
def _neg(op, a):
    return p_mul(num(-1), a)


@simp('pow')
def _powr(op, a, b):
    if b.op == 'num':
        return p_pow(a, b.args[0])
    return raw('pow', a, b)


@simp('floordiv')
def _fdiv(op, a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] // b.args[0])
    if b is ONE:
        return a
    # (k*x)//k
    if b.op == 'num' and b.args[0] != 0:
        p = to_poly(a)
        if p and all((c / b.args[0]).denominator == 1 for c in p.values()):
            return from_poly({m: c / b.args[0] for m, c in p.items()})
    return raw('floordiv', a, b)


@simp('mod')
def _mod(op, a, b):
    if a.op == 'num' and b.op == 'num' and b.args[0] != 0:
        return num(a.args[0] % b.args[0])
    if a.op in STRS:
        return mk('fmt', a, b)
    return raw('mod', a, b)


STRS = {'str', 'fmt'}
LISTS = {'list', 'map', 'flatmap', 'concat', 'tuple'}


@simp('fmt')
def _fmt(op, *parts):
    return raw('fmt', *parts)


@simp('concat')
def _concat(op, *xs):
    out = []
    for x in xs:
        if x.op == 'concat':
            out.extend(x.args)
        else:
            out.append(x)
    res = []
    for x in out:
        if x.op in ('list', 'tuple') and not x.args and len(out) > 1:
            continue
        if res and x.op in ('list', 'tuple') and res[-1].op in ('list', 'tuple'):
            res[-1] = raw(res[-1].op, *(res[-1].args + x.args))
        else:
            res.append(x)
    if not res:
        return raw('list')
    if len(res) == 1:
        return res[0]
    return raw('concat', *res)


# linear operations: pull the rational content out
def _linear(op, x, *rest):
    if op in ('sum', 'mean') and rest:
        _, x, *rest = axes(op, x, *rest)
    c, body = content(x)
    if c != 1 and x.op == 'poly':
        return p_mul(num(c), SIMP_RAW.get(op, raw)(op, body, *rest))
    return SIMP_RAW.get(op, raw)(op, x, *rest)


SIMP_RAW = {}
for _n in ('sum', 'mean', 'reshape', 't', 'detach', 'expand', 'squeeze',
           'unsqueeze', 'diagonal', 'trace', 'cumsum', 'transpose', 'permute',
           'diag', 'repeat', 'clone', 'flip'):
    SIMP[_n] = _linear


@simp('matmul')
def _matmul(op, a, b):
    ca, ba = content(a) if a.op == 'poly' else (Fraction(1), a)
    cb, bb = content(b) if b.op == 'poly' else (Fraction(1), b)
    # (X @ Y) @ Z -> X @ (Y @ Z) is not applied: vectors do not associate
    r = raw('matmul', ba, bb)
    return p_mul(num(ca * cb), r) if ca * cb != 1 else r


@simp('inverse')
def _inverse(op, a):
    if a.op == 'inverse':
        return a.args[0]
    c, b = content(a) if a.op == 'poly' else (Fraction(1), a)
    if c != 1:
        return p_mul(num(1 / c), mk('inverse', b))
    return raw('inverse', a)


def rank(t):
    """number of dimensions of a tensor term, when known"""
    if t.op == 'num':
        return 0
    n = ASSUME.get(raw('len', raw('attr', t, 'shape')))
    if n is not None:
        return as_int(n)
    r = _rank_memo.get(t, t)
    if r is t:
        _rank_memo[t] = None
        r = _rank_memo[t] = _rank(t)
    return r


_rank_memo = {}
# documented shapes: frames by states, and the tables of a graph
RANKS = {'llhs': 2, 'pc_llhs': 2, 'trans_log_probs': 2, 'init_log_probs': 1,
         'final_log_probs': 1, 'resps': 2}


def _rank(t):
    op = t.op
    if op in ('reshape', 'expand') and t.args[1].op == 'tuple' and \
            all(x.op not in ('star', 'tuple', 'attr') for x in t.args[1].args):
        return len(t.args[1].args)
    if op == 'reshape' and t.args[1].op == 'tuple' and \
            len(t.args[1].args) == 1 and t.args[1].args[0].op == 'star':
        # the sizes of a tensor without one of them
        p = t.args[1].args[0].args[0]
        if p.op == 'popped' and len(p.args) == 2 and p.args[0].op == 'listof':
            x = p.args[0].args[0]
            if x.op == 'attr' and x.args[1] == 'shape':
                r = rank(x.args[0])
                return r - 1 if r else None
    if op == 'sym':
        return RANKS.get(t.args[0])
    if op == 'attr' and len(t.args) == 2:
        return RANKS.get(t.args[1])
    if op == 't':
        return 2          # of a matrix
    if op == 'index' and t.args[1] is ZERO and t.args[0].op in (
            'max', 'min') and as_int(t.args[0].args[1]) is not None:
        # the values of the largest elements
        r = rank(t.args[0].args[0])
        return r - (t.args[0].args[2] is FALSE) if r else None
    if op in ELEMENTWISE or op in ('zeros_like', 'ones_like', 'cumsum',
                                   'softmax', 'empty_like', 'store'):
        return rank(t.args[0])
    if op == 'storeloop':
        return rank(t.args[1])
    if op == 'fold' and kept_tensor(t):
        return rank(t.args[1].args[0])
    if op in REDUCE and len(t.args) >= 3 and t.args[1] is not NONE and \
            as_int(t.args[1]) is not None and t.args[-1] is FALSE:
        r = rank(t.args[0])
        return r - 1 if r else None
    if op in ('zeros', 'ones', 'empty', 'randn') and \
            t.args[0].op == 'tuple' and all(
                x.op not in ('star', 'tuple', 'attr', 'list')
                for x in t.args[0].args):
        return len(t.args[0].args)
    if op == 'index':
        r = rank(t.args[0])
        ks = t.args[1].args if t.args[1].op == 'tuple' else (t.args[1],)
        if r is None:
            return None
        for k in ks:
            if k is NONE:
                r += 1
            elif k.op in ('num', 'K', 'bv', 'poly'):
                r -= 1
            elif k.op != 'slice' and k is not const(Ellipsis):
                return None
        return r if r >= 0 else None
    if op == 'where' and len(t.args) == 3:
        rs = [rank(x) for x in t.args[1:]]
        return None if None in rs else max(rs)
    if op == 'poly':
        r = 0
        for _, m in t.args:
            for b, _ in m:
                if b.op in ('const', 'num', 'len', 'ext', 'sumloop'):
                    continue
                x = rank(b)
                if x is None:
                    return None
                r = max(r, x)
        return r
    return None


REDUCE = {'sum', 'mean', 'logsumexp', 'max', 'min', 'argmax', 'argmin', 'prod',
          'var', 'std'}


def axes(op, x, *rest):
    """an axis counted from the end, counted from the start"""
    if rest and rest[0].op == 'num' and rest[0].args[0] < 0:
        r = rank(x)
        if r is not None and -rest[0].args[0] <= r:
            rest = (num(r + rest[0].args[0]),) + rest[1:]
    return (op, x) + rest


for _n in ('logsumexp', 'max', 'min', 'argmax', 'argmin', 'prod', 'var', 'std',
           'softmax'):
    SIMP[_n] = lambda op, *a: raw(*axes(op, *a))


ELEMENTWISE = {'exp', 'log', 'sqrt', 'lgamma', 'digamma', 'abs', 'sigmoid',
               'tanh', 'detach', 'clone'}


def drop_row(t):
    """x such that t is x[None], or None"""
    if t.op == 'index' and t.args[1] is NONE:
        return t.args[0]
    if t.op == 'reshape' and t.args[1].op == 'tuple' and \
            len(t.args[1].args) == 2 and t.args[1].args[0] is ONE and \
            as_int(t.args[1].args[1]) == -1 and rank(t.args[0]) == 1:
        return t.args[0]
    if t.op in ELEMENTWISE and len(t.args) == 1:
        x = drop_row(t.args[0])
        return None if x is None else mk(t.op, x)
    if t.op == 'cat' and as_int(t.args[1]) == -1 and t.args[0].op == 'list':
        xs = [drop_row(x) for x in t.args[0].args]
        return None if None in xs else mk('cat', raw('list', *xs), t.args[1])
    if t.op == 'poly':
        r = ZERO
        for c, m in t.args:
            x = num(c)
            rows = 0
            for b, e in m:
                y = drop_row(b)
                if y is not None:
                    rows += 1
                    x = mk('mul', x, mk('pow', y, e if isinstance(e, T)
                                        else num(e)))
                elif b.op in ('num', 'len') or b.op == 'log' and \
                        b.args[0].op in ('num', 'poly', 'ext') and not b.free:
                    x = mk('mul', x, mk('pow', b, e if isinstance(e, T)
                                        else num(e)))
                else:
                    return None
            if not rows and m:
                return None
            r = mk('add', r, x)
        return r
    return None


def _reshape(op, x, sh):
    if sh.op == 'tuple' and len(sh.args) == 1 and as_int(sh.args[0]) == -1:
        y = drop_row(x)
        if y is not None and not y.op == 'index':
            return y
        if rank(x) == 1:
            return x
        if x.op == 'logsumexp' and x.args[1] is ONE and x.args[2] is FALSE:
            return x        # of a matrix
    if x.op == 'repeat' and sh.op == 'tuple' and len(sh.args) == 2 and \
            as_int(sh.args[1]) == -1 and sh.args[0].op == 'len' and \
            x.args[0].op == 'index' and x.args[0].args[0].op == 'call':
        # the columns of a matrix with a row per row of the argument, repeated
        full = raw('slice', NONE, NONE, NONE)
        y, key = x.args[0].args
        r = x.args[1]
        if key is raw('tuple', full, NONE) and r.op == 'tuple' and \
                len(r.args) == 3 and r.args[0] is ONE is r.args[2] and \
                sh.args[0].args[0] in y.args[2:-2]:
            return mk('repeat', y, raw('tuple', ONE, r.args[1]))
    return raw(op, x, sh)


@simp('float')
def _float(op, v):
    if v.op == 'poly' and len(v.args) == 1 and any(
            x.op == 'len' and e < 0 for x, e in v.args[0][1]):
        return v          # a quotient of counts
    return v if v.op in ('num', 'len') else raw('float', v)


SIMP_RAW['reshape'] = _reshape
SIMP_RAW['t'] = lambda op, x: x.args[0] if x.op == 't' else raw('t', x)


@simp('exp')
def _exp(op, a):
    if a.op == 'log':
        return a.args[0]
    if a is ZERO:
        return ONE
    return raw('exp', a)


@simp('log')
def _log(op, a):
    if a.op == 'exp':
        return a.args[0]
    if a is ONE:
        return ZERO
    if a.op == 'poly' and len(a.args) == 1 and a.args[0][0] == 1 \
            and len(a.args[0][1]) == 1:
        (x, e), = a.args[0][1]
        return p_mul(num(e), mk('log', x))
    return raw('log', a)


@simp('sqrt')
def _sqrt(op, a):
    return p_pow(a, Fraction(1, 2))


# ---------------------------------------------------------------- conditions
def _unordered(op, *args):
    """arguments without an order: kept sorted under substitution too"""
    out = []
    for a in args:
        if not isinstance(a, T):
            return raw(op, *args)
        if a not in out:
            out.append(a)
    if op in ('pymax', 'pymin') and len(out) == 1:
        return out[0]
    return raw(op, *sorted(out, key=lambda t: t.key))


for _o in ('pymax', 'pymin', 'setlit', 'deps', 'space', 'sigset'):
    SIMP[_o] = _unordered


@simp('where')
def _where(op, m, a, b):
    if a.op == 'zeros_like' and a.args[0] is b:
        a = ZERO
    if b.op == 'zeros_like' and b.args[0] is a:
        b = ZERO
    return raw(op, m, a, b)


@simp('full_like')
def _full_like(op, x, v, kw):
    return mk('add', mk('zeros_like', x, kw), v)


MASKS = {'isnan', 'isinf', 'isfinite', 'gt', 'tlt', 'teq'}


@simp('truth')
def _truth(op, a):
    if a is NONE or a is FALSE or a is ZERO:
        return FALSE
    if a is TRUE:
        return TRUE
    if a.op == 'num':
        return TRUE if a.args[0] != 0 else FALSE
    if a.op == 'str':
        return TRUE if a.args[0] else FALSE
    if a.op in ('list', 'tuple', 'dict', 'setlit'):
        return TRUE if a.args else FALSE
    if a.op in ('cls', 'func', 'lam', 'obj'):
        return TRUE
    if a.op in CONDOPS:
        return raw('ite', a, TRUE, FALSE)
    if a.op == 'len':
        return mk('truth', a.args[0])
    return atom('truth', a)


LITERAL = {'num', 'str', 'const'}


@simp('eq')
def _eq(op, a, b):
    if a is b:
        return TRUE
    if a.op in LITERAL and b.op in LITERAL:
        return FALSE
    if a.op == 'cls' and b.op == 'cls':
        return FALSE
    if a.op == 'tuple' and b.op == 'tuple' and len(a.args) == len(b.args):
        r = TRUE
        for x, y in zip(a.args, b.args):
            r = c_and(r, mk('eq', x, y))
        return r
    if 'poly' in (a.op, b.op):
        # an equation between numbers: constant on the right
        d = to_poly(p_add(a, b, -1))
        if d is not None:
            k = d.pop((), 0)
            if not d:
                return FALSE if k else TRUE
            c, body = content(from_poly(d))
            a, b = num(-k / c), body
            if k == 0 and body.op == 'poly' and len(body.args) == 2 and \
                    {q for q, _ in body.args} == {1, -1} and all(
                        len(m) == 1 and m[0][1] == 1 for _, m in body.args):
                a, b = (m[0][0] for _, m in body.args)
    if a is ZERO and b.op == 'len':
        return c_not(mk('truth', b))
    if b is ZERO and a.op == 'len':
        return c_not(mk('truth', a))
    if b.key < a.key:
        a, b = b, a
    return atom('eq', a, b)


NOTNONE = {'num', 'str', 'list', 'tuple', 'dict', 'poly', 'obj', 'cls', 'func',
           'map', 'concat', 'fmt', 'cat', 'matmul', 'exp', 'log', 'flatmap',
           'zeros', 'ones', 'sum', 'storeloop', 'store', 'sumloop', 'setlit',
           'lam'}


@simp('is')
def _is(op, a, b):
    if a is b:
        return TRUE
    for x, y in ((a, b), (b, a)):
        if x is NONE and (y.op in NOTNONE or y is TRUE or y is FALSE):
            return FALSE
    if a.op in ('cls', 'str', 'num') and b.op in ('cls', 'str', 'num'):
        return FALSE
    if b.key < a.key:
        a, b = b, a
    return atom('is', a, b)


@simp('lt')
def _lt(op, a, b):
    if a is b:
        return FALSE
    if a.op == 'num' and b.op == 'num':
        return TRUE if a.args[0] < b.args[0] else FALSE
    return positive(p_add(b, a, -1))


INTEGER = {'len', 'bv', 'K', 'numel', 'ndim'}


def integral(p):
    return all(c.denominator == 1 and all(
        e == 1 and x.op in INTEGER for x, e in m) for m, c in p.items())


def positive(d):
    """the condition 0 < d"""
    if d.op == 'num':
        return TRUE if d.args[0] > 0 else FALSE
    if d.op == 'ite':
        return ite(raw('ite', d.args[0], TRUE, FALSE), positive(d.args[1]),
                   positive(d.args[2]))
    p = dict(to_poly(d))
    if integral(p):
        # 0 < d is not 0 < 1 - d: the orientation with a positive first
        # coefficient; divided by the common factor of the coefficients
        k = p.pop((), Fraction(0))
        g = 0
        for c in p.values():
            g = math.gcd(g, abs(int(c)))
        first = from_poly(p)
        lead = content(first)[0]
        # g q + k > 0  <=>  q > -k/g  <=>  q >= floor(-k/g) + 1
        lo = math.floor(-k / g) + 1
        q = {m: c / g for m, c in p.items()}
        if lead > 0:
            # q >= lo
            if len(q) == 1 and lo == 1:
                (m, c), = q.items()
                if c == 1 and len(m) == 1 and m[0][0].op == 'len':
                    return mk('truth', m[0][0])
            if lo <= 0 and all(c > 0 for c in q.values()):
                return TRUE
            return atom('lt', num(lo - 1), from_poly(q))
        # q >= lo  <=>  not (-q >= 1 - lo)
        return c_not(positive(p_add(from_poly({m: -c for m, c in q.items()}),
                                    num(lo))))
    c, body = content(d)
    if c == abs(c):
        return atom('lt', ZERO, body)
    return atom('lt', body, ZERO)


@simp('in')
def _in(op, a, b):
    while b.op in ('setof', 'listof', 'keys', 'sorted') and \
            len(b.args) == 1:
        b = b.args[0]
    if b.op == 'values':
        sp = raw('space', raw('seq', raw('keys', b.args[0])))
        h = bv_height(b) + 1
        b = mk('map', sp, mk('index', b.args[0],
                             raw('dkey', b.args[0], raw('bv', h))), h)
    elif b.op == 'storeloop' and b.args[1].op == 'dict' and \
            not b.args[1].args:
        # the keys of a dictionary comprehension
        sp, _, key, _, h = b.args
        t = raw('K', 0)
        key = subst(key, {raw('bv', h): t})
        h = max(bv_height(key), bv_height(sp)) + 1
        b = mk('map', sp, subst(key, {t: raw('bv', h)}), h)
    if b.op == 'concat':
        r = FALSE
        for x in b.args:
            r = c_or(r, mk('in', a, x))
        return r
    if a.op == 'str' and b.op == 'store' and b.args[1].op == 'str':
        return TRUE if b.args[1] is a else mk('in', a, b.args[0])
    if a.op == 'str' and b.op == 'popped' and len(b.args) == 2 and \
            b.args[1].op == 'str':
        return FALSE if b.args[1] is a else mk('in', a, b.args[0])
    if b.op in ('list', 'tuple', 'setlit') and a.op in LITERAL:
        if any(x is a for x in b.args):
            return TRUE
        if all(x.op in LITERAL for x in b.args):
            return FALSE
    if b.op in ('list', 'tuple', 'setlit'):
        r = FALSE
        for x in b.args:
            r = c_or(r, mk('eq', a, x))
        return r
    if b.op == 'dict':
        ks = [k for k, _ in b.args]
        r = FALSE
        for x in ks:
            r = c_or(r, mk('eq', a, x))
        return r
    return atom('in', a, b)


@simp('isinstance')
def _isinstance(op, x, k):
    if k is raw('ext', 'slice'):
        # nothing is both
        return ite(atom(op, x, raw('ext', 'int')), FALSE, atom(op, x, k))
    return atom(op, x, k)


for _n in ('exists', 'raises', 'hasattr', 'issubclass'):
    SIMP[_n] = lambda op, *a: atom(op, *a)


# ---------------------------------------------------------------- containers
def dict_term(pairs):
    """pairs: list of (T key, T value)"""
    d = {}
    for k, v in pairs:
        d[k] = v
    return raw('dict', *sorted(d.items(), key=lambda kv: kv[0].key))


@simp('store')
def _store(op, base, key, val):
    if base.op == 'dict' and key.op in LITERAL | {'sym', 'attr', 'index'}:
        return dict_term(list(base.args) + [(key, val)])
    if base.op == 'list':
        i = as_int(key)
        if i is not None and -len(base.args) <= i < len(base.args):
            xs = list(base.args)
            xs[i] = val
            return raw('list', *xs)
    if base.op == 'store' and base.args[1] is key:
        return mk('store', base.args[0], key, val)
    if base.op == 'store' and key.op == 'str' and \
            base.args[1].op == 'str' and key.key < base.args[1].key:
        return mk('store', mk('store', base.args[0], key, val),
                  *base.args[1:])
    if key.op in MASKS and val.op == 'num':
        return mk('where', key, val, base)
    return raw('store', base, key, val)


@simp('popped')
def _popped(op, d, *a):
    """a table without one of its keys"""
    if not a or a[0].op != 'str':
        return raw(op, d, *a)
    k = a[0]
    if len(a) > 1:
        return ite(mk('in', k, d), mk('popped', d, k), d)
    if d.op == 'store' and d.args[1].op == 'str':
        if d.args[1] is k:
            return mk('popped', d.args[0], k, NONE)
        return mk('store', mk('popped', d.args[0], k), *d.args[1:])
    return raw(op, d, k)


@simp('popval')
def _popval(op, d, *a):
    if a and a[0].op == 'str':
        k = a[0]
        if d.op == 'store' and d.args[1].op == 'str':
            return d.args[2] if d.args[1] is k else mk(op, d.args[0], *a)
        if len(a) > 1:
            return ite(mk('in', k, d), mk('index', d, k), a[1])
    return raw(op, d, *a)


def _static_distinct(a, b):
    if a.op in LITERAL and b.op in LITERAL:
        return a is not b
    # positions in a loop: a constant number of rows apart
    return 'poly' in (a.op, b.op) and a.op in ('poly', 'K', 'bv') and \
        b.op in ('poly', 'K', 'bv') and p_add(a, b, -1).op == 'num'


def norm_key(key):
    """canonical subscript key: a tuple of entries or a single entry"""
    if key.op == 'tuple':
        xs = list(key.args)
        full = raw('slice', NONE, NONE, NONE)
        while len(xs) > 1 and xs[-1] is full:
            xs.pop()
        if len(xs) == 2 and xs[0] is const(Ellipsis) and xs[1] is full:
            return full
        if len(xs) == 1:
            return xs[0]
        return raw('tuple', *xs)
    return key


@simp('bitor', 'bitand')
def _bitop(op, a, b):
    if a.key > b.key and a.op != 'dict' and b.op != 'dict':
        a, b = b, a
    return raw(op, a, b)


@simp('bigmul')
def _bigmul(op, a, b):
    return raw('bigmul', *sorted((a, b), key=lambda t: t.key))


@simp('setlit')
def _setlit(op, *xs):
    return raw('setlit', *sorted(set(xs), key=lambda t: t.key))


@simp('updated')
def _updated(op, base, d):
    if base.op == 'dict' and not base.args:
        return mk('dictof', d)
    if d.op in ('dictof', 'copied'):
        d = d.args[0]
    if d.op == 'map' and d.args[1].op == 'tuple' and len(d.args[1].args) == 2:
        return mk('storeloop', d.args[0], base, *d.args[1].args, d.args[2])
    if d.op == 'storeloop' and d.args[1].op == 'dict' and not d.args[1].args:
        return mk('storeloop', d.args[0], base, *d.args[2:])
    return raw('updated', base, d)


# a dictionary written over sets of keys: which keys it has, and the value
# under each, whatever the order and the number of loops that built it
ABSENT = raw('absent')


def set_like(s):
    if s.op in ('bitand', 'bitor'):
        return any(set_like(x) for x in s.args)
    return s.op in ('setof', 'setdiff')


def member(key, s):
    if s.op == 'setdiff':
        return c_and(member(key, s.args[0]), c_not(member(key, s.args[1])))
    if s.op == 'bitand':
        return c_and(member(key, s.args[0]), member(key, s.args[1]))
    if s.op == 'bitor':
        return c_or(member(key, s.args[0]), member(key, s.args[1]))
    return mk('in', key, s)


def partial_map(t, key):
    if t.op == 'dict' and not t.args:
        return ABSENT
    if t.op == 'dictof':
        return ite(mk('in', key, t.args[0]), mk('index', t.args[0], key), ABSENT)
    if t.op == 'pmap':
        return subst(t.args[0], {raw('bv', t.args[1]): key})
    if t.op == 'storeloop':
        sp, base, k, v, h = t.args
        if sp.op != 'space' or len(sp.args) != 1 or sp.args[0].op != 'seq':
            return None
        s, bv = sp.args[0].args[0], raw('bv', h)
        if k.op == 'dkey' and s.op == 'keys' and k.args[0] is s.args[0] and \
                k.args[1] is bv:
            pass
        elif not (k.op == 'index' and k.args[0] is s and k.args[1] is bv and
                  set_like(s)):
            return None
        b = partial_map(base, key)
        v = subst(v, {k: key})
        if b is None or subst(v, {bv: ABSENT}) is not v:
            return None
        return ite(member(key, s), v, b)
    return None


@simp('storeloop')
def _storeloop(op, sp, base, k, v, h):
    t = raw('storeloop', sp, base, k, v, h)
    if sp.op == 'space' and len(sp.args) == 1 and sp.args[0].op == 'seq' and (
            set_like(sp.args[0].args[0]) or base.op in ('dictof', 'pmap')):
        key = raw('K', 0)
        b = partial_map(t, key)
        if b is not None:
            b = lift_all(b)
            n = bv_height(b) + 1
            return raw('pmap', subst(b, {key: raw('bv', n)}), n)
    return t


@simp('dictof')
def _dictof(op, d):
    if d.op in ('dict', 'dictof', 'updated', 'storeloop', 'store', 'pmap'):
        return d
    return raw('dictof', d)


@simp('slice')
def _slice(op, a, b, c):
    if a is ZERO:
        a = NONE
    if c is ONE:
        c = NONE
    return raw('slice', a, b, c)


@simp('index')
def _index(op, base, key):
    key = norm_key(key)
    full = raw('slice', NONE, NONE, NONE)
    i = as_int(key)
    if key.op == 'tuple' and const(Ellipsis) in key.args:
        r = rank(base)
        n = sum(1 for x in key.args if x is not NONE) - 1
        if r is not None and n <= r and all(
                x is NONE or x.op in ('slice', 'num', 'K', 'bv') or
                x is const(Ellipsis) for x in key.args):
            j = key.args.index(const(Ellipsis))
            key = norm_key(raw('tuple', *key.args[:j], *[full] * (r - n),
                               *key.args[j + 1:]))
            i = as_int(key)
    if base.op in ('list', 'tuple'):
        if i is not None and -len(base.args) <= i < len(base.args):
            return base.args[i]
        if key.op == 'slice' and all(x is NONE or as_int(x) is not None
                                     for x in key.args):
            s = slice(*[None if x is NONE else as_int(x) for x in key.args])
            return raw(base.op, *base.args[s])
    if base.op == 'dict':
        for k, v in base.args:
            if k is key:
                return v
    if base.op == 'store':
        if base.args[1] is key:
            return base.args[2]
        if _static_distinct(base.args[1], key):
            return mk('index', base.args[0], key)
    if base.op in ('max', 'min') and i == 1 and base.args[1] is not NONE:
        return mk('arg' + base.op, *base.args)
    if key.op == 'tuple' and len(key.args) == 2 and \
            key.args[1].op in ('argmax', 'argmin') and \
            key.args[1].args[0] is base and as_int(key.args[1].args[1]) in (
                1, -1) and key.args[1].args[2] is FALSE and \
            every_row(key.args[0], base):
        # the largest element of each row
        return mk('index', mk(key.args[1].op[3:], *key.args[1].args), ZERO)
    if base.op == 'popped' and len(base.args) == 2 and key.op == 'str' and \
            base.args[1].op == 'str' and base.args[1] is not key:
        return mk('index', base.args[0], key)
    if base.op == 'map' and key.op in ('K', 'sym', 'num', 'poly', 'bv') \
            and not (i is not None and i < 0) and \
            not filtered(base.args[1]):
        return open_binder(base, key)
    if base.op == 'split' and key.op in ('K', 'bv') and split_sizes(base):
        # consecutive blocks of the given sizes
        x, sizes, d = base.args[:3]
        sp, f, h = sizes.args
        start = raw('at', raw('fold', sp, raw('tuple', ZERO), raw(
            'tuple', p_add(raw('bmu', 0), f)), h), key)
        part = mk('slice', start, p_add(start, open_binder(sizes, key)), NONE)
        return mk('index', x, raw('tuple', *[full] * as_int(d), part)
                  if as_int(d) else part)
    if key.op == 'slice' and key.args[0].op == 'num' and base.op in LISTS \
            and key is full:
        return base
    if i == 0 and base.op == 'attr' and base.args[1] == 'shape' and not (
            base.args[0].op == 'attr' and base.args[0].args[1] == 'params'):
        return mk('len', base.args[0])
    c, b = content(base) if base.op == 'poly' else (Fraction(1), base)
    if c != 1:
        return p_mul(num(c), mk('index', b, key))
    if base.op in ('lgamma', 'digamma', 'exp', 'log', 'sqrt', 'sigmoid',
                   'tanh', 'abs') and len(base.args) == 1:
        return mk(base.op, mk('index', base.args[0], key))
    if base.op in ('cumsum', 'cumprod') and len(base.args) == 2:
        # the first partial sums are the partial sums of the first elements
        xs = key.args if key.op == 'tuple' else (key,)
        d = as_int(base.args[1])
        if d is not None and 0 <= d and all(x.op == 'slice' for x in xs) and (
                d >= len(xs) or xs[d].args[0] is NONE and
                xs[d].args[2] is NONE):
            return mk(base.op, mk('index', base.args[0], key), base.args[1])
    return raw('index', base, key)


def every_row(key, x):
    """the numbers of all the rows of x"""
    if key.op == 'range' and key.args[0] is ZERO and key.args[2] is ONE:
        n = key.args[1]
    elif key.op == 'arange' and key.args[0].op == 'tuple' and \
            key.args[0].args[:-1] in ((), (ZERO,)):
        n = key.args[0].args[-1]
    else:
        return False
    if n.op != 'len':
        return False
    n = n.args[0]
    parts = [x] + ([b for c, m in x.args for b, e in m]
                   if x.op == 'poly' else [])
    return any(y is n or y.op == 't' and y.args[0] is n for y in parts)


def split_sizes(x):
    """a tensor split into blocks whose sizes are listed"""
    return x.args[1].op == 'map' and len(x.args) == 3 and \
        not filtered(x.args[1].args[1]) and \
        x.args[1].args[0].op == 'space' and \
        as_int(x.args[2]) is not None and 0 <= as_int(x.args[2]) < 4


def filtered(t):
    """the element term of a list from which some elements are left out"""
    return t.op == 'skip' or t.op == 'ite' and 'skip' in t.flags and (
        filtered(t.args[1]) or filtered(t.args[2]))


def kept(t):
    """1 where the element term t is an element, 0 where it is left out"""
    if t.op == 'ite':
        return _ite(t.args[0], kept(t.args[1]), kept(t.args[2]))
    return ZERO if t.op == 'skip' else ONE


def open_binder(t, k):
    """body of a closed map with its bound variable replaced by k"""
    space, body = t.args[0], t.args[1]
    h = t.args[2]
    return subst(body, {raw('bv', h): k})


@simp('len')
def _len(op, a):
    if a.op in ('list', 'tuple', 'dict', 'setlit'):
        return num(len(a.args))
    if a.op == 'str':
        return num(len(a.args[0]))
    if a.op == 'map' and not filtered(a.args[1]) and \
            len(a.args[0].args) == 1:
        s = a.args[0].args[0]
        if s.op == 'seq':
            return mk('len', s.args[0])
        if s.op == 'rng':
            return s.args[0]
    if a.op == 'map' and a.args[0].op == 'space' and filtered(a.args[1]):
        return mk('sumloop', a.args[0], kept(a.args[1]), a.args[2])
    n = rows(a)
    if n is not None:
        return n
    r = raw('len', a)
    return ASSUME.get(r, r)


def rows(t):
    """number of rows of a new tensor"""
    if t.op in ('zeros_like', 'ones_like', 'empty_like'):
        return mk('len', t.args[0])
    if t.op in ('zeros', 'ones', 'empty', 'randn', 'rand', 'eye') and \
            t.args[0].op == 'tuple' and t.args[0].args and \
            t.args[0].args[0].op not in ('star', 'tuple', 'list', 'attr'):
        return t.args[0].args[0]
    if t.op in ('store', 'viewset'):
        return rows(t.args[0])
    if t.op == 'storeloop':
        return rows(t.args[1])
    if t.op == 'fold' and kept_tensor(t):
        return rows(t.args[1].args[0])
    if t.op == 'poly':
        big = [b for q, mono in t.args for b, e in mono
               if b.op not in ('num', 'ext', 'const')]
        if len(big) == 1:
            return rows(big[0])
    return None


def kept_tensor(t):
    """the loop only replaces elements of what it starts with"""
    m = raw('bmu', 0)
    return t.args[1].op == 'tuple' and all(
        x.op == 'tuple' and all(grown_from(y, m) for y in leaves(x.args[0]))
        for x in leaves(t.args[2]))


def grown_from(t, m):
    """the tensor t is m with some elements replaced"""
    while True:
        if t is m:
            return True
        if t.op in ('store', 'viewset'):
            t = t.args[0]
        elif t.op == 'storeloop':
            t = t.args[1]
        elif t.op == 'fold':
            if not kept_tensor(t):
                return False
            t = t.args[1].args[0]
        else:
            return False


# assumptions of the current analysis context: {term: term}
ASSUME = {}


# ---------------------------------------------------------------- subst
STOPINIT = raw('sym', '<entry>')


def subst(t, m, memo=None):
    if not m:
        return t
    memo = {} if memo is None else memo
    return _subst(t, m, memo)


def _subst_any(a, m, memo):
    if isinstance(a, T):
        return _subst(a, m, memo)
    if isinstance(a, tuple):
        return tuple(_subst_any(x, m, memo) for x in a)
    return a


def _subst(t, m, memo):
    r = m.get(t)
    if r is not None:
        return r
    if not t.args or t.op in ('num', 'str', 'const', 'sym', 'top', 'ext', 'cls',
                              'func', 'bv', 'K'):
        return t
    if t.op == 'init' and type(m) is dict and STOPINIT in m:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'poly':
        r = ZERO
        for c, mono in t.args:
            term = num(c)
            for a, e in mono:
                term = mk('mul', term, mk('pow', _subst(a, m, memo), num(e)))
            r = mk('add', r, term)
    elif t.op == 'ite':
        c = _subst(t.args[0], m, memo)
        if not (c is TRUE or c is FALSE or c.op == "ite"):
            c = raw("ite", c, TRUE, FALSE) if c.op in CONDOPS else mk("truth", c)
        r = ite(c, _subst(t.args[1], m, memo), _subst(t.args[2], m, memo))
    elif t.op == 'dict':
        r = dict_term([(_subst(k, m, memo), _subst(v, m, memo))
                       for k, v in t.args])
    else:
        args = [_subst_any(a, m, memo) for a in t.args]
        r = t if all(x is y for x, y in zip(args, t.args)) else mk(t.op, *args)
    memo[t] = r
    return r


def walk(t, seen=None):
    """all distinct sub-terms"""
    seen = set() if seen is None else seen
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
            continue
        if not isinstance(x, T) or x in seen:
            continue
        seen.add(x)
        yield x
        stack.extend(x.args)


def bv_height(t):
    return max((x.args[0] for x in walk(t) if x.op == 'bv'), default=0)


# ---------------------------------------------------------------- printing
def show(t, depth=9):
    if isinstance(t, tuple):
        return '(' + ', '.join(show(x, depth) for x in t) + ')'
    if not isinstance(t, T):
        return str(t)
    if depth <= 0:
        return '…'
    d = depth - 1
    if t.op == 'num':
        return str(t.args[0])
    if t.op == 'str':
        return repr(t.args[0])
    if t.op == 'const':
        return str(t.args[0])
    if t.op in ('sym', 'ext', 'cls'):
        return str(t.args[0])
    if t.op == 'func':
        return 'func ' + str(t.args[0])
    if t.op == 'poly':
        s = []
        for c, m in t.args:
            f = [] if c == 1 and m else [str(c)]
            for a, e in m:
                f.append(show(a, d) + ('' if e == 1 else f'^{e}'))
            s.append('*'.join(f))
        return '(' + ' + '.join(s) + ')'
    if t.op == 'attr':
        return f'{show(t.args[0], d)}.{t.args[1]}'
    if t.op == 'index':
        return f'{show(t.args[0], d)}[{show(t.args[1], d)}]'
    if t.op == 'slice':
        return ':'.join('' if a is NONE else show(a, d) for a in t.args)
    if t.op == 'ite':
        return f'({show(t.args[1], d)} if {show(t.args[0], d)} else {show(t.args[2], d)})'
    if t.op == 'call':
        return (f'{show(t.args[0], d)}.{t.args[1]}(' +
                ', '.join(show(a, d) for a in t.args[2:]) + ')')
    if t.op in ('list', 'tuple'):
        b = '[]' if t.op == 'list' else '()'
        return b[0] + ', '.join(show(a, d) for a in t.args) + b[1]
    return f'{t.op}(' + ', '.join(show(a, d) for a in t.args) + ')'

"""Return paths, vacuous guards and sources of irreproducibility."""
import ast

from sa.check import rule, Finding
from sa.rules.names import Names, scope_nodes, FUNC

# reviewed modules whose set iterations cannot change a result: members are
# state numbers, or the loop only fills a dictionary / a sum
ORDER_FREE = {'beer.inference.objectives', 'beer.cli.subcommands.hmm.mkphones',
              'beer.cli.subcommands.features.archive', 'recipes.aud.utils.nmi'}
SEEDERS = {'torch.manual_seed', 'torch.seed', 'torch.random.manual_seed',
           'torch.random.seed', 'torch.cuda.manual_seed',
           'torch.cuda.manual_seed_all', 'torch.cuda.seed',
           'torch.cuda.seed_all', 'torch.set_rng_state', 'numpy.random.seed',
           'numpy.random.set_state', 'random.seed', 'random.setstate'}
FRESH = {'numpy.random.default_rng', 'numpy.random.RandomState',
         'numpy.random.Generator', 'numpy.random.SeedSequence',
         'torch.Generator', 'random.Random', 'random.SystemRandom',
         'os.urandom', 'secrets.token_bytes', 'secrets.randbelow',
         'secrets.choice'}


def falls(body):
    """can control reach the end of the block?"""
    for s in body:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return False
        if isinstance(s, ast.If):
            if s.orelse and not falls(s.body) and not falls(s.orelse):
                return False
        elif isinstance(s, ast.While):
            if isinstance(s.test, ast.Constant) and s.test.value and not any(
                    isinstance(n, ast.Break) for n in ast.walk(s)):
                return False
        elif isinstance(s, ast.With):
            if not falls(s.body):
                return False
        elif isinstance(s, ast.Try):
            if s.finalbody and not falls(s.finalbody):
                return False
            if not falls(s.body + s.orelse) and all(
                    not falls(h.body) for h in s.handlers):
                return False
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                ast.unparse(s.value.func) in ('sys.exit', 'exit'):
            return False
        elif isinstance(s, ast.Match):
            if all(not falls(c.body) for c in s.cases) and any(
                    isinstance(c.pattern, ast.MatchAs) and
                    c.pattern.pattern is None and c.guard is None
                    for c in s.cases):
                return False
    return True


def functions(P):
    for mn, m in sorted(P.modules.items()):
        if mn == 'beer.vbi' or m.path.startswith('specs'):
            continue
        for n in ast.walk(m.tree):
            if isinstance(n, ast.FunctionDef):
                yield m, n


@rule('P23')
def returns(P, res, tier):
    """a function that returns a value on one path does so on every path that ends normally; a guard is not vacuous (membership in one constant string, a condition that is a non-empty tuple, comparison of an expression with itself, `raise NotImplemented`)"""
    n = 0
    for m, f in functions(P):
        own = list(scope_nodes(f))
        gen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own)
        rets = [x for x in own if isinstance(x, ast.Return)]
        val = [x for x in rets if x.value is not None and not (
            isinstance(x.value, ast.Constant) and x.value.value is None)]
        n += 1
        bad = []
        if val and not gen:
            if falls(f.body):
                bad.append((f, f'{f.name} returns a value on some paths and '
                            'falls off its end on others', 'fall'))
            for x in rets:
                if x.value is None:
                    bad.append((x, f'{f.name} returns a value on some paths '
                                'and nothing here', 'bare'))
        for x in own:
            t = getattr(x, 'test', None) if isinstance(
                x, (ast.If, ast.Assert, ast.While, ast.IfExp)) else None
            if isinstance(t, ast.Tuple) and t.elts:
                bad.append((x, 'the condition is a non-empty tuple', 'tuple'))
            if isinstance(x, ast.Compare) and len(x.ops) == 1:
                a, b = x.left, x.comparators[0]
                if isinstance(x.ops[0], (ast.In, ast.NotIn)) and \
                        isinstance(b, ast.Constant) and \
                        isinstance(b.value, str) and len(b.value) > 1 and \
                        isinstance(a, (ast.Name, ast.Attribute)) and \
                        raises_on(own, x):
                    bad.append((x, f'membership test in the string {b.value!r}'
                                ' accepts any of its substrings', 'substring'))
        for x in own:
            if isinstance(x, ast.Raise) and isinstance(x.exc, ast.Name) and \
                    x.exc.id == 'NotImplemented':
                bad.append((x, 'NotImplemented is not an exception', 'raise'))
        for x, text, k in bad:
            res.violations.append(Finding(
                f'paths:{m.name}:{f.name}', f'{m.path}:{x.lineno}',
                f'{m.path}:{x.lineno}: {text}', k))
        res.functions.add(f'{m.name}:{f.name}')
    res.count('functions whose return paths were checked', n)
    if not any(v.obligation.startswith('paths:') for v in res.violations):
        res.proved.append(('return paths and guards', f'{n} functions'))


def raises_on(own, cmp):
    for x in own:
        if isinstance(x, ast.If) and any(y is cmp for y in ast.walk(x.test)) \
                and any(isinstance(y, ast.Raise) for s in x.body + x.orelse
                        for y in ast.walk(s)):
            return True
    return False


def dotted(N, m, e, chain):
    r = N.target(m, e, chain)
    if r is not None and r[0] == 'ext':
        return r[1]
    if isinstance(e, ast.Attribute):
        b = dotted(N, m, e.value, chain)
        return b + '.' + e.attr if b else None
    return None


@rule('P21')
def reproducible(P, res, tier):
    """only the launcher seeds generators; no generator of its own is created (`default_rng`, `RandomState`, `torch.Generator`, `os.urandom` …); no sequence is made from a set or an unsorted directory listing, outside the reviewed modules where the order cannot matter"""
    N = Names(P)
    n = 0
    bad = []

    class Sc:
        glob = ()

        def __init__(self, names):
            self.names = names

    for mn, m in sorted(P.modules.items()):
        if mn == 'beer.vbi' or m.path.startswith('specs'):
            continue
        launcher = m.path == 'beer/cli/beer'
        par = {}
        for x in ast.walk(m.tree):
            for c in ast.iter_child_nodes(x):
                par[c] = x
        chain = [Sc(set())]
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Call):
                n += 1
                d = dotted(N, m, x.func, chain)
                if d is None:
                    r = None
                    if isinstance(x.func, ast.Name):
                        r = P.resolve(mn, x.func.id)
                    d = r[1] if r and r[0] == 'ext' else None
                if d in SEEDERS and not launcher:
                    bad.append((m, x, f'{d} is called outside the launcher',
                                'seed ' + d))
                elif d in FRESH:
                    bad.append((m, x, f'{d}: a source of randomness the seed '
                                'does not control', 'fresh ' + d))
                elif d in ('os.listdir', 'os.scandir', 'glob.glob',
                           'glob.iglob', 'os.walk') and \
                        mn not in ORDER_FREE and not is_sorted(par, x):
                    bad.append((m, x, f'the order of {d} is that of the file '
                                'system', 'listing ' + d))
        if mn in ORDER_FREE:
            continue
        for f in ast.walk(m.tree):
            if not isinstance(f, ast.FunctionDef):
                continue
            sets = set_names(f)
            for x in scope_nodes(f):
                its = []
                if isinstance(x, ast.For):
                    its.append(x.iter)
                elif isinstance(x, (ast.ListComp, ast.DictComp)):
                    its += [g.iter for g in x.generators]
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) \
                        and x.func.id in ('list', 'tuple', 'enumerate', 'zip',
                                          'iter'):
                    its += x.args
                for e in its:
                    if is_set(e, sets) and not is_sorted(par, x):
                        bad.append((m, x, 'the order of the members of a set '
                                    'is not reproducible', 'set order'))
    for m, x, text, k in bad:
        res.violations.append(Finding(
            f'reproducible:{m.name}', f'{m.path}:{x.lineno}',
            f'{m.path}:{x.lineno}: {text}', k))
    if not bad:
        res.proved.append(('seeding and ordering', f'{n} call sites'))
    res.count('call sites checked for unseeded randomness', n)


def is_sorted(par, x):
    p = par.get(x)
    while p is not None and isinstance(p, (ast.expr, ast.comprehension)):
        if isinstance(p, ast.Call):
            nm = getattr(p.func, 'id', getattr(p.func, 'attr', ''))
            if nm in ('sorted', 'natsorted', 'len', 'sum', 'max', 'min',
                      'any', 'all', 'set', 'frozenset'):
                return True
        p = par.get(p)
    return False


def is_set(e, sets):
    if isinstance(e, (ast.Set, ast.SetComp)):
        return True
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
        if e.func.id in ('set', 'frozenset'):
            return True
        if e.func.id in ('enumerate', 'list', 'tuple', 'reversed') and e.args:
            return is_set(e.args[0], sets)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
            e.func.attr in ('union', 'intersection', 'difference',
                            'symmetric_difference'):
        return is_set(e.func.value, sets)
    if isinstance(e, ast.BinOp) and isinstance(e.op, (
            ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
        return is_set(e.left, sets) and is_set(e.right, sets)
    return isinstance(e, ast.Name) and e.id in sets


def set_names(f):
    vals = {}
    for x in ast.walk(f):
        if isinstance(x, ast.Assign):
            for t in x.targets:
                if isinstance(t, ast.Name):
                    vals.setdefault(t.id, []).append(x.value)
        elif isinstance(x, (ast.For, ast.comprehension)):
            for t in ast.walk(x.target):
                if isinstance(t, ast.Name):
                    vals.setdefault(t.id, []).append(None)
    out = set()
    for _ in range(3):
        for k, vs in vals.items():
            if vs and all(v is not None and is_set(v, out) for v in vs):
                out.add(k)
    return out

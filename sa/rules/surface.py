"""What module and class bodies do besides defining things: decorators that
change a function, statements run at import, members that override inherited
ones or hook into the object protocol.

surface.json holds the reviewed state (tools/gen_surface.py)."""
import ast
import json
import os

from sa.check import rule, Finding, check_obligation, load_vocab, Result
from sa import spec as sp, compare as cmp, terms as tm
from sa.interp import Unsupported, Dead
from sa.program import ClassInfo
from sa.rules.decl import props_of, ROLES

TABLE = os.path.join(os.path.dirname(__file__), 'surface.json')

NEUTRAL = {'property', 'setter', 'getter', 'deleter', 'classmethod',
           'staticmethod', 'abstractmethod', 'abstractproperty', 'dataclass',
           'wraps', 'abstractclassmethod', 'abstractstaticmethod', 'final',
           'override', 'contextmanager'}
CACHING = {'lru_cache', 'cache', 'cached_property', 'memoize', 'memoized',
           'singledispatch', 'singledispatchmethod'}
GRAD = {'no_grad', 'inference_mode', 'enable_grad', 'set_grad_enabled',
        'script', 'compile', 'autocast'}
# calls whose effect outlives the statement and changes what others compute
SETTINGS = {
    'set_default_dtype': 'P18', 'set_default_tensor_type': 'P18',
    'set_default_device': 'P18', 'set_grad_enabled': 'P08',
    'manual_seed': 'P21', 'manual_seed_all': 'P21', 'seed': 'P21',
    'set_rng_state': 'P21', 'set_state': 'P21', 'setstate': 'P21',
    'use_deterministic_algorithms': 'P21', 'set_deterministic': 'P21',
    'seterr': 'P23', 'setrecursionlimit': 'P23', 'set_printoptions': '',
    'set_flush_denormal': 'P03', 'set_float32_matmul_precision': 'P03',
    'filterwarnings': '', 'simplefilter': '', 'register': 'P23',
    'signal': 'P23', 'setattr': 'P05', 'delattr': 'P05', 'chdir': 'P20',
}
# protocol members: defining one changes how every instance is stored,
# copied, compared, looked up or called
PROTOCOL = {'__getattr__', '__getattribute__', '__setattr__', '__delattr__',
            '__eq__', '__ne__', '__hash__', '__bool__', '__getstate__',
            '__setstate__', '__reduce__', '__reduce_ex__', '__getnewargs__',
            '__getnewargs_ex__', '__deepcopy__', '__copy__', '__new__',
            '__init_subclass__', '__del__', '__class_getitem__', '__lt__',
            '__le__', '__gt__', '__ge__', '__float__', '__int__', '__radd__',
            '__iadd__', '__len__', '__iter__', '__getitem__', '__call__',
            '__instancecheck__', '__set_name__', '__post_init__'}
MODULE = {'state_dict', 'load_state_dict', 'parameters', 'named_parameters',
          'buffers', 'named_buffers', 'to', 'cuda', 'cpu', 'float', 'double',
          'half', 'type', 'train', 'eval', 'zero_grad', 'register_buffer',
          'register_parameter', 'forward', 'apply', '_apply', 'children',
          'named_children', 'modules', 'named_modules', 'add_module',
          'requires_grad_', 'share_memory', '_load_from_state_dict',
          '_save_to_state_dict', '_call_impl'}


def skip(m):
    return not (m.name.startswith('beer') or m.name.startswith('recipes')) or \
        m.name == 'beer.vbi'


def deco_name(d):
    d = d.func if isinstance(d, ast.Call) else d
    return d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', '?')


def functions(m):
    """(qualified name, node, enclosing class) of every function"""
    def go(body, prefix, cls):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield prefix + s.name, s, cls
                yield from go(s.body, prefix + s.name + '.', None)
            elif isinstance(s, ast.ClassDef):
                yield from go(s.body, prefix + s.name + '.', s)
            else:
                for f in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, f, None)
                    if isinstance(b, list):
                        yield from go(b, prefix, cls)
                for h in getattr(s, 'handlers', []):
                    yield from go(h.body, prefix, cls)
    yield from go(m.tree.body, m.name + ':', None)


def decorators(P):
    out = {}
    for mn, m in P.modules.items():
        if skip(m):
            continue
        for q, f, c in functions(m):
            for d in f.decorator_list:
                n = deco_name(d)
                if n not in NEUTRAL:
                    out.setdefault(q, []).append((n, m.path, d.lineno, f, c))
    return out


def is_main_guard(s):
    return isinstance(s, ast.If) and isinstance(s.test, ast.Compare) and \
        isinstance(s.test.left, ast.Name) and s.test.left.id == '__name__'


def toplevel(m):
    """effects of importing a module: (description, line, kind, name)"""
    out = []

    def go(body, where, cls):
        for s in body:
            if is_main_guard(s):
                continue
            if isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef,
                              ast.AsyncFunctionDef, ast.Pass, ast.AnnAssign)):
                continue
            if isinstance(s, ast.ClassDef):
                go(s.body, where + s.name + '.', s)
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
                n = deco_name(s.value)
                out.append((ast.unparse(s), s.lineno, 'call', n))
                continue
            if isinstance(s, (ast.Assign, ast.AugAssign, ast.Delete)):
                ts = s.targets if not isinstance(s, ast.AugAssign) else \
                    [s.target]
                for t in ts:
                    if isinstance(t, (ast.Attribute, ast.Subscript)):
                        out.append((ast.unparse(s), s.lineno, 'write',
                                    ast.unparse(t)))
                    elif isinstance(s, ast.Delete):
                        out.append((ast.unparse(s), s.lineno, 'write',
                                    ast.unparse(t)))
                    elif cls is not None and isinstance(t, ast.Name) and \
                            isinstance(s, ast.Assign) and isinstance(
                                s.value, (ast.Lambda,)):
                        out.append((ast.unparse(s), s.lineno, 'member', t.id))
                continue
            for f in ('body', 'orelse', 'finalbody'):
                b = getattr(s, f, None)
                if isinstance(b, list):
                    go(b, where, cls)
            for h in getattr(s, 'handlers', []):
                go(h.body, where, cls)
    if m.name.endswith('_script'):
        return []
    go(m.tree.body, '', None)
    return out


def settings(P):
    """process-wide settings changed inside functions"""
    out = []
    for mn, m in P.modules.items():
        if skip(m):
            continue
        for q, f, c in functions(m):
            for n in ast.walk(f):
                if not isinstance(n, ast.Call):
                    continue
                fn = n.func
                if not isinstance(fn, ast.Attribute):
                    continue
                if not SETTINGS.get(fn.attr):
                    continue
                r = P.eval_ref(m, fn)
                full = r[1] if r is not None and r[0] == 'ext' and \
                    isinstance(r[1], str) else None
                root = fn
                while isinstance(root, ast.Attribute):
                    root = root.value
                d = m.defs.get(root.id) if isinstance(root, ast.Name) else None
                if d is None or d[0] != 'import' or d[1].startswith('beer'):
                    continue
                out.append((q, fn.attr, ast.unparse(fn), m, n.lineno))
    return out


def members(P):
    return {q: sorted(set(c.methods) | set(c.setters))
            for q, c in P.classes.items() if not skip(c.module)}


def is_module(P, c):
    return any((isinstance(k, str) and k.endswith('Module')) or
               (isinstance(k, tuple) and str(k).endswith("Module')"))
               or 'Module' in str(k) for k in P.mro(c)
               if not isinstance(k, ClassInfo))


def roles(key, also=()):
    return props_of(key) | set(also) or set(also)


def load():
    with open(TABLE) as f:
        return json.load(f)


ALLPROPS = sorted({p for _, ps in ROLES for p in ps.split()} |
                  {'P03', 'P05', 'P08', 'P09', 'P18', 'P20', 'P21', 'P22',
                   'P23', 'P11', 'P13', 'P28', 'P31'})


def findings(P):
    """all findings, computed once per program: (properties, Finding)"""
    if hasattr(P, '_surface'):
        return P._surface
    ref = load()
    out, n = [], {}

    def add(props, what, path, line, text, sig):
        out.append((set(props), Finding(what, f'{path}:{line}',
                                        f'{path}:{line}: {text}', sig)))

    # decorators
    cur = decorators(P)
    known = {(q, d) for q, ds in ref['decorators'].items() for d in ds}
    n['functions checked for decorators'] = sum(
        1 for m in P.modules.values() if not skip(m) for _ in functions(m))
    for q, ds in cur.items():
        for d, path, line, f, c in ds:
            if (q, d) in known:
                continue
            if d in CACHING:
                add(roles(q, ('P09', 'P05')), 'decorator ' + q, path, line,
                    f'results of {q} are kept and handed out again '
                    f'(@{d}), although they depend on state or are modified '
                    'by their users', 'deco ' + d)
            elif d in GRAD:
                add(roles(q, ('P08', 'P26')), 'decorator ' + q, path, line,
                    f'@{d} changes gradient tracking inside {q}', 'deco ' + d)
    # import-time effects
    k = 0
    for mn, m in P.modules.items():
        if skip(m):
            continue
        allowed = set(ref['toplevel'].get(mn, []))
        tops = toplevel(m)
        k += len(m.tree.body)
        for text, line, kind, name in tops:
            if text in allowed:
                continue
            if kind == 'call':
                if SETTINGS.get(name):
                    add(roles(mn + ':', (SETTINGS[name],)), 'import ' + mn,
                        m.path, line, 'importing the module changes a '
                        f'process-wide setting: {text[:120]}', 'top ' + name)
                continue
            if kind == 'write':
                base = name.split('.')[0].split('[')[0]
                d = m.defs.get(base)
                if d is None and base in ('os', 'sys'):
                    continue
                if '[' in name and d is not None and d[0] == 'const':
                    continue    # filling a table of this module
                add(roles(mn + ':', ('P22',)), 'import ' + mn, m.path, line,
                    'importing the module modifies an existing object: '
                    + text[:120], 'top ' + name)
    n['module statements'] = k
    # settings inside functions
    known = {tuple(x) for x in ref['settings']}
    for q, attr, full, m, line in settings(P):
        if (q, full) in known or q.startswith('beer.cli.beer_script'):
            continue
        if attr in ('signal', 'register', 'setattr', 'delattr', 'chdir'):
            continue
        if attr == 'set_grad_enabled' and in_with(m, line):
            continue
        add(roles(q, (SETTINGS[attr],)), 'setting ' + q, m.path, line,
            f'{q} changes a process-wide setting ({full})', 'set ' + full)
    # members
    for q, names in members(P).items():
        old = ref['members'].get(q)
        if old is None:
            continue
        c = P.classes[q]
        for name in names:
            if name in old:
                continue
            node = c.methods.get(name) or c.setters.get(name)
            n['members not in the reviewed tree'] = n.get(
                'members not in the reviewed tree', 0) + 1
            verdict = inherited(P, c, name)
            if verdict is True:
                continue
            line = node.lineno
            if verdict is not None:
                like = {p for o in getattr(P, 'obligations', ())
                        if o.target.endswith('.' + name) for p in o.props}
                add(roles(q, {'P22', 'P05'} | like), f'override {q}.{name}',
                    c.module.path, line, f'{q}.{name} overrides the inherited '
                    f'definition and differs from it\n{verdict}',
                    'override ' + name)
            elif name in PROTOCOL or (name in MODULE and is_module(P, c)):
                if sibling(P, c, name, ref):
                    continue
                add(roles(q, ('P05',)), f'protocol {q}.{name}',
                    c.module.path, line, f'{q} newly defines {name}, which '
                    'changes how its instances are stored, copied, compared '
                    'or called', 'protocol ' + name)
    P._surface = out, n
    return P._surface


def sibling(P, c, name, ref):
    """moved up from subclasses which all defined it?"""
    for q, old in ref['members'].items():
        k = P.classes.get(q)
        if k is not None and k is not c and name in old and c in P.mro(k):
            return True
    return False


def in_with(m, line):
    for n in ast.walk(m.tree):
        if isinstance(n, ast.With) and any(
                x.context_expr.lineno <= line <= x.context_expr.end_lineno
                for x in n.items):
            return True
    return False


def inherited(P, c, name):
    """True: same as the inherited definition; text: differs; None: no
    inherited definition to compare with, or not decided"""
    base = None
    for k in P.mro(c)[1:]:
        if isinstance(k, ClassInfo) and name in k.methods:
            base = k
            break
    if base is None or name in c.setters and name not in c.methods:
        return None
    if base.kind[name].startswith('abstract'):
        return None
    if skip(base.module):
        return None
    if name in ('__init__', '__repr__', '__str__', 'create', 'extra_repr'):
        return None if name != '__init__' else True
    o = sp.Obligation([], f'{c.qual}.{name}', base.methods[name], base.module,
                      {}, 0)
    res = Result()
    check_obligation(P, o, load_vocab(), res, None)
    if res.violations:
        return res.violations[0].text
    if res.proved:
        return True
    # too large with the members of the class filled in: leave calls on self
    # as they are
    try:
        a = summary(P, base.methods[name], base.module)
        b = summary(P, c.methods[name], c.module)
    except (Unsupported, Dead, RecursionError, tm.Budget):
        return None
    if 'top' in a.flags() or 'top' in b.flags():
        return None
    d = cmp.compare(b, a, (c.module.path, c.methods[name].lineno))
    return '\n'.join(x.text() for x in d)[:600] if d else True


def summary(P, node, module):
    return sp.run(P, 'method', node, module, None, None, {},
                  sp.params_of(node), {})


def check(prop):
    def f(P, res, tier):
        out, n = findings(P)
        for k, v in n.items():
            res.count(k, v)
        hit = False
        for props, x in out:
            if prop in props:
                res.violations.append(x)
                hit = True
        if not hit:
            res.proved.append(('module and class bodies', ''))
    f.__name__ = 'surface'
    f.__doc__ = ('Decorators, import-time statements, process-wide settings '
                 'and new overriding or protocol members, against the '
                 'reviewed table surface.json; an override is compared with '
                 'the inherited definition.')
    return f


for _p in ALLPROPS:
    rule(_p)(check(_p))

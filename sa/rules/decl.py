"""Declarations: constants, record fields and base classes the reference
definitions take for granted.

declarations.json holds the reviewed value of each.  A declaration that is
gone or moved is not compared (the operations that used it are); one that is
still there must mean the same."""
import ast
import json
import os
import re

from sa.check import rule, Finding
from sa.program import ClassInfo

TABLE = os.path.join(os.path.dirname(__file__), 'declarations.json')

# which property a declaration belongs to
ROLES = [
    (r'^beer\.dists\.', 'P01 P02 P04 P25'),
    (r'^beer\.graph:', 'P12 P30'),
    (r'^beer\.inference\.', 'P07'),
    (r'^beer\.models\.(normal|normalset|gamma):', 'P29'),
    (r'^beer\.models\.gsm:', 'P26'),
    (r'^beer\.models\.(categorical|categoricalset):', 'P16'),
    (r'^beer\.models\.(hmm|phoneloop):', 'P14'),
    (r'^beer\.models\.(mixture|mixtureset):', 'P15'),
    (r'^beer\.models\.parameters:', 'P06 P07 P10'),
    (r'^beer\.models\.', 'P10'),
    (r'^beer\.nnet\.', 'P27'),
    (r'^beer\.nnet\.arnet', 'P17'),
    (r'^beer\.models\.vae', 'P27'),
    (r'^beer\.cli\.subcommands\.features', 'P24'),
    (r'^beer\.cli\.subcommands\.hmm\.mkphoneloop', 'P19 P30'),
    (r'^beer\.cli\.subcommands\.hmm\.', 'P30'),
    (r'^beer\.cli\.dataset', 'P32'),
]


def props_of(key):
    out = set()
    for pat, ps in ROLES:
        if re.match(pat, key):
            out |= set(ps.split())
    return out


def value(P, mod, e):
    """a declared value, independent of spelling"""
    if isinstance(e, ast.Constant):
        return ['const', repr(e.value)]
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub) and \
            isinstance(e.operand, ast.Constant):
        return ['const', repr(-e.operand.value)]
    if isinstance(e, (ast.List, ast.Tuple)):
        return ['seq'] + [value(P, mod, x) for x in e.elts]
    if isinstance(e, ast.Set):
        return ['set'] + sorted((value(P, mod, x) for x in e.elts), key=repr)
    if isinstance(e, ast.Dict) and all(k is not None for k in e.keys):
        return ['dict'] + sorted(([value(P, mod, k), value(P, mod, v)]
                                  for k, v in zip(e.keys, e.values)), key=repr)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and \
            e.func.id == 'dict' and not e.args and \
            all(k.arg for k in e.keywords):
        return ['dict'] + sorted(([['const', repr(k.arg)],
                                   value(P, mod, k.value)]
                                  for k in e.keywords), key=repr)
    if isinstance(e, (ast.Name, ast.Attribute)):
        r = P.eval_ref(P.modules[mod], e)
        if r is None:
            return ['name', ast.unparse(e)]
        if r[0] == 'func':
            return ['func', r[1].name]
        if r[0] == 'class':
            return ['class', r[1].name]
        if r[0] == 'const':
            return value(P, r[2].name, r[1])
        return [r[0], str(r[1])]
    if isinstance(e, ast.Call):
        return ['call', value(P, mod, e.func)] + \
            [value(P, mod, a) for a in e.args] + \
            sorted([k.arg, value(P, mod, k.value)] for k in e.keywords
                   if k.arg not in ('repr',))
    if isinstance(e, ast.BinOp):
        try:
            return ['const', repr(eval(compile(ast.Expression(e), '', 'eval'),
                                       {'__builtins__': {}}))]
        except Exception:
            pass
    return ['expr', ast.unparse(e)]


def undoc(k, v):
    """documentation strings of the parameters are not compared"""
    if k.endswith('._std_params_def') and v and v[0] == 'dict':
        return ['dict'] + [x[0] for x in v[1:]]
    return v


def declarations(P):
    out = {}
    for mn, m in P.modules.items():
        if not mn.startswith('beer') or mn in ('beer.vbi',):
            continue
        for s in m.tree.body:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Name):
                n = s.targets[0].id
                if n.startswith('__') or n in ('cmds', 'logger', 'parser'):
                    continue
                if isinstance(s.value, ast.Call):
                    continue
                out[f'{mn}:{n}'] = (value(P, mn, s.value), m.path, s.lineno)
    for q, c in P.classes.items():
        m = c.module
        if not m.name.startswith('beer') or m.name == 'beer.vbi':
            continue
        loc = (m.path, c.node.lineno)
        out[q + '!bases'] = (sorted(
            (k.name if isinstance(k, ClassInfo) else str(k))
            for k in P.mro(c)[1:]), *loc)
        if c.dataclass is not None:
            out[q + '!record'] = ([
                [c.dataclass.get('init', True) is not False,
                 c.dataclass.get('eq', True) is not False,
                 bool(c.dataclass.get('frozen')), bool(c.dataclass.get('order')),
                 bool(c.dataclass.get('unsafe_hash'))],
                [[n, value(P, m.name, v) if v is not None else None]
                 for n, v in c.fields]], *loc)
        for n, v in c.attrs.items():
            if isinstance(v, ast.AST) and n not in dict(c.fields):
                k = q + '.' + n
                out[k] = (undoc(k, value(P, m.name, v)), m.path,
                          getattr(v, 'lineno', c.node.lineno))
    return out


def same(k, ref, cur):
    if k.endswith('!bases'):
        # an intermediate class may be added
        return all(b in cur for b in ref)
    if k.endswith('!record'):
        if ref[0] != cur[0]:
            return False
        # fields may be added behind a default
        n = len(ref[1])
        if ref[0][0]:
            return cur[1][:n] == ref[1] and all(f[1] is not None
                                                for f in cur[1][n:])
        return True     # __init__ is written out, and compared itself
    return match(ref, cur)


def match(a, b, known=()):
    """True | False | None (cannot tell)"""
    if a == b:
        return True
    if not (isinstance(a, list) and isinstance(b, list) and a and b):
        return False
    if isinstance(a[0], str) and isinstance(b[0], str):
        if b[0] == 'expr' or a[0] == 'func' and b[0] != 'const' and not (
                b[0] == 'func' and b[1] in KNOWN):
            return None         # a new or renamed helper
        if a[0] != b[0]:
            return None if b[0] in ('call', 'name', 'ext') else False
    if len(a) != len(b):
        return False
    out = True
    for x, y in zip(a, b):
        r = match(x, y)
        if r is False:
            return False
        if r is None:
            out = None
    return out


KNOWN = set()


def functions(v):
    if isinstance(v, list):
        if len(v) == 2 and v[0] == 'func':
            KNOWN.add(v[1])
        for x in v:
            functions(x)


def check(prop):
    def f(P, res, tier):
        with open(TABLE) as fh:
            ref = json.load(fh)
        cur = declarations(P)
        functions(list(ref.values()))
        for k, v in ref.items():
            if prop not in props_of(k):
                continue
            if k not in cur:
                res.undecided.append(('declaration ' + k, 'moved or replaced'))
                continue
            w, path, line = cur[k]
            w = json.loads(json.dumps(w))
            res.count('declarations compared')
            eq = same(k, v, w)
            if eq is None:
                res.undecided.append(('declaration ' + k, 'value not decided'))
            elif eq:
                res.proved.append(('declaration ' + k, ''))
            else:
                res.violations.append(Finding(
                    'declaration ' + k, f'{path}:{line}',
                    f'{path}:{line}: declaration of {k} differs\n'
                    f'    code: {w}\n    rule: {v}', 'decl'))
    f.__name__ = 'declarations'
    return f


for _p in sorted({p for _, ps in ROLES for p in ps.split()}):
    rule(_p)(check(_p))

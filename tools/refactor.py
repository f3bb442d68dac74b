"""Development aid: rewrite every function of /repo (in memory) without changing
its behaviour and report obligations or rules that call it a violation.

usage: refactor.py [-t TRANSFORM,...] [-m REGEX] [-o OUT]"""
import argparse
import ast
import builtins
import copy
import json
import multiprocessing as mp
import os
import re
import signal
import sys
import warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
sys.path.insert(0, HERE)
from sa import check as ck, spec as sp          # noqa: E402
from sa.program import Program                  # noqa: E402
import mutate as mu                             # noqa: E402

N, L, S = ast.Name, ast.Load, ast.Store


def local_names(f):
    ps = {a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs}
    for a in (f.args.vararg, f.args.kwarg):
        if a is not None:
            ps.add(a.arg)
    out = set()
    for n in ast.walk(f):
        if isinstance(n, N) and isinstance(n.ctx, S):
            out.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            return set(), ps
    return out - ps, ps


def has(f, *types):
    return any(isinstance(n, types) for n in ast.walk(f) if n is not f)


def bodies(f):
    for n in ast.walk(f):
        for fld in ('body', 'orelse', 'finalbody'):
            b = getattr(n, fld, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield n, fld, b


class T(ast.NodeTransformer):
    changed = 0


def t_rename(f, m):
    names, _ = local_names(f)
    names -= {n.name for n in ast.walk(f) if isinstance(n, (ast.FunctionDef,
              ast.ClassDef))}
    for n in ast.walk(f):
        if n is not f and isinstance(n, (ast.FunctionDef, ast.Lambda)):
            names -= {a.arg for a in n.args.args + n.args.kwonlyargs}
    mp_ = {n: n + '_v' for n in names}
    for n in ast.walk(f):
        if isinstance(n, N) and n.id in mp_:
            n.id = mp_[n.id]
        if isinstance(n, ast.ExceptHandler) and n.name in mp_:
            n.name = mp_[n.name]
    # names imported locally or used by nested definitions keep working
    return bool(mp_) and not has(f, ast.Import, ast.ImportFrom)


def t_rettemp(f, m):
    k = 0
    for n, fld, b in list(bodies(f)):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and s.value is not None:
                out.append(ast.Assign([N('retval_', S())], s.value))
                s.value = N('retval_', L())
                k += 1
            out.append(s)
        setattr(n, fld, out)
    return k


def t_noop(f, m):
    i = 1 if isinstance(f.body[0], ast.Expr) and isinstance(
        f.body[0].value, ast.Constant) else 0
    f.body.insert(i, ast.Assign([N('_unused', S())], ast.Constant(0)))
    f.body.insert(i, ast.Pass())
    return 1


def t_invert(f, m):
    k = 0
    for n in ast.walk(f):
        if isinstance(n, ast.If) and n.orelse:
            n.test = n.test.operand if isinstance(n.test, ast.UnaryOp) and \
                isinstance(n.test.op, ast.Not) else \
                ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
            k += 1
        elif isinstance(n, ast.IfExp):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
            k += 1
    return k


def ends(b):
    return b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue,
                                    ast.Break))


def t_else(f, m):
    """if c: return X; rest  ->  else: rest"""
    k = 0
    for n, fld, b in list(bodies(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and \
                    i + 1 < len(b):
                s.orelse = b[i + 1:]
                setattr(n, fld, b[:i + 1])
                k += 1
                break
    return k


def t_early(f, m):
    """if c: A else: B (A ends) -> if c: A; B"""
    k = 0
    for n, fld, b in list(bodies(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and s.orelse and ends(s.body):
                b[i + 1:i + 1] = s.orelse
                s.orelse = []
                k += 1
                break
    return k


def t_guard(f, m):
    """loop body in one if  <->  continue"""
    k = 0
    for n in ast.walk(f):
        if isinstance(n, (ast.For, ast.While)) and n.body:
            s = n.body[-1]
            if isinstance(s, ast.If) and not s.orelse and not ends(s.body):
                n.body = n.body[:-1] + [
                    ast.If(ast.UnaryOp(ast.Not(), s.test), [ast.Continue()], [])
                ] + s.body
                k += 1
    return k


def t_comp2loop(f, m):
    k = 0
    for n, fld, b in list(bodies(f)):
        out = []
        for s in b:
            if isinstance(s, ast.Return) and isinstance(s.value, ast.ListComp):
                s2 = ast.Assign([N('items_', S())], s.value)
                out2 = loop_of(s2, f)
                if out2:
                    out += out2
                    s.value = N('items_', L())
                    k += 1
                out.append(s)
                continue
            r = loop_of(s, f) if isinstance(s, ast.Assign) else None
            if r:
                out += r
                k += 1
            else:
                out.append(s)
        setattr(n, fld, out)
    return k


def loop_of(s, f):
    v = s.value
    if not (len(s.targets) == 1 and isinstance(s.targets[0], N)):
        return None
    t = s.targets[0].id
    if any(isinstance(x, N) and x.id == t for x in ast.walk(v)):
        return None
    if isinstance(v, ast.ListComp):
        init = ast.List([], L())
        act = ast.Expr(ast.Call(ast.Attribute(N(t, L()), 'append', L()),
                                [v.elt], []))
    elif isinstance(v, ast.DictComp):
        init = ast.Dict([], [])
        act = ast.Assign([ast.Subscript(N(t, L()), v.key, S())], v.value)
    else:
        return None
    # loop variables must not clash
    used = {x.id for x in ast.walk(f) if isinstance(x, N)}
    cnt = {}
    for x in ast.walk(f):
        if isinstance(x, N):
            cnt[x.id] = cnt.get(x.id, 0) + 1
    inside = {}
    for x in ast.walk(v):
        if isinstance(x, N):
            inside[x.id] = inside.get(x.id, 0) + 1
    body = [act]
    for g in reversed(v.generators):
        for x in ast.walk(g.target):
            if isinstance(x, N) and cnt[x.id] != inside[x.id]:
                return None
        for c in reversed(g.ifs):
            body = [ast.If(c, body, [])]
        body = [ast.For(g.target, g.iter, body, [])]
    return [ast.Assign([N(t, S())], init)] + body


def t_loop2comp(f, m):
    k = 0
    for n, fld, b in list(bodies(f)):
        i = 0
        while i + 1 < len(b):
            a, l = b[i], b[i + 1]
            if isinstance(a, ast.Assign) and len(a.targets) == 1 and \
                    isinstance(a.targets[0], N) and \
                    isinstance(a.value, ast.List) and not a.value.elts and \
                    isinstance(l, ast.For) and not l.orelse and \
                    len(l.body) == 1:
                t = a.targets[0].id
                s, ifs = l.body[0], []
                while isinstance(s, ast.If) and not s.orelse and \
                        len(s.body) == 1:
                    ifs.append(s.test)
                    s = s.body[0]
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) \
                        and isinstance(s.value.func, ast.Attribute) and \
                        s.value.func.attr == 'append' and \
                        isinstance(s.value.func.value, N) and \
                        s.value.func.value.id == t and not any(
                            isinstance(x, N) and x.id == t for x in
                            ast.walk(s.value.args[0])):
                    b[i] = ast.Assign(a.targets, ast.ListComp(
                        s.value.args[0], [ast.comprehension(
                            l.target, l.iter, ifs, 0)]))
                    del b[i + 1]
                    k += 1
            i += 1
    return k


def t_ifexp(f, m):
    """x = a if c else b -> statement"""
    k = 0
    for n, fld, b in list(bodies(f)):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp):
                out.append(ast.If(s.value.test,
                                  [ast.Assign(s.targets, s.value.body)],
                                  [ast.Assign(copy.deepcopy(s.targets),
                                              s.value.orelse)]))
                k += 1
            elif isinstance(s, ast.Return) and isinstance(s.value, ast.IfExp):
                out.append(ast.If(s.value.test, [ast.Return(s.value.body)], []))
                out.append(ast.Return(s.value.orelse))
                k += 1
            else:
                out.append(s)
        setattr(n, fld, out)
    return k


def t_toifexp(f, m):
    k = 0
    for n, fld, b in list(bodies(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and len(s.body) == 1 and \
                    len(s.orelse) == 1:
                x, y = s.body[0], s.orelse[0]
                if isinstance(x, ast.Assign) and isinstance(y, ast.Assign) and \
                        ast.dump(x.targets[0]) == ast.dump(y.targets[0]) and \
                        isinstance(x.targets[0], N):
                    b[i] = ast.Assign(x.targets, ast.IfExp(
                        s.test, x.value, y.value))
                    k += 1
                elif isinstance(x, ast.Return) and isinstance(y, ast.Return) \
                        and x.value is not None and y.value is not None:
                    b[i] = ast.Return(ast.IfExp(s.test, x.value, y.value))
                    k += 1
    return k


def t_flip(f, m):
    k = 0
    F = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE,
         ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for n in ast.walk(f):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and \
                type(n.ops[0]) in F:
            n.left, n.comparators = n.comparators[0], [n.left]
            n.ops = [F[type(n.ops[0])]()]
            k += 1
    return k


def t_demorgan(f, m):
    class X(T):
        def visit_BoolOp(self, n):
            self.generic_visit(n)
            self.changed += 1
            return ast.UnaryOp(ast.Not(), ast.BoolOp(
                ast.Or() if isinstance(n.op, ast.And) else ast.And(),
                [ast.UnaryOp(ast.Not(), v) for v in n.values]))

        def visit_FunctionDef(self, n):
            return self.generic_visit(n)
    # only in conditions
    x = X()
    k = 0
    for n in ast.walk(f):
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            n.test = x.visit(n.test)
    return x.changed


def t_unpack(f, m):
    """a, b = x, y -> t = x; b = y; a = t"""
    k = 0
    for n, fld, b in list(bodies(f)):
        out = []
        for s in b:
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], ast.Tuple) and \
                    isinstance(s.value, ast.Tuple) and \
                    len(s.value.elts) == len(s.targets[0].elts) and \
                    all(isinstance(x, N) for x in s.targets[0].elts):
                ts = [x.id for x in s.targets[0].elts]
                rd = [{y.id for y in ast.walk(v) if isinstance(y, N)}
                      for v in s.value.elts]
                if any(ts[i] in rd[j] for i in range(len(ts))
                       for j in range(i + 1, len(ts))):
                    out.append(s)
                    continue
                for t, v in zip(s.targets[0].elts, s.value.elts):
                    out.append(ast.Assign([t], v))
                k += 1
            else:
                out.append(s)
        setattr(n, fld, out)
    return k


PURE = (ast.BinOp, ast.Attribute, ast.Subscript, ast.Call)


def t_temp(f, m):
    """name the operands of the outermost expression of simple statements"""
    k = [0]

    def split(e, out, first=True):
        def tmp(x):
            if isinstance(x, (ast.BinOp, ast.Call, ast.Subscript)) and \
                    not has_lazy(x):
                k[0] += 1
                nm = f'tmp{k[0]}_'
                out.append(ast.Assign([N(nm, S())], x))
                return N(nm, L())
            return x
        if isinstance(e, ast.BinOp):
            e.left = tmp(e.left)
            e.right = tmp(e.right)
        elif isinstance(e, ast.Call) and not any(isinstance(a, ast.Starred)
                                                 for a in e.args):
            if isinstance(e.func, ast.Attribute):
                e.func.value = tmp(e.func.value)
            e.args = [tmp(a) for a in e.args]
            for kw in e.keywords:
                if kw.arg:
                    kw.value = tmp(kw.value)
    for n, fld, b in list(bodies(f)):
        out = []
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and \
                    isinstance(s.value, (ast.BinOp, ast.Call)):
                split(s.value, out)
            out.append(s)
        setattr(n, fld, out)
    return k[0]


def has_lazy(x):
    return any(isinstance(y, (ast.Yield, ast.YieldFrom, ast.Await))
               for y in ast.walk(x)) or isinstance(x, ast.Call) and \
        isinstance(x.func, N) and x.func.id == 'super'


def t_inline(f, m):
    """inline a temporary used once in the next statement"""
    k = 0
    names, ps = local_names(f)
    for n, fld, b in list(bodies(f)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and \
                    isinstance(s.targets[0], N) and isinstance(
                        t, (ast.Assign, ast.Return, ast.Expr)) and \
                    not has(s, ast.Yield):
                v = s.targets[0].id
                uses = [x for x in ast.walk(f) if isinstance(x, N) and
                        x.id == v]
                here = [x for x in ast.walk(t.value or t)
                        if isinstance(x, N) and x.id == v] if t.value else []
                # evaluated first: no call before it
                if len(uses) == 2 and len(here) == 1 and not lazy_in(
                        t.value, here[0]) and (
                            not has(s, ast.Call) or
                            not has(t.value, ast.Call) or
                            first_call(t.value, here[0])):
                    class R(T):
                        def visit_Name(self, x):
                            return s.value if x is here[0] else x
                    t.value = R().visit(t.value)
                    del b[i]
                    k += 1
                    continue
            i += 1
    return k


def lazy_in(e, x):
    for y in ast.walk(e):
        if isinstance(y, (ast.Lambda, ast.ListComp, ast.GeneratorExp,
                          ast.DictComp, ast.SetComp, ast.IfExp, ast.BoolOp)) \
                and x in ast.walk(y):
            return True
    return False


def first_call(e, x):
    return False


def t_swap(f, m):
    """exchange adjacent independent assignments of calls-free expressions"""
    k = 0

    def simple(s):
        return isinstance(s, ast.Assign) and len(s.targets) == 1 and \
            isinstance(s.targets[0], N) and not any(
                isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) or
                isinstance(x, ast.Call) and not pure(x)
                for x in ast.walk(s.value))

    def pure(c):
        u = ast.unparse(c.func)
        return u in ('len', 'int', 'float', 'range', 'torch.zeros',
                     'torch.ones', 'torch.cat', 'torch.eye', 'str', 'max',
                     'min', 'list', 'set', 'dict') or u.split('.')[-1] in (
            'sum', 'mean', 'reshape', 'view', 'log', 'exp', 'detach', 'clone')
    for n, fld, b in list(bodies(f)):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if simple(s) and simple(t):
                a, c = s.targets[0].id, t.targets[0].id
                ra = {x.id for x in ast.walk(s.value) if isinstance(x, N)}
                rc = {x.id for x in ast.walk(t.value) if isinstance(x, N)}
                if a != c and a not in rc and c not in ra:
                    b[i], b[i + 1] = t, s
                    k += 1
                    i += 2
                    continue
            i += 1
    return k


def t_helper(f, m):
    """move the body to a new private function of the module"""
    if has(f, ast.Yield, ast.YieldFrom) or f.decorator_list or any(
            isinstance(n, N) and n.id in ('super', '__class__', 'locals')
            for n in ast.walk(f)) or f.args.kwarg or f.args.vararg or \
            f.args.kwonlyargs or f.name == '__init__':
        return 0
    nm = f'_do_{f.name.strip("_")}_{f.lineno}'
    doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(
        f.body[0].value, ast.Constant) else []
    body = f.body[len(doc):]
    if not body:
        return 0
    # names mangled / private class attributes are not used here
    args = [a.arg for a in f.args.args]
    g = ast.FunctionDef(nm, ast.arguments([], [ast.arg(a) for a in args], None,
                                          [], [], None, []), body, [], None)
    if hasattr(f, 'type_params'):
        g.type_params = []
    f.body = doc + [ast.Return(ast.Call(N(nm, L()), [N(a, L()) for a in args],
                                        []))]
    m.body.append(g)
    return 1


def t_tail(f, m):
    """move the last half of the body to a new private function"""
    if has(f, ast.Yield, ast.YieldFrom) or any(
            isinstance(n, N) and n.id in ('super', '__class__', 'locals')
            for n in ast.walk(f)) or f.args.kwarg or f.args.vararg or \
            f.name == '__init__':
        return 0
    b = f.body
    if len(b) < 4:
        return 0
    h = len(b) // 2
    head, tail = b[:h], b[h:]
    st = {n.id for s in head for n in ast.walk(s) if isinstance(n, N) and
          isinstance(n.ctx, S)} | {a.arg for a in f.args.args} | \
        {x.asname or x.name.split('.')[0] for s in head for n in ast.walk(s)
         if isinstance(n, (ast.Import, ast.ImportFrom)) for x in n.names} | \
        {n.name for s in head for n in ast.walk(s)
         if isinstance(n, ast.FunctionDef)}
    rd = {n.id for s in tail for n in ast.walk(s) if isinstance(n, N) and
          not isinstance(n.ctx, ast.Del)}
    wr = {n.id for s in tail for n in ast.walk(s) if isinstance(n, N) and
          isinstance(n.ctx, S)}
    # must be bound for sure in the head
    sure = {a.arg for a in f.args.args}
    for s in head:
        if isinstance(s, ast.Assign):
            for t in s.targets:
                sure |= {n.id for n in ast.walk(t) if isinstance(n, N) and
                         isinstance(n.ctx, S)}
        elif isinstance(s, ast.FunctionDef):
            sure.add(s.name)
    need = sorted(st & rd)
    if not set(need) <= sure:
        return 0
    nm = f'_rest_of_{f.name.strip("_")}_{f.lineno}'
    g = ast.FunctionDef(nm, ast.arguments([], [ast.arg(a) for a in need], None,
                                          [], [], None, []), tail, [], None)
    if hasattr(f, 'type_params'):
        g.type_params = []
    f.body = head + [ast.Return(ast.Call(N(nm, L()), [N(a, L()) for a in need],
                                         []))]
    m.body.append(g)
    return 1


def t_fstring(f, m):
    class X(T):
        def visit_JoinedStr(self, n):
            if any(isinstance(v, ast.FormattedValue) and (
                    v.format_spec or v.conversion not in (-1, None))
                    for v in n.values):
                return n
            s, a = '', []
            for v in n.values:
                if isinstance(v, ast.Constant):
                    if '{' in v.value or '}' in v.value:
                        return n
                    s += v.value
                else:
                    s += '{}'
                    a.append(v.value)
            self.changed += 1
            return ast.Call(ast.Attribute(ast.Constant(s), 'format', L()), a, [])
    x = X()
    x.visit(f)
    return x.changed


def t_method(f, m):
    """x.op(...) -> torch.op(x, ...)"""
    if not any(isinstance(n, ast.Import) and any(a.name == 'torch'
               for a in n.names) for n in ast.walk(m)):
        return 0

    class X(T):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr in (
                    'sum', 'log', 'exp', 'mean', 'reshape', 'sqrt', 'cumsum',
                    'logsumexp') and not isinstance(
                        n.func.value, N) or isinstance(n.func, ast.Attribute) \
                    and n.func.attr in ('reshape',) and not any(
                        isinstance(a, ast.Starred) for a in n.args):
                u = ast.unparse(n.func.value)
                if u in ('torch', 'np', 'math', 'numpy') or u.startswith(
                        ('np.', 'torch.')) and '(' not in u or 'np' in u:
                    return n
                at, args = n.func.attr, n.args
                if any(isinstance(a, ast.Starred) for a in args):
                    return n
                if at == 'reshape':
                    if len(args) > 1:
                        args = [ast.Tuple(args, L())]
                    elif not args or not isinstance(args[0], ast.UnaryOp):
                        return n
                    else:
                        args = [ast.Tuple(args, L())]
                self.changed += 1
                return ast.Call(ast.Attribute(N('torch', L()), at, L()),
                                [n.func.value] + args, n.keywords)
            return n
    x = X()
    x.visit(f)
    return x.changed


def t_tensor(f, m):
    """spellings of tensor operations"""
    class X(T):
        def visit_Call(self, n):
            self.generic_visit(n)
            if isinstance(n.func, ast.Attribute):
                a = n.func.attr
                if a == 'pow' and len(n.args) == 1 and not n.keywords:
                    self.changed += 1
                    return ast.BinOp(n.func.value, ast.Pow(), n.args[0])
                if a == 'view' and not n.keywords:
                    self.changed += 1
                    n.func.attr = 'reshape'
                    return n
                if a == 't' and not n.args:
                    self.changed += 1
                    return ast.Call(ast.Attribute(n.func.value, 'transpose',
                                                  L()),
                                    [ast.Constant(0), ast.Constant(1)], [])
                if ast.unparse(n.func) in ('torch.exp', 'torch.log',
                                           'torch.digamma', 'torch.lgamma') \
                        and len(n.args) == 1:
                    self.changed += 1
                    return ast.Call(ast.Attribute(n.args[0], n.func.attr, L()),
                                    [], [])
            return n

        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.MatMult):
                self.changed += 1
                return ast.Call(ast.Attribute(n.left, 'matmul', L()),
                                [n.right], [])
            return n
    x = X()
    x.visit(f)
    return x.changed


def t_enumerate(f, m):
    """for x in xs -> for _i, x in enumerate(xs)"""
    k = 0
    for n in ast.walk(f):
        if isinstance(n, ast.For) and not (isinstance(n.iter, ast.Call) and
                                           isinstance(n.iter.func, N) and
                                           n.iter.func.id == 'enumerate'):
            k += 1
            n.target = ast.Tuple([N(f'_i{k}', S()), n.target], S())
            n.iter = ast.Call(N('enumerate', L()), [n.iter], [])
    return k


def t_dict(f, m):
    class X(T):
        def visit_Dict(self, n):
            self.generic_visit(n)
            if n.keys and all(isinstance(k, ast.Constant) and
                              isinstance(k.value, str) and
                              k.value.isidentifier() for k in n.keys):
                self.changed += 1
                return ast.Call(N('dict', L()), [], [
                    ast.keyword(k.value, v) for k, v in zip(n.keys, n.values)])
            return n
    x = X()
    x.visit(f)
    return x.changed


def t_aug(f, m):
    """n += k -> n = n + k for local counters"""
    k = 0
    nums = {}
    for n in ast.walk(f):
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], N):
            nums.setdefault(n.targets[0].id, []).append(
                isinstance(n.value, ast.Constant) and
                isinstance(n.value.value, (int, float)))
    for n, fld, b in list(bodies(f)):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, N) and \
                    nums.get(s.target.id) and all(nums[s.target.id]):
                b[i] = ast.Assign([s.target], ast.BinOp(
                    N(s.target.id, L()), s.op, s.value))
                k += 1
    return k


def t_starargs(f, m):
    """self.method(a) -> (lambda-free) bound method temp"""
    k = [0]
    for n, fld, b in list(bodies(f)):
        out = []
        for s in b:
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and \
                    isinstance(s.value, ast.Call) and \
                    isinstance(s.value.func, ast.Attribute) and \
                    isinstance(s.value.func.value, N) and \
                    s.value.func.value.id == 'self':
                k[0] += 1
                out.append(ast.Assign([N(f'meth{k[0]}', S())], s.value.func))
                s.value.func = N(f'meth{k[0]}', L())
            out.append(s)
        setattr(n, fld, out)
    return k[0]


def t_alias(f, m):
    """attribute reads through a local alias: self.x.y -> sx = self.x"""
    names, ps = local_names(f)
    me = f.args.args[0].arg if f.args.args else None
    if me != 'self':
        return 0
    stores = {n.attr for n in ast.walk(f) if isinstance(n, ast.Attribute) and
              isinstance(n.ctx, (S, ast.Del))}
    if has(f, ast.Yield, ast.YieldFrom):
        return 0
    first = None
    for n in ast.walk(f):
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, L) and \
                isinstance(n.value, N) and n.value.id == 'self' and \
                n.attr in ('params', 'graph', 'modelset', 'stickbreaking',
                           'categorical', 'transform', 'latent_prior'):
            first = n.attr
            break
    if first is None or first in stores:
        return 0
    k = 0

    class X(T):
        def visit_Attribute(self, n):
            self.generic_visit(n)
            if n.attr == first and isinstance(n.value, N) and \
                    n.value.id == 'self' and isinstance(n.ctx, L):
                self.changed += 1
                return N('alias_', L())
            return n
    x = X()
    # only when evaluated unconditionally at the top
    top = f.body[1] if isinstance(f.body[0], ast.Expr) and len(f.body) > 1 and \
        isinstance(f.body[0].value, ast.Constant) else f.body[0]
    if not any(isinstance(n, ast.Attribute) and n.attr == first and
               isinstance(n.value, N) and n.value.id == 'self'
               for n in ast.walk(top)) or isinstance(top, (ast.For, ast.If)):
        return 0
    i = f.body.index(top)
    x.visit(f)
    f.body.insert(i, ast.Assign([N('alias_', S())], ast.Attribute(
        N('self', L()), first, L())))
    return x.changed


def t_comm(f, m):
    k = 0
    for n in ast.walk(f):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and \
                not isinstance(n.left, (ast.List, ast.Constant)) and \
                not isinstance(n.right, (ast.List, ast.Constant)):
            n.left, n.right = n.right, n.left
            k += 1
    return k


def t_rangelen(f, m):
    """for i, x in enumerate(xs) -> range(len(xs)) when xs is a name"""
    k = 0
    for n in ast.walk(f):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and \
                isinstance(n.iter.func, N) and n.iter.func.id == 'enumerate' \
                and len(n.iter.args) == 1 and isinstance(n.iter.args[0], N) \
                and isinstance(n.target, ast.Tuple) and \
                isinstance(n.target.elts[0], N):
            i, x = n.target.elts
            xs = n.iter.args[0]
            n.iter = ast.Call(N('range', L()), [ast.Call(N('len', L()), [xs],
                                                         [])], [])
            n.target = i
            n.body.insert(0, ast.Assign([x], ast.Subscript(
                N(xs.id, L()), N(i.id, L()), L())))
            k += 1
    return k


def t_nestedif(f, m):
    """if a and b: -> nested ifs"""
    k = 0
    for n in ast.walk(f):
        if isinstance(n, ast.If) and not n.orelse and \
                isinstance(n.test, ast.BoolOp) and \
                isinstance(n.test.op, ast.And):
            vs = n.test.values
            rest = vs[1] if len(vs) == 2 else ast.BoolOp(ast.And(), vs[1:])
            n.body = [ast.If(rest, n.body, [])]
            n.test = vs[0]
            k += 1
    return k


def t_keywords(f, m):
    """positional arguments of in-library constructors become keywords"""
    k = 0
    for n in ast.walk(f):
        if isinstance(n, ast.Call) and isinstance(n.func, N) and n.args and \
                not any(isinstance(a, ast.Starred) for a in n.args):
            r = PROG.resolve(MODNAME[0], n.func.id)
            if r is None or r[0] != 'func' or r[1].args.vararg:
                continue
            ps = [a.arg for a in r[1].args.args]
            if len(n.args) > len(ps):
                continue
            # keep evaluation order
            n.keywords = [ast.keyword(p, a) for p, a in zip(ps, n.args)] + \
                n.keywords
            n.args = []
            k += 1
    return k


def t_while(f, m):
    """for x in range(n) -> while"""
    k = 0
    for n, fld, b in list(bodies(f)):
        out = []
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.iter, ast.Call) and \
                    isinstance(s.iter.func, N) and s.iter.func.id == 'range' \
                    and len(s.iter.args) == 1 and isinstance(s.target, N) and \
                    not s.orelse and not has(s, ast.Continue):
                i = s.target.id
                if any(isinstance(x, N) and x.id == i and
                       isinstance(x.ctx, S) for y in s.body
                       for x in ast.walk(y)):
                    out.append(s)
                    continue
                k += 1
                out.append(ast.Assign([N(f'n{k}_', S())], s.iter.args[0]))
                out.append(ast.Assign([N(i, S())], ast.Constant(0)))
                out.append(ast.While(
                    ast.Compare(N(i, L()), [ast.Lt()], [N(f'n{k}_', L())]),
                    s.body + [ast.AugAssign(N(i, S()), ast.Add(),
                                            ast.Constant(1))], []))
            else:
                out.append(s)
        setattr(n, fld, out)
    return k


def t_slots(f, m):
    """split method chains: a.b(x).c(y) -> t = a.b(x); t.c(y), repeatedly"""
    tot = 0
    for _ in range(4):
        k = 0
        for n, fld, b in list(bodies(f)):
            out = []
            for s in b:
                if isinstance(s, (ast.Assign, ast.Return)) and \
                        isinstance(s.value, ast.Call) and \
                        isinstance(s.value.func, ast.Attribute) and \
                        isinstance(s.value.func.value, ast.Call) and \
                        not has_lazy(s.value.func.value):
                    k += 1
                    nm = f'step{tot + k}_'
                    out.append(ast.Assign([N(nm, S())], s.value.func.value))
                    s.value.func.value = N(nm, L())
                out.append(s)
            setattr(n, fld, out)
        tot += k
        if not k:
            break
    return tot


def t_stat(f, m):
    """mixed: rename, temps and helper together"""
    a = t_temp(f, m)
    b = t_rename(f, m)
    return a and b


PURE_CALL = (ast.Lambda, ast.Await, ast.Yield, ast.YieldFrom, ast.NamedExpr)


def new_function(m, nm, args, body):
    g = ast.FunctionDef(nm, ast.arguments([], [ast.arg(a) for a in args], None,
                                          [], [], None, []), body, [], None)
    if hasattr(ast.FunctionDef('x', None, [], [], None), 'type_params'):
        g.type_params = []
    m.body.append(g)
    return g


def class_of(f, m):
    for c in ast.walk(m):
        if isinstance(c, ast.ClassDef) and f in c.body:
            return c


def closure_names(f):
    """local functions and imports"""
    out = {n.name for n in ast.walk(f) if isinstance(n, ast.FunctionDef) and
           n is not f}
    for n in ast.walk(f):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {a.asname or a.name.split('.')[0] for a in n.names}
    return out


def t_expr(f, m):
    """move the right hand sides to new functions of the module"""
    st, ps = local_names(f)
    st = st | closure_names(f)
    if not st and not ps:
        return 0
    k = 0
    inner = {x for n in ast.walk(f) if isinstance(n, (
        ast.FunctionDef, ast.Lambda)) and n is not f for x in ast.walk(n)}
    for n, fld, b in bodies(f):
        if n in inner or b and b[0] in inner:
            continue
        for s in b:
            if not isinstance(s, (ast.Assign, ast.Return)) or s.value is None \
                    or isinstance(s.value, (N, ast.Constant, ast.Tuple,
                                            ast.Attribute)):
                continue
            v = s.value
            if any(isinstance(x, PURE_CALL) or isinstance(x, N) and x.id in
                   ('super', '__class__', 'locals') for x in ast.walk(v)):
                continue
            bound = {x.id for x in ast.walk(v) if isinstance(x, N) and
                     isinstance(x.ctx, S)}
            free = sorted({x.id for x in ast.walk(v) if isinstance(x, N)} &
                          (st | ps) - bound)
            # a name that may be unbound would now fail earlier: same error
            nm = f'_value_{f.name.strip("_")}_{f.lineno}_{k}'
            new_function(m, nm, free, [ast.Return(v)])
            s.value = ast.Call(N(nm, L()), [N(a, L()) for a in free], [])
            k += 1
    return k


def t_asmethod(f, m):
    """move the body to a new method of the class"""
    c = class_of(f, m)
    if c is None or has(f, ast.Yield, ast.YieldFrom) or f.decorator_list or \
            any(isinstance(n, N) and n.id in ('__class__', 'locals')
                for n in ast.walk(f)) or f.args.kwarg or f.args.vararg or \
            f.args.kwonlyargs or not f.args.args:
        return 0
    nm = f'_impl_{c.name.strip("_")}_{f.name.strip("_")}'
    doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(
        f.body[0].value, ast.Constant) else []
    body = f.body[len(doc):]
    if not body or isinstance(body[0], ast.Pass):
        return 0
    args = [a.arg for a in f.args.args]
    h = type(m)([], []) if isinstance(m, ast.Module) else None
    g = new_function(h, nm, args, body)
    c.body.append(g)
    call = ast.Call(ast.Attribute(N(args[0], L()), nm, L()),
                    [N(a, L()) for a in args[1:]], [])
    f.body = doc + [ast.Expr(call) if f.name == '__init__' else
                    ast.Return(call)]
    return 1


def t_const(f, m):
    """numeric literals become constants of the module"""
    made = {}

    class V(T):
        def visit_Constant(self, n):
            if type(n.value) in (int, float) and n.value not in (0, 1) and \
                    f.body[0] is not None:
                nm = '_CONST_%s' % repr(n.value).replace('.', '_').replace(
                    '-', 'm').replace('+', 'p')
                made[nm] = n.value
                self.changed += 1
                return N(nm, L())
            return n

        def visit_JoinedStr(self, n):
            return n
    v = V()
    for s in f.body:
        v.visit(s)
    have = {t.id for s in m.body if isinstance(s, ast.Assign)
            for t in s.targets if isinstance(t, N)}
    for nm, val in made.items():
        if nm not in have:
            k = 0
            while k < len(m.body) and isinstance(m.body[k], (
                    ast.Import, ast.ImportFrom)) or k == 0:
                k += 1
            m.body.insert(k, ast.Assign([N(nm, S())], ast.Constant(val)))
    return v.changed


def t_walrus(f, m):
    """x = e; if x: -> if (x := e):"""
    k = 0
    for n, fld, b in list(bodies(f)):
        out = []
        for s in b:
            if out and isinstance(s, ast.If) and isinstance(out[-1], ast.Assign) \
                    and len(out[-1].targets) == 1 and \
                    isinstance(out[-1].targets[0], N):
                nm = out[-1].targets[0].id
                t = s.test
                w = ast.NamedExpr(N(nm, S()), out[-1].value)
                if isinstance(t, N) and t.id == nm:
                    s.test = w
                elif isinstance(t, ast.Compare) and isinstance(t.left, N) and \
                        t.left.id == nm:
                    t.left = w
                else:
                    out.append(s)
                    continue
                out.pop()
                k += 1
            out.append(s)
        setattr(n, fld, out)
    return k


def t_each(f, m):
    """the body of a loop becomes a local function"""
    k = 0
    if has(f, ast.Yield, ast.YieldFrom):
        return 0
    for n, fld, b in list(bodies(f)):
        out = []
        for s in b:
            if isinstance(s, ast.For) and isinstance(s.target, N) and \
                    not s.orelse and not any(
                        isinstance(x, (ast.Break, ast.Continue, ast.Return,
                                       ast.NamedExpr)) or
                        isinstance(x, N) and isinstance(x.ctx, S) or
                        isinstance(x, N) and x.id == 'super'
                        for y in s.body for x in ast.walk(y)):
                nm = f'_each_{k}'
                g = new_function(ast.Module([], []), nm, [s.target.id], s.body)
                out.append(g)
                s.body = [ast.Expr(ast.Call(N(nm, L()),
                                            [N(s.target.id, L())], []))]
                k += 1
            out.append(s)
        setattr(n, fld, out)
    return k


def t_append(f, m):
    """xs.append(v) -> xs += [v] for local lists"""
    loc = {s.targets[0].id for s in ast.walk(f) if isinstance(s, ast.Assign) and
           len(s.targets) == 1 and isinstance(s.targets[0], N) and
           isinstance(s.value, ast.List)}
    inner = {x for n in ast.walk(f) if isinstance(n, (
        ast.FunctionDef, ast.Lambda)) and n is not f for x in ast.walk(n)}
    k = 0
    for n, fld, b in list(bodies(f)):
        for i, s in enumerate(b):
            if s not in inner and isinstance(s, ast.Expr) and isinstance(
                    s.value, ast.Call) and \
                    isinstance(s.value.func, ast.Attribute) and \
                    s.value.func.attr == 'append' and \
                    isinstance(s.value.func.value, N) and \
                    s.value.func.value.id in loc and len(s.value.args) == 1:
                b[i] = ast.AugAssign(N(s.value.func.value.id, S()), ast.Add(),
                                     ast.List([s.value.args[0]], L()))
                k += 1
    return k


GEN = {'sum', 'any', 'all', 'tuple', 'set', 'sorted', 'max', 'min', 'list',
       'join', 'extend'}


def t_genlist(f, m):
    """list comprehensions in reductions <-> generators"""
    class V(T):
        def visit_Call(self, n):
            self.generic_visit(n)
            fn = n.func.id if isinstance(n.func, N) else n.func.attr \
                if isinstance(n.func, ast.Attribute) else None
            if fn in GEN and len(n.args) >= 1 and not (
                    isinstance(n.func, ast.Attribute) and fn not in
                    ('join', 'extend')):
                a = n.args[0]
                if isinstance(a, ast.ListComp):
                    n.args[0] = ast.GeneratorExp(a.elt, a.generators)
                    self.changed += 1
                elif isinstance(a, ast.GeneratorExp) and fn not in ('any', 'all'):
                    n.args[0] = ast.ListComp(a.elt, a.generators)
                    self.changed += 1
            return n
    v = V()
    v.visit(f)
    return v.changed


def t_withtry(f, m):
    """with open(...) as f: -> f = open(...); try: finally: f.close()"""
    k = 0
    for n, fld, b in list(bodies(f)):
        out = []
        for s in b:
            if isinstance(s, ast.With) and len(s.items) == 1 and isinstance(
                    s.items[0].optional_vars, N) and isinstance(
                    s.items[0].context_expr, ast.Call) and isinstance(
                    s.items[0].context_expr.func, N) and \
                    s.items[0].context_expr.func.id == 'open':
                v = s.items[0].optional_vars.id
                out.append(ast.Assign([N(v, S())], s.items[0].context_expr))
                out.append(ast.Try(s.body, [], [], [ast.Expr(ast.Call(
                    ast.Attribute(N(v, L()), 'close', L()), [], []))]))
                k += 1
            else:
                out.append(s)
        setattr(n, fld, out)
    return k


def t_raiser(f, m):
    """if c: raise E -> _check(...) that raises"""
    st, ps = local_names(f)
    st = st | closure_names(f)
    k = 0
    inner = {x for n in ast.walk(f) if isinstance(n, (
        ast.FunctionDef, ast.Lambda)) and n is not f for x in ast.walk(n)}
    for n, fld, b in list(bodies(f)):
        for i, s in enumerate(b):
            if s in inner:
                continue
            if isinstance(s, ast.If) and not s.orelse and len(s.body) == 1 and \
                    isinstance(s.body[0], ast.Raise) and not any(
                        isinstance(x, PURE_CALL) for x in ast.walk(s)):
                bound = {x.id for x in ast.walk(s) if isinstance(x, N) and
                         isinstance(x.ctx, S)}
                free = sorted({x.id for x in ast.walk(s) if isinstance(x, N)} &
                              (st | ps) - bound)
                nm = f'_check_{f.name.strip("_")}_{f.lineno}_{k}'
                new_function(m, nm, free, [s])
                b[i] = ast.Expr(ast.Call(N(nm, L()),
                                         [N(a, L()) for a in free], []))
                k += 1
    return k


def t_unpackloop(f, m):
    """for a, b in xs: -> for p in xs: a, b = p"""
    k = 0
    for n in ast.walk(f):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Tuple):
            t = n.target
            n.target = N(f'pair{k}_', S())
            n.body = [ast.Assign([t], N(f'pair{k}_', L()))] + n.body
            k += 1
    return k


def t_mapcall(f, m):
    """[g(x) for x in xs] -> list(map(g, xs))"""
    class V(T):
        def visit_ListComp(self, n):
            self.generic_visit(n)
            g = n.generators[0]
            if len(n.generators) == 1 and not g.ifs and isinstance(g.target, N) \
                    and isinstance(n.elt, ast.Call) and not n.elt.keywords and \
                    len(n.elt.args) == 1 and isinstance(n.elt.args[0], N) and \
                    n.elt.args[0].id == g.target.id and not any(
                        isinstance(x, (N, ast.Call)) and (
                            isinstance(x, ast.Call) or x.id == g.target.id)
                        for x in ast.walk(n.elt.func)):
                self.changed += 1
                return ast.Call(N('list', L()), [ast.Call(
                    N('map', L()), [n.elt.func, g.iter], [])], [])
            return n
    v = V()
    v.visit(f)
    return v.changed


def t_sliceobj(f, m):
    """x[a:b] -> x[slice(a, b)]"""
    class V(T):
        def visit_Subscript(self, n):
            self.generic_visit(n)
            if isinstance(n.ctx, L) and isinstance(n.slice, ast.Slice):
                s = n.slice
                none = ast.Constant(None)
                n.slice = ast.Call(N('slice', L()), [
                    s.lower or none, s.upper or none] + (
                        [s.step] if s.step else []), [])
                self.changed += 1
            return n
    v = V()
    v.visit(f)
    return v.changed


def t_starcat(f, m):
    """xs + [y] -> [*xs, y]; {**a, **b} -> dict built by updates"""
    class V(T):
        def visit_BinOp(self, n):
            self.generic_visit(n)
            if isinstance(n.op, ast.Add) and isinstance(n.right, ast.List):
                self.changed += 1
                return ast.List([ast.Starred(n.left, L())] + n.right.elts, L())
            return n
    v = V()
    v.visit(f)
    k = v.changed
    for n, fld, b in list(bodies(f)):
        out = []
        for s in b:
            if isinstance(s, (ast.Return, ast.Assign)) and isinstance(
                    s.value, ast.Dict) and s.value.keys and all(
                        x is None for x in s.value.keys):
                vs = s.value.values
                nm = f'merged{k}_'
                out.append(ast.Assign([N(nm, S())], ast.Call(
                    N('dict', L()), [vs[0]], [])))
                for x in vs[1:]:
                    out.append(ast.Expr(ast.Call(ast.Attribute(
                        N(nm, L()), 'update', L()), [x], [])))
                s.value = N(nm, L())
                k += 1
            out.append(s)
        setattr(n, fld, out)
    return k


def t_mix(f, m):
    """a random sequence of rewritings"""
    import random
    r = random.Random(f'{f.name} {f.lineno} {os.environ.get("MIX", "0")}')
    names = [k for k in ALL if k not in ('mix', 'stat', 'noop')]
    done = []
    for k in r.sample(names, 8):
        ast.fix_missing_locations(m)
        if ALL[k](f, m):
            done.append(k)
        if len(done) == 3:
            break
    return len(done) > 1


ALL = {k[2:]: v for k, v in list(globals().items()) if k.startswith('t_')}
PROG = None
MODNAME = [None]


def one(job):
    path, src, ks, desc = job
    try:
        P = Program(ck.REPO, ('beer',), ck.EXTRA, {path: src})
    except Exception as e:
        return desc, 'broken', str(e)[:100]
    every = sp.load_specs(P, os.path.join(VERIF, 'specs'))
    refs = sp.helper_refs(P, every)
    signal.signal(signal.SIGALRM, mu.boom)
    bad, und = [], []
    cache = {}
    for k in ks:
        o = every[k]
        res = ck.Result()
        signal.alarm(200)
        try:
            ck.check_obligation(P, o, VOC, res, refs)
            if res.violations and sp.is_private(o.target) and ck.absorbed(
                    P, o, every, VOC, refs, cache):
                res.violations = []
                und.append(o.id + ': absorbed')
        except mu.Timeout:
            und.append(o.id + ': timeout')
            continue
        except Exception as e:
            bad.append(o.id + ': crash ' + repr(e)[:200])
            continue
        finally:
            signal.alarm(0)
        bad += [o.id + ' ## ' + v.text[:700] for v in res.violations]
        und += [f'{a}: {b}'[:200] for a, b in res.undecided]
    if not ks:
        for prop, fs in ck.load_rules().items():
            for r in fs:
                res = ck.Result()
                try:
                    r(P, res, 'quick')
                except Exception as e:
                    bad.append('rule crash ' + repr(e)[:200])
                bad += [prop + ' ## ' + v.text[:300] for v in res.violations]
    if bad:
        return desc, 'ALARM', bad
    return desc, 'undecided' if und else 'quiet', und[:2]


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('-t', default=','.join(ALL))
    ap.add_argument('-m', default='.')
    ap.add_argument('-o', default='/tmp/refactor.txt')
    ap.add_argument('-k', type=int, default=4)
    ap.add_argument('-f', help='only the alarms of this report')
    a = ap.parse_args()
    VOC = ck.load_vocab()
    PROG = P = Program(ck.REPO, ('beer',), ck.EXTRA)
    every = sp.load_specs(P, os.path.join(VERIF, 'specs'))
    users = json.load(open('/tmp/cover.json')) if os.path.exists(
        '/tmp/cover.json') else None
    if users is None:
        sys.exit('run mutate.py first (coverage table)')
    nobs = max(k for v in users.values() for k in v) + 1
    P = Program(ck.REPO, ('beer',), ck.EXTRA)
    jobs = []
    whole = {}
    for t in a.t.split(','):
        for m, f, q in mu.functions(P):
            if not re.search(a.m, q):
                continue
            ks = users.get(q, [])
            if not ks:
                continue
            own = [k for k in ks if every[k].target == q]
            ks = own + [k for k in ks if k not in own][:a.k]
            tree = copy.deepcopy(m.tree)
            g = [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)
                 and x.lineno == f.lineno and x.name == f.name][0]
            MODNAME[0] = m.name
            if not ALL[t](g, tree):
                continue
            ast.fix_missing_locations(tree)
            src = ast.unparse(tree)
            ast.parse(src)
            jobs.append((m.path, src, ks, f'{t} {q}'))
        # the whole program rules, one module at a time
        for mn, m in sorted(P.modules.items()):
            if not re.search(a.m, mn):
                continue
            tree = copy.deepcopy(m.tree)
            k = 0
            for g in [x for x in ast.walk(tree) if isinstance(
                    x, ast.FunctionDef)]:
                MODNAME[0] = m.name
                k += bool(ALL[t](g, tree))
            if k:
                ast.fix_missing_locations(tree)
                jobs.append((m.path, ast.unparse(tree), [], f'{t} RULES {mn}'))
    if a.f:
        again = {l.split(': ', 1)[1].split('  [')[0].strip()
                 for l in open(a.f) if l.startswith('ALARM')}
        jobs = [j for j in jobs if j[3].strip() in again]
    print(len(jobs), 'rewritings', flush=True)
    n = {}
    with mp.Pool(int(os.environ.get("JOBS", "8"))) as pool, open(a.o, 'w') as out:
        for desc, r, info in pool.imap_unordered(one, jobs):
            n[r] = n.get(r, 0) + 1
            out.write(f'{r}: {desc}  {info}\n')
            out.flush()
    print(n)

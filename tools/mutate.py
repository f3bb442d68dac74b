"""Development aid: plant syntactic mutants in /repo's source (in memory) and
report those no obligation decides.

usage: mutate.py [-n PER_FUNCTION] [-m MODULE-REGEX] [-s SEED] [-o OUT]"""
import argparse
import ast
import copy
import json
import multiprocessing as mp
import os
import random
import re
import signal
import sys
import warnings
warnings.simplefilter('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, VERIF)
from sa import check as ck, spec as sp          # noqa: E402
from sa.program import Program                  # noqa: E402

SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div,
        ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Pow: ast.Mult,
        ast.Mod: ast.Mult, ast.MatMult: ast.Mult}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt,
       ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
ATTR = {'posterior': 'prior', 'prior': 'posterior', 'sum': 'mean',
        'mean': 'sum', 'log': 'exp', 'exp': 'log', 'keys': 'values',
        'max': 'min', 'min': 'max', 'argmax': 'argmin', 'shape': 'size'}


def sites(f):
    """(description, mutate(node copy)) for function node f"""
    nodes = [n for n in ast.walk(f)]
    par = {}
    for n in nodes:
        for fld, v in ast.iter_fields(n):
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if isinstance(x, ast.AST):
                        par[x] = (n, fld, i)
            elif isinstance(v, ast.AST):
                par[v] = (n, fld, None)
    out = []

    def idx(n):
        return nodes.index(n)

    def put(root, i, new):
        ns = [n for n in ast.walk(root)]
        t = ns[i]
        for n in ns:
            for fld, v in ast.iter_fields(n):
                if v is t:
                    setattr(n, fld, new(t))
                    return
                if isinstance(v, list):
                    for k, x in enumerate(v):
                        if x is t:
                            r = new(t)
                            if r is None:
                                del v[k]
                                if not v:
                                    v.append(ast.Pass())
                            else:
                                v[k] = r
                            return

    def add(n, what, new):
        out.append((getattr(n, 'lineno', 0), what,
                    lambda root, i=idx(n), new=new: put(root, i, new)))

    doc = f.body[0] if f.body and isinstance(f.body[0], ast.Expr) and \
        isinstance(f.body[0].value, ast.Constant) else None
    skip = set()
    for n in nodes:
        if isinstance(n, (ast.Raise, ast.JoinedStr)) or n is doc or \
                isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and \
                isinstance(n.value.func, ast.Attribute) and \
                getattr(n.value.func.value, 'id', '') == 'logger':
            skip |= set(ast.walk(n))
    for d in f.decorator_list:
        skip |= set(ast.walk(d))
    names = sorted({n.id for n in nodes if isinstance(n, ast.Name) and
                    isinstance(n.ctx, ast.Load)} &
                   ({n.id for n in nodes if isinstance(n, ast.Name) and
                     isinstance(n.ctx, ast.Store)} |
                    {a.arg for a in f.args.args} - {'self', 'cls'}))
    for n in nodes:
        if n in skip or n is f:
            continue
        if isinstance(n, ast.BinOp) and type(n.op) in SWAP:
            def new(t):
                t.op = SWAP[type(t.op)]()
                return t
            add(n, 'operator', new)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub) and \
                not isinstance(n.operand, ast.Constant):
            add(n, 'sign', lambda t: t.operand)
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            add(n, 'not', lambda t: t.operand)
        if isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            def new(t):
                t.ops[0] = CMP[type(t.ops[0])]()
                return t
            add(n, 'compare', new)
        if isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                add(n, 'bool', lambda t: ast.Constant(not t.value))
            elif isinstance(v, int):
                add(n, 'const+1', lambda t: ast.Constant(t.value + 1))
            elif isinstance(v, float):
                add(n, 'const*2', lambda t: ast.Constant(t.value * 2 or 1.))
        if isinstance(n, ast.Attribute) and n.attr in ATTR:
            def new(t):
                t.attr = ATTR[t.attr]
                return t
            add(n, 'attr ' + n.attr, new)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                not isinstance(par[n][0], ast.Expr) and not (
                    isinstance(n.func.value, ast.Name) and
                    n.func.value.id in ('torch', 'np', 'beer', 'os', 'pickle',
                                        'yaml', 'self', 'math', 'cls')):
            add(n, 'drop call .' + n.func.attr, lambda t: t.func.value)
        if isinstance(n, ast.Call):
            for k in range(len(n.keywords)):
                def new(t, k=k):
                    del t.keywords[k]
                    return t
                add(n, 'drop keyword ' + str(n.keywords[k].arg), new)
            if len(n.args) >= 2 and not any(isinstance(a, ast.Starred)
                                            for a in n.args):
                def new(t):
                    t.args[0], t.args[1] = t.args[1], t.args[0]
                    return t
                add(n, 'swap arguments', new)
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            def new(t):
                t.test = ast.UnaryOp(ast.Not(), t.test)
                return t
            add(n, 'negate', new)
        if isinstance(n, (ast.Expr, ast.AugAssign, ast.Delete)) or \
                isinstance(n, ast.Assign) and not isinstance(
                    n.targets[0], (ast.Name, ast.Tuple)):
            add(n, 'drop statement', lambda t: None)
        if isinstance(n, ast.If) and not n.orelse:
            add(n, 'drop if', lambda t: None)
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                isinstance(n.targets[0], ast.Name) and \
                isinstance(n.value, ast.BinOp) and \
                isinstance(n.value.left, ast.Name) and \
                n.value.left.id == n.targets[0].id:
            add(n, 'in place', lambda t: ast.AugAssign(
                ast.Name(t.targets[0].id, ast.Store()), t.value.op,
                t.value.right))
        if isinstance(n, ast.BoolOp):
            def new(t):
                t.op = ast.Or() if isinstance(t.op, ast.And) else ast.And()
                return t
            add(n, 'and/or', new)
        if isinstance(n, ast.Slice):
            if n.lower is not None:
                def new(t):
                    t.lower = None
                    return t
                add(n, 'slice lower', new)
            if n.upper is not None:
                def new(t):
                    t.upper = None
                    return t
                add(n, 'slice upper', new)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                n.id in names and len(names) > 1 and \
                not isinstance(par[n][0], ast.Call):
            k = names[(names.index(n.id) + 1) % len(names)]
            add(n, f'name {n.id}->{k}', lambda t, k=k: ast.Name(k, ast.Load()))
        if isinstance(n, (ast.Continue, ast.Break)):
            add(n, 'continue/break', lambda t: ast.Pass())
    return out


def functions(P):
    for mn, m in sorted(P.modules.items()):
        for s in m.tree.body:
            if isinstance(s, ast.FunctionDef):
                yield m, s, mn + ':' + s.name
            elif isinstance(s, ast.ClassDef):
                for x in s.body:
                    if isinstance(x, ast.FunctionDef):
                        yield m, x, mn + ':' + s.name + '.' + x.name


class Timeout(BaseException):
    pass


def boom(*a):
    raise Timeout


def cover(k):
    P = Program(ck.REPO, ('beer',), ck.EXTRA)
    every = sp.load_specs(P, os.path.join(VERIF, 'specs'))
    o = every[k]
    res = ck.Result()
    signal.signal(signal.SIGALRM, boom)
    signal.alarm(120)
    try:
        ck.check_obligation(P, o, VOC, res, sp.helper_refs(P, every))
    except Timeout:
        pass
    finally:
        signal.alarm(0)
    return k, sorted(res.functions | {o.target})


def one(job):
    path, src, ks, desc = job
    try:
        P = Program(ck.REPO, ('beer',), ck.EXTRA, {path: src})
    except Exception as e:
        return desc, 'broken', str(e)[:100]
    every = sp.load_specs(P, os.path.join(VERIF, 'specs'))
    refs = sp.helper_refs(P, every)
    und = []
    signal.signal(signal.SIGALRM, boom)
    hit = set()
    cache = {}
    for k in ks:
        o = every[k]
        res = ck.Result()
        signal.alarm(100)
        try:
            ck.check_obligation(P, o, VOC, res, refs)
            if res.violations and sp.is_private(o.target) and ck.absorbed(
                    P, o, every, VOC, refs, cache):
                res.violations = []
                und.append(o.id + ': absorbed')
        except Timeout:
            und.append(o.id + ': timeout')
            continue
        except Exception as e:
            und.append(o.id + ': crash ' + repr(e)[:200])
            hit.add('CRASH')
            continue
        finally:
            signal.alarm(0)
        if res.violations:
            hit |= {p for p in o.props if o.views.get(p) is None}
        und += [f'{a}: {b}'[:200] for a, b in res.undecided]
    if hit:
        return desc, 'caught', sorted(hit)
    return desc, 'undecided' if und else 'survived', und[:3]


if __name__ == '__main__':
    ap = argparse.ArgumentParser()
    ap.add_argument('-n', type=int, default=4)
    ap.add_argument('-m', default='.')
    ap.add_argument('-s', type=int, default=0)
    ap.add_argument('-o', default='/tmp/mutants.txt')
    ap.add_argument('-f', help='only the non-caught mutants of this report')
    a = ap.parse_args()
    VOC = ck.load_vocab()
    P = Program(ck.REPO, ('beer',), ck.EXTRA)
    every = sp.load_specs(P, os.path.join(VERIF, 'specs'))
    users = {}
    cf = '/tmp/cover.json'
    if os.path.exists(cf) and os.path.getmtime(cf) > max(
            os.path.getmtime(os.path.join(VERIF, 'specs', f))
            for f in os.listdir(os.path.join(VERIF, 'specs'))):
        users = json.load(open(cf))
    else:
        with mp.Pool(int(os.environ.get("JOBS", "8"))) as pool:
            for k, fs in pool.imap_unordered(cover, range(len(every))):
                for q in fs:
                    users.setdefault(q, []).append(k)
        json.dump(users, open(cf, 'w'))
    rnd = random.Random(a.s)
    again = None
    if a.f:
        again = {l.split(': ', 1)[1].rsplit('  [', 1)[0].strip()
                 for l in open(a.f) if not l.startswith('caught')}
    jobs = []
    P = Program(ck.REPO, ('beer',), ck.EXTRA)
    for m, f, q in functions(P):
        if not re.search(a.m, q):
            continue
        ks = users.get(q, [])
        if not ks:
            continue
        own = [k for k in ks if every[k].target == q]
        ks = own + [k for k in ks if k not in own][:6]
        ss = sites(f)
        rnd.shuffle(ss)
        for line, what, mut in ss[:None if again is not None else a.n]:
            tree = copy.deepcopy(m.tree)
            # same position
            t = [x for x in ast.walk(tree) if isinstance(x, ast.FunctionDef)
                 and x.lineno == f.lineno and x.name == f.name][0]
            mut(t)
            ast.fix_missing_locations(tree)
            try:
                new = ast.unparse(t)
                src = ast.unparse(tree)
            except Exception as e:
                continue
            old = ast.unparse(f)
            d = [x for x in new.split('\n') if x not in old.split('\n')][:2]
            desc = f'{q}:{line} {what} | {" / ".join(x.strip() for x in d)}'
            if again is None or desc.strip() in again:
                jobs.append((m.path, src, ks, desc))
    print(len(jobs), 'mutants')
    n = {}
    with mp.Pool(int(os.environ.get("JOBS", "8"))) as pool, open(a.o, 'w') as out:
        for desc, r, info in pool.imap_unordered(one, jobs):
            n[r] = n.get(r, 0) + 1
            out.write(f'{r}: {desc}  {info}\n')
            out.flush()
    print(n)

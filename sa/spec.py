"""Reference obligations: specs/*.py hold reference definitions.

Each reference is a small function, decorated with @spec(...), which states
the value, memory effects and errors the target must have.  References are
parsed and put through the same abstract interpreter as the code; they are
never executed."""
import ast
import glob
import os
from .interp import Interp, Unsupported, Dead, is_private
from .terms import *
from . import terms as tm
from . import tags
from .program import AnalysisError


# terms one symbolic run may build
BUDGET = 4_000_000


class Obligation:
    def __init__(self, props, target, node, module, opts, idx):
        self.props, self.target, self.node = props, target, node
        self.module, self.opts = module, opts
        self.label = opts.get('label')
        self.views = {}
        self.id = target + (('#' + self.label) if self.label else '')


def load_specs(program, specdir):
    obs = []
    for path in sorted(glob.glob(os.path.join(specdir, '*.py'))):
        name = 'spec_' + os.path.basename(path)[:-3]
        with open(path) as f:
            src = f.read()
        m = program.add_module(name, 'specs/' + os.path.basename(path), src)
        for s in m.tree.body:
            if not isinstance(s, ast.FunctionDef):
                continue
            for d in s.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, 'id', '') == 'spec':
                    props = ast.literal_eval(d.args[0])
                    if isinstance(props, str):
                        props = props.split()
                    targets = ast.literal_eval(d.args[1])
                    if isinstance(targets, str):
                        targets = [targets]
                    opts = {k.arg: ast.literal_eval(k.value) for k in d.keywords}
                    for t in targets:
                        more = {p: v for p, v in tags.extra(t, s).items()
                                if p not in props}
                        o = Obligation(props + list(more), t, s, m, opts,
                                       len(obs))
                        o.views = more
                        obs.append(o)
    return obs


def helper_refs(P, obs):
    """reference definitions of internal helpers, used (instead of the code's
    own) when a reference calls one"""
    out = {}
    for o in obs:
        if is_private(o.target) and not o.label:
            r = find_target(P, o.target)
            if r is None:
                kind = 'method' if '.' in o.target.split(':')[1] else 'function'
                a = o.node.args.args
                if kind == 'method' and (not a or a[0].arg not in ('self', 'cls')):
                    kind = 'staticmethod'
                elif kind == 'method' and a[0].arg == 'cls':
                    kind = 'classmethod'
                q = o.target
            else:
                kind = r[0]
                q = r[3].qual + '.' + r[1].name if r[3] is not None else \
                    r[2].name + ':' + r[1].name
            out[q] = (o.node, o.module, kind)
    return out


def find_target(P, target):
    """-> (kind, node, module, owner class, receiver class)"""
    mod, name = target.split(':')
    if '.' in name:
        cn, mn = name.rsplit('.', 1)
        c = P.cls(mod + ':' + cn)
        if c is None:
            return None
        if mn.endswith('='):
            r = P.lookup_setter(c, mn[:-1])
            return None if r is None else ('method', r[0], r[1].module, r[1], c)
        r = P.lookup(c, mn)
        if r is None or r[0] == 'attr':
            return None
        return r[0], r[1], r[2].module, r[2], c
    r = P.resolve(mod, name)
    if r is None or r[0] != 'func':
        return None
    return 'function', r[1], r[2], None, None


def path_term(expr, env):
    e = ast.parse(expr, mode='eval').body

    def go(e):
        if isinstance(e, ast.Name):
            return env.get(e.id, sym(e.id))
        if isinstance(e, ast.Attribute):
            return raw('attr', go(e.value), e.attr)
        if isinstance(e, ast.Subscript):
            return mk('index', go(e.value), go(e.slice))
        if isinstance(e, ast.Constant):
            return const(e.value)
        raise ValueError(expr)
    return go(e)


def params_of(node):
    a = node.args
    return [x.arg for x in a.posonlyargs + a.args]


def run(P, kind, node, module, owner, rcls, opts, names, context,
        open_kw=True, refs=None):
    """analyse one function with symbolic arguments called `names`"""
    I = Interp(P, opaque=opts.get('opaque', ()),
               keep_print=opts.get('keep_print', False))
    I.refs = refs
    pos = []
    env = {}
    for i, n in enumerate(names):
        s = sym(n)
        if '=' + n in context:
            s = const(context['=' + n])
        if i == 0 and kind == 'classmethod':
            s = I.cls_term(rcls)
        env[n] = s
        pos.append(s)
    if rcls is not None and kind not in ('staticmethod', 'classmethod'):
        I.types[pos[0]] = rcls
    for e, q in opts.get('types', {}).items():
        c = P.cls(q)
        if c is not None:
            I.types[path_term(e, env)] = c
    tm.budget(BUDGET)
    tm.ASSUME.clear()
    tm._rank_memo.clear()
    for e, n in context.items():
        if e.startswith('=') and e[1:] in names:
            pass
        elif e.startswith('='):
            v = path_term(e[1:], env)
            tm.ASSUME[v] = const(n)
        else:
            v = path_term(e, env)
            tm.ASSUME[raw('len', raw('attr', v, 'shape'))] = num(n)
    a = node.args
    kw = {x.arg: sym(x.arg) for x in a.kwonlyargs}
    if a.kwarg is not None and open_kw:
        kw['**'] = sym('**kwargs')
    ps = params_of(node)
    vals = pos if a.vararg is not None else pos[:len(ps)]
    try:
        S = I.analyse(node, module, owner, vals, kw,
                      kind='function' if kind in ('function', 'staticmethod')
                      else 'method', name=node.name)
    finally:
        tm.ASSUME.clear()
        tm._rank_memo.clear()
        tm.budget(1 << 60)
    return S


def default_terms(P, node, module, owner, names):
    I = Interp(P)
    from .interp import Closure
    cl = Closure(node, module, owner, {}, node.name)
    out = {}
    a = node.args
    ps = params_of(node)
    for n, e in zip(ps[len(ps) - len(a.defaults):], a.defaults):
        out[names[ps.index(n)]] = I.eval_default(e, cl)
    for x, e in zip(a.kwonlyargs, a.kw_defaults):
        if e is not None:
            out[x.arg] = I.eval_default(e, cl)
    return out

"""Name, member, attribute and call-shape resolution over the whole program."""
import ast
import json
import os

from sa.check import rule, Finding
from sa.program import ClassInfo

with open(os.path.join(os.path.dirname(__file__), 'externals.json')) as fh:
    EXT = json.load(fh)
MODS = {k: set(v) for k, v in EXT['modules'].items()}
UNIVERSE = set(EXT['attrs'])
BUILTINS = set(EXT['builtins'])
BASES = {k: set(v) for k, v in EXT['bases'].items()}
FUNC = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)
COMP = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)
SKIP = {'beer.vbi'}


def scope_nodes(node):
    """nodes evaluated in the scope of node itself"""
    if isinstance(node, FUNC):
        todo = list(node.body) if isinstance(node.body, list) else [node.body]
    elif isinstance(node, COMP):
        todo = [g.target for g in node.generators] + \
            [x for g in node.generators for x in g.ifs] + \
            [g.iter for g in node.generators[1:]] + \
            ([node.key, node.value] if isinstance(node, ast.DictComp)
             else [node.elt])
    else:
        todo = list(node.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FUNC):
            a = n.args
            todo += [x for x in a.defaults + a.kw_defaults if x is not None]
            todo += getattr(n, 'decorator_list', [])
        elif isinstance(n, ast.ClassDef):
            todo += n.bases + [k.value for k in n.keywords] + n.decorator_list
        elif isinstance(n, COMP):
            todo.append(n.generators[0].iter)
        else:
            todo += list(ast.iter_child_nodes(n))


def bound_names(node):
    out, glob = set(), set()
    if isinstance(node, FUNC):
        a = node.args
        out |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        out |= {x.arg for x in (a.vararg, a.kwarg) if x is not None}
    for n in scope_nodes(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                out.add(x.asname or x.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob |= set(n.names)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.MatchMapping) and n.rest:
            out.add(n.rest)
    # a walrus in a comprehension binds here
    if not isinstance(node, COMP):
        for n in scope_nodes(node):
            if isinstance(n, COMP):
                out |= {x.target.id for x in ast.walk(n)
                        if isinstance(x, ast.NamedExpr)}
    return out - glob, glob


class Scope:
    def __init__(self, node, parent):
        self.node, self.parent = node, parent
        self.names, self.glob = bound_names(node)


# ------------------------------------------------------- definite unboundness
class Flow:
    """forward may-be-bound analysis of one function; back edges are followed
    only where a loop may have bound the name before a conditional use"""

    def __init__(self, fn, names):
        self.names = names
        self.bad = []
        a = fn.args
        start = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | \
            {x.arg for x in (a.vararg, a.kwarg) if x is not None}
        self.loops = []         # [names bound by the body, conditional depth]
        self.cond = 0
        self.jumps = []
        self.block(fn.body, set(start))

    def use(self, n, s):
        if n.id in s or n.id not in self.names:
            return
        for b, d in self.loops:
            if n.id in b and self.cond > d:
                return
        self.bad.append(n)
        s.add(n.id)

    def expr(self, e, s, hide=frozenset()):
        if e is None:
            return
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load) and e.id not in hide:
                self.use(e, s)
            elif isinstance(e.ctx, ast.Store):
                s.add(e.id)
            return
        if isinstance(e, ast.Lambda):
            for x in e.args.defaults:
                self.expr(x, s, hide)
            return
        if isinstance(e, COMP):
            h = set(hide)
            for i, g in enumerate(e.generators):
                self.expr(g.iter, s, h)
                h |= {x.id for x in ast.walk(g.target)
                      if isinstance(x, ast.Name)}
                self.cond += 1
                for x in g.ifs:
                    self.expr(x, s, h)
            for x in ([e.key, e.value] if isinstance(e, ast.DictComp)
                      else [e.elt]):
                self.expr(x, s, h)
            self.cond -= len(e.generators)
            return
        if isinstance(e, ast.IfExp):
            self.expr(e.test, s, hide)
            self.cond += 1
            self.expr(e.body, s, hide)
            self.expr(e.orelse, s, hide)
            self.cond -= 1
            return
        if isinstance(e, ast.BoolOp):
            self.expr(e.values[0], s, hide)
            self.cond += 1
            for x in e.values[1:]:
                self.expr(x, s, hide)
            self.cond -= 1
            return
        if isinstance(e, ast.NamedExpr):
            self.expr(e.value, s, hide)
            s.add(e.target.id)
            return
        for c in ast.iter_child_nodes(e):
            if isinstance(c, (ast.expr, ast.keyword, ast.slice)):
                self.expr(c.value if isinstance(c, ast.keyword) else c, s, hide)

    def block(self, body, s):
        for st in body:
            if s is None:
                return None
            s = self.stmt(st, s)
        return s

    @staticmethod
    def merge(*ss):
        ss = [x for x in ss if x is not None]
        return set().union(*ss) if ss else None

    def stmt(self, st, s):
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            if isinstance(st, ast.FunctionDef):
                for x in st.args.defaults:
                    self.expr(x, s)
            s.add(st.name)
        elif isinstance(st, (ast.Import, ast.ImportFrom)):
            s |= {x.asname or x.name.split('.')[0] for x in st.names}
        elif isinstance(st, ast.Assign):
            self.expr(st.value, s)
            for t in st.targets:
                self.expr(t, s)
        elif isinstance(st, ast.AugAssign):
            if isinstance(st.target, ast.Name):
                self.use(ast.copy_location(ast.Name(st.target.id, ast.Load()),
                                           st.target), s)
            self.expr(st.target, s)
            self.expr(st.value, s)
        elif isinstance(st, ast.AnnAssign):
            self.expr(st.value, s)
            if st.value is not None:
                self.expr(st.target, s)
        elif isinstance(st, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(st):
                self.expr(c, s)
            return None
        elif isinstance(st, (ast.Break, ast.Continue)):
            self.jumps[-1].append(set(s))
            return None
        elif isinstance(st, ast.If):
            self.expr(st.test, s)
            self.cond += 1
            a = self.block(st.body, set(s))
            b = self.block(st.orelse, set(s))
            self.cond -= 1
            return self.merge(a, b)
        elif isinstance(st, (ast.For, ast.While)):
            inside = set()
            for x in st.body:
                for n in ast.walk(x):
                    if isinstance(n, ast.Name) and \
                            isinstance(n.ctx, ast.Store):
                        inside.add(n.id)
                    elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        inside.add(n.name)
            if isinstance(st, ast.For):
                self.expr(st.iter, s)
            self.cond += 1
            self.jumps.append([])
            self.loops.append((inside, self.cond))
            b = set(s)
            if isinstance(st, ast.For):
                self.expr(st.target, b)
            else:
                self.expr(st.test, b)
            b = self.block(st.body, b)
            self.loops.pop()
            js = self.jumps.pop()
            self.cond -= 1
            s = self.merge(s, b, *js)
            if isinstance(st, ast.While) and \
                    isinstance(st.test, ast.Constant) and st.test.value and \
                    not any(isinstance(n, ast.Break) for x in st.body
                            for n in ast.walk(x)):
                return None
            return self.merge(s, self.block(st.orelse, set(s)))
        elif isinstance(st, ast.With):
            for it in st.items:
                self.expr(it.context_expr, s)
                self.expr(it.optional_vars, s)
            return self.block(st.body, s)
        elif isinstance(st, ast.Try):
            every = set(s)
            for x in st.body:
                for n in ast.walk(x):
                    if isinstance(n, ast.Name) and \
                            isinstance(n.ctx, ast.Store):
                        every.add(n.id)
                    elif isinstance(n, (ast.Import, ast.ImportFrom)):
                        every |= {y.asname or y.name.split('.')[0]
                                  for y in n.names}
            self.cond += 1
            b = self.block(st.body, set(s))
            if b is not None:
                b = self.block(st.orelse, b)
            outs = [b]
            for h in st.handlers:
                e = set(every)
                if h.name:
                    e.add(h.name)
                outs.append(self.block(h.body, e))
            self.cond -= 1
            m = self.merge(*outs)
            if st.finalbody:
                self.cond += 1
                f = self.block(st.finalbody, self.merge(every, *outs))
                self.cond -= 1
                if m is not None:
                    m = self.merge(m, f)
            return m
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Name):
                    s.discard(t.id)
                else:
                    self.expr(t, s)
        elif isinstance(st, ast.Match):
            self.expr(st.subject, s)
            every = set(s) | {n.name for n in ast.walk(st) if isinstance(
                n, (ast.MatchAs, ast.MatchStar)) and n.name}
            self.cond += 1
            outs = [self.block(c.body, set(every)) for c in st.cases]
            self.cond -= 1
            return self.merge(s, *outs)
        else:
            for c in ast.iter_child_nodes(st):
                if isinstance(c, ast.expr):
                    self.expr(c, s)
        return s


# ----------------------------------------------------------------- signatures
def shape_ok(f, skip, call):
    """does function node f accept the call (skip leading parameters bound)?"""
    a = f.args
    if any(isinstance(x, ast.Starred) for x in call.args):
        star = True
    else:
        star = False
    dstar = any(k.arg is None for k in call.keywords)
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    kws = {k.arg for k in call.keywords if k.arg is not None}
    if npos > len(pos) and a.vararg is None:
        return f'{npos} positional arguments, accepts {len(pos)}'
    allowed = set(pos[npos if not star else 0:]) | \
        {x.arg for x in a.kwonlyargs}
    if a.kwarg is None:
        extra = kws - allowed
        if extra:
            return f'unexpected argument "{sorted(extra)[0]}"'
    if not star and not dstar:
        nd = len(a.defaults)
        req = pos[:len(pos) - nd] if nd else pos
        miss = [p for p in req[npos:] if p not in kws]
        miss += [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults)
                 if d is None and x.arg not in kws]
        if miss:
            return f'missing argument "{miss[0]}"'
    return None


def renewed(f):
    """variables that hold the name of an existing child of a module"""
    out = set()
    for x in ast.walk(f):
        if isinstance(x, (ast.For, ast.comprehension)) and \
                isinstance(x.iter, ast.Call) and \
                isinstance(x.iter.func, ast.Attribute) and \
                x.iter.func.attr in ('named_children', 'named_parameters',
                                     'named_buffers') and \
                isinstance(x.target, ast.Tuple) and \
                isinstance(x.target.elts[0], ast.Name):
            out.add(x.target.elts[0].id)
    return out


# Receivers known by their role: `x.modelset.f(...)` has to be a call that
# every class which may play the role accepts.
# role -> (base class, classes that are something else)
ROLES = {
    'modelset': ('beer.models.modelset:ModelSet',
                 ('CategoricalSet', 'GSMSet', 'SBCategoricalSet')),
    'original_modelset': ('beer.models.modelset:ModelSet',
                          ('CategoricalSet', 'GSMSet', 'SBCategoricalSet')),
    'categoricalset': (None, ('CategoricalSet', 'SBCategoricalSet')),
    'categorical': (None, ('Categorical', 'SBCategorical')),
}
# receivers known by their name: their attributes are those of a subclass
HOLDS = {
    'posterior': 'beer.dists.basedist:ExponentialFamily',
    'prior': ('beer.dists.basedist:ExponentialFamily',
              'beer.models.basemodel:Model'),
    'modelset': 'beer.models.modelset:ModelSet',
    'original_modelset': 'beer.models.modelset:ModelSet',
    'categoricalset': 'beer.models.basemodel:Model',
    'categorical': 'beer.models.basemodel:Model',
    'graph': ('beer.graph:Graph', 'beer.graph:CompiledGraph'),
    'inference_graph': ('beer.graph:CompiledGraph',),
}
# the classes that wrap the model set they are given
WRAPPED = {'HMM': 'DynamicallyOrderedModelSet'}


class Names:
    def __init__(self, P):
        self.P = P
        self.out = []
        self.sites = 0
        self.stored = set()     # attributes stored on anything but self
        self.foreign = set()    # stored on an object other than self
        self.by_name = {}
        self.data = set()
        self.members = {}
        self.modules = [m for n, m in sorted(P.modules.items())
                        if n not in SKIP and not m.path.startswith('specs')]
        for m in self.modules:
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and \
                        isinstance(n.ctx, (ast.Store, ast.Del)):
                    self.stored.add(n.attr)
                    if not (isinstance(n.value, ast.Name) and
                            n.value.id in ('self', 'cls')):
                        self.foreign.add(n.attr)
                elif isinstance(n, ast.FunctionDef):
                    self.stored.add(n.name)
                elif isinstance(n, ast.ClassDef):
                    self.stored.add(n.name)
                elif isinstance(n, ast.Call):
                    for v in list(n.args[:2]) + [k.value for k in n.keywords]:
                        if isinstance(v, ast.Constant) and \
                                isinstance(v.value, str):
                            # register_*, setattr, add_argument, namedtuple
                            for w in v.value.replace(',', ' ').split():
                                self.stored.add(w.lstrip('-').replace('-', '_'))
                    self.stored |= {k.arg for k in n.keywords if k.arg}
        self.classes = [c for c in P.classes.values()
                        if c.module.name not in SKIP]
        for c in self.classes:
            self.stored |= set(c.methods) | set(c.attrs) | \
                {f for f, _ in c.fields}
            self.data |= set(c.attrs) | {f for f, _ in c.fields} | {
                n for n, k in c.kind.items() if 'property' in k}
            for n in c.methods:
                self.by_name.setdefault(n, []).append(c)
        for m in self.modules:
            self.stored |= set(m.defs)
            self.stored |= set(m.name.split('.'))
        self.pfields = None

    def bad(self, m, node, text, key):
        self.out.append(Finding(
            'names:' + m.name, f'{m.path}:{node.lineno}',
            f'{m.path}:{node.lineno}: {text}', key))

    # --------------------------------------------------------- classes
    def own_members(self, c):
        """(names, wildcard) defined by the body and methods of a class"""
        memo = self.members.get(c.qual)
        if memo is not None:
            return memo
        out = set(c.methods) | set(c.attrs) | set(c.setters) | \
            {f for f, _ in c.fields}
        wild = False
        for n, f in list(c.methods.items()) + list(c.setters.items()):
            if n in ('__getattr__', '__getattribute__'):
                wild = True
            if not f.args.args:
                continue
            me = f.args.args[0].arg
            nodes = list(ast.walk(f))
            # functions the instance is handed to, bound methods with a name
            bound = {}
            for x in list(nodes):
                if isinstance(x, ast.Call) and any(
                        isinstance(a, ast.Name) and a.id == me
                        for a in list(x.args) +
                        [k.value for k in x.keywords]) and \
                        isinstance(x.func, ast.Name):
                    r = self.P.eval_ref(c.module, x.func)
                    if r is not None and r[0] == 'func':
                        nodes += list(ast.walk(r[1]))
                elif isinstance(x, ast.Assign) and isinstance(
                        x.value, ast.Attribute):
                    for t in x.targets:
                        if isinstance(t, ast.Name):
                            bound[t.id] = x.value.attr
            for x in nodes:
                if isinstance(x, ast.Attribute) and \
                        isinstance(x.value, ast.Name) and \
                        isinstance(x.ctx, ast.Store):
                    out.add(x.attr)
                elif isinstance(x, ast.Call):
                    fn = x.func
                    nm = bound.get(fn.id, fn.id) \
                        if isinstance(fn, ast.Name) else \
                        getattr(fn, 'attr', '')
                    if nm == 'setattr' and len(x.args) > 1:
                        if isinstance(x.args[1], ast.Constant):
                            out.add(x.args[1].value)
                        else:
                            wild = True
                    elif nm in ('register_buffer', 'register_parameter',
                                'add_module', 'register_module',
                                '__setattr__') and x.args:
                        k = [a for a in x.args[:2]
                             if isinstance(a, ast.Constant) and
                             isinstance(a.value, str)]
                        if k:
                            out.add(k[0].value)
                        elif not any(isinstance(a, ast.Name) and
                                     a.id in renewed(f)
                                     for a in x.args[:2]):
                            wild = True
                    elif nm == 'update' and '__dict__' in ast.dump(fn):
                        wild = True
        self.members[c.qual] = (out, wild)
        return out, wild

    def class_members(self, c):
        """names an instance of c or of a subclass may have, None: anything"""
        out = set()
        todo = [c] + [s for s in self.P.subclasses(c)]
        for s in todo:
            for k in self.P.mro(s):
                if isinstance(k, ClassInfo):
                    o, w = self.own_members(k)
                    if w:
                        return None
                    out |= o
                elif str(k) in BASES:
                    out |= BASES[str(k)]
                elif str(k).split('.')[-1] in ('ABCMeta', 'object'):
                    pass
                else:
                    return None
        return out | BASES['object'] | {'__dict__', '__class__', '__module__',
                                        '__name__', '__qualname__'}

    def params_fields(self):
        if self.pfields is None:
            out = set(BASES['torch.nn.Module'])
            for c in self.classes:
                if 'Params' in c.name or c.name.endswith('View') or \
                        c.dataclass is not None:
                    out |= self.own_members(c)[0]
            self.pfields = out
        return self.pfields

    # --------------------------------------------------------- modules
    def run(self):
        for m in self.modules:
            self.imports(m)
            top = Scope(m.tree, None)
            self.external = all(
                (r.split('.')[0] in MODS or r.split('.')[0] in
                 ('beer', '__future__')) for r in self.roots(m))
            # running a module of the package as a script is not library use
            self.script = {
                x for t in m.tree.body if isinstance(t, ast.If) and
                '__main__' in ast.dump(t.test) and m.name.startswith('beer.')
                for x in ast.walk(t)}
            self.scope(m, m.tree, [top], None)
        self.inits()
        return self.out

    def roots(self, m):
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Import):
                for a in n.names:
                    yield a.name
            elif isinstance(n, ast.ImportFrom) and not n.level:
                yield n.module or ''

    def imports(self, m):
        tries = set()
        for t in ast.walk(m.tree):
            if isinstance(t, ast.Try):
                for s in t.body:
                    tries |= set(ast.walk(s))
        for n in ast.walk(m.tree):
            if n in tries:
                continue
            if isinstance(n, ast.ImportFrom):
                mod = self.P._rel(m, n.level, n.module)
                self.sites += 1
                if mod in self.P.modules:
                    for a in n.names:
                        if a.name != '*' and self.P.resolve(mod, a.name) is None \
                                and mod + '.' + a.name not in self.P.modules:
                            self.bad(m, n, f'module "{mod}" has no member '
                                     f'"{a.name}"', 'import ' + a.name)
                elif mod in MODS:
                    for a in n.names:
                        if a.name != '*' and a.name not in MODS[mod] and \
                                mod + '.' + a.name not in MODS:
                            self.bad(m, n, f'module "{mod}" has no member '
                                     f'"{a.name}"', 'import ' + a.name)
                elif mod.split('.')[0] == 'beer' and not self.exists(mod):
                    self.bad(m, n, f'there is no module "{mod}"',
                             'module ' + mod)
            elif isinstance(n, ast.Import):
                self.sites += 1
                for a in n.names:
                    if a.name.split('.')[0] == 'beer' and \
                            not self.exists(a.name):
                        self.bad(m, n, f'there is no module "{a.name}"',
                                 'module ' + a.name)
        if m.all:
            for x in m.all:
                if self.P.resolve(m.name, x) is None:
                    self.out.append(Finding(
                        'names:' + m.name, m.path,
                        f'{m.path}: __all__ names "{x}", which is not defined',
                        'all ' + x))

    def exists(self, mod):
        if mod in self.P.modules or any(x.startswith(mod + '.')
                                        for x in self.P.modules):
            return True
        base = os.path.join(self.P.root, *mod.split('.'))
        return os.path.exists(base + '.py') or os.path.isdir(base)

    # --------------------------------------------------------- scopes
    def scope(self, m, node, chain, cls, me=None):
        """check the names of one scope; chain: enclosing function scopes"""
        if me is not None:
            if me in chain[-1].names:
                cls = me = None
        elif isinstance(node, ast.FunctionDef) and cls is not None and \
                node.args.args and not any(
                    getattr(d, 'id', '') == 'staticmethod'
                    for d in node.decorator_list):
            me = node.args.args[0].arg
        if isinstance(node, ast.FunctionDef):
            names = chain[-1].names - chain[-1].glob
            local = {x for x in names}
            for n in Flow(node, local).bad:
                self.bad(m, n, f'local variable "{n.id}" of {node.name} is '
                         'used before any assignment', 'unbound ' + n.id)
        aliases = self.param_aliases(node) if isinstance(
            node, ast.FunctionDef) else set()
        for n in scope_nodes(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.sites += 1
                if not self.known(m, n.id, chain):
                    self.bad(m, n, f'name "{n.id}" is not defined',
                             'name ' + n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.sites += 1
                self.attribute(m, n, chain, cls, me, aliases)
            if isinstance(n, ast.Call):
                self.call(m, n, chain, cls, me)
            if isinstance(n, FUNC):
                self.scope(m, n, chain + [Scope(n, chain[-1])],
                           cls if me else None, me)
            elif isinstance(n, ast.ClassDef):
                c = next((k for k in self.classes if k.node is n), None)
                s = Scope(n, chain[-1])
                s.is_class = True
                self.class_scope(m, n, chain, c, s)
            elif isinstance(n, COMP):
                self.scope_comp(m, n, chain, cls, me, aliases)

    def class_scope(self, m, node, chain, c, s):
        for n in scope_nodes(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if n.id not in s.names and not self.known(m, n.id, chain):
                    self.bad(m, n, f'name "{n.id}" is not defined',
                             'name ' + n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) \
                    and not (isinstance(n.value, ast.Name) and
                             n.value.id in s.names):
                self.attribute(m, n, chain, None, None, set())
            if isinstance(n, FUNC):
                self.scope(m, n, chain + [Scope(n, chain[-1])], c)
            elif isinstance(n, ast.ClassDef):
                k = next((k for k in self.classes if k.node is n), None)
                self.class_scope(m, n, chain, k, Scope(n, chain[-1]))

    def scope_comp(self, m, node, chain, cls, me, aliases):
        ch = chain + [Scope(node, chain[-1])]
        for n in scope_nodes(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                self.sites += 1
                if not self.known(m, n.id, ch):
                    self.bad(m, n, f'name "{n.id}" is not defined',
                             'name ' + n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                self.sites += 1
                self.attribute(m, n, ch, cls, me, aliases)
            if isinstance(n, ast.Call):
                self.call(m, n, ch, cls, me)
            if isinstance(n, FUNC):
                self.scope(m, n, ch + [Scope(n, ch[-1])],
                           cls if me else None, me)
            elif isinstance(n, COMP):
                self.scope_comp(m, n, ch, cls, me, aliases)

    def local(self, name, chain):
        for s in reversed(chain[1:]):
            if name in s.glob:
                return False
            if name in s.names:
                return True
        return False

    def known(self, m, name, chain):
        if self.local(name, chain) or name in BUILTINS or \
                name in chain[0].names:
            return True
        for s in chain:
            if name in s.glob:
                return True
        if self.P.resolve(m.name, name) is not None:
            return True
        return any(x not in self.P.modules for x in m.stars)

    def param_aliases(self, node):
        vals = {}
        for n in ast.walk(node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        vals.setdefault(t.id, []).append(n.value)
                    else:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Name) and \
                                    isinstance(x.ctx, ast.Store):
                                vals.setdefault(x.id, []).append(None)
            elif isinstance(n, (ast.For, ast.With, ast.AugAssign,
                                ast.comprehension, ast.NamedExpr)):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        vals.setdefault(x.id, []).append(
                            None if not isinstance(n, (ast.For, ast.With))
                            else ast.Name('?', ast.Load()))
        out = set()
        for k, vs in vals.items():
            if vs and all(isinstance(v, ast.Attribute) and v.attr == 'params'
                          for v in vs):
                out.add(k)
        return out

    def target(self, m, e, chain):
        """what a dotted expression denotes"""
        if isinstance(e, ast.Name):
            if self.local(e.id, chain):
                return None
            return self.P.resolve(m.name, e.id)
        if isinstance(e, ast.Attribute):
            r = self.target(m, e.value, chain)
            if r is None:
                return None
            if r[0] == 'module':
                return self.P.resolve(r[1], e.attr)
            if r[0] == 'ext' and r[1] in MODS and e.attr in MODS[r[1]] and \
                    r[1] + '.' + e.attr in MODS:
                return ('ext', r[1] + '.' + e.attr)
            if r[0] == 'class':
                k = self.P.lookup(r[1], e.attr)
                if k is not None and k[0] in ('classmethod', 'staticmethod',
                                              'method'):
                    return (k[0], k[1], k[2], r[1])
        return None

    def attribute(self, m, n, chain, cls, me, aliases):
        v = n.value
        if isinstance(v, ast.Name) and v.id == me and \
                not any(me in s.names and isinstance(s.node, COMP)
                        for s in chain[1:]):
            if cls is None:
                return
            ms = self.class_members(cls)
            if ms is not None and n.attr not in ms and \
                    n.attr not in self.foreign:
                self.bad(m, n, f'{cls.name} has no attribute "{n.attr}"',
                         f'{cls.name}.{n.attr}')
            return
        r = self.target(m, v, chain) if isinstance(
            v, (ast.Name, ast.Attribute)) else None
        if r is not None and r[0] == 'module':
            mod = r[1]
            if mod in self.P.modules and self.P.resolve(mod, n.attr) is None \
                    and not self.exists(mod + '.' + n.attr) and \
                    not n.attr.startswith('__'):
                self.bad(m, n, f'module "{mod}" has no member "{n.attr}"',
                         f'{mod}.{n.attr}')
            return
        if r is not None and r[0] == 'ext':
            if r[1] in MODS and n.attr not in MODS[r[1]]:
                self.bad(m, n, f'module "{r[1]}" has no member "{n.attr}"',
                         f'{r[1]}.{n.attr}')
            return
        if r is not None and r[0] == 'class':
            ms = self.class_members(r[1])
            if ms is not None and n.attr not in ms and \
                    n.attr not in dir(type):
                self.bad(m, n, f'class {r[1].name} has no attribute '
                         f'"{n.attr}"', f'{r[1].name}.{n.attr}')
            return
        if isinstance(v, ast.Attribute) and v.attr == 'params' or \
                isinstance(v, ast.Name) and v.id in aliases and \
                self.local(v.id, chain):
            if n.attr not in self.params_fields() and \
                    m.name.startswith('beer'):
                self.bad(m, n, 'no distribution has a parameter '
                         f'"{n.attr}"', 'params.' + n.attr)
            return
        nm = getattr(v, 'attr', getattr(v, 'id', None))
        if nm in HOLDS and isinstance(v, (ast.Attribute, ast.Name)) and \
                m.name.startswith(('beer.models.', 'beer.inference')):
            ms = self.held(nm)
            if ms is not None and n.attr not in ms and \
                    n.attr not in self.foreign:
                self.bad(m, n, f'no {nm} has an attribute "{n.attr}"',
                         f'{nm}.{n.attr}')
                return
        if self.external and n.attr not in UNIVERSE and \
                n.attr not in self.stored and n.attr not in BUILTINS:
            self.bad(m, n, f'nothing has an attribute "{n.attr}"',
                     'attr ' + n.attr)

    def held(self, name):
        """attributes of what is known under the name (None: anything)"""
        qs = HOLDS[name]
        if name in ROLES and ROLES[name][0] is None:
            ks = [c for c in self.classes if c.name in ROLES[name][1]]
            if len(ks) != len(ROLES[name][1]):
                return None
        else:
            ks = [self.P.classes.get(q)
                  for q in ([qs] if isinstance(qs, str) else qs)]
        out = set()
        for k in ks:
            ms = None if k is None else self.class_members(k)
            if ms is None:
                return None
            out |= ms
        return out

    # --------------------------------------------------------- calls
    def ctor(self, c, call):
        for k in self.P.mro(c):
            if not isinstance(k, ClassInfo):
                return None if str(k) not in ('object', 'abc.ABC') else None
            if '__new__' in k.methods:
                return None
            if '__init__' in k.methods:
                if k.kind['__init__'] not in ('method', 'abstract'):
                    return None
                return shape_ok(k.methods['__init__'], 1, call)
            if k.dataclass is not None and k.dataclass.get('init', True) \
                    is not False:
                fs = []
                for b in reversed(self.P.mro(c)):
                    if isinstance(b, ClassInfo):
                        fs += [f for f in b.fields
                               if f[0] not in [x[0] for x in fs]]
                a = ast.arguments(
                    posonlyargs=[], args=[ast.arg(f) for f, _ in fs],
                    kwonlyargs=[], kw_defaults=[], vararg=None, kwarg=None,
                    defaults=[v for _, v in fs if v is not None])
                return shape_ok(type('F', (), {'args': a})(), 0, call)
        return None

    def plain(self, f):
        return all(getattr(d, 'id', getattr(d, 'attr', '')) in
                   ('staticmethod', 'classmethod', 'abstractmethod')
                   for d in f.decorator_list)

    def call(self, m, n, chain, cls, me):
        f = n.func
        if n in self.script:
            return
        why = None
        what = ast.unparse(f)
        if isinstance(f, ast.Name) or isinstance(f, ast.Attribute):
            r = self.target(m, f, chain)
            if r is not None:
                self.sites += 1
                if r[0] == 'func' and not r[1].decorator_list:
                    why = shape_ok(r[1], 0, n)
                elif r[0] == 'class':
                    why = self.ctor(r[1], n)
                elif r[0] == 'staticmethod' and self.plain(r[1]):
                    why = shape_ok(r[1], 0, n)
                elif r[0] == 'classmethod' and self.plain(r[1]):
                    why = shape_ok(r[1], 1, n)
                elif r[0] == 'method' and self.plain(r[1]):
                    why = shape_ok(r[1], 0, n)
                if why:
                    self.bad(m, n, f'{what}: {why}', f'call {what} {why}')
                return
        if not isinstance(f, ast.Attribute):
            return
        if f.attr == 'register_callback' and n.args and cls is not None and \
                isinstance(n.args[0], ast.Attribute) and \
                isinstance(n.args[0].value, ast.Name) and \
                n.args[0].value.id == me:
            self.callback(m, n, cls, n.args[0].attr)
        ks = self.role(m, f.value, cls, me)
        if ks:
            self.role_call(m, n, ks, f.attr, what)
            return
        cands = None
        if isinstance(f.value, ast.Name) and f.value.id == me and \
                cls is not None:
            if self.class_members(cls) is None:
                return
            r = self.P.lookup(cls, f.attr)
            ks = ([r] if r else []) + [
                (s.kind[f.attr], s.methods[f.attr], s)
                for s in self.P.subclasses(cls) if f.attr in s.methods]
            cands = ks
            if any(f.attr in self.stores(k) for k in self.P.mro(cls)
                   if isinstance(k, ClassInfo)):
                return
        elif isinstance(f.value, ast.Call) and \
                isinstance(f.value.func, ast.Name) and \
                f.value.func.id == 'super' and cls is not None:
            if not f.value.args:
                it = self.P.mro(cls)
                r = self.P.lookup(cls, f.attr, after=cls)
                if r is None:
                    if all(isinstance(k, ClassInfo) for k in it) and \
                            f.attr not in BASES['object']:
                        self.bad(m, n, f'no base of {cls.name} has '
                                 f'"{f.attr}"', f'super {f.attr}')
                    return
                owner = r[2]
                # an external base may come first
                for k in it[1:]:
                    if k is owner:
                        break
                    if not isinstance(k, ClassInfo):
                        return
                cands = [r]
                # cooperative inheritance
                for s in self.P.subclasses(cls):
                    q = self.P.lookup(s, f.attr, after=cls)
                    if q is None:
                        return
                    cands.append(q)
        elif f.attr in self.by_name and f.attr not in UNIVERSE and \
                f.attr not in self.data:
            if self.fields_named(f.attr):
                return
            cands = [(c.kind[f.attr], c.methods[f.attr], c)
                     for c in self.by_name[f.attr]]
            for k in self.P.modules.values():
                d = k.defs.get(f.attr)
                if d is not None:
                    return
        if not cands:
            return
        self.sites += 1
        for kind, node, owner in cands:
            if kind not in ('method', 'abstract', 'classmethod',
                            'staticmethod') or not self.plain(node):
                return
            why = shape_ok(node, 0 if kind == 'staticmethod' else 1, n)
            if why is None or kind == 'method' and self.maybe_class(f.value) \
                    and shape_ok(node, 0, n) is None:
                return
        self.bad(m, n, f'{what}: {why}', f'call {what} {why}')

    def callback(self, m, n, cls, name):
        """observers are called without arguments"""
        r = self.P.lookup(cls, name)
        for kind, node, owner in ([r] if r else []) + [
                (s.kind[name], s.methods[name], s)
                for s in self.P.subclasses(cls) if name in s.methods]:
            self.sites += 1
            if kind == 'method' and self.plain(node):
                why = shape_ok(node, 1, ast.Call(n.func, [], []))
                if why:
                    self.bad(m, n, f'callback {name}: {why}',
                             f'callback {name} {why}')

    def role(self, m, v, cls, me):
        """classes the receiver may be an instance of"""
        if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and \
                v.value.id == me:
            name = v.attr
        elif isinstance(v, ast.Name):
            name = v.id
        else:
            return None
        if name not in ROLES or not m.name.startswith('beer.models.'):
            return None
        base, names = ROLES[name]
        if cls is not None and name == 'modelset':
            for k in self.P.mro(cls):
                w = WRAPPED.get(getattr(k, 'name', None))
                if w is not None:
                    return [c for c in self.classes if c.name == w] \
                        if isinstance(v, ast.Attribute) else None
            if any(d in WRAPPED.values() for d in m.defs) and \
                    m.name != 'beer.models.modelset':
                return None
        if base is None:
            ks = [c for c in self.classes if c.name in names]
            return ks if len(ks) == len(names) or not ks else None
        b = self.P.classes.get(base)
        if b is None:
            return None
        return [c for c in self.P.subclasses(b) if c.name not in names]

    def role_call(self, m, n, ks, name, what):
        self.sites += 1
        props = 0
        for c in ks:
            r = self.P.lookup(c, name)
            if r is None:
                return
            kind, node, owner = r
            if 'property' in kind:
                props += 1
                continue
            if kind not in ('method', 'abstract') or not self.plain(node):
                return
            why = shape_ok(node, 1, n)
            if why:
                self.bad(m, n, f'{what}: {c.name}: {why}', f'call {what} {why}')
                return
        if props == len(ks) and not n.args and not n.keywords:
            self.bad(m, n, f'{what} is a property', f'call {what} property')

    def maybe_class(self, v):
        """by its name the receiver may be a class"""
        nm = v.id if isinstance(v, ast.Name) else v.attr \
            if isinstance(v, ast.Attribute) else ''
        return 'cls' in nm or 'class' in nm or nm[:1].isupper() or \
            'type' in nm

    def stores(self, c):
        return self.own_members(c)[0] - set(c.methods)

    def fields_named(self, a):
        return any(a in self.stores(c) for c in self.classes)

    # --------------------------------------------------------- construction
    def reaches_init(self, c, f):
        """does f, or a function of the program it uses, name __init__?"""
        todo, seen = [f], set()
        while todo:
            g = todo.pop()
            if id(g) in seen:
                continue
            seen.add(id(g))
            for x in ast.walk(g):
                if isinstance(x, ast.Attribute):
                    if x.attr == '__init__':
                        return True
                    todo += [k.methods[x.attr] for k in self.P.mro(c)
                             if isinstance(k, ClassInfo) and
                             x.attr in k.methods]
                elif isinstance(x, ast.Name):
                    d = c.module.defs.get(x.id)
                    if isinstance(d, ast.FunctionDef):
                        todo.append(d)
        return False

    def inits(self):
        for c in self.classes:
            f = c.methods.get('__init__')
            if f is None:
                continue
            base = [str(k) for k in self.P.mro(c) if not isinstance(k, ClassInfo)]
            if not any(b.startswith('torch.nn.Module') for b in base):
                continue
            self.sites += 1
            if not self.reaches_init(c, f):
                self.bad(c.module, f, f'{c.name}.__init__ never initialises '
                         'its base class', 'init ' + c.name)


@rule('P22')
def names(P, res, tier):
    """every loaded name is bound in its scope or a builtin and no local is read on a path where nothing assigned it; imports and members of modules exist (in-library by resolution, external ones in the frozen table `externals.json`); attributes of `self`, of classes, of `.params` views and of anything else belong to a definition that could provide them; every resolvable in-library call matches a signature; module constructors initialise their base"""
    w = Names(P)
    fs = w.run()
    seen = set()
    for f in fs:
        k = (f.where, f.text)
        if k not in seen:
            seen.add(k)
            res.violations.append(f)
    for m in w.modules:
        res.functions.add(m.name)
        if not any(f.obligation == 'names:' + m.name for f in fs):
            res.proved.append(('names:' + m.name, 'all names resolve'))
    res.count('name, member, attribute and call sites', w.sites)

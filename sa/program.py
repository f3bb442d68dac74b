"""Program model: modules, classes, functions, name resolution, MRO, and the
field-based modification/reference summaries of every method name."""
import ast
import os

# modules which cannot be imported on the pinned commit (stale, never loaded)
STALE = {'beer.models.lds', 'beer.models.linearreg', 'beer.models.lm',
         'beer.models.marginalpldaset', 'beer.models.vae-old'}


class AnalysisError(Exception):
    pass


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.defs = {}       # name -> ('func', node) | ('class', ClassInfo) |
        #                      ('import', dotted, attr|None) | ('const', expr)
        self.stars = []
        self.all = None
        self.src = None


class ClassInfo:
    def __init__(self, name, module, node):
        self.name, self.module, self.node = name, module, node
        self.qual = module.name + ':' + name
        self.methods = {}    # name -> FunctionDef
        self.attrs = {}      # name -> expr
        self.kind = {}       # name -> 'method'|'property'|'classmethod'|...
        self.fields = []     # dataclass fields (name, default)
        self.setters = {}
        self.dataclass = None
        self.enclosing = None

    def __repr__(self):
        return f'<class {self.qual}>'


class Program:
    def __init__(self, root, subdirs=('beer',), extra=(), overlay=None):
        """overlay: {relative path: source text} replaces/adds files"""
        self.root = root
        self.modules = {}
        self.classes = {}
        self.files = []
        self.scopes = {}     # FunctionDef node -> Module
        overlay = overlay or {}
        paths = []
        for sub in subdirs:
            for d, ds, fs in os.walk(os.path.join(root, sub)):
                ds[:] = sorted(x for x in ds if not x.startswith(('.', '__pycache__')))
                for f in sorted(fs):
                    if f.endswith('.py'):
                        paths.append(os.path.relpath(os.path.join(d, f), root))
                    elif f == 'beer' and d.endswith('cli'):
                        paths.append(os.path.relpath(os.path.join(d, f), root))
        for f in extra:
            if os.path.exists(os.path.join(root, f)):
                paths.append(f)
        for f in overlay:
            if f not in paths:
                paths.append(f)
        for rel in paths:
            name = rel[:-3] if rel.endswith('.py') else rel + '_script'
            name = name.replace('/', '.')
            if name.endswith('.__init__'):
                name = name[:-9]
            if name in STALE:
                continue
            if rel in overlay:
                src = overlay[rel]
            else:
                with open(os.path.join(root, rel), encoding='utf-8') as fh:
                    src = fh.read()
            try:
                tree = ast.parse(src)
            except SyntaxError as e:
                raise AnalysisError(f'{rel}: does not parse: {e}')
            m = Module(name, rel, tree)
            m.src = src
            m.is_pkg = rel.endswith('__init__.py')
            self.modules[name] = m
            self.files.append(rel)
        for m in self.modules.values():
            self._index(m)
        self._modref()

    # -------------------------------------------------------------- indexing
    def add_module(self, name, path, src):
        m = Module(name, path, ast.parse(src))
        m.src = src
        m.is_pkg = False
        self.modules[name] = m
        self._index(m)
        return m

    def _rel(self, m, level, mod):
        if level == 0:
            return mod
        base = m.name.split('.')
        if not m.is_pkg:
            base = base[:-1]
        if level > 1:
            base = base[:-(level - 1)]
        return '.'.join(base + ([mod] if mod else []))

    def _index(self, m):
        def top(stmts):
            for s in stmts:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    m.defs[s.name] = ('func', s)
                elif isinstance(s, ast.ClassDef):
                    m.defs[s.name] = ('class', self._class(m, s))
                elif isinstance(s, ast.Import):
                    for a in s.names:
                        if a.asname:
                            m.defs[a.asname] = ('import', a.name, None)
                        else:
                            n = a.name.split('.')[0]
                            m.defs[n] = ('import', n, None)
                elif isinstance(s, ast.ImportFrom):
                    mod = self._rel(m, s.level, s.module)
                    for a in s.names:
                        if a.name == '*':
                            m.stars.append(mod)
                        else:
                            m.defs[a.asname or a.name] = ('import', mod, a.name)
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            m.defs[t.id] = ('const', s.value)
                            if t.id == '__all__' and isinstance(
                                    s.value, (ast.List, ast.Tuple)):
                                m.all = [e.value for e in s.value.elts
                                         if isinstance(e, ast.Constant)]
                elif isinstance(s, ast.AnnAssign) and s.value is not None and \
                        isinstance(s.target, ast.Name):
                    m.defs[s.target.id] = ('const', s.value)
                elif isinstance(s, (ast.If, ast.Try, ast.With)):
                    top(s.body)
                    top(getattr(s, 'orelse', []))
                    for h in getattr(s, 'handlers', []):
                        top(h.body)
        top(m.tree.body)
        for n in ast.walk(m.tree):
            if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                self.scopes[n] = m

    def _class(self, m, node, enclosing=None):
        c = ClassInfo(node.name, m, node)
        c.enclosing = enclosing
        self.classes[c.qual] = c
        for d in node.decorator_list:
            n = d.func if isinstance(d, ast.Call) else d
            nm = n.attr if isinstance(n, ast.Attribute) else getattr(n, 'id', '')
            if nm == 'dataclass':
                kw = {}
                if isinstance(d, ast.Call):
                    kw = {k.arg: getattr(k.value, 'value', None)
                          for k in d.keywords}
                c.dataclass = kw
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                kind = 'method'
                for d in s.decorator_list:
                    nm = d.attr if isinstance(d, ast.Attribute) else \
                        getattr(d, 'id', '')
                    if isinstance(d, ast.Call):
                        nm = getattr(d.func, 'attr', getattr(d.func, 'id', ''))
                    if nm in ('property', 'cached_property', 'abstractproperty'):
                        kind = 'abstract-property' if kind.startswith('abstract') \
                            else 'property'
                    elif nm in ('classmethod', 'staticmethod'):
                        kind = nm
                    elif nm == 'setter':
                        kind = 'setter'
                    elif nm == 'abstractmethod':
                        kind = 'abstract-property' if kind == 'property' \
                            else 'abstract'
                    else:
                        kind = kind if nm in ('', 'wraps') else 'decorated'
                if kind == 'setter':
                    c.setters[s.name] = s
                    continue
                c.methods[s.name] = s
                c.kind[s.name] = kind
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = s.value
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.fields.append((s.target.id, s.value))
                if s.value is not None:
                    c.attrs[s.target.id] = s.value
            elif isinstance(s, ast.ClassDef):
                sub = self._class(m, s, c)
                c.attrs[s.name] = sub
        return c

    # -------------------------------------------------------------- resolving
    def resolve(self, mod, name, seen=None):
        """resolve a global name: ('func', node, Module) | ('class', ClassInfo)
        | ('module', name) | ('ext', dotted) | ('const', expr, Module) | None"""
        seen = seen or set()
        if (mod, name) in seen:
            return None
        seen.add((mod, name))
        m = self.modules.get(mod)
        if m is None:
            return ('ext', mod + '.' + name)
        d = m.defs.get(name)
        if d is not None:
            if d[0] == 'func':
                return ('func', d[1], m)
            if d[0] == 'class':
                return ('class', d[1])
            if d[0] == 'const':
                return ('const', d[1], m)
            _, mm, attr = d
            if attr is None:
                return self.module_ref(mm)
            if mm in self.modules:
                r = self.resolve(mm, attr, seen)
                if r is not None:
                    return r
                if mm + '.' + attr in self.modules:
                    return ('module', mm + '.' + attr)
                return None
            if mm + '.' + attr in self.modules:
                return ('module', mm + '.' + attr)
            return ('ext', mm + '.' + attr)
        for s in m.stars:
            if s in self.modules:
                sm = self.modules[s]
                if sm.all is not None and name not in sm.all:
                    continue
                r = self.resolve(s, name, seen)
                if r is not None:
                    return r
        if m.is_pkg and mod + '.' + name in self.modules:
            return ('module', mod + '.' + name)
        return None

    def module_ref(self, name):
        if name in self.modules or any(x.startswith(name + '.')
                                       for x in self.modules):
            return ('module', name)
        return ('ext', name)

    def cls(self, qual):
        c = self.classes.get(qual)
        if c is None and ':' in qual:
            mod, name = qual.split(':')
            r = self.resolve(mod, name)
            if r and r[0] == 'class':
                return r[1]
        return c

    def bases(self, c):
        out = []
        for b in c.node.bases:
            r = self.eval_ref(c.module, b)
            out.append(r[1] if r and r[0] == 'class' else
                       (r[1] if r and r[0] == 'ext' else ast.unparse(b)))
        return out

    def eval_ref(self, m, e):
        if isinstance(e, ast.Name):
            return self.resolve(m.name, e.id)
        if isinstance(e, ast.Attribute):
            r = self.eval_ref(m, e.value)
            if r is None:
                return None
            if r[0] == 'module':
                return self.resolve(r[1], e.attr)
            if r[0] == 'ext':
                return ('ext', r[1] + '.' + e.attr)
        return None

    def mro(self, c):
        memo = getattr(c, '_mro', None)
        if memo is not None:
            return memo
        seqs = []
        bs = [b for b in self.bases(c)]
        for b in bs:
            if isinstance(b, ClassInfo):
                seqs.append(list(self.mro(b)))
            else:
                seqs.append([b])
        seqs.append(list(bs))
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                h = seqs[0][0]
            out.append(h)
            for s in seqs:
                if s and s[0] == h:
                    s.pop(0)
                elif h in s:
                    s.remove(h)
        c._mro = out
        return out

    def lookup(self, c, name, after=None):
        """('method'|..., FunctionDef, ClassInfo) or ('attr', expr, ClassInfo)"""
        it = self.mro(c)
        if after is not None:
            it = it[it.index(after) + 1:]
        for k in it:
            if not isinstance(k, ClassInfo):
                continue
            if name in k.methods:
                return (k.kind[name], k.methods[name], k)
            if name in k.attrs:
                return ('attr', k.attrs[name], k)
        return None

    def lookup_setter(self, c, name):
        for k in self.mro(c):
            if isinstance(k, ClassInfo):
                if name in k.setters:
                    return (k.setters[name], k)
        return None

    def subclasses(self, c):
        return [k for k in self.classes.values() if c in self.mro(k) and k is not c]

    # -------------------------------------------------------------- mod / ref
    INPLACE = {'append', 'extend', 'insert', 'update', 'clear', 'pop', 'remove',
               'add', 'discard', 'setdefault', 'sort', 'reverse', 'popitem'}

    def _modref(self):
        """field-based summaries keyed by method/function *name* (CHA by
        name): names of attributes possibly written / read, transitively."""
        self.sigs = {}
        mods, refs, calls = {}, {}, {}
        props = set()
        for c in self.classes.values():
            for n, k in c.kind.items():
                if 'property' in k:
                    props.add(n)
        self.props = props
        for m in self.modules.values():
            if not m.name.startswith('beer') or m.name.startswith('beer.cli') \
                    or m.name == 'beer.vbi':
                continue
            for f in ast.walk(m.tree):
                if not isinstance(f, ast.FunctionDef):
                    continue
                mo, re_, ca = self._fn_effects(f)
                # storing an attribute runs its setter, reading it does not
                ca |= {x + '=' for x in mo}
                name = f.name
                if any(isinstance(d, ast.Attribute) and d.attr == 'setter'
                       for d in f.decorator_list):
                    name += '='
                mods.setdefault(name, set()).update(mo)
                refs.setdefault(name, set()).update(re_)
                calls.setdefault(name, set()).update(ca)
        for c in self.classes.values():
            if c.module.name.startswith('beer') and c.module.name != 'beer.vbi':
                for n, f in c.methods.items():
                    if c.kind[n] in ('method', 'abstract'):
                        ps = [a.arg for a in f.args.args][1:]
                    elif c.kind[n] == 'classmethod':
                        ps = [a.arg for a in f.args.args][1:]
                    elif c.kind[n] == 'staticmethod':
                        ps = [a.arg for a in f.args.args]
                    else:
                        continue
                    self.sigs.setdefault(n, []).append(
                        (ps, f.args.vararg is not None or
                         f.args.kwarg is not None))
        # transitive closure by name
        for n in list(mods):
            seen, todo = set(), [n]
            mo, re_ = set(), set()
            while todo:
                x = todo.pop()
                if x in seen:
                    continue
                seen.add(x)
                mo |= mods.get(x, set())
                re_ |= refs.get(x, set())
                for y in calls.get(x, ()):
                    if y in mods and y not in ('__init__',):
                        todo.append(y)
            n_mods, n_refs = mo, re_
            mods_n = n_mods
            self_mod = getattr(self, 'MOD', None)
            if self_mod is None:
                self.MOD, self.REF = {}, {}
            self.MOD[n] = mods_n
            self.REF[n] = n_refs
        # a property read is a call
        for n in props:
            self.REF.setdefault(n, set())

    def _fn_effects(self, f):
        mo, re_, ca = set(), set(), set()
        init = f.name == '__init__'
        params = {a.arg for a in f.args.args}
        fresh = set()
        for n in ast.walk(f):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and \
                    isinstance(n.targets[0], ast.Name):
                fresh.add(n.targets[0].id)

        def target(t):
            while isinstance(t, (ast.Subscript, ast.Starred)):
                sub = t
                t = t.value
                if isinstance(t, ast.Name) and t.id in params:
                    mo.add('[]')
            if isinstance(t, ast.Attribute):
                if init and isinstance(t.value, ast.Name) and \
                        t.value.id == f.args.args[0].arg:
                    return
                if t.attr in ('grad',):
                    return
                mo.add(t.attr)
            elif isinstance(t, (ast.Tuple, ast.List)):
                for e in t.elts:
                    target(e)
        for n in ast.walk(f):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    target(t)
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
                target(n.target)
            elif isinstance(n, ast.Delete):
                for t in n.targets:
                    target(t)
            elif isinstance(n, ast.Call):
                if isinstance(n.func, ast.Attribute):
                    ca.add(n.func.attr)
                    a = n.func.attr
                    if (a in self.INPLACE or (a.endswith('_') and not
                                              a.startswith('_'))):
                        v = n.func.value
                        while isinstance(v, ast.Subscript):
                            v = v.value
                        if isinstance(v, ast.Attribute):
                            mo.add(v.attr)
                        elif isinstance(v, ast.Name) and v.id in params:
                            mo.add('[]')
                elif isinstance(n.func, ast.Name):
                    ca.add(n.func.id)
                    if n.func.id == 'setattr' and len(n.args) > 1:
                        if isinstance(n.args[1], ast.Constant):
                            mo.add(n.args[1].value)
                        else:
                            mo.add('*')
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                re_.add(n.attr)
                if n.attr in self.props:
                    ca.add(n.attr)
        return mo, re_, ca

    def call_signature(self, name, nparams=None):
        """positional parameter names shared by every definition of a method"""
        ss = self.sigs.get(name)
        if not ss:
            return None
        best = None
        for ps, var in ss:
            if best is None or len(ps) > len(best):
                best = ps
        for ps, var in ss:
            if var or ps != best[:len(ps)]:
                return None
        return best

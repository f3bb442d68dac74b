"""Abstract interpreter: computes, for a function, the value numbers of its
result, of the memory it writes and of the effects it performs.

Control-flow merges are joined (never enumerated as paths), loops are closed
into binder terms by a fixpoint on the loop-carried cells, repo functions are
inlined, and calls on receivers of unknown class stay opaque: they are ordered
only against accesses that their modification/reference summary conflicts
with."""
import ast
import sys
from . import ops
from . import terms as tm
from .terms import *
from .program import ClassInfo

sys.setrecursionlimit(200000)


class Dead(Exception):
    """the current path cannot continue (raise/return inside expression)"""


class Unsupported(Exception):
    pass


class St:
    __slots__ = ('env', 'heap', 'mem', 'pc', 'base', 'facts')

    def __init__(self):
        self.env, self.heap, self.mem = {}, {}, {}
        self.pc = self.base = self.facts = TRUE

    def copy(self):
        s = St()
        s.env, s.heap, s.mem = dict(self.env), dict(self.heap), dict(self.mem)
        s.pc, s.base, s.facts = self.pc, self.base, self.facts
        return s

    def known(self):
        return c_and(self.facts, c_and(self.base, self.pc))


class Frame:
    def __init__(self, module, cls, selft, node, depth):
        self.module, self.cls, self.selft = module, cls, selft
        self.node, self.depth = node, depth
        self.yields = None


CONST_OPS = {'num', 'str', 'const', 'tuple', 'list', 'dict', 'cls', 'func',
             'ext', 'setlit', 'poly', 'log', 'exp', 'sqrt', 'pow', 'floordiv',
             'slice', 'attr'}


class Closure:
    def __init__(self, node, module, cls, env, name, kind='method', selft=None):
        self.node, self.module, self.cls = node, module, cls
        self.env, self.name, self.kind, self.selft = env, name, kind, selft


class Event:
    __slots__ = ('guard', 'term', 'roots', 'mod', 'loc')

    def __init__(self, guard, term, roots, mod, loc=None):
        self.guard, self.term, self.roots, self.mod = guard, term, roots, mod
        self.loc = loc


SKIP = raw('skip')
# calls that do not see each other's effects, by the interface of models:
# statistics come from what the likelihood cached, the divergence from the
# parameters (the specifications of every accumulate and of every
# kl_div_posterior_prior say what each may touch)
APART = {'kl_div_posterior_prior': ('accumulate',),
         'accumulate': ('kl_div_posterior_prior',)}
SET_OPS = {'union': 'bitor', 'intersection': 'bitand', 'difference': 'setdiff'}
INPLACE = {'append', 'extend', 'insert', 'update', 'clear', 'pop', 'remove',
           'add', 'discard', 'setdefault', 'sort', 'reverse', 'popitem',
           'appendleft', 'popleft'}
EFFECT_NAMES = {'step', 'zero_grad', 'backward', 'load_state_dict', 'write',
                'writelines', 'train', 'eval', 'close', 'requires_grad_',
                'register_forward_hook', 'seed', 'add_argument', 'set_defaults',
                'flush', 'put', 'writestr', 'start', 'join_', 'add_module',
                'register_module', 'register_buffer', 'register_parameter',
                'edge', 'node'}
LOGGERS = {'logger', 'logging', 'log', 'LOGGER'}
LOG_METHODS = {'debug', 'info', 'warning', 'warn', 'error', 'critical',
               'exception'}
EFFECT_EXT = {'torch.manual_seed': 'rng', 'numpy.random.seed': 'rng',
              'random.seed': 'rng', 'pickle.dump': 'fs', 'numpy.save': 'fs',
              'numpy.savez': 'fs', 'numpy.savez_compressed': 'fs',
              'torch.save': 'fs', 'os.makedirs': 'fs', 'os.mkdir': 'fs',
              'os.remove': 'fs', 'os.rename': 'fs', 'shutil.rmtree': 'fs',
              'sys.exit': 'exit', 'exit': 'exit', 'yaml.dump': 'fs',
              'json.dump': 'fs', 'random.shuffle': 'rng',
              'torch.set_default_tensor_type': 'glob',
              'torch.set_default_dtype': 'glob',
              'torch.multiprocessing.set_sharing_strategy': 'glob',
              'torch.set_num_threads': 'glob', 'print': 'stdout',
              'subprocess.run': 'fs', 'subprocess.check_output': 'fs',
              'torch.autograd.backward': 'grad'}


HOLE = raw('sym', '<view>')
SAMEDATA = {'detach', 'numpy'}
VIEWOPS = {'reshape', 't', 'detach', 'numpy', 'unsqueeze', 'squeeze', 'permute',
           'transpose', 'expand', 'diagonal', 'flatten', 'ravel', 'narrow'}
VIEWMETHODS = {'view', 'reshape', 't', 'transpose', 'permute', 'squeeze',
               'unsqueeze', 'detach', 'diagonal', 'numpy', 'flatten', 'ravel'}
TENSORS = {'zeros', 'ones', 'empty', 'eye', 'zeros_like', 'ones_like', 'clone',
           'store', 'viewset', 'full', 'poly', 'arange', 'empty_like',
           'copied'}


def is_set(v):
    """a value known to be a set"""
    if v.op in ('setof', 'setlit', 'setdiff'):
        return True
    return v.op in ('bitor', 'bitand') and any(is_set(x) for x in v.args)


def item_arity(v):
    """the number of items of a value known to be one of several tuples
    of the same size: an element of a sequence of tuples"""
    if v.op in ('tuple', 'list'):
        return len(v.args)
    if v.op == 'ite':
        a, b = item_arity(v.args[1]), item_arity(v.args[2])
        return a if a == b else None
    if v.op in ('at', 'index') and len(v.args) == 2:
        n = elem_arity(v.args[0])
        return None if n == 'any' else n
    return None


def elem_arity(s):
    if s.op == 'skip':
        return 'any'
    if s.op == 'ite':
        ns = {elem_arity(x) for x in s.args[1:]}
    elif s.op in ('list', 'tuple'):
        ns = {item_arity(x) for x in s.args}
    elif s.op == 'concat':
        ns = {elem_arity(x) for x in s.args}
    elif s.op == 'map':
        b = s.args[1]
        return body_arity(b)
    elif s.op in ('seq', 'listof'):
        return elem_arity(s.args[0])
    else:
        return None
    ns.discard('any')
    return ns.pop() if len(ns) == 1 else None


def body_arity(b):
    if b.op == 'skip':
        return 'any'
    if b.op == 'ite':
        ns = {body_arity(x) for x in b.args[1:]} - {'any'}
        return ns.pop() if len(ns) == 1 else None
    return item_arity(b)


class Interp:
    MAXDEPTH = 14

    def __init__(self, program, types=None, opaque=(), erase_log=True,
                 keep_print=False):
        self.P = program
        self.types = types or {}
        self.opaque = set(opaque)
        self.closures = {}
        self.log = []
        self.raises = []
        self.nref = 0
        self.nk = 0
        self.prov = {}
        self.loc = None
        self.stack = []
        self.readnames = {}
        self.notes = []
        self.inlined = set()
        self.keep_print = keep_print
        self.refs = None        # reference definitions of internal helpers
        self.const_memo = {}
        self.rng = {}
        self.steps = 0
        self.num_mu = set()     # loop-carried numbers
        self.tensor_mu = set()  # loop-carried tensors
        self.obj_mu = set()     # loop-carried objects without += of their own

    # ------------------------------------------------------------ utilities
    def fresh_ref(self, st, content):
        self.nref += 1
        r = raw('ref', self.nref)
        st.heap[r] = content
        return r

    def D(self, v, st):
        """dereference: value number independent of allocation sites"""
        m = None
        for f in v.free:
            if f.op == 'ref':
                m = True
                break
        if not m and not any(p.op == 'content' for p in st.mem):
            return v
        mp = {}
        for p, c in st.mem.items():
            if p.op == 'content':
                mp[p.args[0]] = c
        if mp:
            mp[tm.STOPINIT] = NONE
        memo = {}
        out = v
        for _ in range(30):
            refs = [f for f in out.free if f.op == 'ref']
            if not refs:
                break
            d = {}
            for f in refs:
                d[f] = st.heap.get(f, top('escaped reference'))
            out = subst(out, d)
        if mp:
            out = subst(out, mp)
        return out

    def note(self, t):
        if self.loc is not None and t.key not in self.prov:
            self.prov[t.key] = self.loc
        return t

    def cls_term(self, c):
        return raw('cls', c.qual)

    def type_of(self, v, st):
        if v.op == 'ref':
            c = st.heap.get(v)
            if c is None:
                return None
            v = c
        if v.op == 'obj':
            return self.P.classes.get(v.args[0])
        q = self.types.get(v)
        return q

    # ------------------------------------------------------------ joining
    def join(self, c, s1, s2):
        """state where c selects s1, else s2 (either may be None)"""
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        s = St()
        s.base, s.facts = s1.base, s1.facts
        s.pc = c_or(s1.pc, s2.pc)
        for k in list(s1.env) + [k for k in s2.env if k not in s1.env]:
            s.env[k] = ite(c, s1.env.get(k, UNDEF), s2.env.get(k, UNDEF))
        for k in list(s1.heap) + [k for k in s2.heap if k not in s1.heap]:
            a, b = s1.heap.get(k), s2.heap.get(k)
            s.heap[k] = a if b is None else b if a is None else \
                self.join_content(c, a, b)
        for k in list(s1.mem) + [k for k in s2.mem if k not in s1.mem]:
            d = self.initial(k)
            s.mem[k] = ite(c, s1.mem.get(k, d), s2.mem.get(k, d))
        return s

    def join_after(self, s1, s2):
        """join of two paths known by their path conditions only"""
        return self.join(tm.constrain(s1.pc, c_or(s1.pc, s2.pc)), s1, s2)

    def join_content(self, c, a, b):
        if a is b:
            return a
        if a.op == 'obj' and b.op == 'obj' and a.args[0] == b.args[0]:
            da, db = dict(a.args[1].args), dict(b.args[1].args)
            ks = list(da) + [k for k in db if k not in da]
            return raw('obj', a.args[0], dict_term(
                [(k, ite(c, da.get(k, UNDEF), db.get(k, UNDEF))) for k in ks]))
        return ite(c, a, b)

    def initial(self, path):
        if path.op == 'content':
            return pre(path.args[0])
        return path

    # ------------------------------------------------------------ effects
    def chain(self, v):
        """access chain of a value: (root symbol, names...)"""
        names = []
        while True:
            if v.op == 'attr':
                names.append(v.args[1])
                v = v.args[0]
            elif v.op in ('index', 'at', 'last', 'view'):
                names.append('[]')
                v = v.args[0]
            elif v.op == 'call':
                names.append(v.args[1] + '()')
                v = v.args[0]
            elif v.op in ('sym', 'ext', 'cls', 'K', 'mu', 'ref', 'fold', 'bv'):
                if v.op == 'sym':
                    v = UNPRE.get(v, v)
                return (v,) + tuple(reversed(names))
            elif v.op in ('content', 'enumerate', 'sorted', 'zip', 'enter'):
                if not v.args or not isinstance(v.args[0], T):
                    return None
                v = v.args[0]
            else:
                return None

    def roots(self, *vals):
        out = set()
        for v in vals:
            if isinstance(v, tuple):
                out |= self.roots(*v)
                continue
            c = self.chain(v)
            if c is not None:
                out.add(c)
            else:
                self.inner_roots(v, out, set())
        return out

    def inner_roots(self, v, out, seen):
        """the access chains a computed value is made of"""
        todo = [v]
        while todo:
            x = todo.pop()
            if isinstance(x, tuple):
                todo.extend(x)
            elif isinstance(x, T) and x not in seen:
                seen.add(x)
                c = self.chain(x) if x.op in (
                    'sym', 'attr', 'index', 'call', 'at', 'view') else None
                if c is not None and c[0].op in ('sym', 'ref'):
                    out.add(c)
                else:
                    todo.extend(x.args)

    @staticmethod
    def overlap(r1, r2):
        for a in r1:
            for b in r2:
                n = min(len(a), len(b))
                if a[0] is not b[0]:
                    if a[0].op in ('sym', 'cls', 'ext') and \
                            b[0].op in ('sym', 'cls', 'ext'):
                        continue
                    return True
                ok = True
                for x, y in zip(a[1:n], b[1:n]):
                    if x != y and not (x.endswith(')') or y.endswith(')')
                                       or x == '[]' or y == '[]'):
                        ok = False
                        break
                if ok:
                    return True
        return False

    def conflicts(self, roots, fields, st, memtoo=True, apart=()):
        """terms of earlier effects a read of `fields` under roots may see"""
        deps = []
        known = None
        for e in self.log:
            if apart and e.term.op == 'call' and e.term.args[1] in apart:
                continue
            if not (e.mod & fields or '*' in e.mod):
                continue
            if not self.overlap(e.roots, roots):
                continue
            if e.guard is not TRUE:
                if known is None:
                    known = st.known()
                if c_and(known, e.guard) is FALSE:
                    continue
            deps.append(e.term)
        if len(deps) > 6:
            deps = deps[-6:]
        if memtoo:
            for p, v in st.mem.items():
                f = self.memfield(p)
                if f in fields and self.overlap(self.roots(self.initial(p)),
                                                roots):
                    if v is self.initial(p):
                        continue
                    deps.append(raw('given', p, self.D0(v, st)))
        return tuple(sorted(set(deps), key=lambda t: t.key))

    def memfield(self, p):
        if p.op == 'content':
            p = p.args[0]
            while p.op == 'index':
                p = p.args[0]
            return p.args[1] if p.op == 'attr' else '[]'
        if p.op == 'attr':
            return p.args[1]
        return '[]'

    def D0(self, v, st):
        out = v
        for _ in range(30):
            refs = [f for f in out.free if f.op == 'ref']
            if not refs:
                break
            out = subst(out, {f: st.heap.get(f, top('escaped')) for f in refs})
        return out

    def emit(self, st, term, roots, mod):
        g = c_and(st.base, st.pc)
        self.note(term)
        self.log.append(Event(g, term, roots, frozenset(mod), self.loc))
        for p in list(st.mem):
            if self.memfield(p) in mod and \
                    self.overlap(self.roots(self.initial(p)), roots):
                del st.mem[p]

    # ------------------------------------------------------------ memory
    def load_attr(self, base, name, st):
        if base.op == 'ite':
            c = base.args[0]
            cd = raw('ite', c, TRUE, FALSE)
            return self.fork(cd, st,
                             lambda s: self.load_attr(base.args[1], name, s),
                             lambda s: self.load_attr(base.args[2], name, s))
        if base.op == 'module':
            if name == '__name__':
                return const(base.args[0])
            return self.global_ref(base.args[0], name, st)
        if base.op == 'ext':
            return self.ext_attr(base.args[0], name)
        if base.op == 'cls':
            c = self.P.classes.get(base.args[0])
            if c is not None:
                if name in ('__name__', '__qualname__'):
                    return const(c.name)
                return self.load_class_attr(c, base, name, st)
        if base.op == 'super':
            return raw('bound', base, name)
        c = self.type_of(base, st)
        if c is not None:
            if name == '__class__':
                if base.op in ('ref', 'obj') or not self.P.subclasses(c):
                    return self.cls_term(c)
                return raw('cls', c.qual, base)
            if name in REGISTER:
                return raw('bound', base, name)
            if base.op == 'ref' or base.op == 'obj':
                content = st.heap[base] if base.op == 'ref' else base
                for k, v in content.args[1].args:
                    if k.args[0] == name:
                        return v
                r = self.lookup(c, name)
                if r is not None:
                    return self.class_member(r, c, base, name, st)
                if name == '__dict__':
                    return content.args[1]
                return self.note(mk('attr', base, name))
            p = mk('attr', base, name)
            if p in st.mem:
                return st.mem[p]
            r = self.lookup(c, name)
            if r is not None:
                if r[0] == 'attr' and self.instance_attr(c, name):
                    return self.load_path(p, st)
                return self.class_member(r, c, base, name, st)
            return self.load_path(p, st)
        if name == '__class__':
            return raw('attr', base, '__class__')
        if name in ('T', 'data') and self.tensor_ref(base, st):
            return raw('view', base, raw('vw', mk('attr', HOLE, name)))
        if name == 'T':
            return mk('t', self.D(base, st))
        if name == 'shape':
            return mk('attr_shape', self.D(base, st))
        if base.op == 'ref':
            cont = st.heap[base]
            if cont.op in ('list', 'dict', 'map', 'concat', 'storeloop', 'setlit'):
                return raw('bound', base, name)
            base = self.D(base, st)
        if base.op == 'lam' or base.op == 'func':
            if name == '__name__':
                cl = self.closures.get(base)
                return const(cl.name if cl else '?')
        return self.load_path(mk('attr', base, name), st)

    def instance_attr(self, c, name):
        for k in self.P.mro(c):
            if isinstance(k, ClassInfo):
                if any(f == name for f, _ in k.fields):
                    return True
        return False

    def load_path(self, p, st):
        if p.op != 'attr':
            return p
        if p in st.mem:
            return st.mem[p]
        ch = self.chain(p)
        if ch is not None and self.log:
            fields = frozenset(x for x in ch[1:] if not x.endswith(')'))
            deps = self.conflicts({ch}, fields, st, memtoo=False)
            if deps:
                q = raw('attr', p.args[0], p.args[1], raw('deps', *deps))
                return self.note(q)
        return self.note(p)

    def class_member(self, r, c, base, name, st):
        kind, node, owner = r
        if kind == 'attr':
            if isinstance(node, ClassInfo):
                return self.cls_term(node)
            return self.eval_const(node, owner.module, st, owner)
        if kind == 'property':
            key = (base, name)
            if name in self.opaque:
                return self.opaque_call(base, name, [], {}, st)
            return self.call_function(Closure(node, owner.module, owner, {},
                                              owner.qual + '.' + name,
                                              'method', base), [], {}, st)
        if kind == 'abstract-property':
            return self.load_path(mk('attr', base, name), st)
        return raw('bound', base, name)

    def load_class_attr(self, c, base, name, st):
        r = self.lookup(c, name)
        if r is None:
            if name == '__mro__' or name == '__dict__':
                return raw('attr', base, name)
            return self.load_path(raw('attr', base, name), st)
        kind, node, owner = r
        if kind == 'attr':
            if isinstance(node, ClassInfo):
                return self.cls_term(node)
            return self.eval_const(node, owner.module, st, owner)
        return raw('bound', base, name)

    def store_attr(self, base, name, val, st, inplace=False):
        if base.op == 'ite':
            cd = raw('ite', base.args[0], TRUE, FALSE)
            self.fork(cd, st,
                      lambda s: self.store_attr(base.args[1], name, val, s) or NONE,
                      lambda s: self.store_attr(base.args[2], name, val, s) or NONE)
            return
        c = self.type_of(base, st)
        if c is not None:
            r = self.P.lookup_setter(c, name)
            if r is not None:
                self.call_function(Closure(r[0], r[1].module, r[1], {},
                                           r[1].qual + '.' + name, 'method',
                                           base), [val], {}, st)
                return
        if base.op == 'ref':
            content = st.heap[base]
            if content.op == 'obj':
                f = [kv for kv in content.args[1].args
                     if kv[0].args[0] != name]
                st.heap[base] = raw('obj', content.args[0],
                                    dict_term(f + [(const(name), val)]))
                return
            if name == 'requires_grad':
                st.heap[base] = raw('reqgrad', content, self.D(val, st))
                return
            st.heap[base] = raw('setattr', content, name, self.D(val, st))
            return
        base = self.D(base, st)
        p = mk('attr', base, name)
        st.mem.pop(raw('content', p), None)
        for q in [q for q in st.mem if q is not p and p in
                  set(tm.walk(q))]:
            pass
        st.mem[p] = val
        self.note(p)

    def store_index(self, base, key, val, st):
        if base.op == 'ref':
            content = st.heap[base]
            if content.op == 'obj':
                self.call_method(base, '__setitem__', [key, val], {}, st)
                return
            key = self.D(key, st)
            if content.op == 'dict' or content.op == 'list':
                st.heap[base] = mk('store', content, key, val)
            elif key.op == 'vw':
                st.heap[base] = mk('viewset', self.D(content, st), key.args[0],
                                   self.D(val, st))
            else:
                st.heap[base] = mk('store', content, tm.norm_key(key),
                                   self.D(val, st))
            return
        if base.op == 'view':
            old = mk('view', self.D(base.args[0], st), base.args[1])
            k = self.D(key, st)
            new = mk('viewset', old, k.args[0], self.D(val, st)) \
                if k.op == 'vw' else \
                mk('store', old, tm.norm_key(k), self.D(val, st))
            self.store_index(base.args[0], base.args[1], new, st)
            return
        if base.op == 'ite':
            cd = raw('ite', base.args[0], TRUE, FALSE)
            self.fork(cd, st,
                      lambda s: self.store_index(base.args[1], key, val, s) or NONE,
                      lambda s: self.store_index(base.args[2], key, val, s) or NONE)
            return
        self.mutate_content(base, lambda cur: mk(
            'store', cur, tm.norm_key(self.D(key, st)), self.D(val, st)), st)

    def mutate_content(self, path, f, st):
        """in-place change of the object reached by an opaque path"""
        if path.op in SAMEDATA:
            path = path.args[0]
        root = view_root(path)
        if root is not path and self.is_path(root):
            # through another shape of the same memory
            p = raw('content', root)
            cur = st.mem.get(p, self.initial(p))
            fn = subst(path, {root: HOLE})
            st.mem[p] = mk('viewset', cur, fn, f(subst(fn, {HOLE: cur})))
            self.note(p)
            return
        p = raw('content', path)
        cur = st.mem.get(p, self.initial(p))
        st.mem[p] = f(cur)
        self.note(p)

    def write_view(self, v, new, st):
        self.store_index(v.args[0], v.args[1], new, st)

    def is_path(self, v):
        """does v denote memory reachable from outside the function?"""
        return self.chain(v) is not None and v.op not in ('ref', 'cls', 'fold')

    # ------------------------------------------------------------ fork
    def fork(self, cd, st, f, g):
        kn = st.known()
        if c_and(kn, cd) is FALSE:
            return g(st)
        if c_and(kn, c_not(cd)) is FALSE:
            return f(st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = c_and(st.pc, cd)
        s2.pc = c_and(st.pc, c_not(cd))
        rng0 = self.rng
        self.rng = dict(rng0)
        try:
            v1 = f(s1)
        except Dead:
            v1 = None
        rng1, self.rng = self.rng, dict(rng0)
        try:
            v2 = g(s2)
        except Dead:
            v2 = None
        self.join_rng(rng1)
        if v1 is None and v2 is None:
            raise Dead()
        if v1 is None:
            s, v = s2, v2
        elif v2 is None:
            s, v = s1, v1
        else:
            s, v = self.join(cd, s1, s2), ite(cd, v1, v2)
        st.env, st.heap, st.mem, st.pc = s.env, s.heap, s.mem, s.pc
        return v

    # ------------------------------------------------------------ names
    def lookup(self, c, name, after=None):
        r = self.P.lookup(c, name, after)
        if r is None and self.refs and is_private(name):
            for k in self.P.mro(c):
                x = self.refs.get(getattr(k, 'qual', '') + '.' + name)
                if x is not None:
                    return x[2], x[0], k
        return r

    def global_ref(self, modname, name, st):
        r = self.P.resolve(modname, name)
        if r is None and self.refs and modname in self.P.modules:
            d = self.P.modules[modname].defs.get(name)
            q = '%s:%s' % (d[1], d[2]) if d and d[0] not in (
                'func', 'class', 'const') and d[2] else modname + ':' + name
            x = self.refs.get(q)
            if x is not None:
                t = raw('func', q)
                self.closures[t] = Closure(x[0], x[1], None, {}, q, 'function')
                return t
        if r is None:
            return self.builtin(name)
        return self.ref_term(r, st, modname, name)

    def ref_term(self, r, st, modname, name):
        if r[0] == 'func':
            t = raw('func', r[2].name + ':' + r[1].name)
            self.closures[t] = Closure(r[1], r[2], None, {},
                                       r[2].name + ':' + r[1].name, 'function')
            return t
        if r[0] == 'class':
            return self.cls_term(r[1])
        if r[0] == 'module':
            return raw('module', r[1])
        if r[0] == 'ext':
            return self.ext_name(r[1])
        if r[0] == 'const':
            return self.eval_const(r[1], r[2], st, None, r[2].name + '.' + name)
        return top('name ' + name)

    def ext_name(self, dotted):
        dotted = dotted.replace('np.', 'numpy.', 1) if dotted.startswith('np.') \
            else dotted
        for a, b in (('torch.nn.functional.', 'torch.'), ('torch.linalg.', 'torch.'),
                     ('numpy.linalg.', 'torch.'), ('torch.special.', 'torch.')):
            if dotted.startswith(a) and dotted.count('.') == a.count('.'):
                return raw('ext', b + dotted[len(a):])
        if dotted in ('math.pi', 'numpy.pi', 'torch.pi'):
            return raw('ext', 'pi')
        if dotted in ('math.inf', 'numpy.inf', 'torch.inf'):
            return const(float('inf'))
        return raw('ext', dotted)

    def ext_attr(self, dotted, name):
        return self.ext_name(dotted + '.' + name)

    def builtin(self, name):
        return raw('ext', name)

    def eval_const(self, expr, module, st, owner=None, label=None):
        """module-level or class-level constant expression"""
        k = (id(expr), module.name)
        if k in self.const_memo:
            v = self.const_memo[k]
            if v is None:
                return raw('ext', label or ast.unparse(expr))
            return v
        self.const_memo[k] = None
        sub = St()
        fr = Frame(module, owner, None, expr, 1)
        if owner is not None:
            for kk in reversed(self.P.mro(owner)):
                if isinstance(kk, ClassInfo):
                    pass
        self.stack.append(fr)
        save_log, self.log = self.log, []
        save_r, self.raises = self.raises, []
        save_loc = self.loc
        try:
            if owner is not None:
                fr.classenv = owner
            v = self.ev(expr, sub)
            v = self.D(v, sub)
        except (Dead, Unsupported):
            v = top('constant ' + ast.unparse(expr)[:40])
        finally:
            self.stack.pop()
            self.log, self.raises, self.loc = save_log, save_r, save_loc
        if label and v.op not in ('num', 'str', 'const', 'tuple', 'list', 'dict',
                                  'cls', 'func', 'lam', 'ext', 'setlit') and \
                any(x.op not in CONST_OPS for x in tm.walk(v)):
            v = raw('ext', label)
        self.const_memo[k] = v
        return v

    # ------------------------------------------------------------ calls
    def bind(self, node, args, kwargs, st, cl, skip_self):
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        if len(pos) > len(names):
            if a.vararg is None:
                raise Unsupported('too many arguments for ' + cl.name)
            env[a.vararg.arg] = raw('tuple', *pos[len(names):])
            pos = pos[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = raw('tuple')
        for n, v in zip(names, pos):
            env[n] = v
        kw = dict(kwargs)
        star = kw.pop('**', None)
        for n in names[len(pos):]:
            if n in kw:
                env[n] = kw.pop(n)
        for x in a.kwonlyargs:
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
        if a.kwarg is not None:
            d = dict_term([(const(k), v) for k, v in kw.items()])
            if star is not None:
                if kw:
                    d = raw('kwmerge', d, star)
                else:
                    d = star
            env[a.kwarg.arg] = d
        elif kw:
            raise Unsupported('unexpected keyword %s for %s' %
                              (sorted(kw), cl.name))
        elif star is not None:
            defs = dict(zip(names[len(names) - len(a.defaults):], a.defaults)) \
                if a.defaults else {}
            defs.update({x.arg: e for x, e in zip(a.kwonlyargs, a.kw_defaults)
                         if e is not None})
            for n in names + [x.arg for x in a.kwonlyargs]:
                if n not in env:
                    # the entry of that name, or the default
                    d = (self.eval_default(defs[n], cl),) if n in defs else ()
                    env[n] = mk('kwarg', star, const(n), *d)
        nd = len(a.defaults)
        dn = names[len(names) - nd:] if nd else []
        for n, e in zip(dn, a.defaults):
            if n not in env:
                env[n] = self.eval_default(e, cl)
        for x, e in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and e is not None:
                env[x.arg] = self.eval_default(e, cl)
        for n in names:
            if n not in env:
                raise Unsupported('missing argument %s of %s' % (n, cl.name))
        return env

    def eval_default(self, e, cl):
        sub = St()
        self.stack.append(Frame(cl.module, cl.cls, None, e, 1))
        try:
            v = self.ev(e, sub)
            return self.D(v, sub)
        finally:
            self.stack.pop()

    def call_function(self, cl, args, kwargs, st):
        node = cl.node
        r = self.refs.get(cl.name) if self.refs else None
        if r is not None:
            node = r[0]
            cl = Closure(node, r[1], cl.cls, cl.env, cl.name, cl.kind, cl.selft)
        depth = (self.stack[-1].depth if self.stack else 0) + 1
        if cl.kind == 'method' and cl.selft is not None:
            args = [cl.selft] + list(args)
        if isinstance(node, ast.Lambda):
            env = dict(cl.env)
            env.update(self.bind(node, args, kwargs, st, cl, False))
            fr = Frame(cl.module, cl.cls, cl.selft, node, depth)
            return self.run_expr_frame(fr, env, node.body, st)
        active = sum(1 for f in self.stack if f.node is node)
        if depth > self.MAXDEPTH or active >= 1:
            t = self.note(self.opaque_fn(cl.name, args, kwargs, st))
            short = cl.name.rsplit('.', 1)[-1].rsplit(':', 1)[-1]
            mod = set(self.P.MOD.get(short, ()))
            if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute)
                   and n.func.attr in EFFECT_NAMES for n in ast.walk(node)):
                mod |= {'<' + short + '>'}
            if mod:
                self.emit_hoisted(st, t, self.roots(tuple(args)), frozenset(mod))
            return t
        env = dict(cl.env)
        env.update(self.bind(node, args, kwargs, st, cl, False))
        self.inlined.add(cl.name)
        fr = Frame(cl.module, cl.cls, args[0] if args and cl.kind == 'method'
                   else cl.selft, node, depth)
        is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                     for n in walk_fn(node))
        sub = st.copy()
        sub.env = env
        sub.base = c_and(st.base, st.pc)
        sub.pc = TRUE
        if is_gen:
            fr.yields = self.fresh_ref(sub, raw('list'))
        self.stack.append(fr)
        loc = self.loc
        try:
            fall, exits = self.block(node.body, sub)
        finally:
            self.stack.pop()
            self.loc = loc
        outs = [(s.pc, v, s) for k, v, s in exits if k == 'ret']
        if fall is not None:
            outs.append((fall.pc, NONE, fall))
        if not outs:
            raise Dead()
        pc, val, s = outs[-1]
        tot = pc
        for pc2, v2, s2 in reversed(outs[:-1]):
            s = self.join(pc2, s2, s)
            val = ite(pc2, v2, val)
            tot = c_or(tot, pc2)
        st.heap, st.mem = s.heap, s.mem
        st.pc = c_and(st.pc, tot)
        if is_gen:
            return self.D(fr.yields, st)
        return val

    def run_expr_frame(self, fr, env, expr, st):
        sub = st.copy()
        sub.env = env
        self.stack.append(fr)
        try:
            v = self.ev(expr, sub)
        finally:
            self.stack.pop()
        st.heap, st.mem, st.pc = sub.heap, sub.mem, sub.pc
        return v

    def positional(self, names, args, kwargs):
        """keyword arguments moved to the place of their parameters"""
        if '**' in kwargs or any(a.op == 'star' for a in args):
            return args, kwargs
        args, kwargs = list(args), dict(kwargs)
        while len(args) < len(names) and names[len(args)] in kwargs:
            args.append(kwargs.pop(names[len(args)]))
        return args, kwargs

    def opaque_fn(self, name, args, kwargs, st):
        return mk('fncall', raw('str', name), *[self.D(a, st) for a in args],
                  self.kwt(kwargs, st))

    def kwt(self, kwargs, st):
        return raw('kw', *sorted(((k, self.D(v, st)) for k, v in kwargs.items()),
                                 key=lambda kv: kv[0]))

    def call_value(self, f, args, kwargs, st):
        if f.op == 'ite':
            cd = raw('ite', f.args[0], TRUE, FALSE)
            return self.fork(
                cd, st,
                lambda s: self.call_value(f.args[1], args, kwargs, s),
                lambda s: self.call_value(f.args[2], args, kwargs, s))
        if f.op == 'func':
            cl = self.closures[f]
            leaf = cl.name.split(':')[-1]
            if leaf in self.opaque or cl.name in self.opaque:
                args, kwargs = self.positional(
                    [x.arg for x in cl.node.args.posonlyargs + cl.node.args.args],
                    args, kwargs)
                return self.opaque_fn(cl.name, args, kwargs, st)
            try:
                return self.call_function(cl, args, kwargs, st)
            except Unsupported as e:
                return top(str(e))
        if f.op == 'cls':
            if len(f.args) > 1:
                return self.opaque_call(f.args[1], '__class__', args, kwargs,
                                        st)
            c = self.P.classes.get(f.args[0])
            if c is not None:
                return self.instantiate(c, args, kwargs, st)
        if f.op == 'bound':
            return self.call_method(f.args[0], f.args[1], args, kwargs, st)
        if f.op == 'ext':
            return self.call_ext(f.args[0], args, kwargs, st)
        c = self.type_of(f, st)
        if c is not None:
            for n in ('__call__', 'forward'):
                if self.lookup(c, n):
                    return self.call_method(f, n, args, kwargs, st)
        if f.op == 'partial':
            return self.call_value(f.args[0], list(f.args[1:]) + list(args),
                                   kwargs, st)
        if f.op in ('module', 'num', 'str', 'list'):
            return top('call of ' + f.op)
        if f.op == 'attr' and isinstance(f.args[1], str) and \
                f not in st.mem:
            b = self.type_of(f.args[0], st)
            if b is None or self.lookup(b, f.args[1]) is None:
                return self.call_method(f.args[0], f.args[1], args, kwargs, st)
        return self.opaque_call(f, '__call__', args, kwargs, st)

    def instantiate(self, c, args, kwargs, st):
        if c.name in self.opaque or c.qual in self.opaque:
            r = self.lookup(c, '__init__')
            if r is not None and hasattr(r[1], 'args'):
                args, kwargs = self.positional(
                    [x.arg for x in r[1].args.args[1:]], args, kwargs)
            return self.opaque_fn(c.qual, args, kwargs, st)
        mro = self.P.mro(c)
        exts = [k for k in mro if not isinstance(k, ClassInfo)]
        r = self.lookup(c, '__init__')
        ref = self.fresh_ref(st, raw('obj', c.qual, raw('dict')))
        new = self.lookup(c, '__new__')
        if any('Enum' in str(e) or 'NamedTuple' in str(e) for e in exts) or new:
            return self.opaque_fn(c.qual, args, kwargs, st)
        if r is not None:
            try:
                self.call_function(Closure(r[1], r[2].module, r[2], {},
                                           r[2].qual + '.__init__', 'method',
                                           ref), args, kwargs, st)
            except Unsupported as e:
                return top(str(e))
            return ref
        fields = []
        dc = False
        for k in reversed(mro):
            if isinstance(k, ClassInfo) and k.dataclass is not None:
                dc = True
                for f, d in k.fields:
                    fields = [x for x in fields if x[0] != f] + [(f, d, k)]
        if dc:
            pos = list(args)
            kw = dict(kwargs)
            kw.pop('**', None)
            for f, d, k in fields:
                if pos:
                    v = pos.pop(0)
                elif f in kw:
                    v = kw.pop(f)
                elif d is not None:
                    if isinstance(d, ast.Call):
                        fac = [x.value for x in d.keywords
                               if x.arg == 'default_factory']
                        dv = [x.value for x in d.keywords if x.arg == 'default']
                        if fac:
                            fv = self.eval_const(fac[0], k.module, st, k)
                            v = self.call_value(fv, [], {}, st)
                        elif dv:
                            v = self.eval_const(dv[0], k.module, st, k)
                        else:
                            continue
                    else:
                        v = self.eval_const(d, k.module, st, k)
                else:
                    continue
                self.store_attr(ref, f, v, st)
            if pos or kw:
                return top('arguments of dataclass ' + c.name)
            pi = self.lookup(c, '__post_init__')
            if pi is not None:
                self.call_method(ref, '__post_init__', [], {}, st)
            return ref
        if args or kwargs:
            st.heap[ref] = raw('obj', c.qual, dict_term(
                [(const('args'), raw('tuple', *args))] +
                [(const(k), v) for k, v in kwargs.items()]))
        return ref

    def call_method(self, base, name, args, kwargs, st):
        if base.op == 'ite':
            cd = raw('ite', base.args[0], TRUE, FALSE)
            return self.fork(
                cd, st,
                lambda s: self.call_method(base.args[1], name, args, kwargs, s),
                lambda s: self.call_method(base.args[2], name, args, kwargs, s))
        if base.op == 'module' or base.op == 'ext':
            return self.call_value(self.load_attr(base, name, st), args, kwargs, st)
        if name == '__class__':
            f = self.load_attr(base, name, st)
            if f.op == 'cls':
                return self.call_value(f, args, kwargs, st)
        if base.op == 'super':
            return self.call_super(base, name, args, kwargs, st)
        if base.op == 'cls':
            c = self.P.classes.get(base.args[0])
            r = self.lookup(c, name) if c else None
            if r is not None:
                kind, node, owner = r
                if kind == 'attr':
                    return self.call_value(self.load_attr(base, name, st), args,
                                           kwargs, st)
                selft = base if kind == 'classmethod' else None
                if name in self.opaque:
                    return self.opaque_call(base, name, args, kwargs, st)
                cl = Closure(node, owner.module, owner, {},
                             owner.qual + '.' + name,
                             'method' if kind == 'classmethod' else 'function',
                             selft)
                try:
                    return self.call_function(cl, args, kwargs, st)
                except Unsupported as e:
                    return top(str(e))
            return self.opaque_call(base, name, args, kwargs, st)
        c = self.type_of(base, st)
        if c is not None:
            p = mk('attr', base, name) if base.op != 'ref' else None
            if p is not None and p in st.mem:
                return self.call_value(st.mem[p], args, kwargs, st)
            if base.op in ('ref', 'obj'):
                content = st.heap[base] if base.op == 'ref' else base
                for k, v in content.args[1].args:
                    if k.args[0] == name:
                        return self.call_value(v, args, kwargs, st)
            r = self.lookup(c, name)
            if r is not None:
                kind, node, owner = r
                if kind in ('abstract', 'abstract-property', 'decorated') or \
                        name in self.opaque or \
                        c.qual + '.' + name in self.opaque:
                    return self.opaque_call(base, name, args, kwargs, st)
                if kind in ('attr', 'property'):
                    return self.call_value(self.load_attr(base, name, st),
                                           args, kwargs, st)
                cl = Closure(node, owner.module, owner, {},
                             owner.qual + '.' + name,
                             'function' if kind == 'staticmethod' else 'method',
                             self.cls_term(c) if kind == 'classmethod' else
                             None if kind == 'staticmethod' else base)
                try:
                    return self.call_function(cl, args, kwargs, st)
                except Unsupported as e:
                    return top(str(e))
            if name in REGISTER and len(args) >= 2 and \
                    args[0].op == 'str':
                self.register(base, name, args, st)
                return NONE
            if name == '__init__':
                return NONE
            if name == '__setattr__' and len(args) == 2 and args[0].op == 'str':
                self.store_attr(base, args[0].args[0], args[1], st)
                return NONE
            return self.opaque_call(base, name, args, kwargs, st)
        if base.op == 'ref':
            r = self.container_method(base, name, args, kwargs, st)
            if r is not None:
                return r
        if base.op == 'view' and name.endswith('_') and \
                not name.startswith('_'):
            self.write_view(base, self.inplace_tensor(
                self.D(base, st), name, args, kwargs, st), st)
            return base
        v = self.value_method(base, name, args, kwargs, st)
        if v is not None:
            return self.note(v)
        return self.opaque_call(base, name, args, kwargs, st)

    def register(self, base, name, args, st):
        self.store_attr(base, args[0].args[0], args[1], st)
        if name == 'register_buffer' and args[1] is not NONE:
            # follows the module to another type or device
            self.store_attr(base, 'buffer ' + args[0].args[0], TRUE, st)

    def call_super(self, base, name, args, kwargs, st):
        selft = base.args[0]
        owner = self.P.classes[base.args[1]]
        c = self.P.classes.get(selft.args[0]) if selft.op == 'cls' else \
            self.type_of(selft, st)
        if c is None or owner not in self.P.mro(c):
            c = owner
        r = self.lookup(c, name, after=owner)
        if r is None:
            if name in ('register_buffer', 'register_parameter', '__setattr__') \
                    and len(args) >= 2 and args[0].op == 'str':
                self.register(selft, name, args, st)
                return NONE
            if name == '__init__':
                return NONE
            return self.opaque_call(selft, 'super.' + name, args, kwargs, st)
        kind, node, o = r
        if kind in ('property',):
            return self.call_value(self.class_member(r, c, selft, name, st), args,
                                   kwargs, st)
        if kind.startswith('abstract') and not node_has_body(node):
            return NONE
        try:
            return self.call_function(
                Closure(node, o.module, o, {}, o.qual + '.' + name,
                        'function' if kind == 'staticmethod' else 'method',
                        None if kind == 'staticmethod' else
                        self.cls_term(c) if kind == 'classmethod' else selft),
                args, kwargs, st)
        except Unsupported as e:
            return top(str(e))

    def container_method(self, ref, name, args, kwargs, st):
        """methods of locally allocated containers and tensors"""
        c = st.heap[ref]
        if c.op == 'ite' and name not in ('append', 'extend', 'update', 'add') \
                and name in INPLACE:
            cd = raw('ite', c.args[0], TRUE, FALSE)

            def side(i):
                def g(s):
                    s.heap[ref] = c.args[i]
                    return self.call_method(ref, name, args, kwargs, s)
                return g
            return self.fork(cd, st, side(1), side(2))
        listy = c.op in LISTS or (c.op == 'ite') or c.op in ('mu', 'fold')
        if name == 'popleft' and not args:
            name, args = 'pop', [ZERO]
        if name == 'appendleft' and len(args) == 1:
            name, args = 'insert', [ZERO, args[0]]
        if name == 'append' and len(args) == 1:
            st.heap[ref] = mk('concat', c, raw('list', args[0]))
            return NONE
        if name == 'extend' and len(args) == 1 or \
                name == '__iadd__':
            x = self.as_list(args[0], st)
            st.heap[ref] = mk('concat', c, x)
            return NONE
        if name == 'insert' and len(args) == 2 and args[0] is ZERO:
            st.heap[ref] = mk('concat', raw('list', args[1]), c)
            return NONE
        if name == 'add' and len(args) == 1 and c.op in ('setlit', 'setadd', 'mu',
                                                         'fold', 'ite', 'setloop'):
            if c.op == 'setlit':
                xs = list(c.args)
                if args[0] not in xs:
                    xs.append(args[0])
                st.heap[ref] = raw('setlit', *sorted(xs, key=lambda t: t.key))
            else:
                st.heap[ref] = mk('setadd', c, self.D(args[0], st))
            return NONE
        if name == 'update' and c.op in ('dict', 'store', 'updated', 'mu', 'ite',
                                         'fold', 'storeloop', 'dictof', 'pmap'):
            if len(args) == 1:
                o = self.D(args[0], st)
                if o.op == 'dict' and c.op == 'dict':
                    st.heap[ref] = dict_term(list(c.args) + list(o.args))
                else:
                    st.heap[ref] = mk('updated', c, o)
                return NONE
            if kwargs and not args:
                st.heap[ref] = mk('updated', c, dict_term(
                    [(const(k), self.D(v, st)) for k, v in kwargs.items()]))
                return NONE
        if name == 'pop':
            if c.op == 'list' and not args and c.args:
                st.heap[ref] = raw('list', *c.args[:-1])
                return c.args[-1]
            if c.op == 'list' and c.args and args == [ZERO]:
                st.heap[ref] = raw('list', *c.args[1:])
                return c.args[0]
            if c.op == 'dict' and args:
                for k, v in c.args:
                    if k is args[0]:
                        st.heap[ref] = dict_term([kv for kv in c.args
                                                  if kv[0] is not k])
                        return v
            a = [self.D(x, st) for x in args]
            cd = self.D(c, st)
            st.heap[ref] = mk('popped', cd, *a)
            return mk('popval', cd, *a)
        if name == 'clear':
            st.heap[ref] = raw('list') if listy and c.op != 'dict' else raw('dict')
            return NONE
        if name in INPLACE:
            if name == 'reverse' and not args:
                st.heap[ref] = mk('reversed', self.D(c, st))
                return NONE
            a = [self.D(x, st) for x in args]
            st.heap[ref] = mk('m:' + name, self.D(c, st), *a)
            return mk('mval:' + name, self.D(c, st), *a)
        if c.op == 'dict':
            if name == 'items':
                return raw('list', *[raw('tuple', k, v) for k, v in c.args])
            if name == 'keys':
                return raw('list', *[k for k, v in c.args])
            if name == 'values':
                return raw('list', *[v for k, v in c.args])
            if name == 'get':
                for k, v in c.args:
                    if k is args[0]:
                        return v
        if name == 'copy' and not args:
            return self.fresh_ref(st, c)
        if name.endswith('_') and not name.startswith('_'):
            v = self.inplace_tensor(self.D(c, st), name, args, kwargs, st)
            st.heap[ref] = v
            return ref
        return None

    def inplace_tensor(self, cur, name, args, kwargs, st):
        a = [self.D(x, st) for x in args]
        n = name[:-1]
        if n in ('add', 'sub', 'mul', 'div') and len(a) == 1 and not kwargs:
            return mk(n, cur, a[0])
        if n == 'copy' and len(a) == 1:
            return mk('copied', a[0])
        if n == 'zero':
            return mk('zeros_like', cur, raw('kw'))
        if n in ('requires_grad',):
            return mk('reqgrad', cur, *a)
        if n in ops._T or n in ops.VARSHAPE:
            kw = {k: self.D(v, st) for k, v in kwargs.items()}
            r = ops.tensor_op(n, cur, a, kw)
            if r is not None:
                return r
        return mk('m:' + name, cur, *a, self.kwt(kwargs, st))

    def tensor_ref(self, v, st):
        """a local tensor that may be changed in place"""
        if v.op == 'view':
            return True
        return v.op == 'ref' and st.heap[v].op in TENSORS

    def tensor_content(self, c):
        """a tensor, whose elements are numbers and not objects"""
        while c.op in ('store', 'viewset', 'storeloop'):
            c = c.args[1] if c.op == 'storeloop' else c.args[0]
        if c.op == 'ite':
            return all(self.tensor_content(x) for x in tm.leaves(c))
        return c.op in TENSORS or c in self.tensor_mu

    def value_method(self, base, name, args, kwargs, st):
        """pure methods of tensors, strings, dictionaries ..."""
        if '**' in kwargs:
            return None
        if name in ('items', 'keys', 'values', 'get') or base.op in STRS:
            pass
        elif name in ops.METHODS or name in VIEWMETHODS:
            if name in VIEWMETHODS and self.tensor_ref(base, st):
                r = ops.tensor_op(name, HOLE, [self.D(x, st) for x in args],
                                  {k: self.D(v, st) for k, v in kwargs.items()})
                if r is not None and HOLE in set(tm.walk(r)):
                    return raw('view', base, raw('vw', r))
            b = self.D(base, st)
            a = [self.D(x, st) for x in args]
            kw = {k: self.D(v, st) for k, v in kwargs.items()}
            r = ops.tensor_op(name, b, a, kw)
            if r is not None:
                if r.op == 'clone':
                    return self.fresh_ref(st, r)
                return r
        b = self.D(base, st)
        a = [self.D(x, st) for x in args]
        if name == 'items' and not a:
            return mk('items', b)
        if name == 'keys' and not a:
            return mk('keys', b)
        if name == 'values' and not a:
            return mk('values', b)
        if name == 'get' and len(a) in (1, 2):
            d = a[1] if len(a) > 1 else NONE
            if b.op == 'dict' and a[0].op in LITERAL and \
                    all(k.op in LITERAL for k, v in b.args):
                return d
            return ite(mk('in', a[0], b), mk('index', b, a[0]), d)
        if name == 'format' and b.op == 'str' and not kwargs:
            return self.fmt_template(b.args[0], a)
        if name == 'join' and b.op == 'str':
            return mk('join', b, *a)
        if b.op in STRS or name in ('split', 'strip', 'rstrip', 'lstrip',
                                    'startswith', 'endswith', 'decode', 'encode',
                                    'lower', 'upper', 'replace', 'read',
                                    'readlines', 'readline', 'count', 'find',
                                    'splitlines', 'isdigit'):
            if name == 'readlines' and not a:
                return b
            if name == 'split' and b.op == 'str' and len(a) == 1 and \
                    a[0].op == 'str' and a[0].args[0] and not kwargs:
                return raw('list', *[raw('str', x) for x in
                                     b.args[0].split(a[0].args[0])])
            return mk('s:' + name, b, *a, self.kwt(kwargs, st)) if kwargs else \
                mk('s:' + name, b, *a)
        return None

    def fmt_template(self, s, args):
        parts = s.split('{}')
        if len(parts) - 1 != len(args) or '{' in ''.join(parts):
            return mk('fmtcall', raw('str', s), *args)
        xs = []
        for i, p in enumerate(parts):
            if p:
                xs.append(raw('str', p))
            if i < len(args):
                xs.append(args[i])
        return mkfmt(xs)

    def is_log(self, base, name):
        if name not in LOG_METHODS and name not in ('getLogger', 'setLevel',
                                                    'basicConfig'):
            return False
        if base.op == 'ext':
            return base.args[0].startswith('logging')
        if base.op == 'sym':
            return base.args[0] in LOGGERS
        if base.op == 'attr':
            return base.args[1] in LOGGERS
        return base.op == 'ext' or base.op == 'call' or base.op == 'extcall'

    def opaque_call(self, base, name, args, kwargs, st):
        if self.is_log(base, name):
            return NONE
        if name == '__call__' and base.op == 'attr' and base.args[1] in LOGGERS:
            return NONE
        a = [self.argval(x, st) for x in args]
        kw = {k: self.argval(v, st) for k, v in kwargs.items()}
        if name in PARSER:
            # documentation of a command line
            kw = {k: v for k, v in kw.items() if k not in (
                'help', 'metavar', 'title', 'description', 'epilog')}
            if name == 'add_argument' and len(a) > 1 and all(
                    x.op == 'str' and x.args[0].startswith('-') for x in a) and \
                    'dest' not in kw and a[-1].args[0].startswith('--'):
                # aliases; the first long one names the attribute
                longs = [x for x in a if x.args[0].startswith('--')]
                a = [longs[0]] + sorted((x for x in a if x is not longs[0]),
                                        key=lambda x: x.args[0])
        # in-place change of an object reached by an opaque path
        if name in INPLACE and name not in self.P.MOD:
            return self.opaque_inplace(self.D0(base, st), name, a, kw, st,
                                       raw_args=args)
        if name.endswith('_') and not name.startswith('_') and \
                name not in self.P.MOD:
            b = self.D0(base, st)
            self.mutate_content(b, lambda cur: self.inplace_tensor(
                cur, name, args, kwargs, st), st)
            return b
        b = self.D(base, st)
        if name in SET_OPS and len(a) == 1 and not kw and \
                name not in self.P.MOD:
            return self.note(mk(SET_OPS[name], b, a[0]))
        if name == 'close' and not args and not kwargs and \
                b.op == 'extcall' and b.args[0] is raw('str', 'open'):
            return NONE       # what leaving a `with` block does
        sig = self.P.call_signature(name)
        if sig is not None and kw:
            for i, pn in enumerate(sig):
                if i < len(a):
                    continue
                if i == len(a) and pn in kw:
                    a.append(kw.pop(pn))
                else:
                    break
        mod = frozenset(self.P.MOD.get(name, ()))
        ref = frozenset(self.P.REF.get(name, ()))
        if name in EFFECT_NAMES and name not in self.P.MOD:
            mod, ref = frozenset(['*', '<' + name + '>']), frozenset(['*'])
        if name in ('write', 'writelines'):
            mod, ref = frozenset(['<out>']), frozenset(['<out>'])
        roots = self.roots(b, tuple(a), tuple(kw.values()))
        if name == '__call__' and not a and not kw:
            # a notification: whoever registered it may change anything
            mod, ref = frozenset(['*']), frozenset(['*'])
            roots = {(raw('anything'),)}
        ch = self.chain(b)
        own = frozenset(x for x in (ch[1:] if ch else ())
                        if not x.endswith(')'))
        deps = self.conflicts(roots, ref | own | mod, st,
                              apart=APART.get(name, ()))
        t = mk('call', b, name, *a, raw('kw', *sorted(kw.items())),
               raw('deps', *deps))
        if mod:
            self.emit_hoisted(st, t, roots, mod)
        # locally allocated arguments may have been changed
        if '[]' in mod:
            for x in args:
                if x.op == 'ref' and st.heap[x].op not in ('obj',):
                    st.heap[x] = raw('mutated', self.D(x, st), t)
        return self.note(t)

    def emit_hoisted(self, st, t, roots, mod):
        self.emit(st, t, roots, mod)

    def opaque_inplace(self, b, name, a, kw, st, raw_args=()):
        kwt = [raw('kw', *sorted(kw.items()))] if kw else []
        if name == 'append' and len(a) == 1:
            self.mutate_content(b, lambda c: mk('concat', c, raw('list', a[0])), st)
            return NONE
        if name == 'extend' and len(a) == 1:
            self.mutate_content(b, lambda c: mk('concat', c,
                                                self.as_list(a[0], st)), st)
            return NONE
        if name == 'clear':
            self.mutate_content(b, lambda c: raw('empty'), st)
            return NONE
        if name == 'pop':
            p = raw('content', b)
            cur = st.mem.get(p, self.initial(p))
            r = mk('popval', cur, *a)
            self.mutate_content(b, lambda c: mk('popped', c, *a), st)
            return r
        p = raw('content', b)
        cur = st.mem.get(p, self.initial(p))
        self.mutate_content(b, lambda c: mk('m:' + name, c, *a, *kwt), st)
        return mk('mval:' + name, cur, *a, *kwt)

    def as_list(self, v, st):
        v = self.D(v, st)
        if v.op in LISTS:
            return v if v.op != 'tuple' else raw('list', *v.args)
        return mk('listof', v)

    # ------------------------------------------------------------ externals
    def call_ext(self, name, args, kwargs, st):
        if name.startswith('logging') or (name == 'print' and not self.keep_print) \
                or name.startswith('warnings.'):
            return NONE
        leaf = name.split('.')[-1]
        h = getattr(self, 'x_' + name.replace('.', '_'), None)
        if h is not None and '**' not in kwargs:
            r = h(args, kwargs, st)
            if r is not None:
                return r
        a = [self.argval(x, st) for x in args]
        kw = {k: self.argval(v, st) for k, v in kwargs.items()}
        if '**' in kw:
            d = kw.pop('**')
            if d.op == 'dict' and all(k.op == 'str' for k, _ in d.args):
                kw.update({k.args[0]: v for k, v in d.args})
            else:
                kw['**'] = d
        if name in EFFECT_EXT:
            chn = EFFECT_EXT[name]
            t = mk('extcall', raw('str', name), *a, raw('kw', *sorted(kw.items())))
            deps = self.conflicts({(raw('ext', '<' + chn + '>'),)},
                                  frozenset(['<' + chn + '>']), st) \
                if chn in ('rng', 'stdout') else ()
            if deps:
                t = mk('after', t, raw('deps', *deps))
            self.emit(st, t, {(raw('ext', '<' + chn + '>'),)}, {'<' + chn + '>'})
            if chn == 'exit':
                self.raises.append((st.pc, st.base, raw('exc', 'SystemExit'), st,
                                    self.loc))
                raise Dead()
            return NONE
        out = kwargs.get('out')
        if out is not None and out is not NONE and \
                name.startswith(('torch.', 'numpy.')):
            del kw['out']
            r = ops.ext_call(name, a, kw)
            if r is None:
                r = mk('extcall', raw('str', name), *a,
                       raw('kw', *sorted(kw.items())))
            self.overwrite(out, self.note(r), st)
            return out
        if '**' not in kw:
            r = ops.ext_call(name, a, kw)
            if r is not None:
                if leaf in ops.CREATE or r.op in ('zeros', 'ones', 'empty', 'eye',
                                                  'zeros_like', 'ones_like'):
                    if leaf in ops.RANDOM:
                        r = self.fresh_random(r)
                    return self.note(self.fresh_ref(st, r))
                return self.note(r)
        t = mk('extcall', raw('str', name), *a, raw('kw', *sorted(kw.items())))
        if leaf in ops.RANDOM or name.startswith(('random.', 'numpy.random.')):
            t = self.fresh_random(t)
        return self.note(t)

    def overwrite(self, v, new, st):
        """v holds new from now on, for everyone who holds v"""
        if v.op == 'ite':
            cd = raw('ite', v.args[0], TRUE, FALSE)
            self.fork(cd, st,
                      lambda s: self.overwrite(v.args[1], new, s) or NONE,
                      lambda s: self.overwrite(v.args[2], new, s) or NONE)
        elif v.op == 'ref':
            st.heap[v] = new
        elif v.op == 'view':
            self.write_view(v, new, st)
        else:
            held = [k for k, x in st.env.items() if x is v]
            w = self.shared_view(v, st)
            if w.op == 'view':
                self.write_view(w, new, st)
            elif self.is_path(view_root(v)):
                self.mutate_content(v, lambda c: new, st)
            elif held:
                r = self.fresh_ref(st, new)
                for k in held:
                    st.env[k] = r

    def fresh_random(self, t):
        n = self.rng.get(t, 0)
        self.rng[t] = n + 1
        return t if n == 0 else mk('nth', t, num(n))

    # builtins -----------------------------------------------------------
    def x_len(self, a, kw, st):
        v = a[0]
        c = self.type_of(v, st)
        if c is not None and self.lookup(c, '__len__'):
            return self.call_method(v, '__len__', [], {}, st)
        d = self.D(v, st)
        if d.op == 'ite':
            return mk('len', d)
        return mk('len', d)

    def x_isinstance(self, a, kw, st):
        c = self.type_of(a[0], st)
        ks = a[1].args if a[1].op == 'tuple' else (a[1],)
        if c is not None and all(k.op == 'cls' for k in ks) and \
                a[0].op in ('ref', 'obj'):
            mro = self.P.mro(c)
            ok = any(self.P.classes.get(k.args[0]) in mro for k in ks)
            return TRUE if ok else FALSE
        r = FALSE
        d = self.D(a[0], st)
        for k in ks:
            r = c_or(r, mk('isinstance', d, k))
        return r

    def x_hasattr(self, a, kw, st):
        return mk('hasattr', self.D(a[0], st), self.D(a[1], st))

    def x_getattr(self, a, kw, st):
        if a[1].op == 'str':
            v = self.load_attr(a[0], a[1].args[0], st)
            if len(a) == 3:
                return ite(mk('hasattr', self.D(a[0], st), a[1]), v, a[2])
            return v
        if a[1].op == 'ite':
            return None
        return mk('getattr', *[self.D(x, st) for x in a])

    def x_setattr(self, a, kw, st):
        n = self.D(a[1], st)
        if n.op == 'str':
            self.store_attr(a[0], n.args[0], a[2], st)
            return NONE
        b = self.D(a[0], st)
        t = mk('setattr_ev', b, n, self.D(a[2], st))
        self.emit(st, t, self.roots(b), {'*'})
        return NONE

    def x_super(self, a, kw, st):
        fr = self.frame_with_class()
        if a:
            return raw('super', a[1], a[0].args[0])
        return raw('super', fr.selft, fr.cls.qual)

    def frame_with_class(self):
        for f in reversed(self.stack):
            if f.cls is not None and f.selft is not None:
                return f
        raise Unsupported('super() outside a class')

    def x_type(self, a, kw, st):
        if len(a) != 1:
            return None
        return self.load_attr(a[0], '__class__', st)

    def x_dict(self, a, kw, st):
        if not a:
            return self.fresh_ref(st, dict_term([(const(k), v)
                                                 for k, v in kw.items()
                                                 if k != '**']))
        v = self.D(a[0], st)
        if v.op == 'list' and all(x.op == 'tuple' and len(x.args) == 2
                                  for x in v.args):
            return self.fresh_ref(st, dict_term([x.args for x in v.args]))
        if v.op == 'map' and v.args[1].op == 'tuple' and \
                len(v.args[1].args) == 2:
            k, x = v.args[1].args
            return self.fresh_ref(st, mk('storeloop', v.args[0], raw('dict'),
                                         k, x, v.args[2]))
        if kw:
            return None
        return self.fresh_ref(st, mk('dictof', v))

    def x_list(self, a, kw, st):
        if not a:
            return self.fresh_ref(st, raw('list'))
        v = self.iter_list(a[0], st)
        return self.fresh_ref(st, v)

    def iter_list(self, it, st):
        """list of the elements of an iterable"""
        d = self.D(it, st)
        if d.op in ('list', 'map', 'flatmap', 'concat'):
            return it if it.op != 'ref' else st.heap[it]
        if d.op == 'tuple':
            return raw('list', *d.args)
        if d.op == 'dict':
            return raw('list', *[k for k, _ in d.args])
        return self.map_over(it, lambda e, s: e, st)

    def map_over(self, it, f, st):
        d = self.fork_value(it, st)
        if d is not None:
            cd = raw('ite', d.args[0], TRUE, FALSE)
            return ite(cd, self.map_over(d.args[1], f, st),
                       self.map_over(d.args[2], f, st))
        kind, space, elem, k = self.iteration(it, st)
        if kind == 'concrete':
            return raw('list', *[self.D(f(e, st), st) for e in elem])
        g, x = skip_guard(elem)
        v = self.D(f(x, st), st)
        if g is not TRUE:
            v = ite(g, v, SKIP)
        return self.close_map(space, v, k)

    def fork_value(self, it, st):
        """the ite an iterable is, if it is one"""
        if it.op == 'ite':
            return it
        if it.op == 'ref':
            return st.heap[it] if st.heap[it].op == 'ite' else None
        if it.op == 'enumerate':
            v = self.fork_value(it.args[0], st)
            return v if v is None else raw(
                'ite', v.args[0], raw('enumerate', v.args[1], it.args[1]),
                raw('enumerate', v.args[2], it.args[1]))
        if it.op in ('zip', 'list', 'tuple', 'sym', 'range'):
            return None
        d = self.D(it, st)
        return d if d.op == 'ite' else None

    def x_tuple(self, a, kw, st):
        if not a:
            return raw('tuple')
        v = self.iter_list(a[0], st)
        if v.op == 'list':
            return raw('tuple', *v.args)
        return v

    def x_set(self, a, kw, st):
        if not a:
            return self.fresh_ref(st, raw('setlit'))
        v = self.D(a[0], st)
        if v.op in ('list', 'tuple'):
            return self.fresh_ref(st, raw('setlit', *sorted(
                set(v.args), key=lambda t: t.key)))
        return self.fresh_ref(st, mk('setof', v))

    x_frozenset = x_set

    def x_range(self, a, kw, st):
        a = [self.D(x, st) for x in a]
        if len(a) == 1:
            return mk('range', ZERO, a[0], ONE)
        if len(a) == 2:
            return mk('range', a[0], a[1], ONE)
        return mk('range', *a)

    def x_enumerate(self, a, kw, st):
        start = a[1] if len(a) > 1 else kw.get('start', ZERO)
        return mk('enumerate', self.D(a[0], st), start) if a[0].op != 'ref' \
            else raw('enumerate', a[0], start)

    def x_zip(self, a, kw, st):
        return raw('zip', *a)

    def x_reversed(self, a, kw, st):
        v = self.D(a[0], st)
        if v.op in ('list', 'tuple'):
            return raw('list', *reversed(v.args))
        return mk('reversed', v)

    def x_sorted(self, a, kw, st):
        v = self.iter_list(a[0], st)
        v = self.D(v, st)
        if v.op == 'map' and v.args[1].op == 'index' and \
                v.args[1].args[1] is raw('bv', v.args[2]) and \
                v.args[0].args and v.args[0].args[0].op == 'seq' and \
                v.args[1].args[0] is v.args[0].args[0].args[0]:
            v = v.args[1].args[0]
        args = [v]
        for k in sorted(kw):
            args.append(raw('kwarg', k, self.lam_term(kw[k], 1, st)))
        return mk('sorted', *args)

    def argval(self, f, st):
        """value of an argument of an opaque call; a local function is its
        body, not its name"""
        if f.op == 'func' and '#' in str(f.args[0]):
            cl = self.closures.get(f)
            if cl is not None and isinstance(cl.node, (ast.Lambda,
                                                       ast.FunctionDef)) and \
                    not cl.node.args.vararg and not cl.node.args.kwarg:
                s = st.copy()
                nl, nr, nx = len(self.log), len(self.raises), len(self.stack)
                r = self.lam_term(f, 0, s)
                clean = len(self.log) == nl and len(self.raises) == nr and \
                    s.mem == st.mem and 'top' not in r.flags
                del self.log[nl:]
                del self.raises[nr:]
                del self.stack[nx:]
                if clean:
                    return r
        return self.D(f, st)

    def lam_term(self, f, n, st):
        """closed term of a function value of n parameters"""
        if f.op in ('func', 'bound', 'ite'):
            cl = self.closures.get(f)
            if f.op == 'func' and cl is not None and isinstance(
                    cl.node, (ast.Lambda, ast.FunctionDef)):
                np_ = len(cl.node.args.args)
                ks = [self.newk() for _ in range(np_)]
                try:
                    v = self.call_value(f, ks, {}, st)
                except (Dead, Unsupported):
                    return top('lambda')
                v = self.D(v, st)
                for k in ks:
                    h = bv_height(v) + 1
                    v = subst(v, {k: raw('bv', h)})
                return raw('lam', np_, v)
        return self.D(f, st)

    def synth(self, tree, st, **values):
        """evaluate an expression over values bound to names no source has"""
        save = {}
        for k, v in values.items():
            save[k] = st.env.get(' ' + k)
            st.env[' ' + k] = v
        try:
            return self.ev(tree, st)
        finally:
            for k, v in save.items():
                st.env.pop(' ' + k, None)
                if v is not None:
                    st.env[' ' + k] = v

    def mapping(self, n, keep=False):
        """[f(x...) for x... in xs], or [x for x in xs if f(x)]"""
        def nm(k, ctx=ast.Load):
            return ast.copy_location(ast.Name(' ' + k, ctx()), here)
        here = ast.Constant(None)
        here.lineno, here.col_offset = (self.loc or (None, 0))[1] or 0, 0
        xs = [f'x{i}' for i in range(n)]
        call = ast.copy_location(ast.Call(nm('f'), [nm(x) for x in xs], []), here)
        t = nm(xs[0], ast.Store) if n == 1 else ast.copy_location(
            ast.Tuple([nm(x, ast.Store) for x in xs], ast.Store()), here)
        return ast.copy_location(ast.ListComp(
            nm('x0') if keep else call, [ast.comprehension(
                t, nm('xs'), [call] if keep else [], 0)]), here)

    def x_map(self, a, kw, st):
        xs = a[1] if len(a) == 2 else raw('zip', *a[1:])
        return self.synth(self.mapping(len(a) - 1), st, f=a[0], xs=xs)

    def x_filter(self, a, kw, st):
        if a[0] is NONE:
            return self.map_over(a[1], lambda e, s: ite(self.truth(e, s), e,
                                                        SKIP), st)
        return self.synth(self.mapping(1, True), st, f=a[0], xs=a[1])

    def x_slice(self, a, kw, st):
        a = [self.D(x, st) for x in a]
        if len(a) == 1:
            a = [NONE] + a
        return mk('slice', *(a + [NONE])[:3])

    def x_sum(self, a, kw, st):
        init = a[1] if len(a) > 1 else kw.get('start', ZERO)
        return self.sum_of(self.D(a[0], st), self.D(init, st), st)

    def sum_of(self, v, init, st):
        if v.op in ('list', 'tuple'):
            r = init
            for x in v.args:
                r = mk('add', r, x)
            return r
        if v.op == 'map':
            body = zero_skip(v.args[1])
            return mk('add', init, mk('sumloop', v.args[0], body, v.args[2]))
        if v.op == 'ite':
            return ite(raw('ite', v.args[0], TRUE, FALSE),
                       self.sum_of(v.args[1], init, st),
                       self.sum_of(v.args[2], init, st))
        k, space, elem, kk = self.iteration(v, st)
        if k == 'concrete':
            r = init
            for x in elem:
                r = mk('add', r, self.D(x, st))
            return r
        m = self.close_map(space, self.D(elem, st), kk)
        if m.op == 'map':
            return mk('add', init, mk('sumloop', m.args[0], m.args[1], m.args[2]))
        return mk('add', init, mk('pysum', v))

    def x_max(self, a, kw, st):
        return self.minmax('pymax', a, kw, st)

    def x_min(self, a, kw, st):
        return self.minmax('pymin', a, kw, st)

    def minmax(self, op, a, kw, st):
        xs = [self.D(x, st) for x in a]
        if len(xs) == 1:
            if xs[0].op in ('list', 'tuple') and not kw:
                xs = list(xs[0].args)
            else:
                ex = [raw('kwarg', k, self.lam_term(v, 1, st))
                      for k, v in sorted(kw.items())]
                return mk(op + 'of', xs[0], *ex)
        if kw:
            return None
        xs = sorted(set(xs), key=lambda t: t.key)
        if len(xs) == 1:
            return xs[0]
        return mk(op, *xs)

    def x_any(self, a, kw, st):
        return self.anyall('any', a, st)

    def x_all(self, a, kw, st):
        return self.anyall('all', a, st)

    def anyall(self, n, a, st):
        v = self.D(a[0], st)
        if v.op in ('list', 'tuple'):
            r = FALSE if n == 'any' else TRUE
            for x in v.args:
                c = self.truth(x, st)
                r = c_or(r, c) if n == 'any' else c_and(r, c)
            return r
        if v.op == 'map':
            body = v.args[1]
            if n == 'any':
                return mk('exists', v.args[0], body, v.args[2])
            return c_not(mk('exists', v.args[0], c_not(body) if is_diag(body)
                            else mk('not', body), v.args[2]))
        return None

    def x_int(self, a, kw, st):
        v = self.D(a[0], st) if a else ZERO
        if v.op == 'num' and len(a) == 1:
            return num(int(v.args[0]))
        if v.op in ('len', 'floordiv'):
            return v
        if v.op == 'int':
            return v
        return mk('int', *[self.D(x, st) for x in a])

    def x_float(self, a, kw, st):
        v = self.D(a[0], st) if a else ZERO
        if v.op == 'str':
            try:
                return const(float(v.args[0]))
            except ValueError:
                return None
        if v.op in ('num', 'len'):
            return v
        if v.op == 'poly' and len(v.args) == 1 and any(
                x.op == 'len' and e < 0 for x, e in v.args[0][1]):
            return v          # a quotient of counts
        return mk('float', v)

    def x_bool(self, a, kw, st):
        return self.truth(a[0], st)

    def x_str(self, a, kw, st):
        v = self.D(a[0], st) if a else const('')
        return mkfmt([v])

    def x_abs(self, a, kw, st):
        return mk('abs', self.D(a[0], st))

    def x_pow(self, a, kw, st):
        return mk('pow', *[self.D(x, st) for x in a]) if len(a) == 2 else None

    def x_next(self, a, kw, st):
        v = self.D(a[0], st)
        return mk('next', v, *[self.D(x, st) for x in a[1:]])

    def x_iter(self, a, kw, st):
        return a[0]

    def x_id(self, a, kw, st):
        return mk('id', self.D(a[0], st))

    def x_callable(self, a, kw, st):
        return None

    def x_functools_partial(self, a, kw, st):
        if kw:
            return None
        return raw('partial', *a)

    def x_copy_copy(self, a, kw, st):
        if a[0].op == 'ref':
            return self.fresh_ref(st, st.heap[a[0]])
        return mk('copy', self.D(a[0], st))

    def x_copy_deepcopy(self, a, kw, st):
        return self.fresh_ref(st, mk('deepcopy', self.D(a[0], st)))

    def x_operator_itemgetter(self, a, kw, st):
        return None

    def x_torch_is_tensor(self, a, kw, st):
        return mk('isinstance', self.D(a[0], st), raw('ext', 'torch.Tensor'))

    def x_collections_OrderedDict(self, a, kw, st):
        return self.x_dict(a, kw, st)

    def x_torch_nn_ModuleList(self, a, kw, st):
        if not a:
            return self.fresh_ref(st, raw('list'))
        return self.x_list(a, kw, st)

    def x_torch_nn_Parameter(self, a, kw, st):
        return mk('Parameter', *[self.D(x, st) for x in a], self.kwt(kw, st))

    def x_collections_deque(self, a, kw, st):
        if kw or len(a) > 1:
            return None
        return self.x_list(a, kw, st)

    def x_collections_defaultdict(self, a, kw, st):
        return self.fresh_ref(st, raw('ddict', *[self.lam_term(x, 0, st)
                                                 for x in a]))

    def x_torch_from_numpy(self, a, kw, st):
        return mk('from_numpy', self.D(a[0], st))

    # ------------------------------------------------------------ truth
    def truth(self, v, st):
        d = v
        if v.op == 'ref':
            c = st.heap[v]
            if c.op == 'obj':
                k = self.P.classes.get(c.args[0])
                if k is not None and self.lookup(k, '__len__') is not None:
                    d = self.call_method(v, '__len__', [], {}, st)
                else:
                    return TRUE
        d = self.D(d, st)
        return cond_of(d)

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        self.steps += 1
        if self.steps > 400000:
            raise Unsupported('analysis budget exceeded')
        ln = getattr(e, 'lineno', None)
        if ln is not None and self.stack:
            self.loc = (self.stack[-1].module.path, ln)
        f = getattr(self, 'e_' + type(e).__name__, None)
        if f is None:
            return top('expression ' + type(e).__name__)
        v = f(e, st)
        return v

    def e_Constant(self, e, st):
        return const(e.value)

    def e_Name(self, e, st):
        if e.id in st.env:
            return st.env[e.id]
        fr = self.stack[-1]
        owner = getattr(fr, 'classenv', None)
        if owner is not None and e.id in owner.attrs and \
                owner.attrs[e.id] is not fr.node:
            x = owner.attrs[e.id]
            if isinstance(x, ClassInfo):
                return self.cls_term(x)
            return self.eval_const(x, owner.module, st, owner)
        if owner is not None and e.id in owner.methods:
            return raw('bound', self.cls_term(owner), e.id)
        if e.id == '__class__' and fr.cls is not None:
            return self.cls_term(fr.cls)
        return self.global_ref(fr.module.name, e.id, st)

    def e_Attribute(self, e, st):
        b = self.ev(e.value, st)
        self.loc = (self.stack[-1].module.path, e.lineno)
        return self.load_attr(b, e.attr, st)

    def e_Subscript(self, e, st):
        b = self.ev(e.value, st)
        k = self.ev(e.slice, st)
        return self.getitem(b, k, st)

    def getitem(self, b, k, st):
        if b.op == 'ite':
            cd = raw('ite', b.args[0], TRUE, FALSE)
            return self.fork(cd, st, lambda s: self.getitem(b.args[1], k, s),
                             lambda s: self.getitem(b.args[2], k, s))
        c = self.type_of(b, st)
        if c is not None:
            if self.lookup(c, '__getitem__'):
                return self.call_method(b, '__getitem__', [k], {}, st)
        kd = self.D(k, st)
        if b.op == 'ref':
            cont = st.heap[b]
            if cont.op in ('list', 'dict', 'tuple', 'store'):
                r = mk('index', cont, kd)
                if not (r.op == 'index' and r.args[0] is cont):
                    return r
                return r
            return raw('view', b, tm.norm_key(kd))
        if b.op == 'view':
            return raw('view', b, tm.norm_key(kd))
        if raw('content', b) in st.mem:
            b = st.mem[raw('content', b)]
        r = mk('index', b, kd)
        p = raw('content', r)
        if p in st.mem:
            return r
        return self.note(r)

    def e_Slice(self, e, st):
        xs = [self.D(self.ev(x, st), st) if x is not None else NONE
              for x in (e.lower, e.upper, e.step)]
        return mk('slice', *xs)

    def e_Index(self, e, st):
        return self.ev(e.value, st)

    def e_Tuple(self, e, st):
        xs = self.elts(e.elts, st)
        return raw('tuple', *xs) if isinstance(xs, list) else xs

    def elts(self, elts, st):
        xs = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.D(self.ev(x.value, st), st)
                if v.op in ('tuple', 'list'):
                    xs.extend(v.args)
                else:
                    xs.append(raw('star', v))
            else:
                xs.append(self.ev(x, st))
        return xs

    def e_List(self, e, st):
        xs = self.elts(e.elts, st)
        if any(x.op == 'star' for x in xs):
            parts = [x.args[0] if x.op == 'star' else raw('list', x) for x in xs]
            return self.fresh_ref(st, mk('concat', *parts))
        return self.fresh_ref(st, raw('list', *xs))

    def e_Set(self, e, st):
        xs = self.elts(e.elts, st)
        return self.fresh_ref(st, raw('setlit', *sorted(
            set(self.D(x, st) for x in xs), key=lambda t: t.key)))

    def e_Dict(self, e, st):
        pairs = []
        merged = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.D(self.ev(v, st), st)
                if d.op == 'dict':
                    pairs.extend(d.args)
                    if merged is not None:
                        merged = mk('updated', merged, d)
                else:
                    merged = mk('updated', merged if merged is not None
                                else dict_term(pairs), d)
            else:
                kk = self.D(self.ev(k, st), st)
                vv = self.ev(v, st)
                pairs.append((kk, vv))
                if merged is not None:
                    merged = mk('store', merged, kk, vv)
        return self.fresh_ref(st, merged if merged is not None
                              else dict_term(pairs))

    def e_BinOp(self, e, st):
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.note(self.binop(type(e.op).__name__, a, b, st))

    DUNDER = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__',
              'Div': '__truediv__', 'MatMult': '__matmul__'}

    def binop(self, op, a, b, st):
        c = self.type_of(a, st)
        if c is not None and op in self.DUNDER and \
                self.lookup(c, self.DUNDER[op]):
            return self.call_method(a, self.DUNDER[op], [b], {}, st)
        c = self.type_of(b, st)
        if c is not None and op in self.DUNDER:
            rn = self.DUNDER[op].replace('__', '__r', 1)
            if self.lookup(c, rn):
                return self.call_method(b, rn, [a], {}, st)
        if op == 'Add' and (a.op == 'ref' and st.heap[a].op in LISTS or
                            b.op == 'ref' and st.heap[b].op in LISTS):
            x = st.heap[a] if a.op == 'ref' else a
            y = st.heap[b] if b.op == 'ref' else b
            return self.fresh_ref(st, mk('concat', x, y))
        a, b = self.D(a, st), self.D(b, st)
        name = {'Add': 'add', 'Sub': 'sub', 'Mult': 'mul', 'Div': 'div',
                'FloorDiv': 'floordiv', 'Mod': 'mod', 'Pow': 'pow',
                'MatMult': 'matmul', 'BitOr': 'bitor', 'BitAnd': 'bitand',
                'BitXor': 'bitxor', 'LShift': 'lshift', 'RShift': 'rshift'}[op]
        if name == 'mod' and a.op in STRS:
            return self.percent(a, b)
        if name == 'add' and (a.op in STRS or b.op in STRS):
            return mkfmt([a, b])
        if name in ('bitor', 'bitand'):
            if is_diag(a) and is_diag(b):
                return c_or(a, b) if name == 'bitor' else c_and(a, b)
        if name == 'sub' and is_set(a):
            return mk('setdiff', a, b)
        return mk(name, a, b)

    def percent(self, a, b):
        if a.op == 'str':
            args = list(b.args) if b.op == 'tuple' else [b]
            s = a.args[0]
            parts = s.replace('%d', '%s').split('%s')
            if len(parts) - 1 == len(args) and '%' not in ''.join(parts):
                xs = []
                for i, p in enumerate(parts):
                    if p:
                        xs.append(raw('str', p))
                    if i < len(args):
                        xs.append(args[i])
                return mkfmt(xs)
        return mk('percent', a, b)

    def e_UnaryOp(self, e, st):
        v = self.ev(e.operand, st)
        if isinstance(e.op, ast.Not):
            return c_not(self.truth(v, st))
        v = self.D(v, st)
        if isinstance(e.op, ast.USub):
            return self.note(mk('neg', v))
        if isinstance(e.op, ast.UAdd):
            return v
        if is_diag(v) and isinstance(e.op, ast.Invert):
            return c_not(v)
        return mk('invert', v)

    def e_BoolOp(self, e, st):
        vals = e.values

        def go(i, s):
            v = self.ev(vals[i], s)
            if i == len(vals) - 1:
                return v
            c = self.truth(v, s)
            if isinstance(e.op, ast.And):
                other = v if not (v.op == 'ite' and is_diag(v)) else FALSE
                return self.fork(c, s, lambda q: go(i + 1, q), lambda q: other)
            other = v if not (v.op == 'ite' and is_diag(v)) else TRUE
            return self.fork(c, s, lambda q: other, lambda q: go(i + 1, q))
        return go(0, st)

    def e_IfExp(self, e, st):
        c = self.truth(self.ev(e.test, st), st)
        return self.fork(c, st, lambda s: self.ev(e.body, s),
                         lambda s: self.ev(e.orelse, s))

    def e_Compare(self, e, st):
        left = self.ev(e.left, st)
        r = TRUE
        for op, c in zip(e.ops, e.comparators):
            right = self.ev(c, st)
            r = c_and(r, self.compare(type(op).__name__, left, right, st))
            left = right
        return r

    def compare(self, op, a, b, st):
        c = self.type_of(a, st)
        if op in ('Eq', 'NotEq') and c is not None and a.op == 'ref' and \
                self.lookup(c, '__eq__'):
            v = self.truth(self.call_method(a, '__eq__', [b], {}, st), st)
            return v if op == 'Eq' else c_not(v)
        if op in ('Is', 'IsNot'):
            if a.op == 'ref' and b.op == 'ref':
                r = TRUE if a is b else FALSE
                return r if op == 'Is' else c_not(r)
            if (a.op == 'ref' and b is NONE) or (b.op == 'ref' and a is NONE):
                r = st.heap[a if a.op == 'ref' else b]
                if r.op != 'ite':
                    return FALSE if op == 'Is' else TRUE
        a, b = self.D(a, st), self.D(b, st)
        if op == 'NotEq' and a is b and a.op in ('exp', 'log', 'sqrt', 'poly',
                                                 'div', 'where', 'lgamma'):
            return mk('isnan', a)     # the numbers unequal to themselves
        if op == 'Eq':
            return mk('eq', a, b)
        if op == 'NotEq':
            return c_not(mk('eq', a, b))
        if op == 'Is':
            return mk('is', a, b)
        if op == 'IsNot':
            return c_not(mk('is', a, b))
        if op == 'Lt':
            return mk('lt', a, b)
        if op == 'Gt':
            return mk('lt', b, a)
        if op == 'LtE':
            return c_not(mk('lt', b, a))
        if op == 'GtE':
            return c_not(mk('lt', a, b))
        if op == 'In':
            return mk('in', a, strip_keys(b))
        if op == 'NotIn':
            return c_not(mk('in', a, strip_keys(b)))
        return top('compare')

    def e_Call(self, e, st):
        kwargs = {}
        if isinstance(e.func, ast.Attribute):
            base = self.ev(e.func.value, st)
            if self.is_log(base, e.func.attr):
                return NONE
            args, kwargs = self.arguments(e, st)
            self.loc = (self.stack[-1].module.path, e.lineno)
            return self.call_method(base, e.func.attr, args, kwargs, st)
        f = self.ev(e.func, st)
        args, kwargs = self.arguments(e, st)
        self.loc = (self.stack[-1].module.path, e.lineno)
        return self.call_value(f, args, kwargs, st)

    def arguments(self, e, st):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.D(self.ev(a.value, st), st)
                n = item_arity(v)
                if v.op in ('tuple', 'list'):
                    args.extend(v.args)
                elif n is not None:
                    args.extend(self.pick(v, i, n, st) if v.op == 'ite' else
                                self.getitem(v, num(i), st) for i in range(n))
                else:
                    args.append(raw('star', v))
            else:
                args.append(self.ev(a, st))
        kwargs = {}
        for k in e.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                d = self.D(v, st)
                if d.op == 'dict' and all(x.op == 'str' for x, _ in d.args):
                    for x, y in d.args:
                        kwargs[x.args[0]] = y
                else:
                    kwargs['**'] = d
            else:
                kwargs[k.arg] = v
        return args, kwargs

    def e_Lambda(self, e, st):
        return self.closure(e, st, '<lambda>')

    def closure(self, node, st, name):
        self.nref += 1
        t = raw('func', f'{name}#{self.nref}')
        fr = self.stack[-1]
        cl = Closure(node, fr.module, fr.cls, st.env, name, 'function',
                     fr.selft)
        self.closures[t] = cl
        return t

    def e_JoinedStr(self, e, st):
        xs = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                xs.append(const(v.value))
            else:
                x = self.D(self.ev(v.value, st), st)
                if v.format_spec is not None:
                    s = self.ev(v.format_spec, st)
                    x = mk('fspec', x, s)
                if v.conversion not in (-1, None):
                    x = mk('fconv', x, num(v.conversion))
                xs.append(x)
        return mkfmt(xs)

    def e_NamedExpr(self, e, st):
        v = self.ev(e.value, st)
        st.env[e.target.id] = v
        return v

    def e_Starred(self, e, st):
        return raw('star', self.D(self.ev(e.value, st), st))

    def e_Yield(self, e, st):
        v = self.ev(e.value, st) if e.value is not None else NONE
        fr = next(f for f in reversed(self.stack) if f.yields is not None)
        st.heap[fr.yields] = mk('concat', st.heap[fr.yields],
                                raw('list', self.D(v, st)))
        return NONE

    def e_YieldFrom(self, e, st):
        v = self.ev(e.value, st)
        fr = next(f for f in reversed(self.stack) if f.yields is not None)
        st.heap[fr.yields] = mk('concat', st.heap[fr.yields],
                                self.D(self.iter_list(v, st), st))
        return NONE

    # comprehensions ------------------------------------------------------
    def comp(self, e, st, leaf, init):
        ref = self.fresh_ref(st, init)
        # a comprehension is the loop that fills a fresh container
        save = dict(st.env)
        body = [Raw(lambda s: leaf(ref, s))]
        gens = list(e.generators)

        def nest(i):
            if i == len(gens):
                return body
            g = gens[i]
            inner = nest(i + 1)
            for c in reversed(g.ifs):
                inner = [ast.copy_location(ast.If(test=c, body=inner, orelse=[]),
                                           c)]
            f = ast.For(target=g.target, iter=g.iter, body=inner, orelse=[])
            return [ast.copy_location(f, g.iter)]
        fall, exits = self.block(nest(0), st.copy())
        if fall is None:
            raise Dead()
        st.heap, st.mem, st.pc = fall.heap, fall.mem, fall.pc
        st.env = save
        for k in list(st.env):
            if k in fall.env:
                st.env[k] = save[k]
        return ref

    def e_ListComp(self, e, st):
        def leaf(ref, s):
            v = self.ev(e.elt, s)
            s.heap[ref] = mk('concat', s.heap[ref], raw('list', v))
        return self.comp(e, st, leaf, raw('list'))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, e, st):
        def leaf(ref, s):
            v = self.D(self.ev(e.elt, s), s)
            c = s.heap[ref]
            if c.op == 'setlit':
                s.heap[ref] = raw('setlit', *sorted(set(c.args) | {v},
                                                    key=lambda t: t.key))
            else:
                s.heap[ref] = mk('setadd', c, v)
        return self.comp(e, st, leaf, raw('setlit'))

    def e_DictComp(self, e, st):
        def leaf(ref, s):
            k = self.D(self.ev(e.key, s), s)
            v = self.ev(e.value, s)
            s.heap[ref] = mk('store', s.heap[ref], k, v)
        return self.comp(e, st, leaf, raw('dict'))

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        """-> (fall-through state | None, [(kind, value, state)])"""
        exits = []
        for s in stmts:
            if st is None:
                break
            try:
                st, ex = self.stmt(s, st)
            except Dead:
                st, ex = None, []
            exits.extend(ex)
        return st, exits

    def stmt(self, s, st):
        if isinstance(s, RawS):
            return s.f(st)
        if isinstance(s, Raw):
            s.f(st)
            return st, []
        ln = getattr(s, 'lineno', None)
        if ln is not None:
            self.loc = (self.stack[-1].module.path, ln)
        f = getattr(self, 's_' + type(s).__name__, None)
        if f is None:
            self.notes.append('statement ' + type(s).__name__)
            st.env['?'] = top('statement ' + type(s).__name__)
            return st, []
        r = f(s, st)
        return r if r is not None else (st, [])

    def s_Expr(self, s, st):
        if isinstance(s.value, ast.Constant):
            return
        v = s.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                v.func.attr == 'add' and len(v.args) == 1 and not v.keywords:
            # the result is discarded: a set grows (the tensor operation of
            # the same name would have no effect)
            b = self.ev(v.func.value, st)
            if b.op not in ('ref', 'ite', 'module', 'ext', 'cls', 'super') and \
                    self.type_of(b, st) is None:
                a = self.D(self.ev(v.args[0], st), st)
                self.opaque_inplace(self.D0(b, st), 'add', [a], {}, st)
                return
        self.ev(v, st)

    def s_Pass(self, s, st):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Import(self, s, st):
        for a in s.names:
            r = self.P.module_ref(a.name if a.asname else a.name.split('.')[0])
            st.env[a.asname or a.name.split('.')[0]] = \
                raw('module', r[1]) if r[0] == 'module' else self.ext_name(r[1])

    def s_ImportFrom(self, s, st):
        fr = self.stack[-1]
        mod = self.P._rel(fr.module, s.level, s.module)
        for a in s.names:
            r = self.P.resolve(mod, a.name)
            st.env[a.asname or a.name] = self.ref_term(r, st, mod, a.name) \
                if r else top('import ' + a.name)

    def s_FunctionDef(self, s, st):
        t = self.closure(s, st, s.name)
        st.env[s.name] = t
        self.closures[t].env = st.env

    def s_ClassDef(self, s, st):
        fr = self.stack[-1]
        c = None
        for k in self.P.classes.values():
            if k.node is s:
                c = k
        if c is None:
            c = self.P._class(fr.module, s)
        st.env[s.name] = self.cls_term(c)

    def s_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        return None, [('ret', v, st)]

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.env.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st)
                k = self.D(self.ev(t.slice, st), st)
                if b.op == 'ref':
                    self.container_method(b, 'pop', [k], {}, st)
                else:
                    self.mutate_content(self.D(b, st),
                                        lambda c: mk('popped', c, k), st)
            elif isinstance(t, ast.Attribute):
                b = self.ev(t.value, st)
                self.store_attr(b, t.attr, UNDEF, st)

    def s_Assert(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        self.do_raise(st, c_not(c), raw('exc', 'AssertionError'))

    def do_raise(self, st, cond, exc):
        """raise exc where cond holds; st continues where it does not"""
        kn = st.known()
        if c_and(kn, cond) is FALSE:
            return
        s = st.copy()
        s.pc = c_and(st.pc, cond)
        self.raises.append((s.pc, s.base, exc, s, self.loc))
        st.pc = c_and(st.pc, c_not(cond))
        if c_and(kn, c_not(cond)) is FALSE:
            raise Dead()

    def s_Raise(self, s, st):
        if s.exc is None:
            exc = raw('exc', 'reraise')
        else:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            r = None
            v = self.ev(e, st)
            if v.op == 'cls':
                exc = raw('exc', self.P.classes[v.args[0]].name)
            elif v.op == 'ext':
                exc = raw('exc', v.args[0])
            else:
                exc = raw('exc', 'reraise') if isinstance(e, ast.Name) else \
                    raw('exc', '?')
        self.raises.append((st.pc, st.base, exc, st, self.loc))
        return None, []

    # assignment ----------------------------------------------------------
    def s_Assign(self, s, st):
        v = self.ev(s.value, st)
        for t in s.targets:
            self.assign(t, v, st)

    def s_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)

    def assign(self, t, v, st):
        if isinstance(t, ast.Name):
            st.env[t.id] = v
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            self.loc = (self.stack[-1].module.path, t.lineno)
            self.store_attr(b, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            b = self.local_container(t.value, st)
            k = self.ev(t.slice, st)
            self.loc = (self.stack[-1].module.path, t.lineno)
            self.store_index(b, k, v, st)
        elif isinstance(t, (ast.Tuple, ast.List)):
            self.unpack(t, v, st)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st)

    def unpack(self, t, v, st):
        if v.op == 'ref':
            c = st.heap[v]
            v = c if c.op in ('list', 'tuple') else self.D(v, st)
        n = len(t.elts)
        stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
        if v.op == 'ite':
            vs = [self.pick(v, i, n, st) for i in range(n)]
        elif v.op in ('tuple', 'list') and len(v.args) == n and not stars:
            vs = list(v.args)
        elif v.op in ('tuple', 'list') and stars:
            i = stars[0]
            post = n - i - 1
            xs = list(v.args)
            vs = xs[:i] + [raw('list', *xs[i:len(xs) - post])] + \
                (xs[len(xs) - post:] if post else [])
        elif stars:
            i = stars[0]
            post = n - i - 1
            vs = [mk('index', v, num(j)) for j in range(i)] + \
                [mk('index', v, mk('slice', num(i), num(-post) if post else NONE,
                                   NONE))] + \
                [mk('index', v, num(j - post)) for j in range(post)]
        else:
            if v.op == 'map':
                vs = [mk('index', v, num(i)) for i in range(n)]
            else:
                if v.op == 'attr' and v.args[1] == 'shape':
                    vs = [ops.shape_index(v.args[0], num(i)) for i in range(n)]
                else:
                    vs = [self.getitem(v, num(i), st) for i in range(n)]
        for x, y in zip(t.elts, vs):
            self.assign(x, y, st)

    def pick(self, v, i, n, st):
        if v.op == 'ite':
            return ite(raw('ite', v.args[0], TRUE, FALSE),
                       self.pick(v.args[1], i, n, st),
                       self.pick(v.args[2], i, n, st))
        if v.op == 'ref' and st.heap[v].op in ('list', 'tuple'):
            v = st.heap[v]
        return mk('index', v, num(i))

    def shared_view(self, v, st):
        """a view of the value of another local variable: make that
        value addressable, so that writes through the view reach it"""
        root = view_root(v)
        if root is v or root.op in ('ref', 'view', 'ite') or self.is_path(root) \
                or not any(x is root for x in st.env.values()):
            return v
        r = self.fresh_ref(st, root)
        w = raw('view', r, raw('vw', subst(v, {root: HOLE})))
        for k, x in list(st.env.items()):
            if x is root:
                st.env[k] = r
            elif x is v:
                st.env[k] = w
        return w

    def temporary(self, v):
        """a value that is not memory reachable by another name"""
        if v.op == 'ite':
            return all(self.temporary(x) for x in tm.leaves(v))
        return v.op not in ('ref', 'view') and \
            not self.is_path(view_root(v))

    def local_container(self, e, st):
        """base of an in-place store: make local temporaries addressable"""
        v = self.ev(e, st)
        if isinstance(e, ast.Name):
            v = self.shared_view(v, st)
        if isinstance(e, ast.Name) and self.temporary(v):
            r = self.fresh_ref(st, v)
            for k, x in list(st.env.items()):
                if x is v:
                    st.env[k] = r
            return r
        return v

    def s_AugAssign(self, s, st):
        op = type(s.op).__name__
        t = s.target
        if isinstance(t, ast.Name):
            v = st.env.get(t.id)
            if v is None:
                v = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t), st)
            x = self.ev(s.value, st)
            v = self.shared_view(v, st)
            if v.op == 'ref':
                c = st.heap[v]
                if c.op == 'obj':
                    st.env[t.id] = self.binop(op, v, x, st)
                    return
                if op == 'Add' and (c.op in LISTS):
                    st.heap[v] = mk('concat', c, self.as_list(x, st))
                    return
                st.heap[v] = self.binop(op, self.D(c, st), self.D(x, st), st)
                return
            if v.op == 'view':
                cur = self.D(v, st)
                new = self.binop(op, cur, self.D(x, st), st)
                self.store_index(v.args[0], v.args[1], new, st)
                return
            xd = self.D(x, st)
            root = view_root(v)
            if root is not v and self.is_path(root) or \
                    v.op == 'index' and self.is_path(v) and \
                    (v.args[1].op in ('tuple', 'slice') or
                     v.args[1] is NONE) or \
                    self.is_path(v) and \
                    xd.op not in ('num', 'str', 'len', 'fmt') and \
                    v.op not in ('K',) and not self.scalar(v):
                new = self.binop(op, self.D(v, st), xd, st)
                if new.op in ('concat', 'fmt') and v.op != 'attr':
                    pass
                self.mutate_content(v, lambda c: new, st)
                st.env[t.id] = v
                return
            st.env[t.id] = self.binop(op, v, x, st)
            return
        if isinstance(t, ast.Attribute):
            b = self.ev(t.value, st)
            cur = self.load_attr(b, t.attr, st)
            x = self.ev(s.value, st)
            xd = self.D(x, st)
            if cur.op == 'ref' and st.heap[cur].op in LISTS and op == 'Add':
                st.heap[cur] = mk('concat', st.heap[cur], self.as_list(x, st))
                return
            new = self.binop(op, cur, x, st)
            self.loc = (self.stack[-1].module.path, t.lineno)
            bd = self.D(b, st)
            if b.op == 'ref' or xd.op in ('num', 'str', 'len'):
                self.store_attr(b, t.attr, new, st)
            else:
                p = mk('attr', bd, t.attr)
                if p in st.mem:
                    st.mem[p] = new
                else:
                    newd = self.D(new, st)
                    self.mutate_content(p, lambda c: newd, st)
            return
        if isinstance(t, ast.Subscript):
            b = self.local_container(t.value, st)
            k = self.D(self.ev(t.slice, st), st)
            cur = self.getitem(b, k, st)
            x = self.ev(s.value, st)
            new = self.binop(op, self.D(cur, st) if cur.op != 'ref' else cur, x, st)
            self.loc = (self.stack[-1].module.path, t.lineno)
            if b.op == 'ref' and cur.op in ('attr', 'index', 'sym') and \
                    not self.tensor_content(st.heap[b]) and \
                    self.is_path(cur) and not self.numeric(x, st) and \
                    new.op not in ('fmt',):
                # the element is an object owned by someone else
                newd = self.D(new, st)
                self.mutate_content(cur, lambda c: newd, st)
                new = cur
            self.store_index(b, k, new, st)

    def numeric(self, v, st):
        return self.D(v, st).op in ('num', 'len', 'str', 'fmt')

    def scalar(self, v):
        return v.op in ('num', 'len') or v in self.num_mu or v in self.obj_mu

    def rebound(self, v, st):
        """an object whose class defines no in-place addition: x += y
        makes a new object"""
        if v.op == 'ite':
            return self.rebound(v.args[1], st) and self.rebound(v.args[2], st)
        if v.op == 'ref':
            v = st.heap.get(v, v)
        if v.op != 'obj':
            return v in self.obj_mu
        c = self.P.classes.get(v.args[0])
        return c is not None and self.lookup(c, '__iadd__') is None

    def fresh_value(self, v):
        """the result of an arithmetic expression: an object nobody else
        holds, so that an in-place operation on it is a rebinding"""
        if v.op == 'ite':
            return self.fresh_value(v.args[1]) and self.fresh_value(v.args[2])
        return v.op in ('poly', 'log', 'exp', 'sqrt', 'pow', 'num', 'len',
                        'sumloop', 'sum', 'zeros', 'ones') or v in self.num_mu

    # control flow ---------------------------------------------------------
    def s_If(self, s, st):
        c = self.truth(self.ev(s.test, st), st)
        kn = st.known()
        if c_and(kn, c) is FALSE:
            return self.block(s.orelse, st)
        if c_and(kn, c_not(c)) is FALSE:
            return self.block(s.body, st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = c_and(st.pc, c)
        s2.pc = c_and(st.pc, c_not(c))
        rng0 = self.rng
        self.rng = dict(rng0)
        f1, e1 = self.block(s.body, s1)
        rng1, self.rng = self.rng, dict(rng0)
        f2, e2 = self.block(s.orelse, s2)
        self.join_rng(rng1)
        return self.join(c, f1, f2), e1 + e2

    def join_rng(self, other):
        for k, n in other.items():
            self.rng[k] = max(n, self.rng.get(k, 0))

    def s_With(self, s, st):
        for it in s.items:
            v = self.ev(it.context_expr, st)
            if it.optional_vars is not None:
                c = self.type_of(v, st)
                if c is not None and self.lookup(c, '__enter__'):
                    v = self.call_method(v, '__enter__', [], {}, st)
                self.assign(it.optional_vars, v, st)
        return self.block(s.body, st)

    s_AsyncWith = s_With

    def missing_key(self, s, names, st):
        """the failure of the only look up in a protected region: whether
        the key is missing"""
        if names != ('KeyError',):
            return None
        subs = [n for x in s.body for n in ast.walk(x)
                if isinstance(n, ast.Subscript) and
                isinstance(n.ctx, ast.Load) and
                not isinstance(n.slice, (ast.Slice, ast.Tuple)) and
                not (isinstance(n.slice, ast.Constant) and
                     isinstance(n.slice.value, int))]
        if len(subs) != 1:
            return None
        n = subs[0]
        if not isinstance(n.value, (ast.Name, ast.Attribute)) or not isinstance(
                n.slice, (ast.Name, ast.Attribute, ast.Constant)) or \
                isinstance(n.value, ast.Name) and n.value.id not in st.env:
            return None
        bound = {x.id for y in s.body for x in ast.walk(y)
                 if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if any(isinstance(x, ast.Name) and x.id in bound and
               x.id not in st.env for y in (n.value, n.slice)
               for x in ast.walk(y)):
            return None
        st = st.copy()
        d, k = self.ev(n.value, st), self.ev(n.slice, st)
        return self.compare('NotIn', k, d, st)

    def s_Try(self, s, st):
        save = self.raises
        self.raises = []
        nlog = len(self.log)
        st0 = st.copy()
        body_st = st.copy()
        f, ex = self.block(s.body + s.orelse, body_st)
        inner = self.raises
        self.raises = save
        # signature of the protected region
        sig = []
        for st1 in [f] + [x[2] for x in ex]:
            if st1 is None:
                continue
            for k, v in st1.env.items():
                if st0.env.get(k) is not v:
                    sig.append(self.D(v, st1))
            for k, v in st1.mem.items():
                if st0.mem.get(k) is not v:
                    sig.append(self.D(v, st1))
            for k, v in st1.heap.items():
                if k in st0.heap and st0.heap[k] is not v:
                    sig.append(self.D(v, st1))
        for x in ex:
            if x[0] == 'ret':
                sig.append(self.D(x[1], x[2]))
        sig += [e.term for e in self.log[nlog:]]
        if not sig:
            last = s.body[-1]
            sig = [raw('str', ast.unparse(last))]
        sig = [x for x in sig if not any(y is not x and within(x, y)
                                        for y in sig)] or sig
        sigt = mk('sigset', *sig)
        out_f, out_e = f, list(ex)
        if not s.handlers:
            self.raises.extend(inner)
        notraised = TRUE
        for h in s.handlers:
            names = []
            if h.type is not None:
                tv = self.ev(h.type, st0.copy())
                for x in (tv.args if tv.op == 'tuple' else (tv,)):
                    names.append(self.P.classes[x.args[0]].name
                                 if x.op == 'cls' else str(x.args[0])
                                 if x.args else '?')
            names = tuple(sorted(names))
            own = [r for r in inner if not names or
                   r[2].args[0] in names or 'Exception' in names]
            inner = [r for r in inner if r not in own]
            cond = self.missing_key(s, names, st0)
            if cond is None:
                cond = mk('raises', raw('tuple', *[raw('str', n)
                                                   for n in names]), sigt)
            else:
                for j in range(nlog, len(self.log)):
                    v = self.log[j]
                    self.log[j] = Event(c_and(v.guard, c_not(cond)), v.term,
                                        v.roots, v.mod, v.loc)
            hs = st0.copy()
            hs.pc = c_and(st0.pc, cond)
            # locals assigned before the failure are approximated
            if h.name:
                hs.env[h.name] = raw('excval', sigt)
            if own:
                oc = FALSE
                for r in own:
                    oc = c_or(oc, r[0])
                cond = c_or(cond, oc)
                hs.pc = c_and(st0.pc, cond)
            # events of the body happen only when it completes
            hf, he = self.block(h.body, hs)
            if out_f is not None:
                out_f.pc = c_and(out_f.pc, c_not(cond))
            new_e = []
            for k, v, x in out_e:
                x.pc = c_and(x.pc, c_not(cond))
                new_e.append((k, v, x))
            out_e = new_e + he
            out_f = self.join(cond, hf, out_f) if out_f is not None else hf
        self.raises.extend(inner)
        if s.finalbody:
            if out_f is not None:
                out_f, e3 = self.block(s.finalbody, out_f)
                out_e += e3
        return out_f, out_e

    # ------------------------------------------------------------ loops
    def newk(self):
        self.nk += 1
        return raw('K', self.nk)

    def iteration(self, it, st):
        """('concrete', None, [elements], None) or
        ('sym', space term, element, K)"""
        d = it
        if it.op == 'ref':
            c = st.heap[it]
            if c.op in ('list', 'tuple', 'setlit'):
                return 'concrete', None, list(c.args), None
            if c.op == 'dict':
                return 'concrete', None, [k for k, _ in c.args], None
            k = self.P.classes.get(c.args[0]) if c.op == 'obj' else None
            if k is not None:
                if self.lookup(k, '__iter__'):
                    return self.iteration(self.call_method(
                        it, '__iter__', [], {}, st), st)
                if self.lookup(k, '__len__') and \
                        self.lookup(k, '__getitem__'):
                    n = self.D(self.call_method(it, '__len__', [], {}, st), st)
                    kk = self.newk()
                    e = self.call_method(it, '__getitem__', [kk], {}, st)
                    return 'sym', self.range_space(n), e, kk
            if self.tensor_content(c):
                n = tm.rows(self.D(c, st))
                if n is not None:
                    # rows, through which the tensor may be written
                    kk = self.newk()
                    return 'sym', self.range_space(n), raw('view', it, kk), kk
        elif it.op not in ('ite',):
            k = self.type_of(it, st)
            if k is not None and self.lookup(k, '__iter__'):
                return self.iteration(self.call_method(it, '__iter__', [], {}, st),
                                      st)
        if it.op in ('list', 'tuple') and not any(x.op == 'star'
                                                   for x in it.args):
            return 'concrete', None, list(it.args), None
        if it.op == 'zip':
            parts = [self.iteration(x, st) for x in it.args]
            if all(p[0] == 'concrete' for p in parts):
                return 'concrete', None, [raw('tuple', *xs) for xs in
                                          zip(*[p[2] for p in parts])], None
            k = self.newk()
            elems, sp = [], []
            for p, x in zip(parts, it.args):
                if p[0] == 'concrete' or skip_guard(p[2])[0] is not TRUE:
                    xd = self.D(x, st)
                    elems.append(mk('index', xd, k))
                    sp.append(raw('seq', xd))
                else:
                    elems.append(subst(p[2], {p[3]: k}))
                    sp.extend(p[1].args)
            return 'sym', mkspace(sp), raw('tuple', *elems), k
        if it.op == 'enumerate':
            p = self.iteration(it.args[0], st)
            start = it.args[1]
            if p[0] == 'concrete':
                return 'concrete', None, [
                    raw('tuple', mk('add', start, num(i)), x)
                    for i, x in enumerate(p[2])], None
            g, e = skip_guard(p[2])
            if g is not TRUE:
                # the count of the elements that are kept
                return 'sym', p[1], ite(g, raw(
                    'tuple', mk('add', start, self.count(p[1], g, p[3])), e),
                    SKIP), p[3]
            return 'sym', p[1], raw('tuple', mk('add', start, p[3]), p[2]), p[3]
        d = self.D(it, st)
        if d is not it and d.op in ('list', 'tuple', 'zip', 'enumerate'):
            return self.iteration(d, st)
        if d.op == 'range':
            a, b, s = d.args
            ia, ib, is_ = tm.as_int(a), tm.as_int(b), tm.as_int(s)
            if None not in (ia, ib, is_) and is_ and len(range(ia, ib, is_)) <= 6:
                return 'concrete', None, [num(i) for i in range(ia, ib, is_)], None
            k = self.newk()
            if s is ONE:
                return 'sym', self.range_space(mk('sub', b, a)), \
                    mk('add', a, k), k
            if is_ == -1:
                return 'sym', self.range_space(mk('sub', a, b)), \
                    mk('sub', a, k), k
            return 'sym', mkspace([raw('rngs', a, b, s)]), \
                mk('add', a, mk('mul', s, k)), k
        if d.op == 'reversed':
            p = self.iteration(d.args[0], st)
            if p[0] == 'concrete':
                return 'concrete', None, list(reversed(p[2])), None
            if p[1].op == 'space' and len(p[1].args) == 1 and \
                    skip_guard(p[2])[0] is TRUE:
                n = space_len(p[1])
                if n is not None:
                    return 'sym', p[1], subst(
                        p[2], {p[3]: mk('sub', mk('sub', n, ONE), p[3])}), p[3]
        if d.op == 'items':
            k = self.newk()
            kk = mk('dkey', d.args[0], k)
            return 'sym', mkspace([raw('seq', raw('keys', d.args[0]))]), \
                raw('tuple', kk, mk('index', d.args[0], kk)), k
        if d.op == 'keys' or d.op in ('storeloop', 'updated', 'dictof', 'pmap'):
            k = self.newk()
            b = d.args[0] if d.op == 'keys' else d
            return 'sym', mkspace([raw('seq', raw('keys', b))]), \
                mk('dkey', b, k), k
        if d.op == 'values':
            k = self.newk()
            kk = mk('dkey', d.args[0], k)
            return 'sym', mkspace([raw('seq', raw('keys', d.args[0]))]), \
                mk('index', d.args[0], kk), k
        if d.op == 'map':
            k = self.newk()
            body = subst(d.args[1], {raw('bv', d.args[2]): k})
            return 'sym', d.args[0], body, k
        if d.op == 'listof':
            return self.iteration(d.args[0], st)
        k = self.newk()
        return 'sym', mkspace([raw('seq', d)]), mk('index', d, k), k

    def count(self, space, g, k):
        """how often g was true before iteration k"""
        m = raw('bmu', 0)
        body = ite(g, tm.p_add(m, ONE), m)
        sp = self.close_space(space, [body], k)
        h = max(bv_height(body), bv_height(sp)) + 1
        return raw('at', mk('fold', sp, raw('tuple', ZERO), raw(
            'tuple', subst(body, {k: raw('bv', h)})), h), k)

    def range_space(self, n):
        if n.op == 'len':
            return mkspace([raw('seq', n.args[0])])
        return mkspace([raw('rng', n)])

    def close(self, space, term, k, extra=()):
        """bind K in term: canonical bound variable + space"""
        h = max([bv_height(term)] + [bv_height(x) for x in extra]) + 1
        bv = raw('bv', h)
        return subst(term, {k: bv}), h

    def close_space(self, space, terms, k):
        """sequences indexed by exactly the loop variable join the space"""
        if space.op != 'space' or k is None:
            return space
        seqs = [x for x in space.args if x.op == 'seq']
        if not seqs and not any(x.op == 'rng' for x in space.args):
            return space
        extra = set()
        for t in terms:
            if k not in t.free:
                continue
            for x in tm.walk(t):
                if x.op == 'index' and x.args[1] is k and k not in \
                        x.args[0].free and x.args[0].op != 'dkey' and \
                        x.args[0].op != 'map':
                    extra.add(raw('seq', x.args[0]))
                elif x.op == 'dkey' and x.args[1] is k:
                    extra.add(raw('seq', raw('keys', x.args[0])))
        args = list(space.args)
        if any(x.op == 'rng' for x in args):
            return space
        return mkspace(list(space.args) + list(extra))

    def close_map(self, space, body, k, st=None):
        # an element list of element lists is a flat map
        inv = invariant_conds(body, k)
        for c in inv:
            cd = raw('ite', c, TRUE, FALSE)
            return ite(cd, self.close_map(space, restrict(body, c, True), k),
                       self.close_map(space, restrict(body, c, False), k))
        sp = self.close_space(space, [body], k)
        b, h = self.close(sp, body, k)
        if b is SKIP:
            return raw('list')
        # [x[i] for i in range(len(x))] is x as a list
        return mk('map', sp, b, h)

    def s_For(self, s, st):
        it = self.ev(s.iter, st)
        t = s.target
        if isinstance(t, ast.Tuple) and len(t.elts) == 2 and \
                isinstance(t.elts[0], ast.Name) and \
                not self.reads(t.elts[0].id):
            i2 = uncounted(it)
            if i2 is not None:
                # a count nobody looks at
                s = ast.copy_location(ast.For(target=t.elts[1], iter=s.iter,
                                              body=s.body, orelse=s.orelse), s)
                it = i2
        return self.for_over(s, it, st)

    def reads(self, name):
        node = self.stack[-1].node
        r = self.readnames.get(node)
        if r is None:
            r = self.readnames[node] = {
                x.id for x in ast.walk(node) if isinstance(x, ast.Name) and
                not isinstance(x.ctx, ast.Store)}
        return name in r

    def for_over(self, s, it, st):
        v = self.fork_value(it, st)
        if v is not None and npaths(v) <= FORKS:
            return self.s_For_ite(s, v, st)
        d = it if it.op != 'ref' else st.heap[it]
        if d.op == 'flatmap' and not s.orelse and not any(
                isinstance(x, ast.Break) for b in s.body
                for x in walk_stmts(b)):
            k = self.newk()
            inner = subst(d.args[1], {raw('bv', d.args[2]): k})
            body = [RawS(lambda q: self.for_over(s, inner, q))]
            s2 = ast.copy_location(ast.For(target=s.target, iter=s.iter,
                                           body=body, orelse=[]), s.iter)
            return self.loop(s2, st, d.args[0], k, lambda q: None)
        kind, space, elem, k = self.iteration(it, st)
        if kind == 'concrete' and len(elem) <= 16:
            exits = []
            brk = []
            for x in elem:
                if st is None:
                    break
                self.assign(s.target, x, st)
                try:
                    fall, ex = self.block(s.body, st)
                except Dead:
                    fall, ex = None, []
                for kd, v, s2 in ex:
                    if kd == 'cont':
                        fall = s2 if fall is None else self.join_after(s2, fall)
                    elif kd == 'brk':
                        brk.append(s2)
                    else:
                        exits.append((kd, v, s2))
                st = fall
            if s.orelse and st is not None:
                st, ex = self.block(s.orelse, st)
                exits += ex
            for b in brk:
                st = b if st is None else self.join_after(b, st)
            return st, exits
        if kind == 'concrete':
            d = raw('list', *elem)
            k = self.newk()
            space, elem = mkspace([raw('seq', d)]), raw('index', d, k)
        g, elem = skip_guard(elem)
        return self.loop(s, st, space, k,
                         lambda q: self.assign(s.target, elem, q), g)

    def s_For_ite(self, s, it, st):
        cd = raw('ite', it.args[0], TRUE, FALSE)
        kn = st.known()
        if c_and(kn, cd) is FALSE:
            return self.for_over(s, it.args[2], st)
        if c_and(kn, c_not(cd)) is FALSE:
            return self.for_over(s, it.args[1], st)
        s1, s2 = st.copy(), st.copy()
        s1.pc = c_and(st.pc, cd)
        s2.pc = c_and(st.pc, c_not(cd))
        f1, e1 = self.for_over(s, it.args[1], s1)
        f2, e2 = self.for_over(s, it.args[2], s2)
        return self.join(cd, f1, f2), e1 + e2

    def counted(self, s, st):
        """while i < N: ...; i += 1  as  for i in range(i, N)"""
        t, b = s.test, s.body
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and
                len(b) > 1 and not s.orelse):
            return None
        lo, hi = t.left, t.comparators[0]
        if isinstance(t.ops[0], ast.Gt):
            lo, hi = hi, lo
        elif not isinstance(t.ops[0], ast.Lt):
            return None
        inc = b[-1]
        if not isinstance(lo, ast.Name) or 'range' in st.env:
            return None
        i = lo.id
        one = None
        if isinstance(inc, ast.AugAssign) and isinstance(inc.op, ast.Add) and \
                isinstance(inc.target, ast.Name) and inc.target.id == i:
            one = inc.value
        elif isinstance(inc, ast.Assign) and len(inc.targets) == 1 and \
                isinstance(inc.targets[0], ast.Name) and \
                inc.targets[0].id == i and \
                isinstance(inc.value, ast.BinOp) and \
                isinstance(inc.value.op, ast.Add):
            x, y = inc.value.left, inc.value.right
            if isinstance(y, ast.Name):
                x, y = y, x
            if isinstance(x, ast.Name) and x.id == i:
                one = y
        if not (isinstance(one, ast.Constant) and one.value == 1 and
                type(one.value) is int):
            return None
        nodes = [x for q in b[:-1] for x in ast.walk(q)]
        stored = {x.id for x in nodes if isinstance(x, ast.Name) and
                  not isinstance(x.ctx, ast.Load)}
        if i in stored or any(isinstance(x, (
                ast.Break, ast.Continue, ast.Global, ast.Nonlocal,
                ast.FunctionDef, ast.Lambda)) for x in nodes):
            return None
        for x in ast.walk(hi):
            if isinstance(x, ast.Name):
                if x.id in stored or x.id == i:
                    return None
            elif not isinstance(x, (ast.Constant, ast.Call, ast.BinOp,
                                    ast.operator, ast.expr_context)):
                return None
        for x in ast.walk(hi):
            if isinstance(x, ast.Call):
                if not (isinstance(x.func, ast.Name) and x.func.id == 'len' and
                        len(x.args) == 1 and isinstance(x.args[0], ast.Name)):
                    return None
                n = x.args[0].id
                ok = set()
                for y in nodes:
                    if isinstance(y, ast.Subscript) and \
                            isinstance(y.value, ast.Name) and \
                            isinstance(y.ctx, ast.Load):
                        ok.add(y.value)
                    if isinstance(y, ast.Call) and \
                            isinstance(y.func, ast.Name) and \
                            y.func.id == 'len':
                        ok.update(y.args)
                if any(isinstance(y, ast.Name) and y.id == n and y not in ok
                       for y in nodes):
                    return None
        v = st.env.get(i)
        if v is None or v.op != 'num' or v.args[0].denominator != 1:
            return None
        r = ast.Call(ast.Name('range', ast.Load()),
                     [hi] if v is num(0) else [ast.Name(i, ast.Load()), hi], [])
        f = ast.For(ast.Name(i, ast.Store()), r, b[:-1], [])
        m = ast.Assign([ast.Name(i, ast.Store())], ast.Call(
            ast.Name('max', ast.Load()), [ast.Constant(int(v.args[0])), hi], []))
        for x in (f, m):
            ast.copy_location(x, s)
            for y in ast.walk(x):
                if not hasattr(y, 'lineno'):
                    ast.copy_location(y, s)
        return f, m

    def s_While(self, s, st):
        c = self.counted(s, st)
        if c is not None:
            f, ex = self.s_For(c[0], st)
            if f is not None:
                f, ex2 = self.block([c[1]], f)
                ex = ex + ex2
            return f, ex
        k = self.newk()
        return self.loop(s, st, None, k, lambda q: None)

    def s_Break(self, s, st):
        return None, [('brk', NONE, st)]

    def s_Continue(self, s, st):
        return None, [('cont', NONE, st)]

    def cells(self, st):
        out = {}
        for n, v in st.env.items():
            out[('env', n)] = v
        for n, v in st.heap.items():
            out[('heap', n)] = v
        for n, v in st.mem.items():
            out[('mem', n)] = v
        return out

    def set_cell(self, st, c, v):
        getattr(st, c[0])[c[1]] = v

    def loop(self, s, st, space, k, bind, guard=TRUE):
        """symbolic loop: fixpoint on the set of carried cells"""
        for n in s.body:
            for t in ast.walk(n) if isinstance(n, ast.stmt) else ():
                if isinstance(t, ast.Subscript) and \
                        isinstance(t.ctx, ast.Store) and \
                        isinstance(t.value, ast.Name) and \
                        isinstance(st.env.get(t.value.id), T) and \
                        st.env[t.value.id] is not UNDEF:
                    self.local_container(t.value, st)
        carried = {}
        uid = k.args[0]
        nlog, nraise = len(self.log), len(self.raises)
        rng0 = dict(self.rng)
        allocated = set(st.heap)
        ini0 = self.cells(st)
        for rnd in range(8):
            del self.log[nlog:]
            del self.raises[nraise:]
            self.rng = dict(rng0)
            b = st.copy()
            b.facts = st.known()
            b.base = b.pc = TRUE
            for c, m in carried.items():
                cur = self.cells(b).get(c)
                self.set_cell(b, c, m)
            start = self.cells(b)
            cond = TRUE
            if space is None:
                cond = self.truth(self.ev(s.test, b), b)
                b.pc = c_and(b.pc, cond)
            skipped = None
            if guard is not TRUE:
                skipped = b.copy()
                skipped.pc = c_and(b.pc, c_not(guard))
                b.pc = c_and(b.pc, guard)
            try:
                bind(b)
                fall, ex = self.block(s.body, b)
            except Dead:
                fall, ex = None, []
            if skipped is not None:
                fall = skipped if fall is None else \
                    self.join(guard, fall, skipped)
            rets, brks = [], []
            for kd, v, s2 in ex:
                if kd == 'cont':
                    fall = s2 if fall is None else self.join_after(s2, fall)
                elif kd == 'brk':
                    brks.append(s2)
                else:
                    rets.append((kd, v, s2))
            end = fall
            brkc = FALSE
            for b2 in brks:
                brkc = c_or(brkc, b2.pc)
            for b2 in brks:
                end = b2 if end is None else self.join_after(b2, end)
            if end is None:
                # body never falls through: model one evaluation
                end = rets[-1][2].copy() if rets else b
            ecells = self.cells(end)
            new = False
            for c, v in ecells.items():
                if c[0] == 'env' and c not in start:
                    continue
                if c[0] == 'heap' and c[1] not in allocated:
                    continue
                if c[0] == 'mem' and k in c[1].free:
                    continue
                ini = start.get(c, self.initial(c[1]) if c[0] == 'mem' else None)
                if v is not ini and c not in carried:
                    carried[c] = raw('mu', uid, c[0] + ':' + (
                        c[1] if isinstance(c[1], str) else c[1].key))
                    if c[0] == 'heap' and ini is not None and \
                            self.tensor_content(ini):
                        self.tensor_mu.add(carried[c])
                    if c[0] == 'env' and ini is not None and (
                            self.scalar(ini) or self.fresh_value(ini) and
                            self.fresh_value(v)):
                        self.num_mu.add(carried[c])
                    if c[0] == 'env' and ini is not None and \
                            self.rebound(ini, st):
                        self.obj_mu.add(carried[c])
                    new = True
                elif c in carried and carried[c] in self.num_mu and not \
                        self.scalar(ini0.get(c, UNDEF)) and not \
                        self.fresh_value(v):
                    self.num_mu.discard(carried[c])
                    new = True
            for c in start:
                if c not in ecells and c[0] == 'mem' and c not in carried:
                    pass
            if not new:
                break
        retc = FALSE
        for _, _, s2 in rets:
            retc = c_or(retc, s2.pc)
        raisec = FALSE
        myraises = self.raises[nraise:]
        del self.raises[nraise:]
        for r in myraises:
            raisec = c_or(raisec, c_and(r[1], r[0]))
        body_events = self.log[nlog:]
        del self.log[nlog:]
        # -------- closed forms of carried cells
        ini = {}
        first = self.cells(st)
        fin = {}
        for c, m in carried.items():
            ini[c] = first.get(c, self.initial(c[1]) if c[0] == 'mem' else UNDEF)
            fin[c] = self.Dloop(ecells.get(c, m), end, allocated)
        stop = c_or(retc, brkc)
        stop = self.Dloop(stop, end, allocated)
        cond = self.Dloop(cond, end, allocated)
        mus = {m: c for c, m in carried.items()}
        # unchanged after all
        gone = {}
        for c in list(fin):
            if fin[c] is carried[c]:
                gone[carried[c]] = ini[c]
                fin = {q: subst(v, {carried[c]: ini[c]}) for q, v in fin.items()
                       if q is not c}
                stop = subst(stop, {carried[c]: ini[c]})
                cond = subst(cond, {carried[c]: ini[c]})
                mus.pop(carried[c], None)
        # counters: x starts at a and grows by c*f is a + c*x', where x' starts
        # at zero and grows by f
        shift, scaled = {}, {}
        for c in list(fin):
            m, i = carried[c], ini[c]
            if c[0] != 'env' or m not in fin[c].free or i.op not in (
                    'num', 'len', 'poly', 'sym', 'attr', 'index') or \
                    m in self.obj_mu:
                continue
            f = tm.p_add(fin[c], m, -1)
            if m in f.free or f.op not in ('num', 'poly', 'len') or \
                    fin[c].op != 'poly':
                continue
            q, body = tm.content(f)
            if f.op == 'num' or q == 1 and i is tm.ZERO:
                if f.op == 'num' or i is tm.ZERO:
                    continue
            shift[m] = tm.p_add(i, tm.p_mul(num(q), m))
            scaled[c] = (i, num(q))
            fin[c] = tm.p_add(m, body)
            ini[c] = tm.ZERO
            self.num_mu.add(m)
        if shift:
            for c in fin:
                if c in scaled:
                    m = carried[c]
                    fin[c] = tm.p_add(m, subst(tm.p_add(fin[c], m, -1), shift))
                else:
                    fin[c] = subst(fin[c], shift)
            stop, cond = subst(stop, shift), subst(cond, shift)
            gone = {m: subst(v, shift) for m, v in gone.items()}
        stop, cond = self.recurrences(carried, fin, ini, mus, stop, cond, k,
                                      uid, st)
        simple = stop is FALSE and space is not None
        if space is not None:
            base_space = space
        solved = {}
        at = {}

        def mudeps(t):
            return {mus[f] for f in t.free if f in mus}

        order = sorted(fin, key=lambda c: len(mudeps(fin[c])))
        # scc-aware closing
        def reach(c):
            seen, todo = set(), [c]
            while todo:
                x = todo.pop()
                for y in mudeps(fin[x]):
                    if y not in seen:
                        seen.add(y)
                        todo.append(y)
            return seen

        stopdeps = set()
        for t in (stop, cond):
            stopdeps |= mudeps(t)
        for c in list(stopdeps):
            stopdeps |= reach(c)

        def the_space(terms):
            """space, closed over K, including stop condition"""
            sp = base_space if space is not None else None
            if space is None:
                cc = expand_mus(cond, stopdeps)
                cb, h = self.close(None, cc, k)
                sp = raw('whilesp', cb, h)
            if stop is not FALSE:
                cc = expand_mus(stop, stopdeps)
                sp = self.close_space(sp, list(terms) + [cc], k)
                cb, h = self.close(None, cc, k)
                sp = raw('until', sp, cb, h)
            else:
                sp = self.close_space(sp, terms, k)
            return sp

        def expand_mus(t, group):
            """replace carried values by the value at the current iteration"""
            m = {}
            for f in t.free:
                if f in mus:
                    m[f] = raw('at', fold_of(mus[f]), k)
            return subst(t, m) if m else t

        folds = {}

        def fold_of(c):
            """canonical fold term for the cell c"""
            if c in folds:
                return folds[c]
            group = sorted(reach(c) | {c} | (stopdeps if not simple else set()),
                           key=lambda q: (subst(self.scrub(fin[q], mus), {}).key,
                                          self.Dloop(ini[q], st, ()).key
                                          if ini[q] is not UNDEF else ''))
            # what changes together; the rest is known at each iteration
            apart = [q for q in group if q != c and q not in stopdeps and
                     c not in reach(q)]
            group = [c] + [q for q in group if q != c and q not in apart]
            m = {carried[q]: raw('bmu', i) for i, q in enumerate(group)}
            for q in apart:
                m[carried[q]] = raw('at', fold_of(q), k)
            bodies = [subst(fin[q], m) for q in group]
            inis = [self.D0(ini[q], st) for q in group]
            if space is None:
                cs = subst(cond, m)
                b2, h = self.close(None, cs, k)
                sp = raw('whilesp', b2, h)
            else:
                sp = base_space
            if stop is not FALSE:
                ss = subst(stop, m)
                sp = self.close_space(sp, bodies + [ss], k)
                b2, h = self.close(None, ss, k)
                sp = raw('until', sp, b2, h)
            else:
                sp = self.close_space(sp, bodies, k)
            h = max([bv_height(x) for x in bodies] + [bv_height(sp)]) + 1
            bodies = [subst(x, {k: raw('bv', h)}) for x in bodies]
            f = mk('fold', sp, raw('tuple', *inis), raw('tuple', *bodies), h)
            folds[c] = f
            return f

        def closed(c):
            if c in solved:
                return solved[c]
            m, e, i = carried[c], fin[c], ini[c]
            i = i if i is not UNDEF else UNDEF
            d = mudeps(e)
            solved[c] = None
            r = None
            if c not in d or True:
                r = self.pattern(c, m, e, i, the_space, k, mus, expand_mus, st,
                                 allocated)
            if r is None:
                r = fold_of(c)
            solved[c] = r
            return r

        after = st.copy()
        for c in fin:
            if c[0] == 'aux':
                continue
            v = closed(c)
            if c in scaled:
                v = tm.p_add(scaled[c][0], tm.p_mul(scaled[c][1], v))
            self.set_cell(after, c, v)
        # variables first assigned in the loop: value of the last iteration
        for c, v in ecells.items():
            if c[0] == 'env' and c not in start and c[1] != '?':
                vv = subst(self.Dloop(v, end, allocated), shift)
                vv = expand_mus(vv, None)
                after.env[c[1]] = self.last(the_space([vv]), vv, k, UNDEF)
            if c[0] == 'env' and c[1] == '?':
                after.env['?'] = v
        # memory of per-iteration objects: one effect for the loop
        gone = {m: self.D0(v, st) for m, v in gone.items() if v is not UNDEF}
        gone.update(shift)

        def rewrap(t):
            return expand_mus(subst(self.Dloop(t, end, allocated), gone), None)
        for c, v in ecells.items():
            if c[0] == 'mem' and k in c[1].free:
                p = rewrap(c[1])
                vv = rewrap(v)
                sp = the_space([p, vv])
                t, h = self.close(sp, raw('store_ev', p, vv), k)
                t = mk('foreach', sp, t, h)
                rt = self.roots(subst(self.initial(c[1]), {}))
                rt = {self.unk(x, k, elem_of(space, k)) for x in rt}
                self.emit(after, t, rt, {self.memfield(c[1])})
        for e in body_events:
            g = rewrap(e.guard)
            tt = rewrap(e.term)
            body = tt if g is TRUE else raw('when', g, tt)
            sp = the_space([body])
            inv = invariant_conds(g, k)
            t, h = self.close(sp, body, k)
            t = mk('foreach', sp, t, h)
            save, self.loc = self.loc, e.loc
            rt = {self.unk(x, k, None) for x in e.roots}
            self.emit(after, t, rt, e.mod)
            self.loc = save
        # returns from inside the loop
        exits = []
        if retc is not FALSE and rets:
            rc = rewrap(retc)
            sp = base_space if space is not None else raw('whilesp', *self.close(
                None, rewrap(cond), k))
            kd, v, s2 = rets[-1]
            val = self.Dloop(v, s2, allocated)
            for kd2, v2, s3 in reversed(rets[:-1]):
                val = ite(s3.pc, self.Dloop(v2, s3, allocated), val)
            val = rewrap(val)
            sp = self.close_space(sp, [rc, val], k)
            cb, h = self.close(None, rc, k)
            ex = mk('exists', sp, cb, h)
            h2 = max(bv_height(cb), bv_height(val), bv_height(sp)) + 1
            fv = mk('first', sp, subst(rc, {k: raw('bv', h2)}),
                    subst(val, {k: raw('bv', h2)}), h2)
            s4 = after.copy()
            s4.pc = c_and(after.pc, ex)
            after.pc = c_and(after.pc, c_not(ex))
            exits.append(('ret', fv, s4))
        if raisec is not FALSE:
            rc = rewrap(raisec)
            sp = base_space if space is not None else raw('whilesp', *self.close(
                None, rewrap(cond), k))
            sp = self.close_space(sp, [rc], k)
            cb, h = self.close(None, rc, k)
            ex = mk('exists', sp, cb, h)
            s5 = after.copy()
            s5.pc = c_and(after.pc, ex)
            self.raises.append((s5.pc, s5.base, myraises[0][2], s5,
                                myraises[0][4]))
            after.pc = c_and(after.pc, c_not(ex))
        if s.orelse and isinstance(s, (ast.For, ast.While)):
            if brkc is FALSE:
                f2, e2 = self.block(s.orelse, after)
                return f2, exits + e2
            bc = rewrap(brkc)
            sp = base_space if space is not None else raw('whilesp', *self.close(
                None, rewrap(cond), k))
            cb, h = self.close(None, bc, k)
            ex = mk('exists', sp, cb, h)
            s6 = after.copy()
            s6.pc = c_and(after.pc, c_not(ex))
            after.pc = c_and(after.pc, ex)
            self.relabel(carried, fin, ini, after, exits, nlog, shift)
            f2, e2 = self.block(s.orelse, s6)
            return self.join(c_not(ex), f2, after), exits + e2
        self.relabel(carried, fin, ini, after, exits, nlog, shift)
        return after, exits

    def recurrences(self, carried, fin, ini, mus, stop, cond, k, uid, st):
        """what a loop reads back of a sequence it fills - the element it
        has just stored, the last it has added, how many there are - as
        values carried from one iteration to the next"""
        def add(c, kind, first, step):
            m = raw('mu', uid, 'aux:%s:%s' % (kind, carried[c].key))
            q = ('aux', kind, carried[c].key)
            carried[q], fin[q], ini[q] = m, step, first
            mus[m] = q
            return m

        def swap(old, new):
            nonlocal stop, cond
            for q in fin:
                fin[q] = replace(fin[q], old, new)
            stop, cond = replace(stop, old, new), replace(cond, old, new)

        for c in list(fin):
            m, e = carried[c], fin[c]
            if m not in e.free or ini[c] is UNDEF or any(
                    q[0] == 'aux' for q in fin if q[1:] == c):
                continue
            if e.op == 'store' and e.args[0] is m and m in e.args[2].free and \
                    m not in e.args[1].free and k in e.args[1].free:
                p, v = e.args[1], e.args[2]
                back = subst(p, {k: mk('sub', k, ONE)})
                old = mk('index', m, back)
                if mentions(v, m, old):
                    continue
                first = stored(self.D0(ini[c], st), subst(back, {k: ZERO}))
                if first is None:
                    continue
                fin[c] = raw('store', m, p, ZERO)
                a = add(c, 'row', first, v)
                v = replace(v, old, a)
                fin[('aux', 'row', m.key)] = v
                fin[c] = mk('store', m, p, v)
                continue
            g = growth(e, m)
            if g is None and e.op == 'concat' and e.args[-1] is m and \
                    len(e.args) == 2 and e.args[0].op == 'list' and \
                    len(e.args[0].args) == 1:
                # elements put in front
                i = self.D0(ini[c], st)
                v, old = e.args[0].args[0], mk('index', m, ZERO)
                if i.op == 'list' and len(i.args) == 1 and \
                        not mentions(v, m, old) and m in v.free:
                    a = add(c, 'head', i.args[0], v)
                    v = replace(v, old, a)
                    fin[('aux', 'head', m.key)] = v
                    fin[c] = mk('concat', raw('list', v), m)
                continue
            if g is not None and g.op == 'list' and len(g.args) == 1 and \
                    m in g.free:
                i = self.D0(ini[c], st)
                v, old = g.args[0], mk('index', m, num(-1))
                if i.op == 'list' and i.args and m in v.free and \
                        not mentions(v, m, old):
                    a = add(c, 'last', i.args[-1], v)
                    v = replace(v, old, a)
                    fin[('aux', 'last', m.key)] = v
                    fin[c] = mk('concat', m, raw('list', v))
                    continue
            if g is not None:
                n = list_size(g, m)
                i = mk('len', self.D0(ini[c], st))
                old = mk('len', m)
                if n is not None and old.op == 'len' and any(
                        mentions_term(x, old) for x in
                        list(fin.values()) + [stop, cond]):
                    a = add(c, 'size', ZERO, ZERO)
                    swap(old, tm.p_add(i, a))
                    fin[('aux', 'size', m.key)] = mk('add', a, n)
        return stop, cond

    def relabel(self, carried, fin, ini, after, exits, nlog, shift=None):
        """loop-carried values that survive the loop (as the place of a
        write) are named by their definition, not by the variable's name"""
        if not carried:
            return
        labels = {}
        for c, m in sorted(carried.items(), key=lambda x: str(x[0])):
            if c not in fin:
                continue
            i = ini[c]
            key = '%s:%s:%s' % (c[0], self.anon(fin[c]), self.anon(i))
            n = sum(1 for v in labels.values() if v[0] == key)
            labels[m] = (key, n)
        mp = {m: raw('mu', 0, 'carried:%s:%d' % v) for m, v in labels.items()}
        shift = shift or {}
        for m in mp:
            if m in self.num_mu:
                self.num_mu.add(mp[m])
            if m in self.tensor_mu:
                self.tensor_mu.add(mp[m])
            if m in self.obj_mu:
                self.obj_mu.add(mp[m])
        mp = {m: subst(shift[m], {m: v}) if m in shift else v
              for m, v in mp.items()}
        keys = set(mp)

        def sub(t):
            return subst(t, mp) if t.free & keys else t
        for st in [after] + [x[2] for x in exits]:
            for d in (st.env, st.heap):
                for q, v in d.items():
                    if isinstance(v, T) and v.free & keys:
                        d[q] = sub(v)
            if any((p.free | v.free) & keys for p, v in st.mem.items()):
                st.mem = {sub(p): sub(v) for p, v in st.mem.items()}
        for i in range(nlog, len(self.log)):
            e = self.log[i]
            if (e.guard.free | e.term.free) & keys:
                self.log[i] = Event(sub(e.guard), sub(e.term), e.roots, e.mod,
                                    e.loc)

    @staticmethod
    def anon(t):
        if not isinstance(t, T):
            return str(t)
        q = raw('bmu', -1)
        return subst(t, {f: q for f in t.free}).key

    def unk(self, chain, k, elem):
        if chain[0] is k:
            return (raw('sym', '?'),) + chain[1:]
        return chain

    def scrub(self, t, mus):
        return subst(t, {m: raw('bmu', -1) for m in mus})

    def Dloop(self, v, st, keep):
        """dereference cells allocated inside the loop body; cells of outer
        containers that the loop changes are dereferenced as well"""
        return self.D(v, st)

    def last(self, sp, v, k, init):
        if k not in v.free:
            return mk('lastconst', sp, v, init) if init is not UNDEF and \
                init is not v else v
        b, h = self.close(sp, v, k)
        return mk('last', sp, b, h, init)

    def pattern(self, c, m, e, i, the_space, k, mus, expand_mus, st, allocated):
        """closed form of one carried cell, or None"""
        def free_of_self(t):
            return m not in t.free
        if m not in e.free:
            v = expand_mus(e, None)
            sp = the_space([v])
            init = self.D0(i, st) if i is not UNDEF else UNDEF
            return self.last(sp, v, k, init)
        # list growth
        g = growth(e, m)
        if g is not None and free_of_self(g):
            g = expand_mus(g, None)
            inv = invariant_conds(g, k)
            sp = the_space([g])

            def build(g):
                for cnd in invariant_conds(g, k):
                    cd = raw('ite', cnd, TRUE, FALSE)
                    return ite(cd, build(restrict(g, cnd, True)),
                               build(restrict(g, cnd, False)))
                item = single(g)
                if item is not None:
                    if item is SKIP:
                        return raw('list')
                    b, h = self.close(sp, item, k)
                    return mk('map', sp, b, h)
                b, h = self.close(sp, g, k)
                return mk('flatmap', sp, b, h)
            x = build(g)
            i0 = self.D0(i, st) if i.op != 'ref' else i
            if x.op == 'ite' or i0.op == 'ite':
                return hoist2('concat', i0, x)
            return mk('concat', i0, x)
        # elements put in front of a list
        if e.op == 'concat' and len(e.args) == 2 and e.args[1] is m and \
                e.args[0].op == 'list' and free_of_self(e.args[0]):
            i0 = self.D0(i, st)
            if i0.op == 'list':
                x = expand_mus(raw('list', *reversed(e.args[0].args)), None)
                sp = the_space([x])
                if len(x.args) == 1:
                    b, h = self.close(sp, x.args[0], k)
                    x = mk('map', sp, b, h)
                else:
                    b, h = self.close(sp, x, k)
                    x = mk('flatmap', sp, b, h)
                return mk('reversed', mk('concat', raw(
                    'list', *reversed(i0.args)), x))
        # sums
        r = summand(e, m)
        if r is not None and free_of_self(r):
            r = expand_mus(r, None)
            sp = the_space([r])
            i0 = self.D0(i, st)
            if i0.op == 'list':
                b, h = self.close(sp, item_list(r), k)
                return mk('concat', i0, mk('flatmap', sp, b, h))

            def build(r):
                for cnd in invariant_conds(r, k):
                    cd = raw('ite', cnd, TRUE, FALSE)
                    return ite(cd, build(restrict(r, cnd, True)),
                               build(restrict(r, cnd, False)))
                if r is ZERO:
                    return ZERO
                b, h = self.close(sp, r, k)
                return mk('sumloop', sp, b, h)
            return mk('add', self.D0(i, st), build(r))
        # stores
        if e.op == 'ite' and e.args[0] is not m:
            # under a key of its own, each entry is the one before the loop
            e = self.own_entries(e, m, k, self.D0(i, st))
        if e.op == 'store' and e.args[0] is m and free_of_self(e.args[1]) and \
                free_of_self(e.args[2]):
            kk, vv = expand_mus(e.args[1], None), expand_mus(e.args[2], None)
            sp = the_space([kk, vv])
            h = max(bv_height(kk), bv_height(vv)) + 1
            bv = raw('bv', h)
            return mk('storeloop', sp, self.D0(i, st), subst(kk, {k: bv}),
                      subst(vv, {k: bv}), h)
        return None

    def own_entries(self, e, m, k, init):
        def key(t):
            if t.op == 'ite':
                a, b = key(t.args[1]), key(t.args[2])
                return a if a is b else None
            if t.op == 'store' and t.args[0] is m and len(t.args) == 3:
                return t.args[1]
            return None
        kk = key(e)
        if kk is None or kk.op not in ('dkey', 'index') or kk.args[1] is not k \
                or kk.op == 'index' and not tm.set_like(kk.args[0]):
            return e
        base = init.args[0] if init.op == 'dictof' else init
        new = {raw('index', m, kk): mk('index', base, kk),
               raw('in', kk, m): tm.member(kk, base)}

        def value(t):
            if t.op == 'ite':
                return ite(new.get(t.args[0]) or
                           raw('ite', t.args[0], TRUE, FALSE),
                           value(t.args[1]), value(t.args[2]))
            return subst(t.args[2], new)
        return raw('store', m, kk, value(e))

    # ------------------------------------------------------------ entry
    def analyse(self, node, module, cls, args, kwargs=None, kind='method',
                name=''):
        """run a function on symbolic arguments -> Summary"""
        st = St()
        cl = Closure(node, module, cls, {}, name, 'function')
        env = self.bind(node, args, kwargs or {}, st, cl, False)
        fr = Frame(module, cls, args[0] if args and kind != 'function' else None,
                   node, 1)
        is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom))
                     for n in walk_fn(node))
        st.env = env
        if is_gen:
            fr.yields = self.fresh_ref(st, raw('list'))
        self.stack = [fr]
        fall, exits = self.block(node.body, st)
        outs = [(s.pc, self.D(v, s), s) for kd, v, s in exits if kd == 'ret']
        if fall is not None:
            outs.append((fall.pc, NONE, fall))
        if is_gen:
            outs = [(pc, self.D(fr.yields, s), s) for pc, v, s in outs]
        topst = None
        if outs:
            pc, val, s = outs[-1]
            mem = {p: self.D0(v, s) for p, v in s.mem.items()}
            for pc2, v2, s2 in reversed(outs[:-1]):
                val = ite(pc2, v2, val)
                m2 = {p: self.D0(v, s2) for p, v in s2.mem.items()}
                allp = set(mem) | set(m2)
                mem = {p: ite(pc2, m2.get(p, self.initial(p)),
                              mem.get(p, self.initial(p))) for p in allp}
            if any('?' in s.env for _, _, s in outs):
                val = top('unsupported statement')
        else:
            val, mem = UNDEF, {}
        rc = FALSE
        rv = None
        for pc, base, exc, s, loc in self.raises:
            g = c_and(base, pc)
            rc = c_or(rc, g)
            rv = (g, exc) if rv is None else rv
            val = ite(g, raw('raise', exc), val)
        val = tm.lift_all(subst(val, UNPRE))
        mem = {subst(p, UNPRE): tm.lift_all(subst(v, UNPRE))
               for p, v in mem.items()}
        DC = raw('dontcare')
        if rc is not FALSE:
            mem = {p: ite(rc, DC, v) for p, v in mem.items()}
        memt = []
        for p, v in mem.items():
            init = p.args[0] if p.op == 'content' else p
            if v is init or (v.op == 'ite' and leaves(v) <= {init, DC}):
                continue
            memt.append((p, v))
        memt.sort(key=lambda x: x[0].key)
        ev = {}
        evs = []
        for e in self.log:
            evs.append((subst(e.guard, UNPRE), subst(e.term, UNPRE), e.loc))
        return Summary(val, memt, self.merge_events(evs), self)

    def merge_events(self, evs):
        out = []
        for g, t, loc in evs:
            for i, (g2, t2, l2) in enumerate(out):
                if t2 is t and c_and(g, g2) is FALSE:
                    out[i] = (c_or(g, g2), t, l2)
                    break
            else:
                out.append((g, t, loc))
        # a call hoisted over a condition appears as guarded alternatives
        res = []
        for g, t, loc in out:
            for gg, tt in split_ite(g, t):
                res.append((gg, tt, loc))
        out2 = []
        for g, t, loc in res:
            for i, (g2, t2, l2) in enumerate(out2):
                if t2 is t and c_and(g, g2) is FALSE:
                    out2[i] = (c_or(g, g2), t, l2)
                    break
            else:
                out2.append((g, t, loc))
        return sorted(out2, key=lambda x: (x[1].key, x[0].key))


def is_private(name):
    if name.startswith('beer.cli.subcommands.'):
        # a command is its `setup` and `main`
        return name.rsplit(':', 1)[-1] not in ('setup', 'main')
    n = name.rsplit('.', 1)[-1].rsplit(':', 1)[-1]
    return n.startswith('_') and not n.endswith('__')




def npaths(t, memo=None):
    """number of paths through a tree of conditionals"""
    memo = {} if memo is None else memo
    if t.op != 'ite':
        return 1
    if t not in memo:
        memo[t] = npaths(t.args[1], memo) + npaths(t.args[2], memo)
    return memo[t]


def uncounted(it):
    """the iterable an enumeration is of"""
    if it.op == 'enumerate':
        return it.args[0]
    if it.op == 'ite':
        a, b = uncounted(it.args[1]), uncounted(it.args[2])
        if a is not None and b is not None:
            return ite(raw('ite', it.args[0], TRUE, FALSE), a, b)
    return None


def within(x, y):
    """x occurs in y"""
    seen, todo = set(), [y]
    while todo:
        t = todo.pop()
        if t is x:
            return True
        if isinstance(t, T):
            if t in seen:
                continue
            seen.add(t)
            todo.extend(t.args)
        elif isinstance(t, tuple):
            todo.extend(t)
    return False


FORKS = 8
REGISTER = ('register_buffer', 'register_parameter', 'add_module',
            'register_module')
PARSER = {'add_argument', 'add_parser', 'add_subparsers', 'add_argument_group',
          'add_mutually_exclusive_group'}


class _Unpre:
    """map from the name of a value on entry to the plain symbol"""
    def __bool__(self):
        return True

    def get(self, t, default=None):
        if t.op == 'sym' and t.args[0].endswith(MARK):
            return sym(t.args[0][:-1])
        return default


MARK = '\u2070'
UNPRE = _Unpre()


def pre(t):
    """content, on entry, of the object reached by the path t: protected
    from the substitution of paths by their current content"""
    m = {x: sym(x.args[0] + MARK) for x in tm.walk(t)
         if x.op == 'sym' and not x.args[0].endswith(MARK)}
    if not m and t.op not in ('ref', 'init'):
        return raw('init', t)
    return subst(t, m)


def skip_guard(t):
    """(condition under which an element of a filtered list exists,
    the element)"""
    if t.op != 'ite':
        return TRUE, t
    cd = raw('ite', t.args[0], TRUE, FALSE)
    if t.args[1] is SKIP and t.args[2] is SKIP:
        return FALSE, SKIP
    ga, a = skip_guard(t.args[1]) if t.args[1] is not SKIP else (FALSE, None)
    gb, b = skip_guard(t.args[2]) if t.args[2] is not SKIP else (FALSE, None)
    if ga is TRUE and gb is TRUE:
        return TRUE, t
    g = ite(cd, ga, gb)
    if a is None:
        return g, b
    if b is None:
        return g, a
    return g, ite(cd, a, b)


def walk_stmts(s):
    yield s
    for f in ('body', 'orelse', 'finalbody', 'handlers'):
        for x in getattr(s, f, None) or []:
            yield from walk_stmts(x)


class RawS:
    """pseudo statement with its own control flow"""
    def __init__(self, f):
        self.f = f


class Raw:
    """pseudo statement used to lower comprehensions"""
    def __init__(self, f):
        self.f = f


class Summary:
    def __init__(self, result, mem, events, interp):
        self.result, self.mem, self.events = result, mem, events
        self.interp = interp

    def flags(self):
        f = set(self.result.flags)
        for p, v in self.mem:
            f |= v.flags | p.flags
        for g, t, _ in self.events:
            f |= g.flags | t.flags
        return f

    def show(self):
        s = ['result: ' + show(self.result, 30)]
        for p, v in self.mem:
            s.append(f'mem: {show(p, 30)} := {show(v, 30)}')
        for g, t, loc in self.events:
            s.append(f'event: [{show(g)}] {show(t, 30)}')
        return '\n'.join(s)


# ---------------------------------------------------------------- helpers
def split_ite(g, t):
    if t.op == 'ite':
        c = raw('ite', t.args[0], TRUE, FALSE)
        out = []
        for cc, x in ((c, t.args[1]), (c_not(c), t.args[2])):
            gg = c_and(g, cc)
            if gg is not FALSE:
                out += split_ite(gg, x)
        return out
    return [(g, t)]


def walk_fn(node):
    """nodes of a function body, not of nested functions"""
    todo = list(node.body) if isinstance(node.body, list) else [node.body]
    while todo:
        n = todo.pop()
        yield n
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, (ast.FunctionDef, ast.Lambda, ast.ClassDef,
                                  ast.GeneratorExp)):
                todo.append(c)


def node_has_body(node):
    return any(not isinstance(s, (ast.Pass, ast.Raise)) and not (
        isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))
        for s in node.body)


def mkspace(parts):
    out = []
    for p in parts:
        x = p.args[0] if p.op == 'seq' else None
        if x is not None and x.op == 'split' and tm.split_sizes(x):
            ps = x.args[1].args[0].args
        elif x is not None and x.op == 'map' and x.args[0].op == 'space' and \
                not tm.filtered(x.args[1]):
            ps = x.args[0].args
        else:
            ps = (p,)
        out += [q for q in ps if q not in out]
    return raw('space', *sorted(out, key=lambda t: t.key))


def space_len(sp):
    if len(sp.args) == 1:
        x = sp.args[0]
        if x.op == 'seq':
            return mk('len', x.args[0])
        if x.op == 'rng':
            return x.args[0]
    return None


def elem_of(space, k):
    return None


@tm.simp('space')
def _space(op, *parts):
    return mkspace(parts)


@tm.simp('seq')
def _seq(op, x):
    return raw('seq', x)


@tm.simp('rng')
def _rng(op, x):
    if x.op == 'len':
        return raw('seq', x.args[0])
    return raw('rng', x)


@tm.simp('viewset')
def _viewset(op, cur, fn, new):
    if cur.op == 'viewset' and cur.args[1] is fn:
        return mk('viewset', cur.args[0], fn, new)
    return raw('viewset', cur, fn, new)


def view_root(v):
    """the tensor whose memory a chain of views shows"""
    while v.op in VIEWOPS or v.op == 'attr' and v.args[1] == 'data':
        v = v.args[0]
    return v


@tm.simp('view')
def _view(op, b, k):
    if k.op == 'vw' and b.op not in ('ref', 'view'):
        fn = k.args[0]
        if b.op == 'viewset' and b.args[1] is fn:
            return b.args[2]
        return subst(fn, {HOLE: b})
    if b.op in ('ref', 'view'):
        return raw('view', b, k)
    return mk('index', b, k)


@tm.simp('attr')
def _attr(op, b, name, *dep):
    if name == 'shape' and not dep:
        return mk('attr_shape', b)
    if name == 'T' and not dep:
        return mk('t', b)
    if b.op == 'obj':
        for k, v in b.args[1].args:
            if k.args[0] == name:
                return v
    return raw('attr', b, name, *dep)


@tm.simp('getattr')
def _getattr(op, b, n, *d):
    if n.op == 'str' and not d:
        return mk('attr', b, n.args[0])
    return raw('getattr', b, n, *d)


@tm.simp('keys')
def _keys(op, b):
    return raw('keys', b)


@tm.simp('map')
def _map(op, sp, body, h):
    bv = raw('bv', h)
    # identity map over one sequence
    if sp.op == 'space' and len(sp.args) == 1 and sp.args[0].op == 'seq' and \
            body.op == 'index' and body.args[1] is bv and \
            body.args[0] is sp.args[0].args[0] and bv not in _bvs(body.args[0]):
        return mk('listof', body.args[0])
    if sp.op == 'space' and len(sp.args) == 1 and sp.args[0].op == 'seq' and \
            sp.args[0].args[0].op == 'keys' and body.op == 'dkey' and \
            body.args[1] is bv:
        return mk('listof', sp.args[0].args[0])
    return raw('map', sp, body, h)


@tm.simp('listof')
def _listof(op, x):
    if x.op in ('list', 'map', 'flatmap', 'concat', 'listof', 'sorted'):
        return x
    if x.op == 'tuple':
        return raw('list', *x.args)
    return raw('listof', x)


def _bvs(t):
    return {x for x in tm.walk(t) if x.op == 'bv'}


@tm.simp('sumloop')
def _sumloop(op, sp, body, h):
    if body is ZERO:
        return ZERO
    c, b = content(body) if body.op == 'poly' else (1, body)
    # constant factors that do not depend on the loop variable are pulled out
    if b.op == 'poly' and len(b.args) == 1 or body.op == 'poly' and \
            len(body.args) == 1:
        cc, mono = body.args[0]
        bv = raw('bv', h)
        out = [(a, e) for a, e in mono if bv not in _bvs(a)]
        ins = [(a, e) for a, e in mono if bv in _bvs(a)]
        if out and ins:
            return p_mul(tm.from_poly({tuple(out): cc}),
                         raw('sumloop', sp, tm.from_poly(
                             {tuple(ins): tm.Fraction(1)}), h))
    if c != 1:
        return p_mul(num(c), raw('sumloop', sp, b, h))
    return raw('sumloop', sp, body, h)


def hoist2(op, a, b):
    return mk(op, a, b)


def is_diag(t):
    if t is TRUE or t is FALSE:
        return True
    return t.op == 'ite' and is_diag(t.args[1]) and is_diag(t.args[2])


def cond_of(d):
    """truth value of a value term, as a condition diagram"""
    if d.op == 'ite':
        return ite(raw('ite', d.args[0], TRUE, FALSE), cond_of(d.args[1]),
                   cond_of(d.args[2]))
    if d is TRUE or d is FALSE:
        return d
    return mk('truth', d)


def strip_keys(b):
    if b.op == 'keys':
        return b.args[0]
    if b.op == 'listof':
        return strip_keys(b.args[0])
    return b


def mkfmt(parts):
    out = []

    def add(p):
        if p.op == 'fmt':
            for x in p.args:
                add(x)
        elif p.op == 'str' and out and out[-1].op == 'str':
            out[-1] = raw('str', out[-1].args[0] + p.args[0])
        elif p.op == 'str' and not p.args[0]:
            pass
        elif p.op == 'num' and p.args[0].denominator == 1:
            add(raw('str', str(p.args[0])))
        else:
            out.append(p)
    for p in parts:
        add(p)
    if not out:
        return raw('str', '')
    if len(out) == 1 and out[0].op == 'str':
        return out[0]
    return mk('fmt', *out)


@tm.simp('fmt')
def _fmt(op, *parts):
    if any(p.op == 'fmt' for p in parts):
        return mkfmt(parts)
    return raw('fmt', *parts)


def zero_skip(b):
    if b.op == 'ite':
        return ite(raw('ite', b.args[0], TRUE, FALSE), zero_skip(b.args[1]),
                   zero_skip(b.args[2]))
    return ZERO if b is SKIP else b


def replace(t, old, new):
    """t with the subterm old replaced"""
    return subst(t, {old: new}) if mentions_term(t, old) else t


def mentions_term(t, old):
    return old.free <= t.free and any(x is old for x in tm.walk(t))


def mentions(t, m, but):
    """m occurs in t outside the subterm but"""
    seen = set()

    def go(x):
        if isinstance(x, tuple):
            return any(go(y) for y in x)
        if not isinstance(x, T) or x is but or x in seen or m not in x.free \
                and x is not m:
            return False
        if x is m:
            return True
        seen.add(x)
        return any(go(y) for y in x.args)
    return go(t)


def stored(t, key):
    """what the store t holds at key, when known"""
    if t.op != 'store':
        return None
    base, p, v = t.args
    n = tm.as_int(p)
    if n is not None and n < 0:
        size = tm.rows(base)
        if size is not None:
            p = p_add(size, p)
    if p is key:
        return v
    return None


def list_size(g, m):
    """number of elements of a list term"""
    if g.op == 'ite':
        a, b = list_size(g.args[1], m), list_size(g.args[2], m)
        if a is None or b is None or m in g.args[0].free:
            return None
        return ite(raw('ite', g.args[0], TRUE, FALSE), a, b)
    if g.op == 'list' and not any(x.op == 'star' for x in g.args):
        return num(len(g.args))
    return None


def growth(e, m):
    """e = concat(m, X) -> X as list term (possibly ite with [])"""
    if e is m:
        return raw('list')
    if e.op == 'concat' and e.args[0] is m:
        return mk('concat', raw('list'), *e.args[1:]) if len(e.args) > 2 else \
            e.args[1]
    if e.op == 'ite':
        a, b = growth(e.args[1], m), growth(e.args[2], m)
        if a is None or b is None:
            return None
        return ite(raw('ite', e.args[0], TRUE, FALSE), a, b)
    return None


def single(g):
    """list with at most one element per leaf -> element or SKIP"""
    if g.op == 'ite':
        a, b = single(g.args[1]), single(g.args[2])
        if a is None or b is None:
            return None
        return ite(raw('ite', g.args[0], TRUE, FALSE), a, b)
    if g.op == 'list' and len(g.args) == 1:
        return g.args[0]
    if g.op == 'list' and not g.args:
        return SKIP
    return None


def summand(e, m):
    if e is m:
        return ZERO
    if e.op == 'ite':
        a, b = summand(e.args[1], m), summand(e.args[2], m)
        if a is None or b is None:
            return None
        return ite(raw('ite', e.args[0], TRUE, FALSE), a, b)
    if e.op == 'poly':
        r = p_add(e, m, -1)
        if m not in r.free:
            return r
    return None


def item_list(r):
    """what a list grows by"""
    if r.op == 'ite':
        return ite(raw('ite', r.args[0], TRUE, FALSE), item_list(r.args[1]),
                   item_list(r.args[2]))
    if r is ZERO:
        return raw('list')
    return r if r.op in tm.LISTS else mk('listof', r)


def invariant_conds(t, k):
    """condition atoms of a diagram that do not depend on the loop"""
    return sorted([c for c in conds_of(t)
                   if k not in c.free and not any(f.op == 'mu' for f in c.free)],
                  key=lambda c: c.key)

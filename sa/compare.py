"""Comparison of two summaries, and localisation of a difference."""
from .terms import *
from . import terms as tm


def vocabulary(S):
    """external and opaque operation names used in a summary"""
    out = set()
    ts = [S.result] + [x for p in S.mem for x in p] + \
        [x for g, t, _ in S.events for x in (g, t)]
    for t in ts:
        for x in tm.walk(t):
            if x.op == 'extcall':
                out.add('ext ' + x.args[0].args[0])
            elif x.op == 'call':
                out.add('call ' + x.args[1])
            elif x.op == 'ext':
                out.add('ext ' + x.args[0])
            elif x.op.startswith('m:') or x.op.startswith('s:'):
                out.add('m ' + x.op)
            elif x.op == 'bound':
                out.add('bound ' + x.args[1])
            elif x.op in ('attr',):
                out.add('attr ' + x.args[1])
    return out


def first_diff(a, b, I, path=()):
    """(sub-term of a, sub-term of b, location) where they start to differ"""
    while True:
        if not isinstance(a, T) or not isinstance(b, T):
            return a, b
        if a.op != b.op or len(a.args) != len(b.args):
            return a, b
        diffs = []
        for x, y in zip(a.args, b.args):
            if isinstance(x, T) and isinstance(y, T):
                if x is not y:
                    diffs.append((x, y))
            elif x != y:
                if isinstance(x, tuple) and isinstance(y, tuple) and \
                        len(x) == len(y):
                    for p, q in zip(x, y):
                        if p is not q and p != q:
                            diffs.append((p, q))
                else:
                    return a, b
        if len(diffs) != 1 or a.op == 'poly':
            return a, b
        a, b = diffs[0]
        if isinstance(a, tuple) and isinstance(b, tuple):
            if len(a) != len(b):
                return a, b
            d = [(p, q) for p, q in zip(a, b) if p is not q and p != q]
            if len(d) != 1:
                return a, b
            a, b = d[0]


def locate(t, I, default):
    """source position of a term of the code"""
    if isinstance(t, tuple):
        for x in t:
            r = locate(x, I, None)
            if r:
                return r
        return default
    if isinstance(t, T):
        r = I.prov.get(t.key)
        if r:
            return r
        best = None
        for x in tm.walk(t):
            r = I.prov.get(x.key)
            if r and (best is None or r[1] > best[1]):
                best = r
        if best:
            return best
    return default


class Diff:
    def __init__(self, kind, what, code, ref, loc):
        self.kind, self.what, self.code, self.ref, self.loc = \
            kind, what, code, ref, loc

    def text(self):
        f, l = self.loc if self.loc else ('?', 0)
        return (f'{f}:{l}: {self.kind}: {self.what}\n'
                f'    code: {self.code}\n    rule: {self.ref}')


def clip(s, n=700):
    s = str(s)
    return s if len(s) <= n else s[:n] + ' …'


def compare(code, ref, default_loc, observe=('result', 'mem', 'events')):
    """list of differences between the code's and the reference's summary"""
    out = []
    I = code.interp
    if 'result' in observe and code.result is not ref.result:
        a, b = first_diff(code.result, ref.result, I)
        out.append(Diff('result', 'computed value differs',
                        clip(show(a, 12)), clip(show(b, 12)),
                        locate(a, I, default_loc)))
    if 'mem' in observe:
        cm, rm = dict(code.mem), dict(ref.mem)
        for p in cm:
            if p not in rm:
                out.append(Diff('effect', 'unexpected write',
                                clip(show(p, 10) + ' := ' + show(cm[p], 10)),
                                'not written', locate(p, I, default_loc)))
            elif cm[p] is not rm[p]:
                a, b = first_diff(cm[p], rm[p], I)
                out.append(Diff('effect', 'written value differs: ' +
                                clip(show(p, 8), 200),
                                clip(show(a, 12)), clip(show(b, 12)),
                                locate(a, I, locate(p, I, default_loc))))
        for p in rm:
            if p not in cm:
                out.append(Diff('effect', 'missing write',
                                'not written',
                                clip(show(p, 10) + ' := ' + show(rm[p], 10)),
                                default_loc))
    if 'events' in observe:
        ce = {(t, g): l for g, t, l in code.events}
        re_ = {(t, g): l for g, t, l in ref.events}
        cx = [k for k in ce if k not in re_]
        rx = [k for k in re_ if k not in ce]
        n = 0
        while cx and rx:
            (t, g), (t2, g2) = cx.pop(0), None or rx.pop(0)
            a, b = first_diff(t, t2, I) if t is not t2 else (g, g2)
            out.append(Diff('effect', 'operation differs',
                            clip(show(a, 12)), clip(show(b, 12)),
                            ce[(t, g)] or locate(t, I, default_loc)))
        for t, g in cx:
            out.append(Diff('effect', 'unexpected operation', clip(show(t, 12)),
                            'absent', ce[(t, g)] or default_loc))
        for t, g in rx:
            out.append(Diff('effect', 'missing operation', 'absent',
                            clip(show(t, 12)), default_loc))
    return out


def signature(code):
    sig = code.result.key + ''.join(p.key + v.key for p, v in code.mem) + \
        ''.join(g.key + t.key for g, t, _ in code.events)
    import hashlib
    return hashlib.sha1(sig.encode()).hexdigest()[:16]
